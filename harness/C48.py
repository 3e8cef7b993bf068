"""The LaTeX of an operator shows its fields and its contraction structure."""
import itertools
from collections import Counter

from hlib import *

BOUNDS = {
    "operators": "two to six SM and exotic fields (one- and two-letter names, partners), conjugated or not, with up to one derivative; every way of contracting some or all of their indices in pairs (up to eight indices of a kind), and colour triples",
    "ignored": "nothing, isospin, colour, spinors",
    "charges": "any rational charges of exotics",
}
ASSUMPTIONS = ["Signs and the order of the indices of one invariant symbol are not shown (the symbols are printed with sorted letters)."]
BUDGET = {"quick": 150, "thorough": 700}

TEX = {"L": "L", "Q": "Q", "eb": r"\bar{e}", "ub": r"\bar{u}", "db": r"\bar{d}", "H": "H", "G": "G", "W": "W", "B": "B",
       "Gb": r"\bar{G}", "Wb": r"\bar{W}", "Bb": r"\bar{B}", "φ": r"\phi", "η": r"\eta", "S1": "S1", "f": "f", "f0": "f0", "s": "s", "χ": r"\chi"}
EXO = {"φ": ("ComplexScalar", "i0"), "η": ("ComplexScalar", "-c0 i0"), "S1": ("ComplexScalar", ""), "f": ("VectorLikeDiracFermion", "u0 i0"),
       "f0": ("VectorLikeDiracFermion", "u0 c0"), "s": ("ComplexScalar", "i0 i1"), "χ": ("MajoranaFermion", "u0 i0 i1")}


DUMMIES = ("c97", "c98", "c99")


def load():
    global core, ccore, sm
    core = repo("tensormethod.core")
    ccore = repo("completions.core")
    sm = repo("tensormethod.sm")


def configs(tier):
    A = [["L", "L", "H", "H"], ["L", "H"], ["Q", "db", "L", "H"], ["L", "L", "eb", "H"], ["L*", "L", "H*", "H"], ["eb*", "ub", "db*", "L"],
         ["D01L", "D11H", "L", "H"], ["D10eb*", "H", "L"], ["D11H*", "H", "H"], ["G", "G"], ["W", "H", "H*"], ["B", "W"], ["Gb", "Gb*"],
         ["φ", "H", "H"], ["φ*", "φ", "H", "H*"], ["η", "L", "Q"], ["S1", "L", "L"], ["f", "f~", "S1"], ["f*", "H", "eb*"], ["f0", "f0~", "S1*"],
         ["s", "L", "L"], ["s", "s*"], ["χ", "L", "H"], ["Q", "Q", "Q", "L"], ["Q", "ub", "Q", "db"], ["Q", "Q", "Q*", "eb"], ["G", "η"], ["ub", "db", "db"], ["D01f", "L*", "S1"], ["D11η", "Q", "L*"], ["S1", "f0", "ub"]]
    if tier != "quick":
        A += [["L", "L", "L", "eb", "H"], ["L", "L", "Q", "db", "H"], ["L", "L", "H", "H", "H", "H*"], ["Q", "db", "Q", "db"], ["W", "W"], ["χ", "χ*", "H", "H"], ["Q", "Q", "Q*", "Q*"], ["Q", "db", "Q", "ub", "H", "H*"], ["L", "L", "H", "H", "H*", "H", "H"], ["s", "s", "s*", "H", "H"], ["G", "Q", "Q*"]]
    out = []
    for fs in A:
        for ig in (None, "i", "c", "ud") if len(fs) < 4 else (None, "ud"):
            out.append(("shown", {"fs": fs, "ignore": ig}))
    out += [("shown", {"fs": ["Q", "Q", "Q", "Q"], "ignore": ig}) for ig in ("udi", "ud")]
    out += [("order", {"fs": fs}) for fs in (["H", "L", "Q", "eb"], ["db", "H", "ub", "H"], ["S1", "H", "L"], ["D11H", "eb*", "L", "H"], ["f", "φ", "Q"])]
    return out


def build(env, n, k):
    """an indexed field with indices named after its position"""
    name, d, star, part = n, None, n.endswith("*"), False
    name = name.rstrip("*")
    if name.endswith("~"):
        part, name = True, name[:-1]
    if name[0] == "D" and name[1].isdigit():
        d, name = name[1:3], name[3:]
    if name in EXO:
        cls, ind = EXO[name]
        ch = {"y": 0} if cls == "MajoranaFermion" else {"y": env.rat("y" + name), "3b": env.rat("b" + name)}
        if cls == "VectorLikeDiracFermion":
            env.assume(env.neq(ch["y"], 0))
        f = getattr(ccore, cls)(name, ind, charges=ch)
        if part:
            f = f.dirac_partner()
        f = f.field
    else:
        f = getattr(sm, name)
    if star:
        f = f.conj
    if d:
        f = core.D(f, d)
    u, v, p, q, i = map(int, f.dynkin)
    s = [f"u{k}{j}" for j in range(u)] + [f"d{k}{j}" for j in range(v)] + [f"c{k}{j}" for j in range(p)]
    s += [f"-c{k}{p + j}" for j in range(q)] + [f"i{k}{j}" for j in range(i)] + ([f"g{k}"] if f.nf > 1 else [])
    return f(" ".join(s)), name, d, star, [x for x in s if x[0] != "g"]


def symbol(name, d, star, iso):
    t = TEX[name]
    if star:
        t = r"\tilde{%s}" % t if iso else r"{%s^{\dagger}}" % t
    return f"(D{t})" if d else t


def tokens(s):
    """split at spaces outside braces"""
    out, depth, cur = [], 0, ""
    for c in s:
        depth += {"{": 1, "}": -1}.get(c, 0)
        if c == " " and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x for x in out + [cur] if x]


def split(tok, mark):
    """symbol and letters of S^{a b}"""
    depth, at = 0, None
    for k, c in enumerate(tok):
        if depth == 0 and tok.startswith(mark + "{", k):
            at = k
        depth += {"{": 1, "}": -1}.get(c, 0)
    if at is None:
        return tok, []
    return tok[:at], tok[at + 2:-1].split(" ")


def kind(letter):
    if letter.startswith(r"\dot{"):
        return "d"
    if letter.startswith("\\"):
        return "u"
    return "c" if letter in "abcdefgh" else "i"


def contract(env, fields, whole=False):
    """pairs (or colour triples) of indices chosen by the solver"""
    sym = []
    for t in "udi":
        rest = [x for f in fields for x in f[4] if x.lstrip("-")[0] == t]
        if not whole and rest and not env.truth(env.bool("contract_" + t)):
            continue
        k = 0
        while len(rest) > 1:
            j = env.int(f"{t}{k}", 1, len(rest) - 1)
            env.observe(f"pick{t}{k}", j)
            b = next(x for x in range(1, len(rest)) if env.truth(env.eq(j, x)))
            sym.append(("e", [rest[0], rest[b]]))
            rest = [x for n, x in enumerate(rest) if n not in (0, b)]
            k += 1
    ups = [x for f in fields for x in f[4] if x[0] == "c"]
    downs = [x for f in fields for x in f[4] if x[0] == "-"]
    if (ups or downs) and env.truth(env.bool("contract_c")):
        if len(ups) == 3 and not downs:
            sym.append(("e", ups))
        elif len(downs) == 3 and not ups:
            sym.append(("e", downs))
        elif len(ups) == len(downs) == 2 and env.truth(env.bool("epsilons")):
            # two symbols contracted with each other
            sym += [("e", ups + ["c99"]), ("e", downs + ["-c99"])]
        elif len(ups) == 4 and not downs:
            # three symbols contracted with each other, one index left
            sym += [("e", ups[:2] + ["c99"]), ("e", ups[2:] + ["c98"]), ("e", ["-c97", "-c98", "-c99"])]
        else:
            k = 0
            while ups and downs:
                j = env.int(f"c{k}", 0, len(downs) - 1)
                b = next(x for x in range(len(downs)) if env.truth(env.eq(j, x)))
                sym.append(("d", [ups.pop(0), downs.pop(b)]))
                k += 1
    return sym


def flip(x):
    return x[1:] if x[0] == "-" else "-" + x


def shown(env, cfg):
    fields = [build(env, n, k) for k, n in enumerate(cfg["fs"])]
    sym = contract(env, fields)
    ignore = cfg["ignore"]
    tens = [f[0] for f in fields]
    for how, ind in sym:
        tens.append((core.eps if how == "e" else core.delta)(" ".join(sorted(map(flip, ind), key=lambda x: x[0] == "-"))))
    op = core.Operator(*tens)
    first = op.latex() if ignore is None else op.latex(ignore=list(ignore))
    second = op.latex() if ignore is None else op.latex(ignore=list(ignore))
    env.check(first == second, "the same text every time")
    env.observe("latex", first)
    hide = set(ignore or "") | {"g"}
    left, *right = first.split(r"\cdot")
    env.check(len(right) <= 1, "one dot")
    env.check(bool(right) == any(ind[0].lstrip("-")[0] not in hide for _, ind in sym), "a dot exactly if invariant symbols are shown")
    got = [split(t, "^") for t in tokens(left)]
    eps = [split(t, "_") for t in tokens(right[0])] if right else []
    want = []
    for f, name, d, star, ind in fields:
        iso = int(f.dynkin[4]) > 0
        want.append((symbol(name, d, star, iso), [x for x in ind if x.lstrip("-")[0] not in hide]))
    env.check(Counter(s for s, _ in got) == Counter(s for s, _ in want), "every field by its own symbol, once")
    letters = [l for _, ls in got for l in ls]
    env.check(len(set(letters)) == len(letters), "every index has its own letter")
    struct = Counter()
    for how, ind in sym:
        if ind[0].lstrip("-")[0] not in hide:
            struct[(r"\epsilon" if how == "e" else r"\delta", frozenset(x.lstrip("-") if x.lstrip("-") in DUMMIES else x for x in ind))] += 1
    # some assignment of the printed fields to the real ones gives the structure
    groups = {}
    for k, (s, _) in enumerate(want):
        groups.setdefault(s, []).append(k)
    printed = {s: [ls for t, ls in got if t == s] for s in groups}
    found = False
    for ps in itertools.product(*[list(itertools.permutations(v)) for v in groups.values()]):
        names, ok = {}, True
        for (s, ks), p in zip(groups.items(), ps):
            for k, ls in zip(p, printed[s]):
                ind = want[k][1]
                ok = ok and len(ls) == len(ind) and [kind(l) for l in ls] == [x.lstrip("-")[0] for x in ind]
                names.update(zip(ls, ind))
        # letters of indices that only invariant symbols have
        extra = sorted({l for _, ls in eps for l in ls if l not in names})
        dummies = sorted({x for _, ind in struct for x in ind if x in DUMMIES})
        if ok and len(extra) == len(dummies) and all(kind(l) == "c" for l in extra):
            for q in itertools.permutations(dummies):
                full = {**names, **dict(zip(extra, q))}
                found = found or Counter((s, frozenset(full[l] for l in ls)) for s, ls in eps) == struct
    env.check(found, "the letters show which indices are contracted")
    env.check(op._repr_html_() == "$" + op.latex() + "$", "shown as mathematics")


def order(env, cfg):
    """neither the order of the factors nor earlier calls matter for what is shown"""
    fields = [build(env, n, k) for k, n in enumerate(cfg["fs"])]
    ref = None
    for p in itertools.permutations(range(len(fields))):
        t = core.Operator(*[fields[k][0] for k in p]).latex()
        env.observe("latex", t)
        got = [split(x, "^") for x in tokens(t)]
        c = Counter((s, tuple(sorted(map(kind, ls)))) for s, ls in got)
        env.check(ref is None or c == ref, "the same fields in every order")
        ref = c
        std = [s for s, _ in got if s.strip("(D)") in ("L", "Q", "H", r"\bar{e}", r"\bar{u}", r"\bar{d}")]
        rank = ["L", r"\bar{e}", "Q", r"\bar{u}", r"\bar{d}", "H"]
        pos = [rank.index(s.strip("(D)")) for s in std]
        env.check(pos == sorted(pos), "leptons, then quarks, then the Higgs")


HARNESSES = {"shown": shown, "order": order}
