"""Colour contractions are colour singlets and complete."""
import itertools

from hlib import *

BOUNDS = {
    "tensors": "arbitrary rational components, up to three raised and three lowered colour indices, four of each for the index structure (completeness with solver-chosen components: up to two of each, and three of one kind; three of each in the thorough tier)",
    "charges": "all rationals",
    "lists": "one or two operators at a time",
}
ASSUMPTIONS = ["Invariance is judged by eight generators of the complexified su(3)."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global core, con
    core = repo("tensormethod.core")
    con = repo("tensormethod.contract")


def configs(tier):
    out = []
    # digits of each field: (raised, lowered)
    ok = [["00"], ["10", "01"], ["11"], ["10", "10", "01", "01"], ["20", "02"], ["11", "11"], ["20", "01", "01"],
          ["10", "10", "10"], ["20", "10"], ["01", "01", "01"], ["02", "01"], ["11", "10", "01"],
          ["30"], ["03"], ["10", "10", "10", "01", "01", "01"], ["20", "02", "11"],
          ["10"] * 4 + ["01"] * 4, ["22", "11", "11"]]
    bad = [["10"], ["01"], ["20"], ["10", "10"], ["10", "10", "01"], ["11", "10"], ["02", "02"], ["20", "20"],
           ["10", "10", "10", "01"], ["10", "10", "10", "10"], ["30", "02"]]
    for k in ok:
        for over in (0, 1):
            out.append(("contract", {"fs": k, "over": over, "heavy": tier != "quick", "names": 0}))
        out.append(("contract", {"fs": k, "over": 0, "heavy": False, "names": 1}))
    for k in bad:
        out.append(("reject", {"fs": k}))
    for a, b in itertools.product([["10", "01"], ["10", "10", "10"], ["00"], ["10", "10", "01", "01"]], repeat=2):
        out.append(("several", {"a": a, "b": b, "over": 0}))
        out.append(("several", {"a": a, "b": b, "over": 1}))
    return out


NAMES = [[str(k) for k in range(8)], ["1", "10", "0", "01", "11", "_", "2", "20"]]


def build(env, fs, names, tag=""):
    op = core.Field("Z" + tag, "00000", charges={"y": env.rat(f"z{tag}")})("")
    pos, ups, downs = 0, [], []
    for k, d in enumerate(fs):
        f = core.Field("ABEFGHJK"[k] + tag, "00" + d + "0", charges={"y": env.rat(f"y{tag}{k}")})
        idx = []
        for j in range(int(d[0]) + int(d[1])):
            n = "c" + names[pos]
            pos += 1
            if j < int(d[0]):
                ups.append(n)
                idx.append(n)
            else:
                downs.append(n)
                idx.append("-" + n)
        op = op * f(" ".join(idx))
    return op, ups, downs


def struct(op):
    """(deltas, up epsilons, down epsilons) as label lists"""
    ds, es = [], []
    for e in op.epsilons:
        l = [str(i) for i in e.indices]
        (ds if len(l) == 2 else es).append(l)
    return ds, es


def perm_sign(p):
    s = 1
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if p[i] > p[j]:
                s = -s
    return s


EPS = [(p, perm_sign(p)) for p in itertools.permutations(range(3))]


def form(env, st, ups, downs, T):
    """the value of the expression for tensor components T[(ups..., downs...)]"""
    ds, es = st
    dummies = []
    for l in es:
        for i in l:
            n = i.lstrip("-")
            if n not in ups and n not in downs and n not in dummies:
                dummies.append(n)
    terms = []
    choices = [[("d", k) for k in range(3)] for _ in ds] + [[("e", p) for p in EPS] for _ in es]
    for ch in itertools.product(*choices):
        val, sign, ok = {}, 1, True
        for l, (kind, c) in zip(ds + es, ch):
            vals = [c, c] if kind == "d" else c[0]
            if kind == "e":
                sign *= c[1]
            for i, v in zip(l, vals):
                n = i.lstrip("-")
                # a contracted label of an operator index or a dummy: one value
                if val.setdefault(n, v) != v:
                    ok = False
        if not ok:
            continue
        t = T[tuple(val[n] for n in ups + downs)]
        terms.append(t if sign == 1 else -t)
    return env.sum(terms)


GENS = []
for a in range(3):
    for b in range(3):
        if a != b:
            GENS.append({(a, b): 1})
GENS += [{(0, 0): 1, (1, 1): -1}, {(1, 1): 1, (2, 2): -1}]


def act(env, T, nu, nd, g):
    """(XT)^{a..}_{b..}: g on raised indices, minus its transpose on lowered ones"""
    out = {}
    for I in T:
        terms = []
        for k in range(nu + nd):
            for (a, b), v in g.items():
                if k < nu and I[k] == a:
                    J = I[:k] + (b,) + I[k + 1:]
                    terms.append(T[J] if v == 1 else -T[J])
                if k >= nu and I[k] == b:
                    J = I[:k] + (a,) + I[k + 1:]
                    terms.append(-T[J] if v == 1 else T[J])
        out[I] = env.sum(terms)
    return out


def structure(env, o, base, ups, downs):
    free = [i for i in o.free_indices if i.index_type == "Colour"]
    env.check(not free, "no free colour index")
    env.check(len(o.indexed_fields) == len(base.indexed_fields)
              and all(a == b for a, b in zip(o.indexed_fields, base.indexed_fields)), "factors kept")
    ds, es = struct(o)
    count = {}
    for l in ds + es:
        for i in l:
            count[i] = count.get(i, 0) + 1
    for n in ups:
        env.check(count.pop("-" + n, 0) == 1, "each raised index contracted once")
    for n in downs:
        env.check(count.pop(n, 0) == 1, "each lowered index contracted once")
    for n, c in count.items():
        other = n[1:] if n[0] == "-" else "-" + n
        env.check(c == 1 and count.get(other) == 1, "dummy indices pair up")


def contract(env, cfg):
    op, ups, downs = build(env, cfg["fs"], NAMES[cfg["names"]])
    out = con.colour_singlets([op], overcomplete=bool(cfg["over"]))
    env.check(len(out) > 0, "something returned")
    if len(ups) == len(downs):
        found = {frozenset(tuple(sorted(l)) for l in struct(o)[0]) for o in out if not struct(o)[1]}
        env.check(all(frozenset(tuple(sorted(["-" + u, d])) for u, d in zip(p, downs)) in found for p in itertools.permutations(ups)),
                  "every pairing of raised with lowered indices")
        if len(ups) == 2:
            env.check(sum(len(struct(o)[1]) == 2 for o in out) == cfg["over"], "the contraction through two epsilons on request")
    for o in out:
        structure(env, o, op, ups, downs)
    env.observe("out", [struct(o) for o in out] if not cfg["over"] else len(out))
    nu, nd = len(ups), len(downs)
    if cfg["names"] or nu + nd > 6 or (nu + nd > 4 and not cfg["heavy"]) and nu + nd != 6:
        return
    T = {I: env.rat("T" + "".join(map(str, I))) for I in itertools.product(range(3), repeat=nu + nd)}
    forms = [struct(o) for o in out]
    big = nu + nd > 4
    inv = []
    for g in GENS[:2] if big and not cfg["heavy"] else GENS:
        X = act(env, T, nu, nd, g)
        for f in forms:
            env.check(env.eq(form(env, f, ups, downs, X), 0), "contraction is SU(3) invariant")
        inv += [env.eq(X[I], 0) for I in X]
    if big:
        # enough: the forms are linearly independent in number (see thorough)
        if not cfg["heavy"] or cfg["over"]:
            return
    zero = [env.eq(form(env, f, ups, downs, T), 0) for f in forms]
    env.check(env.implies(env.all(inv + zero), env.all([env.eq(T[I], 0) for I in T])),
              "contractions span the colour singlets")


def reject(env, cfg):
    op, _, _ = build(env, cfg["fs"], NAMES[0])
    try:
        con.colour_singlets([op])
        ok = True
    except ValueError:
        ok = False
    env.check(not ok, "no singlet: rejected")


def several(env, cfg):
    a, ua, da = build(env, cfg["a"], NAMES[0], "a")
    b, ub, db = build(env, cfg["b"], NAMES[1], "b")
    out = con.colour_singlets([a, b], overcomplete=bool(cfg["over"]))
    sep = con.colour_singlets([a], overcomplete=bool(cfg["over"])), con.colour_singlets([b], overcomplete=bool(cfg["over"]))
    env.check(len(out) == len(sep[0]) + len(sep[1]), "operators are contracted separately")
    for k, o in enumerate(out):
        base, u, d = (a, ua, da) if k < len(sep[0]) else (b, ub, db)
        structure(env, o, base, u, d)
    env.check(len(con.colour_singlets([])) == 0, "nothing from nothing")


HARNESSES = {"contract": contract, "reject": reject, "several": several}
