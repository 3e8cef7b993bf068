"""Equivalence of completions is relabelling of exotics."""
from hlib import *

BOUNDS = {
    "completions": "five Lagrangians with two to four exotic fields (scalars and fermions, with colour and isospin) and two to four terms",
    "charges": "every hypercharge and baryon number of the exotics (solver variables), equal ones included",
    "changes": "every renaming of the exotics (in thorough among five names, and three orders of the terms), fresh names for all indices",
}
ASSUMPTIONS = ["Exotic fields that are conjugates of each other are not taken for renamings: the comparison keeps each field as it is."]
BUDGET = {"quick": 250, "thorough": 800}

# exotics: name -> (class, indices); terms: fields "name:indices" (a star conjugates) and epsilons
LAGS = {
    "doublets": ({"a": "S i", "b": "S i", "s": "S"},
                 [("L:u0 i1 g0_ eb:u1 g1_ a:i2", "-u0 -u1,-i1 -i2"), ("H:i0 b:i1 s:", "-i0 -i1"), ("a:i0 b:i1 s:", "-i0 -i1")]),
    "diquark": ({"a": "S c", "b": "S -c i", "s": "S"},
                [("Q:u0 c0 i0 g0_ Q:u1 c1 i1 g1_ a:c2", "-u0 -u1,-c0 -c1 -c2,-i0 -i1"), ("Q:u0 c0 i0 g0_ N:u1 g1_ b:-c0 i1 s:", "-u0 -u1,-i0 -i1"),
                 ("H:i0 a:c0 b:-c0 i1 s:", "-i0 -i1")]),
    "fermion": ({"a": "S i", "f": "F u", "b": "S"},
                [("L:u0 i0 g0_ f:u1 a:i1", "-u0 -u1,-i0 -i1"), ("eb:u0 g0_ f:u1 b:", "-u0 -u1"), ("a:i0 H:i1 b:", "-i0 -i1")]),
    "twofermions": ({"f": "F u i", "g": "F u i", "a": "S"},
                    [("L:u0 i0 g0_ f:u1 i1 a:", "-u0 -u1,-i0 -i1"), ("f:u0 i0 g:u1 i1", "-u0 -u1,-i0 -i1"), ("H:i0 g:u0 i1 eb:u1 g1_", "-i0 -i1,-u0 -u1")]),
    "quartic": ({"a": "S i", "b": "S i"}, [("H:i0 a:i1 b:i2 H:i3", "-i0 -i1,-i2 -i3"), ("L:u0 i0 g0_ eb:u1 g1_ b:i1", "-u0 -u1,-i0 -i1")]),
}
SWAP = {("doublets", 0): "ab", ("doublets", 1): "ab", ("twofermions", 0): "fg", ("twofermions", 2): "fg", ("quartic", 1): "ab"}
NAMES = ["φ", "η", "s", "ψ", "χ"]


def load():
    global M
    M = {"core": repo("tensormethod.core"), "sm": repo("tensormethod.sm"), "cc": repo("completions.core"), "comp": repo("completions.completions")}


def configs(tier):
    out = []
    for lag in LAGS:
        out.append(("same", {"lag": lag, "tier": tier}))
        out.append(("charge", {"lag": lag}))
        if tier != "quick" or lag not in ("twofermions", "diquark"):
            out.append(("term", {"lag": lag}))
        out.append(("reflexive", {"lag": lag}))
    return out


def charges(env, lag, tag=""):
    return {k: {"3b": env.rat(f"b{tag}{k}"), "y": env.rat(f"y{tag}{k}")} for k in LAGS[lag][0]}


def exotic(kind, name, indices, ch):
    cc = M["cc"]
    if kind == "S":
        return cc.ComplexScalar(name, indices, charges=dict(ch))
    return cc.VectorLikeDiracFermion(name, indices, charges=dict(ch))


def build(env, lag, names, ch, order=None, suffix="", terms=None):
    """a completion with these names of the exotics"""
    core, sm, cc = M["core"], M["sm"], M["cc"]
    spec, ts = LAGS[lag]
    out = []
    for fields, epss in terms or ts:
        op = None
        toks, cur = [], None
        for f in fields.split(" "):
            if ":" in f:
                cur = [f.split(":")[0], [f.split(":")[1]] if f.split(":")[1] else []]
                toks.append(cur)
            else:
                cur[1].append(f)
        for lab, ix in toks:
            ix = " ".join(i[:-1] + suffix + "_" if i[-1] == "_" else i + suffix for i in ix)
            if lab in spec:
                x = exotic(spec[lab].split()[0], names[lab], ix, ch[lab])
            elif lab == "N":
                x = core.Field("N", "10000", charges={"y": 0, "3b": 0}, nf=3)(ix)
            else:
                x = getattr(sm, lab)(ix)
            op = x if op is None else op * x
        for e in epss.split(","):
            if e:
                op = op * core.eps(" ".join(i + suffix for i in e.split()))
        out.append(op)
    if order:
        out = [out[k] for k in order]
    ex = []
    for k, s in spec.items():
        kind, *types = s.split()
        ex.append(exotic(kind, names[k], " ".join(f"{t}9" for t in types), ch[k]))
    return cc.Completion(None, None, None, set(ex), out, None)


def base(lag):
    spec = LAGS[lag][0]
    bos, fer = iter(["φ", "η", "s"]), iter(["ψ", "χ", "f"])
    return {k: next(bos) if s[0] == "S" else next(fer) for k, s in spec.items()}


def renaming(env, lag, full):
    names = base(lag)
    free = list(NAMES) if full else sorted(names.values())
    out = {}
    for k in sorted(names):
        n = env.pick("name_" + k, free)
        free.remove(n)
        out[k] = n
    return out


def snapshot(c):
    return [[str(x) for x in t.tensors] for t in c.terms], sorted(str(e) for e in c.exotics)


def distinct(env, lag, ch):
    """no two exotics of one kind have the same or opposite charges"""
    spec = LAGS[lag][0]
    for a, b in itertools.combinations(sorted(spec), 2):
        if spec[a] == spec[b]:
            env.assume(env.any([env.neq(ch[a][q], ch[b][q]) for q in ("y", "3b")]))
            env.assume(env.any([env.neq(ch[a][q], -ch[b][q]) for q in ("y", "3b")]))


def same(env, cfg):
    lag = cfg["lag"]
    ch = charges(env, lag)
    names = renaming(env, lag, cfg["tier"] != "quick")
    n = len(LAGS[lag][1])
    full = cfg["tier"] != "quick"
    order = env.pick("order", [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]]) if full else list(range(1, n)) + [0]
    one = build(env, lag, base(lag), ch)
    two = build(env, lag, names, ch, order, "5")
    before = snapshot(one), snapshot(two)
    f = M["comp"].are_equivalent_completions
    env.check(f(two, one), "renamed and reordered completions are equivalent")
    m = M["comp"].compare_terms(one, two)
    env.check(sorted(m) == sorted(base(lag).values()) and sorted(m.values()) == sorted(names.values()), "the renaming is one to one")
    env.check((snapshot(one), snapshot(two)) == before, "comparing leaves both as they were")


def reflexive(env, cfg):
    lag = cfg["lag"]
    ch = charges(env, lag)
    env.check(M["comp"].are_equivalent_completions(build(env, lag, base(lag), ch), build(env, lag, base(lag), ch)), "a completion is equivalent to itself")


def charge(env, cfg):
    """another exotic field is another completion"""
    lag = cfg["lag"]
    ch = charges(env, lag)
    k = env.pick("which", sorted(ch))
    q = env.pick("charge", ["y", "3b"])
    ch2 = {a: dict(c) for a, c in ch.items()}
    ch2[k][q] = env.rat("new")
    spec = LAGS[lag][0]
    # a field (or conjugate) that is none of the exotics of this kind
    for a in ch:
        if spec[a] == spec[k]:
            env.assume(env.any([env.neq(ch2[k][x], ch[a][x]) for x in ("y", "3b")]))
            env.assume(env.any([env.neq(ch2[k][x], -ch[a][x]) for x in ("y", "3b")]))
    f = M["comp"].are_equivalent_completions
    one, two = build(env, lag, base(lag), ch), build(env, lag, base(lag), ch2)
    env.check(not f(one, two), "other quantum numbers are not equivalent")
    env.check(not f(two, one), "and not the other way around")


def term(env, cfg):
    """another or a missing term is another completion"""
    lag = cfg["lag"]
    ch = charges(env, lag)
    distinct(env, lag, ch)
    ts = LAGS[lag][1]
    k = env.pick("which", list(range(len(ts))))
    how = env.pick("how", ["missing", "longer", "field", "swap"])
    if how == "missing":
        new = ts[:k] + ts[k + 1:]
    elif how == "field":
        new = list(ts)
        new[k] = env.pick("other", [("eb:u0 g0_ eb:u1 g1_", "-u0 -u1"), ("L:u0 i0 g0_ L:u1 i1 g1_", "-u0 -u1,-i0 -i1"), ("L:u0 i0 g0_ eb:u1 g1_ H:i1", "-u0 -u1,-i0 -i1")])
    elif how == "swap":
        # two exotics of one kind change places in one term only
        a, b = SWAP.get((lag, k), (None, None))
        env.assume(a is not None)
        new = list(ts)
        other = {a: b, b: a}
        new[k] = (" ".join(other.get(f.split(":")[0], f.split(":")[0]) + f[f.index(":"):] if ":" in f else f for f in new[k][0].split()), new[k][1])
    else:
        new = list(ts)
        new[k] = (new[k][0] + " N:u8 g8_ N:u9 g9_", new[k][1] + ",-u8 -u9")
    f = M["comp"].are_equivalent_completions
    one, two = build(env, lag, base(lag), ch), build(env, lag, base(lag), ch, terms=new)
    env.check(not f(one, two), "other terms are not equivalent")
    env.check(not f(two, one), "and not the other way around, for other terms")


HARNESSES = {"same": same, "charge": charge, "term": term, "reflexive": reflexive}
