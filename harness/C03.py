"""Field equality is attribute equality and agrees with hashing."""
import itertools

from hlib import *

BOUNDS = {
    "charges": "all rationals, keys y, 3b and optionally l and m, every order of the keys",
    "dynkin": "5 symbolic digits 0..9 (fields); four index strings (indexed fields)",
    "labels": "two symbolic letters", "generations": "1 or 3", "derivs": "0..3",
    "derivative data": "None or two dictionaries",
}
ASSUMPTIONS = ["Index labels are given in the same form (text) on both sides."]
BUDGET = {"quick": 120, "thorough": 600}

KEYS = [("y", "3b"), ("3b", "y"), ("y", "3b", "l"), ("l", "3b", "y"),
        ("y", "3b", "l", "m"), ("m", "3b", "l", "y")]


def load():
    global core, ccore
    core = repo("tensormethod.core")
    ccore = repo("completions.core")


def configs(tier):
    out = []
    for a, b in itertools.product(range(len(KEYS)), repeat=2):
        if tier == "quick" and (a, b) not in ((0, 1), (4, 5), (0, 2)):
            continue
        for s in (0, 1):
            out.append(("fields", {"a": a, "b": b, "stripped": s}))
        out.append(("indexed", {"a": a, "b": b}))
        for c in ("ComplexScalar", "VectorLikeDiracFermion", "MajoranaFermion", "RealScalar"):
            out.append(("exotic", {"a": a, "b": b, "cls": c}))
    out.append(("apart", {}))
    return out


def charges(env, n, order):
    return {k: env.rat(f"{n}_{k}") for k in KEYS[order]}


def same_charges(env, p, q):
    if set(p) != set(q):
        return False
    return env.all([env.eq(p[k], q[k]) for k in p])


def common(env, n, order, vary):
    nf = 3
    if vary:
        nf = env.int(f"{n}_nf", 1, 3)
        env.assume(env.neq(nf, 2))
    return dict(
        label=env.text(f"{n}_label", 2, "abS"),
        charges=charges(env, n, order),
        is_conj=env.bool(f"{n}_conj"),
        comm=env.int(f"{n}_comm", 0, 1),
        nf=nf,
        derivs=env.int(f"{n}_derivs", 0, 3),
    )


def judge(env, f, g, same, what):
    eq = f == g
    env.check(env.iff(eq, same), f"{what}: equal exactly when the attributes agree")
    env.check(env.iff(g == f, same), f"{what}: equality is symmetric")
    env.check(env.iff(f != g, env.not_(same)), f"{what}: unequal is not equal")
    env.check(env.implies(same, env.hash_eq(f, g)), f"{what}: equal objects hash alike")
    n = len({f, g})
    env.check(env.iff(n == 1, same), f"{what}: a set holds one of two equal objects")
    d = {f: 1}
    env.check(env.iff(g in d, same), f"{what}: dictionary lookup")
    env.observe("eq", eq)
    env.observe("n", n)
    env.cover("equal" if eq else "unequal")


def fields(env, cfg):
    vary = cfg["b"] == 1
    a, b = common(env, "a", cfg["a"], vary), common(env, "b", cfg["b"], vary)
    for n, kw in (("a", a), ("b", b)):
        kw["dynkin"] = env.text(f"{n}_d", 5, "0123456789")
        kw["latex"] = "x"
        if cfg["stripped"]:
            kw["symmetry"] = [[1]]
            kw["stripped"] = env.pick(f"{n}_s", [None, {"label": "A"}])
        else:
            kw["symmetry"] = env.pick(f"{n}_sym", [[[1]], [[2]]])
            kw["stripped"] = None
    f, g = core.Field(**a), core.Field(**b)
    same = env.all(
        [env.eq(a[k], b[k]) for k in a if k not in ("charges", "stripped", "symmetry", "latex")]
        + [same_charges(env, a["charges"], b["charges"]),
           a["stripped"] == b["stripped"], a["symmetry"] == b["symmetry"]]
    )
    judge(env, f, g, same, "fields")


IDX = ["u0 c0", "u0 c1", "u0 -c0"]


def indexed(env, cfg):
    vary = cfg["b"] == 1
    a, b = common(env, "a", cfg["a"], vary), common(env, "b", cfg["b"], vary)
    for n, kw in (("a", a), ("b", b)):
        kw["indices"] = env.pick(f"{n}_i", IDX)
        kw["symmetry"] = [[1], [1]]
        kw["latex"] = "x"
    f, g = core.IndexedField(**a), core.IndexedField(**b)
    same = env.all(
        [env.eq(a[k], b[k]) for k in a if k not in ("charges",)]
        + [same_charges(env, a["charges"], b["charges"])]
    )
    judge(env, f, g, same, "indexed fields")


def exotic(env, cfg):
    cls = getattr(ccore, cfg["cls"])
    real = cfg["cls"] in ("RealScalar", "MajoranaFermion")
    scalar = cfg["cls"] in ("RealScalar", "ComplexScalar")
    kws = []
    for n in "ab":
        kw = dict(
            label=env.text(f"{n}_label", 2, "abS"),
            charges=charges(env, n, cfg[n]),
            is_conj=env.bool(f"{n}_conj"),
            latex=env.text(f"{n}_latex", 1, "xy"),
        )
        lor = "" if scalar else "u0 "
        kw["indices"] = lor + env.pick(f"{n}_i", ["i0 i1", "i1 i0"] if real
                                       else ["c0", "-c0", "c0 i0"])
        if real:
            env.assume(env.eq(kw["charges"]["y"], 0))
        kws.append(kw)
    a, b = kws
    f, g = cls(**a), cls(**b)
    same = env.all(
        [env.eq(a[k], b[k]) for k in a if k != "charges"]
        + [same_charges(env, a["charges"], b["charges"])]
    )
    judge(env, f, g, same, cfg["cls"])


def apart(env, cfg):
    """fields, indexed fields and exotic fields with the same data are different"""
    ch = charges(env, "a", 0)
    kw = dict(label=env.text("label", 2, "abS"), charges=ch, is_conj=env.bool("conj"))
    f = core.Field(dynkin="00101", **kw)
    x = f("c0 i0")
    s = ccore.ComplexScalar(indices="c0 i0", **kw)
    for p, q in itertools.permutations((f, x, s), 2):
        env.check(not (p == q), "a field is not an indexed or exotic field")
        env.check(p != q, "a field differs from an indexed or exotic field")
    env.check(not (f == f.label), "a field is not its label")
    env.check(f("c0 i0") == x and not (f("c1 i0") == x), "different indices differ")


HARNESSES = {"fields": fields, "indexed": indexed, "exotic": exotic, "apart": apart}
COVERS = {"fields": ["equal", "unequal"], "indexed": ["equal", "unequal"],
          "exotic": ["equal", "unequal"]}
