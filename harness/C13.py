"""Hilbert-series terms expand into every derivative placement."""
import itertools

from hlib import *

BOUNDS = {
    "terms": "products of one to three (quick) / four SM fields, field strengths included, powers one to three and zero to two (quick) / three derivatives, chosen by the solver; sums of two terms; rational coefficients",
    "derivatives on one field": "Lorentz labels up to (2,2), orders 0 to 3 (quick) / 4, all rational charges",
    "shipped series": "dimensions 6, 7, 9 and 11 (only the content of the lists)",
}
ASSUMPTIONS = ["Allowed steps of the labels: (+1,+1), (-1,+1), (+1,-1) for fermions, (+1,+1), (-1,-1) for bosons, as the package states them."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global core, p, hs, sm, sympy
    import sympy
    core = repo("tensormethod.core")
    p = repo("tensormethod.parse_hs")
    hs = repo("tensormethod.hs")
    sm = repo("tensormethod.sm")


NAMES = {"H": ("H", 0), "Hd": ("H", 1), "L": ("L", 0), "Ld": ("L", 1), "Q": ("Q", 0), "Qd": ("Q", 1), "eb": ("eb", 0),
         "ebd": ("eb", 1), "ub": ("ub", 0), "ubd": ("ub", 1), "db": ("db", 0), "dbd": ("db", 1), "G": ("G", 0),
         "Gb": ("Gb", 0), "W": ("W", 0), "Wb": ("Wb", 0), "B": ("B", 0), "Bb": ("Bb", 0)}


def configs(tier):
    out = [("steps", {"u": u, "v": v, "n": n}) for u in range(3) for v in range(3)
           for n in range(4 if tier == "quick" else 5)]
    nd = 3 if tier == "quick" else 4
    for d in range(nd):
        for fs in (["H"], ["L"], ["L", "H"], ["Q", "dbd", "Hd"], ["G", "Gb"], ["W", "H", "Hd"], ["ebd", "ub"], ["B", "Ld"]):
            out.append(("term", {"fs": fs, "d": d, "top": 3 if len(fs) == 1 else 2}))
    if tier == "quick":
        out += [("term", {"fs": fs, "d": d, "top": 1}) for fs in (["L", "H"], ["G", "Gb"]) for d in (3, 4, 5)]
        out.append(("term", {"fs": ["L", "H", "Q", "db"], "d": 1, "top": 1}))
        out.append(("term", {"fs": ["L", "H"], "d": 1, "top": 4}))
    for a, b in (("L", "H"), ("Q", "Q"), ("Hd", "W"), ("eb", "ebd")):
        out.append(("sum", {"a": a, "b": b}))
    out.append(("lookup", {}))
    out += [("series", {"n": n}) for n in ("H6", "H7_LNV", "H9_LNV", "H11_LNV")]
    if tier != "quick":
        out.append(("term", {"fs": ["L", "H", "Q", "db"], "d": 2, "top": 2}))
        out.append(("term", {"fs": ["G", "H", "Wb", "eb"], "d": 1, "top": 2}))
    return out


def reach(l, n):
    """labels after n derivatives, one entry per sequence of steps"""
    if n == 0:
        return [l]
    steps = [(1, 1), (-1, 1), (1, -1)] if sum(l) % 2 else [(1, 1), (-1, -1)]
    out = []
    for a, b in steps:
        if l[0] + a >= 0 and l[1] + b >= 0:
            out += reach((l[0] + a, l[1] + b), n - 1)
    return out


def steps(env, cfg):
    f = core.Field("A", f"{cfg['u']}{cfg['v']}001", charges={k: env.rat("q" + k) for k in ("y", "3b")},
                   is_conj=env.bool("conj"), comm="fermi" if (cfg["u"] + cfg["v"]) % 2 else "bose")
    out = p.deriv_possibilities(f, cfg["n"])
    want = reach((cfg["u"], cfg["v"]), cfg["n"])
    env.check(sorted(tuple(g.lorentz_irrep) for g in out) == sorted(want), "exactly the reachable labels")
    for g in out:
        env.check(g.derivs == cfg["n"], "requested number of derivatives")
        env.check(env.all([env.eq(g.charges[k], f.charges[k]) for k in ("y", "3b")]) , "charges kept")
        env.check(env.eq(g.is_conj, f.is_conj) and g.sm_irrep == f.sm_irrep and g.comm == f.comm, "gauge representation and flag kept")
        env.check(g.label == "D" * cfg["n"] + "A", "field kept")
    env.observe("out", sorted(tuple(g.lorentz_irrep) for g in out))


def bare(f):
    lab = f.label[f.derivs:]
    return (lab, bool(f.is_conj), f.derivs) + tuple(f.lorentz_irrep)


def expected(content, d):
    """all multisets of fields with d derivatives distributed"""
    out = set()
    fs = [n for n, k in content for _ in range(k)]
    for ks in itertools.product(range(d + 1), repeat=len(fs)):
        if sum(ks) != d:
            continue
        opts = []
        for n, k in zip(fs, ks):
            f = getattr(sm, NAMES[n][0])
            f = f.conj if NAMES[n][1] else f
            opts.append({(f.label, bool(f.is_conj), k) + l for l in reach(tuple(f.lorentz_irrep), k)})
        for ch in itertools.product(*opts):
            out.add(tuple(sorted(ch)))
    return out


def expr(content, d, coeff):
    e = coeff * hs.D ** d
    for n, k in content:
        e = e * getattr(hs, n)(hs.X) ** k
    return e


def judge(env, lists, want):
    got = set()
    for l in lists:
        env.check(isinstance(l, list) and all(isinstance(f, core.Field) for f in l), "lists of fields")
        t = tuple(sorted(bare(f) for f in l))
        env.check(t in want, "only the term's fields, powers and derivatives")
        got.add(t)
    env.check(want <= got, "every placement of the derivatives")


def term(env, cfg):
    content = [(n, int(env.int(f"p{k}", 1, cfg["top"]))) for k, n in enumerate(cfg["fs"])]
    c = env.pick("c", [1, 3, -2, "5/4"])
    c = sympy.Rational(c)
    if sum(k for _, k in content) == 1:
        # a single field is no term
        return
    lists = p.parse([expr(content, cfg["d"], c)])
    judge(env, lists, expected(content, cfg["d"]))
    env.observe("n", len(lists))


def sum_(env, cfg):
    d1, d2 = int(env.int("d1", 0, 2)), int(env.int("d2", 0, 2))
    k1, k2 = int(env.int("k1", 1, 2)), int(env.int("k2", 1, 2))
    a, b = cfg["a"], cfg["b"]
    c1 = [(a, k1 + 1)]
    c2 = [(b, k2), ("db", 1), ("Hd", 1)]
    e = expr(c1, d1, sympy.Integer(2)) + expr(c2, d2, sympy.Rational(7, 3))
    judge(env, p.parse(e), expected(c1, d1) | expected(c2, d2))


def lookup(env, cfg):
    """every symbol stands for its field"""
    n = env.pick("name", sorted(NAMES))
    f, conj = NAMES[n]
    k = int(env.int("k", 2, 6))
    lists = p.parse([getattr(hs, n)(hs.X) ** k])
    env.check(len(lists) == 1 and len(lists[0]) == k, "powers count fields")
    g = getattr(sm, f)
    env.check(all(x == (g.conj if conj else g) for x in lists[0]), "the named field")


def series(env, cfg):
    s = getattr(hs, cfg["n"])
    s = sympy.Add(*s) if isinstance(s, tuple) else s.xreplace({hs.Nf: 3})
    dim = int(cfg["n"][1:].split("_")[0])
    for t in s.args:
        for l in p.parse([t]):
            env.check(sum(f.charges["y"] for f in l) == 0, "hypercharge cancels")
            env.check(sum(f.charges["3b"] for f in l) in (0, 3, -3), "baryon number is a whole number")
            if any(f.label.lstrip("D") in ("G", "Gb", "W", "Wb", "B", "Bb") for f in l):
                continue
            d = sum((3 if f.comm == core.FERMI else 2) + 2 * f.derivs for f in l)
            env.check(d == 2 * dim, "mass dimension of the series")
    env.check(len(p.parse(s)) > 0, "the whole series parses")


HARNESSES = {"steps": steps, "term": term, "sum": sum_, "lookup": lookup, "series": series}
