"""Reported U(1) symmetries are exactly the conserved charges."""
import itertools
from fractions import Fraction

from hlib import *

BOUNDS = {
    "exotics": "one to three scalars and fermions (complex, real, Majorana, vector-like Dirac), hypercharges all rationals (zero included where the class allows it: a complex or Dirac field has a complex representation)",
    "terms": "one to three interaction terms of two to five SM and exotic fields, the factors chosen by the solver, plus terms without exotics",
}
ASSUMPTIONS = ["The SM Yukawa couplings are H Q ub, H* Q db and H* L eb.",
               "Fields that are their own conjugate carry no charge."]
BUDGET = {"quick": 120, "thorough": 900}

SM = ("H", "Q", "ub", "db", "L", "eb")


def load():
    global core, ccore, lag, sm
    core = repo("tensormethod.core")
    ccore = repo("completions.core")
    lag = repo("tensormethod.lagrangian")
    sm = repo("tensormethod.sm")


SETS = [["cs"], ["lq"], ["dirac"], ["maj"], ["real"], ["cs", "dirac"], ["lq", "maj"], ["real", "dirac"], ["dirac0"],
        ["diraci", "lq"], ["cs", "lq", "dirac"], ["oct", "cs"], ["csc"], ["diracc", "csc"]]


def configs(tier):
    out = [("none", {"set": s}) for s in SETS] + [("none", {"set": []})]
    for s in SETS:
        for n in ((3 if s in (["lq"], ["maj"], ["real", "dirac"], ["dirac0"]) else 2,) if tier == "quick" else (2, 3, 4)):
            out.append(("one", {"set": s, "n": n}))
    for s in SETS:
        for k in range(len(TERMS)):
            out.append(("fixed", {"set": s, "k": k}))
    out += [("row", {"n": n}) for n in (1, 2, 3, 4)]
    if tier != "quick":
        for s in SETS[:6]:
            out.append(("two", {"set": s}))
    return out


def make(env, kind, k):
    y = env.rat(f"y{k}")
    b = env.rat(f"b{k}")
    n = "ABE"[k]
    ch = {"y": y, "3b": b}
    if kind in ("cs", "csc"):
        # a scalar in a real representation is a RealScalar
        env.assume(env.neq(y, 0) if kind == "cs" else True)
    if kind == "cs":
        return ccore.ComplexScalar(n, "", charges=ch)
    if kind == "csc":
        return ccore.ComplexScalar(n + "†", "i0", charges=ch, is_conj=True)
    if kind == "lq":
        return ccore.ComplexScalar(n, "-c0 i0", charges=ch)
    if kind == "real":
        return ccore.RealScalar(n, "i0 i1", charges={"y": 0})
    if kind == "oct":
        return ccore.RealScalar(n, "c0 -c1", charges={"y": 0})
    if kind == "maj":
        return ccore.MajoranaFermion(n, "u0", charges={"y": 0})
    if kind == "dirac":
        env.assume(env.neq(y, 0))
        return ccore.VectorLikeDiracFermion(n, "u0 i0", charges=ch)
    if kind == "diracc":
        env.assume(env.neq(y, 0))
        return ccore.VectorLikeDiracFermion(n + "†", "d0 c0", charges=ch, is_conj=True)
    if kind == "dirac0":
        return ccore.VectorLikeDiracFermion(n, "u0 c0", charges={"y": 0, "3b": b})
    if kind == "diraci":
        # hypercharge zero or not
        return ccore.VectorLikeDiracFermion(n, "u0 i0", charges=ch)


def parts(f):
    """the independent fields an exotic stands for"""
    if isinstance(f, ccore.VectorLikeDiracFermion):
        return [f, f.dirac_partner()]
    return [f]


def name(f):
    """the name of a field apart from conjugation, and its sign"""
    return f.label.replace("†", ""), (-1 if f.is_conj else 1)


def smf(n):
    return getattr(sm, n)


def product(fs):
    out = None
    for f in fs:
        g = f.fresh_indices() if not isinstance(f, core.IndexedField) else f.field.fresh_indices()
        out = g if out is None else out * g
    return out if isinstance(out, core.Operator) else out * core.eps("-i998 -i999")


def solve(rows, n):
    """rank of integer rows"""
    m = [[Fraction(x) for x in r] for r in rows]
    rank = 0
    for c in range(n):
        p = next((r for r in range(rank, len(m)) if m[r][c]), None)
        if p is None:
            continue
        m[rank], m[p] = m[p], m[rank]
        m[rank] = [x / m[rank][c] for x in m[rank]]
        for r in range(len(m)):
            if r != rank and m[r][c]:
                m[r] = [a - m[r][c] * b for a, b in zip(m[r], m[rank])]
        rank += 1
    return rank


def left_inverse(basis, n):
    """P with P B = 1 for the columns of B, if they are independent"""
    k = len(basis)
    # choose k rows of B that are independent, invert them
    aug = [[Fraction(b[i]) for b in basis] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    r = 0
    for c in range(k):
        p = next((q for q in range(r, n) if aug[q][c]), None)
        if p is None:
            return None
        aug[r], aug[p] = aug[p], aug[r]
        aug[r] = [x / aug[r][c] for x in aug[r]]
        for q in range(n):
            if q != r and aug[q][c]:
                aug[q] = [a - aug[q][c] * b for a, b in zip(aug[q], aug[r])]
        r += 1
    return [row[k:] for row in aug[:k]]


def judge(env, exotics, terms, contents):
    """contents: for each term, its factors as fields"""
    L = lag.Lagrangian(list(exotics), list(terms))
    sym = L.u1_symmetries()
    env.check(L.num_u1_symmetries() == len(sym), "their number")
    cols = [p for f in exotics for p in parts(f)]
    # the columns: SM fields, then the exotics as the Lagrangian lists them
    order = [f for f in L.fields]
    env.check(sorted(name(f)[0] for f in order) == sorted(name(f)[0] for f in cols), "every exotic and partner listed once")
    col = {n: i for i, n in enumerate(SM)}
    for i, f in enumerate(order):
        col[name(f)[0]] = 6 + i
    n = 6 + len(order)
    rows = []
    exn = {name(f)[0] for f in cols}
    def row(fs):
        r = [0] * n
        for f in fs:
            a, s = name(f)
            r[col[a]] += s
        return r
    for fs in contents:
        if any(name(f)[0] in exn for f in fs):
            rows.append(row(fs))
    for f in exotics:
        # mass terms: real and Majorana fields carry nothing, partners opposite
        r = [0] * n
        if isinstance(f, ccore.VectorLikeDiracFermion):
            p = f.dirac_partner()
            r[col[name(f)[0]]] += name(f)[1]
            r[col[name(p)[0]]] += name(p)[1]
        elif isinstance(f, (ccore.RealScalar, ccore.MajoranaFermion)):
            r[col[name(f)[0]]] += 2
        rows.append(r)
    h = row([smf("H")])
    y = lambda *fs: [sum(s) for s in zip(*fs)]
    neg = lambda v: [-x for x in v]
    rows.append(y(h, row([smf("Q")]), row([smf("ub")])))
    rows.append(y(neg(h), row([smf("Q")]), row([smf("db")])))
    rows.append(y(neg(h), row([smf("L")]), row([smf("eb")])))
    basis = [[Fraction(str(x)) for x in v] for v in sym]
    env.check(all(len(b) == n for b in basis), "one entry per field")
    P = left_inverse(basis, n)
    env.check(P is not None, "none is redundant")
    q = [env.rat(f"q{i}") for i in range(n)]
    num = lambda fr: env.const(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else env.const(fr.numerator)
    # a combination of reported symmetries is conserved
    c = [env.rat(f"c{i}") for i in range(len(basis))]
    comb = [env.sum(num(b[i]) * ci for b, ci in zip(basis, c) if b[i]) for i in range(n)]
    env.check(env.all([env.eq(env.sum(num(Fraction(r[i])) * comb[i] for i in range(n) if r[i]), 0) for r in rows]),
              "reported symmetries are conserved")
    # every conserved assignment is a combination of them
    cons = env.all([env.eq(env.sum(num(Fraction(r[i])) * q[i] for i in range(n) if r[i]), 0) for r in rows])
    co = [env.sum(num(p[i]) * q[i] for i in range(n) if p[i]) for p in P]
    back = [env.sum(num(b[i]) * k for b, k in zip(basis, co) if b[i]) for i in range(n)]
    env.check(env.implies(cons, env.all([env.eq(a, b) for a, b in zip(q, back)])),
              "every conserved assignment is a combination of the reported ones")
    # hypercharge itself, when the terms conserve it
    charge = [env.const(str(smf(s).y)) for s in SM] + [f.y if not f.is_conj else -f.y for f in order]
    conserved = env.all([env.eq(env.sum(f.y for f in fs), 0) for fs in contents if any(name(f)[0] in exn for f in fs)])
    co = [env.sum(num(p[i]) * charge[i] for i in range(n) if p[i]) for p in P]
    back = [env.sum(num(b[i]) * k for b, k in zip(basis, co) if b[i]) for i in range(n)]
    env.check(env.implies(conserved, env.all([env.eq(a, b) for a, b in zip(charge, back)])),
              "hypercharge is among them when conserved")
    env.observe("basis", [[str(x) for x in b] for b in basis])


def pool(ex):
    out = []
    for f in ex:
        for p in parts(f):
            out += [p, p.conj]
    return out


def none(env, cfg):
    ex = [make(env, k, i) for i, k in enumerate(cfg["set"])]
    judge(env, ex, [], [])
    t = [smf("L"), smf("L"), smf("H"), smf("H")]
    judge(env, ex, [product(t)], [t])


def one(env, cfg):
    ex = [make(env, k, i) for i, k in enumerate(cfg["set"])]
    smp = [smf("L"), smf("H"), smf("Q").conj, smf("eb")]
    fs = [env.pick("f0", pool(ex))]
    lo = 0
    for k in range(1, cfg["n"]):
        ps = smp + pool(ex)[:4]
        i = env.pick(f"f{k}", range(lo, len(ps)))
        lo = i
        fs.append(ps[i])
    judge(env, ex, [product(fs)], [fs])


TERMS = [
    ([("x", 0), "L", "L"], [("x", 0), "H*", "H*"]),
    ([("x", 0), "Q", "L"], [("x*", 0), "db", "H"]),
    ([("x", 0), ("x", 0), "L"], ["L", "L", "H", "H"]),
    ([("x", -1), ("x*", 0), "H"], [("x", -1), "Q*", "ub"], ["Q", "L*", "H"]),
    ([("x", 0), ("x*", 0), ("x", -1), ("x*", -1)], [("x", 0), "H", "H", "H", "L*"]),
    ([("x", 0), "L", "H"], [("x", 0), "L", "H"], [("x*", 0), "L*", "H*"]),
    (["L", ("x", 1), "H"], ["H*", "eb", ("x", -2)], [("x", 1), ("x", 1), ("x", 0)]),
]


def pick(ex, t):
    if isinstance(t, str):
        f = smf(t.rstrip("*"))
        return f.conj if t.endswith("*") else f
    p = [x for f in ex for x in parts(f)]
    f = p[t[1] % len(p)]
    return f.conj if t[0].endswith("*") else f


def fixed(env, cfg):
    ex = [make(env, k, i) for i, k in enumerate(cfg["set"])]
    contents = [[pick(ex, t) for t in term] for term in TERMS[cfg["k"]]]
    judge(env, ex, [product(c) for c in contents], contents)


def two(env, cfg):
    ex = [make(env, k, i) for i, k in enumerate(cfg["set"])]
    contents = []
    for t in (0, 1):
        fs = [env.pick(f"t{t}f0", pool(ex))]
        for k in (1, 2):
            fs.append(env.pick(f"t{t}f{k}", [smf("L"), smf("H").conj, smf("Q"), pool(ex)[0]]))
        contents.append(fs)
    judge(env, ex, [product(c) for c in contents], contents)


def row(env, cfg):
    """one term's charge row"""
    ex = [core.Field("A", "00000", charges={"y": env.rat("y0")}), core.Field("B", "10001", charges={"y": env.rat("y1")})]
    idx = {}
    for i, f in enumerate(ex):
        idx[f.conj] = i
        idx[f] = i
    fs, lo = [], 0
    for k in range(cfg["n"]):
        ps = [ex[0], ex[0].conj, ex[1], smf("H"), smf("H").conj, smf("ub"), smf("L").conj]
        i = env.pick(f"f{k}", range(lo, len(ps)))
        lo = i
        fs.append(ps[i])
    term = product(fs)
    env.check(lag.contains(term, ex) == any(f.label in "AB" for f in fs), "a term contains an exotic, plain or conjugated")
    env.check(not lag.contains(term, [core.Field("B", "10001", charges={"y": env.rat("y1") + 1})]), "fields with other charges are other fields")
    got = lag.term_to_row(term, ex, idx)
    names = list(SM) + ["A", "B"]
    want = [sum(name(f)[1] for f in fs if name(f)[0] == n) for n in names]
    env.check(list(got) == want, "fields count with multiplicity, conjugates negatively")
    env.observe("row", list(got))


HARNESSES = {"none": none, "one": one, "fixed": fixed, "two": two, "row": row}
