"""The full Lagrangian contains exactly the renormalisable interactions of the exotics."""
import itertools
from collections import Counter
from fractions import Fraction

import reps
from hlib import *

BOUNDS = {
    "exotics": "one scalar or fermion (singlet, leptoquark, doublet, triplet; complex, real, Dirac, Majorana), any rational hypercharge (quick: but for the few at which only vanishing or high-dimensional combinations are neutral) and baryon number, with the six SM fields and their conjugates",
    "pairs": "two exotics of given hypercharges (quick: two doubly and singly charged scalars, a leptoquark and a doublet; thorough: six pairs) and any baryon numbers",
    "general terms": "two to four factors from one to three fields of any rational hypercharges and their conjugates",
}
ASSUMPTIONS = ["SM fermions come in three flavours, exotics in one; whether an interaction vanishes identically is decided by counting invariants in the (anti)symmetric powers of the fields' representations.",
               "Interactions are cubic and quartic; terms bilinear in an exotic and an SM field are not generated."]
BUDGET = {"quick": 300, "thorough": 800}

KINDS = {  # class, indices, digits
    "s": ("ComplexScalar", "", (0, 0, 0, 0, 0)), "f": ("VectorLikeDiracFermion", "u0", (1, 0, 0, 0, 0)),
    "lq": ("ComplexScalar", "-c0", (0, 0, 0, 1, 0)), "n": ("MajoranaFermion", "u0", (1, 0, 0, 0, 0)),
    "r": ("RealScalar", "", (0, 0, 0, 0, 0)), "d": ("ComplexScalar", "i0", (0, 0, 0, 0, 1)),
    "t": ("ComplexScalar", "i0 i1", (0, 0, 0, 0, 2)), "fd": ("VectorLikeDiracFermion", "u0 i0", (1, 0, 0, 0, 1)),
    "fc": ("VectorLikeDiracFermion", "u0 c0", (1, 0, 1, 0, 0)), "ft": ("MajoranaFermion", "u0 i0 i1", (1, 0, 0, 0, 2)),
}
PAIRS = [[["s", "1"], ["s", "2"]], [["lq", "-1/3"], ["d", "1/6"]], [["lq", "1/3"], ["f", "-1"]], [["s", "1"], ["d", "1/2"]], [["f", "1"], ["s", "2"]], [["lq", "1/3"], ["lq", "-2/3"]]]
SM = {"H": ((0, 0, 0, 0, 1), "1/2", 1), "Q": ((1, 0, 1, 0, 1), "1/6", 3), "ub": ((1, 0, 0, 1, 0), "-2/3", 3),
      "db": ((1, 0, 0, 1, 0), "1/3", 3), "L": ((1, 0, 0, 0, 1), "-1/2", 3), "eb": ((1, 0, 0, 0, 0), "1", 3)}


def load():
    global core, ccore, lag, con
    core = repo("tensormethod.core")
    ccore = repo("completions.core")
    lag = repo("tensormethod.lagrangian")
    con = repo("tensormethod.contract")


def flip(d):
    u, v, p, q, i = d
    return (v, u, q, p, i)


def content(kind):
    """{name: (digits, SM charge, exotic charge, copies)} with conjugates"""
    out = {}
    for n, (d, y, nf) in SM.items():
        out[n] = (d, Fraction(y), 0, nf)
        out[n + "†"] = (flip(d), -Fraction(y), 0, nf)
    d = KINDS[kind][2]
    out["X"] = (d, Fraction(0), 1, 1)
    out["X†"] = (flip(d), Fraction(0), -1, 1)
    if KINDS[kind][0] == "VectorLikeDiracFermion":
        p = (d[0], d[1], d[3], d[2], d[4])
        out["X~"] = (p, Fraction(0), -1, 1)
        out["X~†"] = (flip(p), Fraction(0), 1, 1)
    return out


def fermion(d):
    return (d[0] + d[1]) % 2


def su2w(n):
    return {(n - 2 * k,): 1 for k in range(n + 1)}


def states(d, nf):
    """the weights of a representation, with copies"""
    u, v, p, q, i = d
    out = []
    for a in range(u + 1):
        for b in range(v + 1):
            for e in range(i + 1):
                for w, m in reps.su3_weights(p, q).items():
                    out += [(u - 2 * a, v - 2 * b, i - 2 * e) + w] * (m * nf)
    return out


def power(d, nf, k):
    """weights of the k-th symmetric (fermions: antisymmetric) power"""
    st = states(d, nf)
    choose = itertools.combinations if fermion(d) else itertools.combinations_with_replacement
    return Counter(tuple(map(sum, zip(*c))) for c in choose(st, k))


_pow = {}


def coincidences(kind):
    """hypercharges at which some three or four of the fields are neutral"""
    F = content(kind)
    out = set()
    for n in (3, 4):
        for c in itertools.combinations_with_replacement(sorted(F), n):
            e, s = sum(F[x][2] for x in c), sum(F[x][1] for x in c)
            if e and s and (0,) * 5 in reps.product_many([F[x][0] for x in c]):
                out.add(-s / e)
    return out


def possible(kind):
    """[(names, exotic charge, SM charge)] of the interactions with an exotic, apart from hypercharge"""
    F = content(kind)
    out = []
    for n in (3, 4):
        for c in itertools.combinations_with_replacement(sorted(F), n):
            if not any(x[0] == "X" for x in c):
                continue
            ds = [F[x][0] for x in c]
            nferm = sum(map(fermion, ds))
            if 2 * n + nferm > 8 or nferm % 2:
                continue
            if sum(d[4] for d in ds) % 2 or sum(d[2] - d[3] for d in ds) % 3 or sum(d[0] for d in ds) % 2:
                continue
            if count(kind, c) <= 0:
                continue
            out.append((c, sum(F[x][2] for x in c), sum(F[x][1] for x in c)))
    return out


def count(kind, c):
    """copies of one field are identical, different fields are not"""
    F = content(kind)
    # the real part of a real field is one field
    same = (lambda x: "X" if x == "X†" else x) if KINDS[kind][0] in ("RealScalar",) else (lambda x: x)
    groups = Counter(same(x) for x in c)
    w = [(F[x][0], F[x][3], k, x) for x, k in groups.items()]
    return product_invariants(w)


def product_invariants(ws):
    w = Counter({(0, 0, 0, 0, 0): 1})
    for d, nf, k, _ in ws:
        if (d, nf, k) not in _pow:
            _pow[d, nf, k] = power(d, nf, k)
        nxt = Counter()
        for a, m in w.items():
            for b, n in _pow[d, nf, k].items():
                nxt[tuple(map(sum, zip(a, b)))] += m * n
        w = nxt
    total = 0
    for (u, v, i, a, b), m in w.items():
        s = 1
        for x in (u, v, i):
            s *= 1 if x == 0 else -1 if x == -2 else 0
        r = reps._reflect((a, b)) if s else None
        if r and r[0] == (0, 0):
            total += m * s * r[1]
    return total


def neutral_class(kind):
    return KINDS[kind][0] in ("RealScalar", "MajoranaFermion")


def configs(tier):
    out = []
    for k in ("s", "f", "lq", "n", "r") if tier == "quick" else KINDS:
        if neutral_class(k):
            out.append(("full", {"kind": k, "y": "0"}))
            continue
        ys = sorted({-s / e for c, e, s in possible(k) if e})
        ys = [y for y in ys if y != 0]
        more = sorted(coincidences(k) - set(ys))
        # hypercharges at which only vanishing or high-dimensional combinations are neutral
        out += [("full", {"kind": k, "y": str(y)}) for y in (ys + (more[1:2] if k == "s" else []) if tier == "quick" else ys + (more if k in ("s", "f", "lq") else []))]
        out.append(("full", {"kind": k, "y": "other", "not": [str(y) for y in ys + more]}))
    for fs in (["s"], ["d"], ["f"], ["s", "f"], ["d", "s"], ["lq"], ["f", "fd", "d"]):
        for n in (2, 3) + ((4,) if len(fs) == 1 or tier != "quick" else ()):
            out.append(("npoint", {"fs": fs, "n": n}))
    out += [("pair", {"kinds": ks}) for ks in PAIRS[:2 if tier == "quick" else None]]
    out += [("fields", {"kinds": ks}) for ks in (["s"], ["f"], ["s", "f"], ["n", "fd"], ["f", "fd", "d"], ["fc", "r"], [])]
    return out


def make(env, kind, name, y):
    cls, ind, _ = KINDS[kind]
    b = env.rat("b" + name)
    ch = {"y": 0} if neutral_class(kind) else {"y": y, "3b": b}
    return getattr(ccore, cls)(name, ind, charges=ch)


def title(f):
    """the name of a factor, the same for every way of writing its marks"""
    l = f.label
    return l.replace("†", "").replace("~", "") + ("~" if "~" in l else "") + ("†" if f.is_conj else "")


def full(env, cfg):
    kind = cfg["kind"]
    y = env.rat("y")
    if cfg["y"] == "other":
        env.assume(env.neq(y, 0))
        for v in cfg["not"]:
            env.assume(env.neq(y, env.const(v)))
        want = {c for c, e, s in possible(kind) if e == 0 and s == 0}
    else:
        env.assume(env.eq(y, env.const(cfg["y"])))
        want = {c for c, e, s in possible(kind) if e * Fraction(cfg["y"]) + s == 0}
    x = make(env, kind, "X", y)
    L = lag.Lagrangian({x}, [])
    F = L.generate_full()
    own = [x] + ([x.dirac_partner()] if kind[0] == "f" and not neutral_class(kind) else [])
    # the partner's conjugation mark is its own business: match by charge and chirality
    names = {}
    for f in own:
        t = title(f)
        base = "X~" if f is not x else "X"
        conj = lambda s: s[:-1] if s.endswith("†") else s + "†"
        names[t] = base if not f.is_conj else conj(base)
        c = conj(t)
        names[c] = conj(names[t])
    real = KINDS[kind][0] == "RealScalar"
    merge = (lambda c: tuple(sorted(("X" if t == "X†" else t) for t in c))) if real else (lambda c: c)
    inter = list(F.interaction_terms)
    got = []
    for t in inter:
        fs = list(t.indexed_fields)
        c = tuple(sorted(names.get(title(f), title(f)) for f in fs))
        got.append(c)
        env.check(all(str(i).lstrip("-")[0] == "g" for i in t.free_indices), "no index is left free")
        env.check(env.eq(env.sum(f.charges["y"] for f in fs), 0), "the term is neutral")
        env.check(len(fs) in (3, 4) and sum(3 if f.is_fermion else 2 for f in fs) <= 8, "cubic or quartic, of dimension four at most")
    env.check({merge(c) for c in got} <= {merge(c) for c in want}, "only interactions that exist are generated")
    env.check({merge(c) for c in got} >= {merge(c) for c in want}, "every interaction is generated")
    plain = [i for i, c in enumerate(got) if not any(n.rstrip("†") in ("Q", "ub", "db", "L", "eb") for n in c)]
    canon = [str(inter[i].nocoeff.safe_simplify()).lstrip("-") for i in plain]
    env.check(len(set(canon)) == len(canon), "no interaction without flavours is repeated")
    env.check(len(F.exotics) == 1 and all(f is x for f in F.exotics), "the exotics are kept")
    masses = list(F.terms)[len(inter):]
    env.check(list(F.terms)[:len(inter)] == inter and len(masses) == len(own), "one mass term for each field")
    env.observe("contents", sorted("".join(c) for c in set(got)))
    # the symmetries: a charge for each SM field and each half of the exotic
    cols = ["H", "Q", "ub", "db", "L", "eb", "X", "X~"][:7 if len(own) == 1 else 8]
    rows = [Counter({"H": 1, "Q": 1, "ub": 1}), Counter({"H†": 1, "Q": 1, "db": 1}), Counter({"H†": 1, "L": 1, "eb": 1})]
    rows += [Counter(c) for c in want]
    if len(own) == 2:
        rows.append(Counter({"X": 1, "X~": 1}))
    if neutral_class(kind):
        rows.append(Counter({"X": 2}))
    m = [[r[c] - r[c + "†"] for c in cols] for r in rows]
    if kind == "n":
        env.check(len(list(F.u1_symmetries())) == len(cols) - rank(m), "the U(1) symmetries are those of the interactions")
    elif not real:
        env.check(F.num_u1_symmetries() == len(cols) - rank(m), "the U(1) symmetries are those of the interactions")


def rank(m):
    m = [[Fraction(x) for x in r] for r in m]
    k = 0
    for c in range(len(m[0])):
        p = next((r for r in range(k, len(m)) if m[r][c]), None)
        if p is None:
            continue
        m[k], m[p] = m[p], m[k]
        for r in range(k + 1, len(m)):
            f = m[r][c] / m[k][c]
            m[r] = [a - f * b for a, b in zip(m[r], m[k])]
        k += 1
    return k


def npoint(env, cfg):
    fs = []
    for k, kind in enumerate(cfg["fs"]):
        d = "".join(map(str, KINDS[kind][2]))
        fs.append(core.Field("ABE"[k], d, charges={"y": env.rat(f"y{k}"), "3b": env.rat(f"b{k}")}, comm=fermion(KINDS[kind][2])))
    n = cfg["n"]
    terms = lag.npoint_terms(n, fs)
    got = Counter()
    for t in terms:
        g = list(t.indexed_fields)
        env.check(len(g) == n, "n factors")
        env.check(env.eq(env.sum(f.charges["y"] for f in g), 0), "neutral")
        env.check(not t.free_indices, "nothing is left free")
        got[tuple(sorted(title(f) for f in g))] += 1
    both = {title(f): f for f in [*fs, *[g.conj for g in fs]]}
    for c in itertools.combinations_with_replacement(sorted(both), n):
        ok = (0,) * 5 in reps.product_many([tuple(map(int, both[x].dynkin)) for x in c])
        neutral = env.eq(env.sum(both[x].charges["y"] for x in c), 0)
        if not ok:
            env.check(got[c] == 0, "no term without an invariant")
        else:
            env.check(env.iff(neutral, got[c] > 0), "a term exactly for the neutral combinations")
    env.check(all(c in set(itertools.combinations_with_replacement(sorted(both), n)) for c in got), "only the given fields and their conjugates")


def pair(env, cfg):
    """two exotics together"""
    xs = [make(env, k, n, env.const(y)) for (k, y), n in zip(cfg["kinds"], "XY")]
    F, names, cols = {}, {}, ["H", "Q", "ub", "db", "L", "eb"]
    conj = lambda s: s[:-1] if s.endswith("†") else s + "†"
    for n, (d, y, nf) in SM.items():
        F[n], F[n + "†"] = (d, Fraction(y), nf), (flip(d), -Fraction(y), nf)
    masses = []
    for x, (k, y), n in zip(xs, cfg["kinds"], "XY"):
        d, y = KINDS[k][2], Fraction(y)
        own = [(n, x, d, y)]
        if KINDS[k][0] == "VectorLikeDiracFermion":
            own.append((n + "~", x.dirac_partner(), (d[0], d[1], d[3], d[2], d[4]), -y))
            masses.append(Counter({n: 1, n + "~": 1}))
        for m, f, d, y in own:
            t = title(f)
            names[t] = m if not f.is_conj else m + "†"
            names[conj(t)] = conj(names[t])
            F[m], F[m + "†"] = (d, y, 1), (flip(d), -y, 1)
            cols.append(m)
    want = set()
    for k in (3, 4):
        for c in itertools.combinations_with_replacement(sorted(F), k):
            if not any(x[0] in "XY" for x in c) or sum(F[x][1] for x in c):
                continue
            ds = [F[x][0] for x in c]
            if sum(3 if fermion(d) else 2 for d in ds) > 8:
                continue
            if product_invariants([(F[x][0], F[x][2], m, x) for x, m in Counter(c).items()]) > 0:
                want.add(c)
    L = lag.Lagrangian(set(xs), []).generate_full()
    got = set()
    for t in L.interaction_terms:
        fs = list(t.indexed_fields)
        got.add(tuple(sorted(names.get(title(f), title(f)) for f in fs)))
        env.check(env.eq(env.sum(f.charges["y"] for f in fs), 0), "the term is neutral")
    env.check(got <= want, "only interactions that exist are generated")
    env.check(got >= want, "every interaction is generated")
    if any("X" in "".join(c) and "Y" in "".join(c) for c in got):
        env.cover("both exotics in one interaction")
    rows = [Counter({"H": 1, "Q": 1, "ub": 1}), Counter({"H†": 1, "Q": 1, "db": 1}), Counter({"H†": 1, "L": 1, "eb": 1})] + [Counter(c) for c in want] + masses
    m = [[r[c] - r[c + "†"] for c in cols] for r in rows]
    env.check(L.num_u1_symmetries() == len(cols) - rank(m), "the U(1) symmetries are those of the interactions")


def fields(env, cfg):
    """exotics are listed with the partners of Dirac fermions, each once"""
    xs = [make(env, k, "ABE"[i], env.rat(f"y{i}")) for i, k in enumerate(cfg["kinds"])]
    for x, k in zip(xs, cfg["kinds"]):
        if not neutral_class(k):
            env.assume(env.neq(x.charges["y"], 0))
    want = []
    for x, k in zip(xs, cfg["kinds"]):
        want.append(title(x))
        if KINDS[k][0] == "VectorLikeDiracFermion":
            want.append(title(x.dirac_partner()))
    out = lag.clean_fields(set(xs))
    env.check(sorted(title(f) for f in out) == sorted(want), "every exotic, and the partner of every Dirac fermion, once")
    L = lag.Lagrangian(set(xs), [])
    env.check(sorted(title(f) for f in L.fields) == sorted(want), "the fields of a Lagrangian")
    env.check(len(L.terms) == len(want), "a mass term for each")
    t = [core.Field("Z", "00000", charges={"y": 0, "3b": 0})("")] + [x.field.fresh_indices() for x in xs]
    for k, x in enumerate(xs):
        op = core.Operator(t[0], t[0], *t[1 + k].tensors if hasattr(t[1 + k], "tensors") else [t[1 + k]])
        for j, z in enumerate(xs):
            env.check(lag.contains(op, [z.field]) == (j == k), "a term contains the fields it is made of")
            env.check(lag.contains(op, [z.field.conj]) == (j == k), "and their conjugates")
        env.check(lag.contains(op, [z.field for z in xs]), "any of several fields")
        env.check(not lag.contains(op, []), "none of no fields")


HARNESSES = {"full": full, "npoint": npoint, "fields": fields, "pair": pair}
COVERS = {"pair": ["both exotics in one interaction"]}
