"""Generating operators and field strings from lists of fields."""
import itertools

import reps
from hlib import *

BOUNDS = {
    "fields": "one to three fields: scalars, left- and right-handed fermions, coloured and isospin multiplets, with or without their conjugates",
    "standard model fields": "one to three, with none or one more field of any charges; strings of two and three",
    "charges": "hypercharge and lepton number: all rationals",
    "size": "strings of two to four fields (with the derivative, three); operators up to dimension four (thorough: five)",
}
ASSUMPTIONS = ["The number of singlets in a product comes from weight diagrams, computed apart from the package."]
BUDGET = {"quick": 150, "thorough": 700}

LISTS = [["10001", "00001"], ["10000", "00000"], ["10101", "10010", "00001"], ["00100", "00010"], ["10000", "01000", "00000"], ["00001", "00002"]]


def load():
    global core, smeft, lag, sm
    core = repo("tensormethod.core")
    smeft, lag = repo("tensormethod.smeft"), repo("tensormethod.lagrangian")
    sm = repo("tensormethod.sm")


def configs(tier):
    top = 4 if tier == "quick" else 5
    out = []
    for k, ds in enumerate(LISTS):
        for m in range(1, top + 1):
            if len(ds) == 3 and m == 5:
                continue
            out.append(("operators", {"ds": ds, "dim": m}))
        for m in (2, 3):
            out.append(("strings", {"ds": ds[:2] if m == 3 else ds, "n": m, "derivs": 0, "func": k % 2}))
        out.append(("strings", {"ds": ds[:1], "n": 3, "derivs": 1, "func": (k + 1) % 2}))
        if k in (0, 1, 5):
            out.append(("strings", {"ds": ds[-1:], "n": 4, "derivs": 0, "func": 0}))
        for m in (2, 3):
            out += [("upto", {"ds": ds[:1], "dim": m, "derivs": d}) for d in (0, 1)]
    out.append(("smeft_fields", {}))
    for sm, ds, n in [("L H", ["00000"], 2), ("L H", ["10000"], 3), ("eb", ["10001"], 3), ("Q db", ["00001"], 3), ("ub db", ["00100"], 3), ("L eb H", [], 3), ("L eb", ["00001"], 0), ("H", ["00002"], 0)]:
        out.append(("standard", {"sm": sm.split(), "ds": ds, "n": n}))
    return out


def make(env, ds, lists=False):
    out = []
    for k, d in enumerate(ds):
        ch = {"y": env.rat(f"y{k}"), "3b": env.const("0"), "l": env.rat(f"l{k}")}
        ferm = (int(d[0]) + int(d[1])) % 2
        out.append(core.Field("ABEFG"[k], d, charges=ch, comm=core.FERMI if ferm else core.BOSE))
    return out


def parts(f):
    """the fields of a product"""
    out, x = [], f.walked()
    while isinstance(x, core.Prod):
        out.append(x.right)
        x = x.left
    return out + [x]


def ident(f):
    return (f.label.rstrip("†"), bool(f.is_conj))


def mult(f):
    m, x = 1, f
    while x.history:
        m *= x.multiplicity
        x = x.history.left
    return m


def dim2(f):
    return 3 if (int(f.dynkin[0]) + int(f.dynkin[1])) % 2 else 2


def singlets(combo):
    return reps.product_many([tuple(map(int, f.dynkin)) for f in combo]).get((0,) * 5, 0)


def neutral(env, combo):
    return env.eq(env.sum(f.charges["y"] for f in combo), 0)


def walk(env, mod, got):
    for g in got:
        fs = parts(g)
        env.check(env.eq(mod.prod_mass_dim(g.walked()) * 2, sum(map(dim2, fs))), "the dimension of a product is the sum of its fields'")
        env.check(g.is_singlet, "only singlets are returned")
        for q in ("y", "l"):
            env.check(env.eq(g.charges[q], env.sum(f.charges[q] for f in fs)), "charges are the sums")


def table(got):
    t = {}
    for g in got:
        k = tuple(sorted(map(ident, parts(g))))
        t[k] = t.get(k, 0) + mult(g)
    return t


def operators(env, cfg):
    fs = make(env, cfg["ds"])
    fs = fs + [f.conj for f in fs]
    before = list(fs)
    got = smeft.generate_operators(cfg["dim"], fs)
    env.check(len(fs) == len(before) and all(a is b for a, b in zip(fs, before)), "the list of fields is left alone")
    walk(env, smeft, got)
    t = table(got)
    seen = set()
    for n in range(2, cfg["dim"] + 1):
        for combo in itertools.combinations_with_replacement(fs, n):
            k = tuple(sorted(map(ident, combo)))
            seen.add(k)
            want = singlets(combo) if sum(map(dim2, combo)) <= 2 * cfg["dim"] else 0
            if not want:
                env.check(k not in t, "nothing beyond the dimension, nothing without a singlet")
                continue
            env.check(env.iff(neutral(env, combo), k in t), "a combination is there exactly when it is neutral")
            if k in t:
                env.check(t[k] == want, "with each of its singlets")
                env.cover("operator")
    env.check(set(t) <= seen, "only combinations of the given fields")
    env.observe("n", len(got))


def wanted(env, cfg, fields, n):
    conjs = [f.conj for f in fields]
    ext = [core.Field("D", "11000", charges={"y": env.const("0"), "3b": env.const("0"), "l": env.const("0")})] if cfg["derivs"] else []
    return [c for c in itertools.combinations_with_replacement(fields + ext + conjs, n)]


def strings(env, cfg):
    fs = make(env, cfg["ds"])
    asked = []
    func = None
    if cfg["func"]:
        func = lambda c: env.truth(env.eq(env.sum(f.charges["l"] for f in c), 2))
    given = tuple(fs) if len(fs) % 2 else list(fs)
    got = lag.npoint_fieldstrings(cfg["n"], given, derivs=bool(cfg["derivs"]), func=func)
    env.check(len(given) == len(fs) and all(a is b for a, b in zip(given, fs)), "the list of fields is left alone")
    walk(env, lag, got)
    keys = [tuple(sorted(map(ident, parts(g)))) for g in got]
    env.check(len(set(keys)) == len(keys), "each combination at most once")
    combos = wanted(env, cfg, fs, cfg["n"])
    for c in combos:
        k = tuple(sorted(map(ident, c)))
        if not singlets(c):
            env.check(k not in keys, "nothing without a singlet")
            continue
        cond = neutral(env, c)
        if cfg["func"]:
            cond = env.all([cond, env.eq(env.sum(f.charges["l"] for f in c), 2)])
        env.check(env.iff(cond, k in keys), "a combination is there exactly when it is neutral and selected")
        if k in keys:
            env.cover("string")
    env.check(set(keys) <= {tuple(sorted(map(ident, c))) for c in combos}, "only combinations of the given fields")
    env.observe("n", len(got))


def upto(env, cfg):
    fs = make(env, cfg["ds"])
    got = lag.generate_fieldstrings(cfg["dim"], tuple(fs), derivs=bool(cfg["derivs"]))
    keys = [tuple(sorted(map(ident, parts(g)))) for g in got]
    env.check(len(set(keys)) == len(keys), "each combination at most once")
    n = 0
    for m in range(2, cfg["dim"] + 1):
        for c in wanted(env, cfg, fs, m):
            k = tuple(sorted(map(ident, c)))
            if not singlets(c) or sum(map(dim2, c)) > 2 * cfg["dim"]:
                env.check(k not in keys, "nothing beyond the dimension, nothing without a singlet")
                continue
            env.check(env.iff(neutral(env, c), k in keys), "every neutral combination up to the dimension is there")
            n += k in keys
    env.check(n == len(keys), "only combinations of the given fields")


LEPTON = {"L": 1, "eb": -1, "Q": 0, "ub": 0, "db": 0, "H": 0}


def standard(env, cfg):
    """strings of standard model fields and one more: they carry lepton number
    there, and are afterwards as they were"""
    fs = [getattr(sm, s) for s in cfg["sm"]] + make(env, cfg["ds"])
    before = [dict(f.charges) for f in fs]
    all_before = {s: dict(getattr(sm, s).charges) for s in LEPTON}
    given = tuple(fs)
    got = lag.npoint_fieldstrings(cfg["n"], given) if cfg["n"] else lag.generate_fieldstrings(3, given, derivs=False)
    for f, b in zip(fs, before):
        env.check(set(f.charges) == set(b) and env.truth(env.all([env.eq(f.charges[q], b[q]) for q in b])), "the fields are left alone")
    for s, b in all_before.items():
        env.check(getattr(sm, s).charges == b, "so are the other standard model fields")
    other = core.Field("S", "00000", charges={"y": env.rat("y"), "3b": env.const("0")})
    for s in LEPTON:
        f = getattr(sm, s)
        both = core.decompose_product(f, other)
        env.check(len(both) == 1 and env.truth(env.eq(both[0].charges["y"], f.charges["y"] + other.charges["y"])), "and they go with fields which carry no lepton number")
    lep = {(getattr(sm, s).label.rstrip("†"), bool(getattr(sm, s).is_conj)): LEPTON[s] for s in cfg["sm"]}
    keys = []
    for g in got:
        ids = [ident(f) for f in parts(g)]
        keys.append(tuple(sorted(ids)))
        tot = 0
        for f, i in zip(parts(g), ids):
            if i in lep:
                tot = tot + lep[i]
            elif (i[0], not i[1]) in lep:
                tot = tot - lep[(i[0], not i[1])]
            else:
                tot = tot + f.charges["l"]
        env.check(env.eq(g.charges["l"], tot), "standard model fields count with their lepton number")
    env.check(len(set(keys)) == len(keys), "each combination at most once")
    top = cfg["n"] or 3
    for m in range(2, top + 1):
        if cfg["n"] and m != cfg["n"]:
            continue
        for c in itertools.combinations_with_replacement(fs + [f.conj for f in fs], m):
            k = tuple(sorted(map(ident, c)))
            if not singlets(c) or (not cfg["n"] and sum(map(dim2, c)) > 6):
                env.check(k not in keys, "nothing without a singlet")
                continue
            env.check(env.iff(neutral(env, c), k in keys), "a combination is there exactly when it is neutral")
            if k in keys:
                env.cover("standard")
    env.observe("n", len(got))


def smeft_fields(env, cfg):
    """the module's own fields are the standard model's, with lepton number"""
    want = {"L": 1, "eb": -1, "Q": 0, "ub": 0, "db": 0, "H": 0}
    fs = [f for f in smeft.FIELDS]
    env.check(len(fs) == 12 and len({ident(f) for f in fs}) == 12, "the six fields and their conjugates")
    k = env.int("k", 0, 11)
    f = fs[int(k)]
    for s, l in want.items():
        g = getattr(sm, s)
        if g.label.rstrip("†") == f.label.rstrip("†"):
            sign = 1 if bool(g.is_conj) == bool(f.is_conj) else -1
            env.check(f.charges["L"] == sign * l and f.charges["y"] == sign * g.charges["y"] and f.dynkin == (g if sign == 1 else g.conj).dynkin, "with the standard model's quantum numbers")
            env.cover("smeft field")
    y, l = env.rat("y"), env.rat("l")
    X = core.Field("A", "00000", charges={"y": y, "3b": env.const("0"), "L": l})
    both = core.decompose_product(f, X)
    env.check(len(both) == 1 and env.truth(env.eq(both[0].charges["L"], f.charges["L"] + l)), "charges are the sums")


HARNESSES = {"smeft_fields": smeft_fields, "operators": operators, "strings": strings, "upto": upto, "standard": standard}
COVERS = {"operators": ["operator"], "strings": ["string"], "standard": ["standard"], "smeft_fields": ["smeft field"]}
