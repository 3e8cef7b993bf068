"""Generated invariants hold each field once and are neutral singlets."""
import itertools

import reps
from hlib import *

BOUNDS = {
    "charges": "all rationals (hypercharge), any baryon number; the hypercharges may or may not cancel",
    "fields": "two to five (quick) / six (thorough) scalars and fermions with up to two indices of a kind, with repetitions, plain and conjugated, of one generation (a few also of three)",
    "ignored structures": "none, isospin, colour, Lorentz, and the default (all but isospin)",
}
ASSUMPTIONS = ["Whether a removed operator vanishes or repeats a kept one is judged by expanding both in field components (fermions anticommute)."]
BUDGET = {"quick": 150, "thorough": 900}


def load():
    global core, con
    core = repo("tensormethod.core")
    con = repo("tensormethod.contract")


L, Q, eb, ub, db, H = "L10001", "Q10101", "e10000", "u10010", "d10010", "H00001"
S, T2, F0 = "S00000", "T00002", "F10000"


def configs(tier):
    A = [  # (fields, ignored lists)
        ([L, L, H, H], [["u", "d", "c"], [], ["i"], ["c"], ["u"]]),
        ([L, H], [["u", "d", "c"]]),
        ([L, "L01001*"], [["u", "d", "c"], []]),
        ([H, "H00001*", H, "H00001*"], [["u", "d", "c"], []]),
        ([H, H, H, H], [["u", "d", "c"]]),
        ([H, H, T2], [["u", "d", "c"]]),
        ([T2, T2], [["u", "d", "c"], []]),
        ([T2, T2, T2], [[]]),
        ([T2, H, "H00001*"], [[]]),
        ([L, L, T2], [["u", "d", "c"], []]),
        ([Q, ub, H], [["u", "d", "c"], [], ["i"]]),
        ([Q, db, L, eb], [["u", "d", "c"], [], ["u"]]),
        ([Q, Q, Q, L], [["u", "d", "c"], ["u"]]),
        ([Q, Q, ub, db], [["u", "d", "c"], ["i", "u"]]),
        ([ub, ub, db], [[], ["u", "d", "c"]]),
        ([L, L, eb, S], [["u", "d", "c"], []]),
        ([L, L, eb, H], [["u", "d", "c"], []]),
        ([F0, F0], [[], ["u"]]),
        ([F0, F0, F0], [[]]),
        ([eb, "e01000*", S], [[], ["u", "d", "c"]]),
        ([S, S], [[]]),
        ([H, H, S], [["u", "d", "c"], []]),
        ([H, H, S, S], [[]]),
        ([L, L, Q, db, H], [["u", "d", "c"]]),
        ([H, Q], [["u", "d", "c"]]),
        ([H, "H00001*", H, "H00001*", H, "H00001*"], [["u", "d", "c"]]),
        ([H, H, H, "H00001*", "H00001*", "H00001*"], [["u", "d", "c"]]),
    ]
    if tier != "quick":
        A += [([L, L, L, eb, H], [["u", "d", "c"], ["d"]]), ([L, L, H, H, H, "H00001*"], [["u", "d", "c"]]),
              ([T2, T2, H, "H00001*"], [[]]), ([Q, db, Q, db], [["u", "d", "c"]]), ([L, Q, Q, "d01100*"], [["u", "d", "c"], ["d"]]),
              ([T2, T2, T2, T2], [["u", "d", "c"]]), ([L, L, L, Q, db, eb], [["u", "d", "c"]])]
    return [("gen", {"fs": fs, "ignore": ig}) for fs, igs in A for ig in igs] + [
        ("gen", {"fs": fs, "ignore": ["u", "d", "c"], "nf": 3}) for fs in ([L, L, H, H], [L, L, Q, db, H], [Q, db, L, eb])] + [
        ("order", {"fs": [L, H, H, L]}), ("order", {"fs": [ub, H, Q]}), ("order", {"fs": [F0, S, F0]})]


def build(env, fs, nf=1):
    """equal entries are the same field; a star marks the conjugate"""
    ch, out = {}, []
    for f in fs:
        n, d, star = f[0], f[1:6], f.endswith("*")
        if n not in ch:
            ch[n] = {"y": env.rat("y" + n), "3b": env.rat("b" + n)}
        c = {k: -v for k, v in ch[n].items()} if star else dict(ch[n])
        ferm = (int(d[0]) + int(d[1])) % 2
        out.append(core.Field(n, d, charges=c, is_conj=star, comm=int(ferm),
                              nf=nf if ferm else 1))
    return out


def key(i):
    return str(i)


def poly(op, order):
    """{values of the free indices: {sorted components: coefficient}}"""
    fields = list(op.indexed_fields)
    names = {}
    for k, f in enumerate(fields):
        for j, i in enumerate(f.indices):
            names.setdefault(str(i), []).append((k, j))
    eps = [[str(i) for i in e.indices] for e in op.epsilons]
    flip = lambda s: s[1:] if s[0] == "-" else "-" + s
    bound = {flip(i) for e in eps for i in e}
    # two generations tell two copies apart
    size = lambda s: 3 if s.lstrip("-")[0].lower() == "c" or three and s.lstrip("-")[0].lower() == "g" else 2
    labels = [order(f) for f in fields]
    three = any(labels.count(l) > 2 for l in labels)
    free = [str(i) for f in fields for i in f.indices if str(i) not in bound]
    choice = []
    for e in eps:
        if len(e) == 3:
            choice.append([(p, sgn(p)) for p in itertools.permutations(range(3))])
        elif size(e[0]) == 3:
            choice.append([((k, k), 1) for k in range(3)])
        else:
            choice.append([((0, 1), 1), ((1, 0), -1)])
    out = {}
    for fv in itertools.product(*[range(size(i)) for i in free]):
        p = {}
        for ch in itertools.product(*choice):
            val, sign = dict(zip(free, fv)), 1
            for e, (vs, s) in zip(eps, ch):
                sign *= s
                for i, v in zip(e, vs):
                    val[flip(i)] = v
            word = []
            for f in fields:
                vs = {}
                for i in f.indices:
                    vs.setdefault(str(i)[:-1].rstrip("0123456789_")[-2:].lower(), []).append(val[str(i)])
                word.append(((order(f), tuple(sorted((t, tuple(sorted(v))) for t, v in vs.items()))), f.comm in (1, "fermi")))
            # sort, with signs for fermions
            w = list(word)
            for a in range(len(w)):
                for b in range(len(w) - 1 - a):
                    if w[b][0] > w[b + 1][0]:
                        if w[b][1] and w[b + 1][1]:
                            sign = -sign
                        w[b], w[b + 1] = w[b + 1], w[b]
            if any(w[k][0] == w[k + 1][0] and w[k][1] for k in range(len(w) - 1)):
                continue
            m = tuple(x for x, _ in w)
            p[m] = p.get(m, 0) + sign
        p = {m: c for m, c in p.items() if c}
        if p:
            out[fv] = p
    return out


def sgn(p):
    return 1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 == 0 else -1


def minus(p):
    return {k: {m: -c for m, c in q.items()} for k, q in p.items()}


def prop(p, q):
    """whether p is a non-zero multiple of q"""
    if not p or set(p) != set(q):
        return False
    k = next(iter(p))
    m = next(iter(p[k]))
    if m not in q[k]:
        return False
    a, b = p[k][m], q[k][m]
    return all(set(p[k]) == set(q[k]) and all(p[k][m] * b == q[k][m] * a for m in p[k]) for k in p)


def same(a, b):
    return len(a) == len(b) and all(any(x is y for y in b) for x in a)


def gen(env, cfg):
    fs, ignore = build(env, cfg["fs"], cfg.get("nf", 1)), cfg["ignore"]
    digs = [tuple(map(int, f.dynkin)) for f in fs]
    combine = (0, 0, 0, 0, 0) in reps.product_many(digs)
    y = env.sum(f.charges["y"] for f in fs)
    raw = con.unsimplified_invariants(*fs, ignore=list(ignore))
    # the hypercharges cancel or they do not: both are explored
    if not env.truth(env.eq(y, 0)):
        env.check(len(raw) == 0, "nothing unless hypercharge cancels")
        env.check(len(con.invariants(*fs, ignore=list(ignore))) == 0, "no invariant unless hypercharge cancels")
        return
    env.check((len(raw) > 0) == combine, "invariants exactly when the representations combine")
    want = sorted(cfg["fs"])
    for o in raw:
        got = list(o.indexed_fields)
        env.check(sorted(f.label.strip("†") + f.dynkin + ("*" if f.is_conj else "") for f in got) == want, "each field once")
        for f in got:
            src = [g for g in fs if g.label == f.label.strip("†") and g.is_conj == f.is_conj][0]
            env.check(env.all([env.eq(f.charges[k], src.charges[k]) for k in ("y", "3b")]), "charges kept")
        env.check(all(str(i).lstrip("-")[0].lower() in ignore + ["g"] for i in o.free_indices), "no free index of a contracted type")
        env.check(not any(str(i).lstrip("-")[0].lower() in ignore for e in o.epsilons for i in e.indices),
                  "ignored structures are left alone")
    if not combine:
        return
    order = lambda f: f.label.strip("†") + ("*" if f.is_conj else "")
    kept = con.clean_operators(raw)
    env.check(all(any(k is o for o in raw) for k in kept), "cleaning only removes")
    pk = [poly(o, order) for o in kept]
    for o in raw:
        if not any(o is k for k in kept):
            p = poly(o, order)
            env.check(not p or any(prop(p, q) for q in pk), "removed operators vanish or repeat a kept one")
    env.check(not any(a == b for a, b in itertools.combinations(pk, 2)) and all(pk), "kept operators differ and do not vanish")
    # telling relabelled operators apart is documented for isospin only
    flag = sorted(ignore) == ["c", "d", "u"]
    inv = con.invariants(*fs, ignore=list(ignore), remove_relabellings_=flag)
    unr = con.invariants(*fs, ignore=list(ignore), remove_relabellings_=False)
    env.check(len(unr) == len(kept), "cleaned invariants")
    again = con.invariants(*fs, ignore=list(ignore), remove_relabellings_=flag)
    env.check(len(again) == len(inv), "repeated calls agree")
    for a, b in zip(inv, again):
        env.check(poly(a, order) == poly(b, order), "repeated calls give the same operators")
    env.check(len(inv) > 0 or not pk, "something is left")
    pi = [poly(o, order) for o in inv]
    env.check(all(any(prop(p, q) for q in pk) for p in pi), "invariants are among the cleaned ones")
    env.observe("n", [len(raw), len(kept), len(inv)])
    if flag:
        env.cover("relabel")
        # all but isospin ignored: a removed operator is a kept one with
        # repeated fields interchanged
        def slots(o, perm):
            """the expression with the copies of each field told apart"""
            seen = {}
            def tag(f):
                return names[id(f)]
            names = {}
            for f in o.indexed_fields:
                n = order(f)
                k = seen.get(n, 0)
                seen[n] = k + 1
                names[id(f)] = n + str(perm[n][k])
            return poly_iso(o, lambda f: names[id(f)])
        mult = {n: want.count(n) for n in set(want)}
        labels = {n[0] + ("*" if n.endswith("*") else ""): m for n, m in mult.items()}
        ident = {n: tuple(range(m)) for n, m in labels.items()}
        perms = [dict(zip(labels, ps)) for ps in itertools.product(*[list(itertools.permutations(range(m))) for m in labels.values()])]
        own = [[slots(o, p) for p in perms] for o in inv]
        have = [p for ps in own for p in ps]
        # (for more fields the package may keep some relabellings, which is harmless)
        for a, b in itertools.combinations(range(len(inv) if len(fs) <= 5 else 0), 2):
            env.check(not any(prop(slots(inv[b], ident), q) for q in own[a]), "kept invariants are not relabellings of each other")
        for o in kept:
            p = slots(o, ident)
            env.check(any(prop(p, q) for q in have), "removed invariants are relabellings of kept ones")


def poly_iso(op, order):
    """the isospin structure alone, as a multilinear form in the fields"""
    flip = lambda s: s[1:] if s[0] == "-" else "-" + s
    fields = list(op.indexed_fields)
    eps = [[str(i) for i in e.indices] for e in op.epsilons]
    out = {}
    for ch in itertools.product((0, 1), repeat=len(eps)):
        val, sign = {}, 1
        for (a, b), c in zip(eps, ch):
            val[flip(a)], val[flip(b)] = c, 1 - c
            sign *= -1 if c else 1
        m = tuple(sorted((order(f), tuple(sorted(val[str(i)] for i in f.indices if str(i) in val))) for f in fields))
        out[m] = out.get(m, 0) + sign
    return {0: {m: c for m, c in out.items() if c}}


def order(env, cfg):
    """the number of invariants does not depend on the order of the fields"""
    fs = build(env, cfg["fs"])
    env.assume(env.eq(env.sum(f.charges["y"] for f in fs), 0))
    n = None
    for p in itertools.permutations(range(len(fs))):
        k = len(con.unsimplified_invariants(*[fs[i] for i in p], ignore=["c"])) > 0
        env.check(n is None or k == n, "existence does not depend on the order")
        n = k


HARNESSES = {"gen": gen, "order": order}
COVERS = {"gen": ["relabel"]}
