"""SU(2) contractions are invariant, index-exact and complete."""
import itertools

from hlib import *

BOUNDS = {
    "tensors": "arbitrary rational components (solver variables) for up to 8 indices (index structure; 6 for components) of one type, split over 1 to 6 fields",
    "two objects": "0..3 (quick; a few with up to 5) / 0..4 indices of each type on each side, all targets 0..7",
    "charges": "all rationals",
}
ASSUMPTIONS = ["Invariance is judged by the generators of su(2) acting on arbitrary components; completeness as: an invariant tensor on which every returned contraction vanishes is zero."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global core, con
    core = repo("tensormethod.core")
    con = repo("tensormethod.contract")


def configs(tier):
    out = []
    splits = [[2], [1, 1], [2, 2], [1, 1, 1, 1], [3, 1], [2, 1, 1], [1, 1, 1, 1, 1, 1], [2, 2, 2], [3, 3], [3, 2, 1]]
    odd = [[1], [1, 2], [3], [2, 2, 1], [1, 1, 1]]
    if tier == "quick":
        splits += [[4, 4], [1] * 8]
    else:
        splits += [[4], [4, 4], [2, 1, 1, 1, 1], [4, 2], [1] * 8]
        odd += [[1] * 5, [4, 3], [5]]
    for t in "udi":
        for k, sp in enumerate(splits):
            out.append(("singlets", {"type": t, "split": sp, "pre": 0, "names": k % 2}))
        for sp in odd:
            out.append(("odd", {"type": t, "split": sp}))
        out.append(("singlets", {"type": t, "split": [1, 1, 1, 1], "pre": 1, "names": 1}))
    for a, b in ([1, 1], [1, 1, 1, 1]), ([1, 1], [1, 1]), ([2, 2], [1, 1]), ([1, 1, 1, 1], [1, 1]):
        out.append(("lorentz", {"u": a, "d": b}))
    m = 3 if tier == "quick" else 4
    for t in "udi":
        for a in range(m + 1):
            for b in range(m + 1):
                for o in range(8):
                    out.append(("target", {"type": t, "left": a, "right": b, "out": o}))
    for t in "udi":
        for a, b in ((4, 4), (5, 4), (3, 5), (5, 5), (1, 6), (0, 4)):
            for o in range(a + b + 2):
                if tier != "quick" or (a + b - o) % 2 == 0:
                    out.append(("target", {"type": t, "left": a, "right": b, "out": o}))
    for dl, dr, o in (("10001", "10001", "00000"), ("10001", "01001", "11002"), ("10101", "10011", "20000"),
                      ("11001", "11001", "00002"), ("11002", "11001", "22001"), ("20001", "10002", "10001"),
                      ("10001", "10001", "20001"), ("10000", "01000", "00000")):
        for ig in ([], ["i"], ["u", "d"]):
            out.append(("both", {"left": dl, "right": dr, "out": o, "ignore": ig}))
    return out


DIG = {"u": 0, "d": 1, "i": 4}
NAMES = [["0", "1", "2", "3", "4", "5", "6", "7"], ["1", "10", "0", "01", "11", "_", "2", "20"]]


def fields(env, split, t, names, tag=""):
    """an operator whose fields carry the given numbers of indices"""
    op, pos, flat = core.Field("Z" + tag, "00000", charges={"y": env.rat(f"z{tag}")})(""), 0, []
    for k, n in enumerate(split):
        d = [0] * 5
        d[DIG[t]] = n
        f = core.Field("ABEFGHJK"[k] + tag, "".join(map(str, d)), charges={"y": env.rat(f"y{tag}{k}")})
        idx = [t + names[pos + j] for j in range(n)]
        pos += n
        flat += idx
        x = f(" ".join(idx))
        op = op * x
    return op, flat


def pairs(op, flat):
    out = []
    for e in op.epsilons:
        a, b = [str(i) for i in e.indices]
        assert a[0] == "-" and b[0] == "-", "epsilons have lowered indices"
        out.append((flat.index(a[1:]), flat.index(b[1:])))
    return out


def comps(env, n):
    return {I: env.rat("T" + "".join(map(str, I))) for I in itertools.product((0, 1), repeat=n)}


def form(env, prs, T, n):
    """the contraction of T with one epsilon per pair"""
    terms = []
    for ch in itertools.product((0, 1), repeat=len(prs)):
        I, sign = [None] * n, 1
        for (a, b), c in zip(prs, ch):
            I[a], I[b] = c, 1 - c
            sign *= 1 if c == 0 else -1
        terms.append(T[tuple(I)] if sign == 1 else -T[tuple(I)])
    return env.sum(terms)


def act(env, T, n, gen):
    """a generator of su(2), extended to the tensor (gen: matrix entries)"""
    out = {}
    for I in T:
        terms = []
        for k in range(n):
            for c in (0, 1):
                g = gen[I[k]][c]
                if g:
                    J = I[:k] + (c,) + I[k + 1:]
                    terms.append(T[J] if g == 1 else -T[J])
        out[I] = env.sum(terms)
    return out


GENS = [((0, 1), (0, 0)), ((0, 0), (1, 0)), ((1, 0), (0, -1))]


def singlets(env, cfg):
    t, split = cfg["type"], cfg["split"]
    names = NAMES[cfg["names"]]
    op, flat = fields(env, split, t, names)
    n = len(flat)
    base = op
    if cfg["pre"]:
        # one pair contracted beforehand stays as it is
        op = op * core.eps(f"-{flat[0]} -{flat[2]}")
        free = [k for k in range(n) if k not in (0, 2)]
    else:
        free = list(range(n))
    out = con.su2_singlets_type(op, index_type=t)
    seen = []
    for o in out:
        p = pairs(o, flat)
        used = sorted(k for ab in p for k in ab)
        env.check(used == list(range(n)), "every index contracted exactly once")
        env.check(not [i for i in o.free_indices if i.index_type == core.Index.get_index_types()[t]], "no free index left")
        env.check(len(o.indexed_fields) == len(base.indexed_fields)
                  and all(a == b for a, b in zip(o.fields, base.fields)), "fields kept")
        key = frozenset(frozenset(x) for x in p)
        env.check(key not in seen, "no pairing twice")
        seen.append(key)
    want = 1
    for k in range(len(free) - 1, 0, -2):
        want *= k
    env.check(len(out) == want, "every pairing found")
    env.observe("pairings", sorted(sorted(sorted(x) for x in s) for s in seen))
    if n > 6 or cfg["pre"]:
        return
    T = comps(env, n)
    forms = [pairs(o, flat) for o in out]
    inv = []
    for g in GENS:
        X = act(env, T, n, g)
        for f in forms:
            env.check(env.eq(form(env, f, X, n), 0), "contraction is SU(2) invariant")
        inv += [env.eq(X[I], 0) for I in X]
    zero = [env.eq(form(env, f, T, n), 0) for f in forms]
    env.check(env.implies(env.all(inv + zero), env.all([env.eq(T[I], 0) for I in T])),
              "contractions span the invariants")


def odd(env, cfg):
    op, flat = fields(env, cfg["split"], cfg["type"], NAMES[0])
    try:
        con.su2_singlets_type(op, index_type=cfg["type"])
        ok = True
    except ValueError:
        ok = False
    env.check(not ok, "an odd number of indices is rejected")


def dfact(n):
    out = 1
    for k in range(n - 1, 0, -2):
        out *= k
    return out


def lorentz(env, cfg):
    a, fu = fields(env, cfg["u"], "u", NAMES[0])
    b, fd = fields(env, cfg["d"], "d", NAMES[1], "x")
    op = a
    for x in b.tensors:
        op = op * x
    flat = fu + fd
    out = con.lorentz_singlets(op)
    keys = set()
    for o in out:
        p = pairs(o, flat)
        env.check(sorted(k for ab in p for k in ab) == list(range(len(flat))), "every index contracted once")
        env.check(all(flat[i][0] == flat[j][0] for i, j in p), "same type contracted")
        keys.add(frozenset(frozenset(x) for x in p))
    env.check(len(keys) == len(out) == dfact(len(fu)) * dfact(len(fd)), "all combinations of pairings")


def target(env, cfg):
    t, a, b, o = cfg["type"], cfg["left"], cfg["right"], cfg["out"]
    d = [0] * 5
    d[DIG[t]] = a
    l = core.Field("A", "".join(map(str, d)), charges={"y": env.rat("y0")})
    d[DIG[t]] = b
    r = core.Field("B", "".join(map(str, d)), charges={"y": env.rat("y1")})
    li = [f"{t}{k}" for k in range(a)]
    ri = [f"{t}{k + a}" for k in range(b)]
    x, y = l(" ".join(li)), r(" ".join(ri))
    target_ = o if o > 9 or env.truth(env.bool("as_int")) else "".join(str(o) if k == DIG[t] else "0" for k in range(5))
    try:
        res = con.contract_su2_helper(x, y, target_, t)
    except AssertionError:
        res = None
    reach = abs(a - b) <= o <= a + b and (a + b - o) % 2 == 0
    env.check(bool(res) == reach, "a contraction exactly when the target can be reached")
    env.cover("reached" if reach else "refused")
    seen = []
    for e in res or []:
        ts = [] if e == 1 else (list(e.args) if hasattr(e, "components") and len(e.components) > 1 else [e])
        prs = []
        for z in ts:
            if z == 1:
                continue
            p, q = [str(i) for i in z.indices]
            env.check(p[0] == "-" and q[0] == "-", "epsilons have lowered indices")
            p, q = p[1:], q[1:]
            env.check((p in li and q in ri) or (p in ri and q in li), "contractions run between the two objects")
            prs.append((p, q))
        used = [k for ab in prs for k in ab]
        env.check(len(set(used)) == len(used), "no index used twice")
        env.check(a + b - 2 * len(prs) == o, "the target number of indices is left")
        seen.append(sorted(map(sorted, prs)))
    env.observe("n", seen)


def both(env, cfg):
    l = core.Field("A", cfg["left"], charges={"y": env.rat("y0")}, is_conj=env.bool("conj"))
    r = core.Field("B", cfg["right"], charges={"y": env.rat("y1")})
    indexed = env.truth(env.bool("indexed"))
    if indexed:
        l2 = l.fresh_indices()
        r2 = r.fresh_indices()
    else:
        l2, r2 = l, r
    try:
        out = con.contract_su2(l2, r2, cfg["out"], ignore=cfg["ignore"])
    except AssertionError:
        out = []
    reach = True
    free = []
    for t in "udi":
        k = DIG[t]
        a, b, o = int(cfg["left"][k]), int(cfg["right"][k]), int(cfg["out"][k])
        if t in cfg["ignore"]:
            free.append(a + b)
            continue
        free.append(o)
        reach = reach and abs(a - b) <= o <= a + b and (a + b - o) % 2 == 0
    env.check(bool(out) == reach, "expressions exactly when the target can be reached")
    for op in out:
        dk = op.dynkin_ints
        env.check([dk[0], dk[1], dk[4]] == free, "the target indices are left")
        env.check(dk[2:4] == [int(cfg["left"][2]) + int(cfg["right"][2]), int(cfg["left"][3]) + int(cfg["right"][3])], "colour untouched")
        env.check(len(op.fields) == 2 and op.fields[0] == l and op.fields[1] == r, "the two fields, in order")
    env.observe("n", len(out))


HARNESSES = {"singlets": singlets, "odd": odd, "lorentz": lorentz, "target": target, "both": both}
COVERS = {"target": ["reached", "refused"]}
