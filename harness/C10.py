"""Index relabellings map one contraction structure onto the other."""
import itertools

from hlib import *

BOUNDS = {
    "structures": "one to four pairs of one type (isospin, undotted, dotted, colour); labels of up to two pairs of each structure symbolic",
    "labels": "a type letter and one symbolic digit, any coincidences between the two structures",
    "operators": "two to six isospin and spinor indices and up to four (thorough: six) colour indices, all pairings of each type",
}
ASSUMPTIONS = ["A structure is judged by the sets of indices of its tensors (the tensors are antisymmetric or, for delta, have one raised and one lowered index)."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global core, con
    core = repo("tensormethod.core")
    con = repo("tensormethod.contract")


def configs(tier):
    out = []
    for t in "iudc":
        for n in (1, 2):
            out.append(("relabel", {"type": t, "n": n, "symx": n if t in "ic" else 1, "symy": n, "dig": "01234"[:2 * n + 1]}))
    out.append(("relabel", {"type": "i", "n": 3, "symx": 0, "symy": 2, "dig": "012345"}))
    out.append(("relabel", {"type": "u", "n": 3, "symx": 1, "symy": 1, "dig": "056789"}))
    if tier != "quick":
        out.append(("relabel", {"type": "i", "n": 3, "symx": 1, "symy": 2, "dig": "0123456"}))
        out.append(("relabel", {"type": "i", "n": 4, "symx": 0, "symy": 2, "dig": "01234567"}))
        out.append(("relabel", {"type": "c", "n": 3, "symx": 0, "symy": 3, "dig": "012345"}))
    for iso, sp in ((2, 0), (4, 0), (2, 2), (4, 2), (0, 4), (2, 4), (4, 4)) + (() if tier == "quick" else ((6, 0), (6, 2))):
        out.append(("operators", {"iso": iso, "sp": sp, "col": 0}))
    for iso, sp, col in ((0, 0, 2), (0, 0, 4), (2, 0, 4), (4, 2, 4)) + (() if tier == "quick" else ((0, 0, 6), (4, 4, 4))):
        out.append(("operators", {"iso": iso, "sp": sp, "col": col}))
    return out


class Pair:
    """a two-index tensor, reduced to its indices"""

    def __init__(self, a, b):
        self.indices = [a, b]
        self.args = (None, self.indices)

    def get_indices(self):
        return self.indices


def lab(env, i):
    return (i.index_type, i.is_up, env.lower(env.revive(i.name)))


def same(env, a, b):
    return env.truth(env.eq(lab(env, a), lab(env, b)))


def structure(env, tag, cfg, nsym, base):
    n, t = cfg["n"], cfg["type"]
    labels = []
    for k in range(2 * n):
        if k < 2 * nsym:
            d = env.char(f"{tag}{k}", cfg["dig"])
        else:
            d = base[k]
        labels.append(d)
    # all labels of one structure differ
    env.assume(env.all([env.neq(a, b) for a, b in itertools.combinations(labels, 2)]))
    out = []
    for k in range(n):
        a, b = labels[2 * k], labels[2 * k + 1]
        sa = "" if t == "c" else "-"
        out.append(Pair(core.Index(env.join([sa, t, a])), core.Index(env.join(["-", t, b]))))
    return out


def relabel(env, cfg):
    n = cfg["n"]
    base = cfg["dig"] + "abcdefgh"
    x = structure(env, "x", cfg, cfg["symx"], base)
    y = structure(env, "y", cfg, cfg["symy"], base[::-1] if False else base)
    ix = [i for p in x for i in p.indices]
    iy = [i for p in y for i in p.indices]
    # number the distinct indices, so that comparison needs no solver
    seen = []
    def num(i):
        for k, j in enumerate(seen):
            if i is j or same(env, i, j):
                return k
        seen.append(i)
        return len(seen) - 1
    nx = [frozenset(num(i) for i in p.indices) for p in x]
    ny = [frozenset(num(i) for i in p.indices) for p in y]
    out = con.extract_relabellings(x, y)
    fact = 1
    for k in range(2, n + 1):
        fact *= k
    env.check(len(out) == fact, "one relabelling for each way of pairing up")
    realised = set()
    for m in out:
        sub = {}
        for i, j in m:
            a, b = num(i), num(j)
            env.check(a not in sub, "each index is substituted once")
            env.check(a != b, "no index is replaced by itself")
            sub[a] = b
        image = [frozenset(sub.get(k, k) for k in p) for p in nx]
        env.check(sorted(map(sorted, image)) == sorted(map(sorted, ny)), "first structure becomes the second")
        realised.add(tuple(ny.index(p) if p in ny else -1 for p in image))
        env.check(all(k in {v for p in nx for v in p} for k in sub), "only indices of the first structure are replaced")
    env.check(len(realised) == fact, "every pairing is realised")
    env.check((set(nx) == set(ny)) == any(not m for m in out), "identical structures need no relabelling")
    env.observe("sizes", sorted(len(m) for m in out))


def pairings(xs):
    if not xs:
        yield []
        return
    a, rest = xs[0], xs[1:]
    for k, b in enumerate(rest):
        for p in pairings(rest[:k] + rest[k + 1:]):
            yield [(a, b)] + p


def operators(env, cfg):
    iso = [f"i{k}" for k in range(cfg["iso"])]
    sp = [f"u{k}" for k in range(cfg["sp"])]
    col = [("c" if k % 2 == 0 else "-c") + str(k) for k in range(cfg["col"])]
    base = core.Field("Z", "00000", charges={"y": env.rat("z")})("")
    for k in range(max(len(iso), len(sp), len(col))):
        d = ("1" if k < len(sp) else "0") + "0" + ("00" if k >= len(col) else "10" if k % 2 == 0 else "01") + ("1" if k < len(iso) else "0")
        f = core.Field("ABEFGJ"[k], d, charges={"y": env.rat(f"y{k}")})
        base = base * f(" ".join(s[k] for s in (sp, col, iso) if k < len(s)))
    ops = []
    for pi in pairings(iso):
        for pu in pairings(sp):
            for pc in itertools.permutations(col[::2]):
                o = base
                for a, b in pi + pu:
                    o = o * core.eps(f"-{a} -{b}")
                for a, b in zip(pc, col[1::2]):
                    o = o * core.delta(f"{b[1:]} -{a}")
                ops.append(o)
    step = max(1, len(ops) ** 2 // 60)
    for a, b in list(itertools.product(ops, repeat=2))[::step] + [(o, o) for o in ops[:5]]:
        r = con.compare_singlets(a, b)
        if a is b:
            env.check(r[0] is True and len(r[1]) == 0, "identical operators need no relabelling")
            continue
        # contracted indices are numbered along the fields, alike in both
        symbol = lambda f: str(f).startswith(("Eps", "metric", "KD"))
        sets = lambda o: [frozenset(str(i) for i in e.indices) for e in o.args if symbol(e)]
        slots = lambda o: [[str(i) for i in f.indices] for f in o.args if not symbol(f)]
        env.check(slots(a) == slots(b), "same slots")
        want = set(sets(b))
        n = 1
        for g in (iso, sp, col):
            for k in range(2, len(g) // 2 + 1):
                n *= k
        env.check(len(r) == n, "every combination of relabellings")
        for m in r:
            sub = {}
            for i, j in m:
                env.check(str(i) not in sub, "each index is substituted once")
                sub[str(i)] = str(j)
            env.check({frozenset(sub.get(k, k) for k in p) for p in sets(a)} == want, "one operator becomes the other")


HARNESSES = {"relabel": relabel, "operators": operators}
