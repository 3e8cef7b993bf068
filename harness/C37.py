"""Operator components are expanded completely and with the right signs."""
from dbs import *

BOUNDS = {
    "operators": "two to eight isospin doublets among L, Q, H (each plain or conjugated) contracted by one to four epsilons in every pairing, up to three isospin singlets among eb, ub, db, and at most one derivative; fields and epsilons in either order",
    "components": "every assignment of isospin components (solver variables)",
    "index names": "three kinds of names, among them names that start alike",
}
ASSUMPTIONS = ["Operators are fully contracted in isospin by epsilons, as the catalogue's are; other invariants are left out as they are there."]
BUDGET = {"quick": 200, "thorough": 800}

# doublets (paired in order), singlets, pairing as positions
OPS = {
    "LH": ("LH", [], [(0, 1)]), "HH": ("HH", ["eb"], [(1, 0)]), "LQ": ("LQ", ["db", "ub"], [(0, 1)]),
    "LLHH": ("LLHH", [], [(0, 2), (1, 3)]), "LLHHb": ("LLHH", ["eb"], [(0, 1), (3, 2)]), "LLLH": ("LLLH", ["eb"], [(0, 1), (2, 3)]), "LLQH": ("LLQH", ["db"], [(0, 2), (3, 1)]),
    "six": ("LLQQHH", ["db", "db"], [(0, 2), (1, 4), (3, 5)]), "sixb": ("LLLHHH", ["ub", "eb", "db"], [(5, 0), (1, 4), (2, 3)]),
}
MORE = {"eight": ("LLQQHHHH", ["db"], [(0, 4), (1, 5), (2, 6), (3, 7)]), "eightb": ("LLLLHHHH", ["eb"], [(0, 1), (7, 2), (3, 4), (5, 6)])}
NAMES = {"plain": ["i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"], "fresh": ["i8_", "i9_", "i10_", "i11_", "i12_", "i18_", "i28_", "i1_"], "alike": ["i1", "i11", "i10", "i12", "i13", "i2", "i20", "i21"]}
# (component, charge) for isospin up and down
PARTS = {"L": ["nu", "e"], "Q": ["u", "d"], "H": ["hp", "h0"], "L*": ["c(e)", "c(nu)"], "Q*": ["c(d)", "c(u)"], "H*": ["c(h0)", "c(hp)"]}
CHARGE = {"nu": 0, "e": -3, "u": 2, "d": -1, "hp": 3, "h0": 0, "eb": 3, "ub": -2, "db": 1}  # times three
Y = {"L": -3, "Q": 1, "H": 3, "eb": 6, "ub": -4, "db": 2}  # twice the hypercharge, times three


def load():
    global M
    M = load_dbs()
    M["core"] = repo("tensormethod.core")
    M["sm"] = repo("tensormethod.sm")
    M["ccore"] = repo("completions.core")


def configs(tier):
    out = []
    for o in {**OPS, **(MORE if tier != "quick" else {})}:
        n = len({**OPS, **MORE}[o][0])
        for k in NAMES:
            if tier == "quick" and n == 6 and (k, o) not in (("plain", "six"), ("alike", "sixb")):
                continue
            out.append(("expand", {"op": o, "names": k, "tier": tier}))
    if tier == "quick":
        out.append(("expand", {"op": "eight", "names": "fresh", "tier": tier, "free": 2}))
    return out + [("derivative", {"op": o, "at": i, "kind": k}) for o in ("LH", "LLHH", "LLQH") for i in range(len(OPS[o][0])) for k in ("11", "00", "low")]


def symbol(f, conj):
    return f"c({f})" if conj else f


def make(env, cfg, conjs, deriv=None):
    core, sm = M["core"], M["sm"]
    doublets, singlets, pairs = {**OPS, **MORE}[cfg["op"]]
    names = NAMES[cfg.get("names", "fresh")]
    ts = []
    for k, f in enumerate(doublets):
        x = getattr(sm, f)
        x = x.conj if conjs[k] else x
        if deriv and deriv[0] == k:
            kind = deriv[1]
            a, b = int(x.dynkin[0]), int(x.dynkin[1])
            if kind == "11" and a + b:
                kind = "21" if a else "12"
            elif kind == "00":
                kind = "11" if a + b == 0 else ("01" if a else "10")
            elif kind == "low":
                kind = "11" if a + b == 0 else ("01" if a else "10")
            x = core.D(x, kind)
        ts.append(x(indices(x, k, names[k])))
    ns = []
    for k, f in enumerate(singlets):
        x = getattr(sm, f)
        conj = conjs[len(doublets) + k]
        x = x.conj if conj else x
        ns.append(x(indices(x, 10 + k, None)))
    es = [core.eps(f"-{names[i]} -{names[j]}") for i, j in pairs]
    return ts, ns, es, pairs


def indices(x, k, iso):
    u, d, cu, cd, i = map(int, x.dynkin)
    out = [f"u{k}{n}" for n in range(u)] + [f"d{k}{n}" for n in range(d)] + [f"c{k}{n}" for n in range(cu)] + [f"-c{k}{n}" for n in range(cd)]
    out += [iso] if i else []
    if x.nf > 1:
        out.append(f"g{k}")
    return " ".join(out)


def product(ts):
    op = None
    for t in ts:
        op = t if op is None else op * t
    return op


def expected(cfg, conjs, bits):
    doublets, singlets, _ = {**OPS, **MORE}[cfg["op"]]
    out = [PARTS[f + ("*" if conjs[k] else "")][bits[k]] for k, f in enumerate(doublets)]
    return out + [symbol(f, conjs[len(doublets) + k]) for k, f in enumerate(singlets)]


def texts(op):
    """the fields of a component product, as text, in a fixed order"""
    def one(x):
        return f"c({one(x.operands[0])})" if x.head.name == "c" else x.name
    return sorted(one(x) for x in op)


def run(env, cfg, op, conjs, pairs):
    doublets, singlets, _ = {**OPS, **MORE}[cfg["op"]]
    n = len(doublets)
    wrap = env.pick("wrap", [False, True])
    got = M["clos"].parse_operator(M["ccore"].EffectiveOperator("x", op) if wrap else op)
    outs = [texts(g) for g in got]
    env.check(len(outs) == 2 ** len(pairs), "one product for every assignment on which no epsilon vanishes")
    names = sorted({t for o in outs for t in o} | {t for b in (0, 1) for t in expected(cfg, conjs, [b] * n)})
    # every assignment on which no epsilon vanishes, as solver variables
    bits = [env.int(f"b{k}", 0, 1) for k in range(n)]
    ok = env.all([env.neq(bits[i], bits[j]) for i, j in pairs])
    fixed = [symbol(f, conjs[n + k]) for k, f in enumerate(singlets)]
    def number(name):
        up = [PARTS[f + ("*" if conjs[k] else "")] for k, f in enumerate(doublets)]
        return env.sum([env.ite(env.eq(bits[k], up[k].index(name)), 1, 0) for k in range(n) if name in up[k]] + [fixed.count(name)])
    counts = {t: number(t) for t in names}
    hit = env.any([env.all([env.eq(counts[t], o.count(t)) for t in names]) for o in outs])
    env.check(env.implies(ok, hit), "every assignment on which no epsilon vanishes has its product")
    # as many copies of a product as assignments that give it
    import itertools

    want = sorted(sorted(expected(cfg, conjs, b)) for b in itertools.product((0, 1), repeat=n) if all(b[i] != b[j] for i, j in pairs))
    env.check(sorted(outs) == want, "each assignment gives one product and nothing else is listed")
    # electric charge (times six) is the hypercharge for every product
    sign = lambda t: -CHARGE[t[2:-1]] if t[:2] == "c(" else CHARGE[t]
    y = sum((-1 if c else 1) * Y[f] for f, c in zip(list(doublets) + list(singlets), conjs))
    env.check(all(2 * sum(sign(t) for t in o) == y for o in outs), "electric charge of a product is the operator's hypercharge")


def expand(env, cfg):
    doublets, singlets, _ = {**OPS, **MORE}[cfg["op"]]
    n = len(doublets) + len(singlets)
    free = cfg.get("free", n if cfg["tier"] != "quick" else 4)
    conjs = [env.pick(f"conj{k}", [False, True]) if k < free else k % 2 == 0 for k in range(n)]
    ts, ns, es, pairs = make(env, cfg, conjs)
    order = env.pick("order", ["fields first", "mixed", "epsilons first"])
    all_ = {"fields first": ts + ns + es, "mixed": ns + ts[::-1] + es[::-1], "epsilons first": [x for p in zip(ts, es) for x in p] + ts[len(es):] + ns}[order]
    op = product(all_)
    before = [str(t) for t in op.tensors]
    run(env, cfg, op, conjs, pairs)
    env.check([str(t) for t in op.tensors] == before, "the operator is left alone")


def derivative(env, cfg):
    doublets, singlets, _ = OPS[cfg["op"]]
    n = len(doublets) + len(singlets)
    conjs = [env.pick(f"conj{k}", [False, True]) for k in range(len(doublets))] + [False] * len(singlets)
    ts, ns, es, pairs = make(env, cfg, conjs, (cfg["at"], cfg["kind"]))
    env.check(sum(t.derivs for t in ts) == 1, "one derivative")
    run(env, cfg, product(ts + ns + es), conjs, pairs)


HARNESSES = {"expand": expand, "derivative": derivative}
