"""Closure rewriting conserves the charges and counts couplings and loops."""
import contextlib

from dbs import *

BOUNDS = {
    "states": "every multiset of fields and constants with at most 1000 copies of each (the rewriting step is checked once for all of them)",
    "runs": "rewriting to the end from every multiset of at most four (quick) or five fields taken from the stated families",
    "estimates": "one or two closed products of up to six constants",
    "fixed point": "every map on five states and up to six iterations",
}
ASSUMPTIONS = [
    "matchpy's match and substitute are replaced by their meaning for patterns with one rest wildcard: the rule applies when its fields are present and something is left over.",
    "Conserved quantities: electric charge, lepton and baryon number, statistics, number of doublets modulo two, each Yukawa coupling with the singlets it couples modulo two, and Euler's formula for the number of loops.",
]
BUDGET = {"quick": 200, "thorough": 800}

# three times the electric charge, lepton number, three times the baryon number, fermion, doublet
FIELDS = {
    "e": (-3, 1, 0, 1, 1), "nu": (0, 1, 0, 1, 1), "u": (2, 0, 1, 1, 1), "d": (-1, 0, 1, 1, 1),
    "h0": (0, 0, 0, 0, 1), "hp": (3, 0, 0, 0, 1), "eb": (3, -1, 0, 1, 0), "ub": (-2, 0, -1, 1, 0),
    "db": (1, 0, -1, 1, 0), "W": (-3, 0, 0, 0, 0),
}
YUKAWA = {"ye": "eb", "yu": "ub", "yd": "db"}
CONSTS = ("nunu", "g2", "loop", "loopv2", "ye", "yu", "yd", "v")


def load():
    global M
    M = load_dbs()


def key(x):
    """name of a matchpy expression"""
    if getattr(x, "operands", ()):
        return f"{x.head.name}({','.join(key(o) for o in x.operands)})"
    return x.name


def quantities():
    """{quantity: ({symbol: value}, modulus)}"""
    out = {}
    for k, name in enumerate(("electric charge", "lepton number", "baryon number")):
        w = {}
        for f, q in FIELDS.items():
            w[f], w[f"c({f})"] = q[k], -q[k]
        if k == 1:
            w["Const(nunu)"] = 2
        out[name] = (w, 0)
    out["number of fermions modulo two"] = ({g: q[3] for f, q in FIELDS.items() for g in (f, f"c({f})")}, 2)
    out["number of doublets and vevs modulo two"] = ({**{g: q[4] for f, q in FIELDS.items() for g in (f, f"c({f})")}, "Const(v)": 1}, 2)
    for y, f in YUKAWA.items():
        out[f"{y} and {f} modulo two"] = ({f: 1, f"c({f})": 1, f"Const({y})": 1}, 2)
    # twice the loops of the diagram by Euler's formula
    w = {g: 1 for f in FIELDS for g in (f, f"c({f})")}
    w.update({"W": 2, "c(W)": 2, "Const(nunu)": 2, "Const(v)": 1, "Const(loop)": 2, "Const(loopv2)": 2, "Const(g2)": -2})
    w.update({f"Const({y})": -1 for y in YUKAWA})
    out["loops by Euler's formula"] = (w, 0)
    return out


class Bag:
    """A commutative product with symbolic multiplicities"""

    def __init__(self, counts):
        self.counts = counts

    def __eq__(self, other):
        if not isinstance(other, Bag):
            return NotImplemented
        r = True
        for k in {*self.counts, *other.counts}:
            r = r & (self.counts.get(k, 0) == other.counts.get(k, 0))
        return r

    def __ne__(self, other):
        r = self == other
        return ~r if not isinstance(r, bool) else not r

    __hash__ = None

    def __repr__(self):
        return "Op(...)"

    def __iter__(self):
        for k in sorted(self.counts):
            for _ in range(int(self.counts[k])):
                yield Item(k)


class Item:
    def __init__(self, k):
        self.k = k
        self.head = self
        self.name = k.partition("(")[0]
        self.operands = [k.partition("(")[2][:-1]] if "(" in k else []


def parts(expr):
    """({symbol: number}, has a rest wildcard)"""
    from matchpy import Wildcard

    need, rest = {}, 0
    for o in expr.operands:
        if isinstance(o, Wildcard):
            rest += 1
        else:
            need[key(o)] = need.get(key(o), 0) + 1
    return need, rest


@contextlib.contextmanager
def closures(env):
    cl = M["clos"]
    if not env.symbolic:
        yield cl
        return
    old = cl.match, cl.substitute

    def match(subject, pattern):
        if not isinstance(subject, Bag):
            yield from old[0](subject, pattern)
            return
        need, rest = parts(pattern.expression)
        assert rest == 1
        left = {k: n - need.get(k, 0) for k, n in subject.counts.items()}
        if any(k not in subject.counts for k in need):
            return
        conds = [left[k] >= 0 for k in need] + [total(left.values()) >= 1]
        if all(c for c in conds if isinstance(c, bool)) and env.truth(env.all(conds)):
            yield {"rst": Bag(left)}

    def substitute(pattern, subs):
        if not isinstance(subs.get("rst"), Bag):
            return old[1](pattern, subs)
        add, rest = parts(pattern.expression)
        counts = dict(subs["rst"].counts) if rest else {}
        for k, n in add.items():
            counts[k] = counts.get(k, 0) + n
        return Bag(counts)

    cl.match, cl.substitute = match, substitute
    try:
        yield cl
    finally:
        cl.match, cl.substitute = old


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def state(env, cl, counts):
    """the product with these multiplicities: a Bag or matchpy's own"""
    if env.symbolic:
        return Bag(counts)
    return cl.Op(*[symbol(cl, k) for k, n in counts.items() for _ in range(n)])


def symbol(cl, k):
    from matchpy import Symbol

    head, _, arg = k.partition("(")
    if not arg:
        return Symbol(k)
    return {"c": cl.c, "Const": cl.Const}[head](Symbol(arg[:-1]))


def counts_of(s):
    if isinstance(s, Bag):
        return s.counts
    out = {}
    for o in s:
        out[key(o)] = out.get(key(o), 0) + 1
    return out


def alphabet(rules):
    out = {f for f in FIELDS} | {f"c({f})" for f in FIELDS} | {f"Const({c})" for c in CONSTS}
    for k, v in rules.items():
        for x in (k, v):
            out |= set(parts(x)[0])
    return sorted(out)


def conserved(env, before, after, what=""):
    for name, (w, mod) in quantities().items():
        a = total(n * w.get(k, 0) for k, n in before.items())
        b = total(n * w.get(k, 0) for k, n in after.items())
        env.check(env.eq(a, b) if not mod else env.eq((a - b) % mod, 0), f"{what}: {name}")


def configs(tier):
    out = [("step", {})]
    n = 4 if tier == "quick" else 5
    for fam in sorted(FAMILIES):
        out.append(("run", {"family": fam, "n": n}))
    for n in (1, 3, 4) if tier == "quick" else (1, 3, 4, 5, 6):
        out.append(("estimate", {"n": n, "lists": 1}))
    out += [("estimate", {"n": 2 if tier == "quick" else 3, "lists": 2})]
    out += [("iterate", {"max": m}) for m in ((1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6))]
    return out


def step(env, cfg):
    """one application of the rules to any product"""
    with closures(env) as cl:
        keys = alphabet(cl.RULES)
        counts = {k: env.int("n_" + k.replace("(", "_").replace(")", ""), 0, 1000) for k in keys}
        start = state(env, cl, counts)
        end = cl.apply_rules(cl.RULES, start)
        after = counts_of(end)
        conserved(env, counts, after, "one rewriting step")
        # a pair of a field and its conjugate is closed to one loop
        # with nothing but neutral pairs the rules only close free loops
        pairs = [f for f in FIELDS if f != "W"]
        free = env.all([env.eq(counts[f], counts[f"c({f})"]) for f in pairs] + [env.eq(counts["W"], 0), env.eq(counts.get("c(W)", 0), 0), counts["nu"] <= 1, total(counts.values()) >= 3])
        changed = total(env.ite(env.neq(counts.get(k, 0), after.get(k, 0)), 1, 0) for k in {*counts, *after} if k[:5] != "Const")
        loops = lambda c: total(c.get(k, 0) for k in ("Const(loop)", "Const(loopv2)"))
        others = env.all([env.eq(counts.get(f"Const({k})", 0), after.get(f"Const({k})", 0)) for k in CONSTS if k[:4] != "loop"])
        env.check(env.implies(free, env.all([others, env.any([env.eq(changed, 0), env.eq(loops(after), loops(counts) + 1)])])),
                  "free loops give one loop factor each and nothing else")
        fields = total(n for k, n in counts.items() if k[:5] != "Const")
        env.check(env.implies(env.all([free, fields >= 1]), changed >= 1), "free loops are closed")


FAMILIES = {
    "leptons": ["e", "nu", "eb", "c(eb)", "h0", "hp"],
    "conjugates": ["nu", "c(e)", "c(nu)", "e", "c(h0)", "c(hp)"],
    "quarks": ["nu", "u", "c(d)", "c(eb)", "hp", "h0"],
    "singlets": ["nu", "db", "c(ub)", "c(eb)", "hp", "c(hp)"],
    "mixed": ["nu", "d", "db", "c(u)", "c(ub)", "hp"],
    "w": ["e", "nu", "u", "ub", "c(d)", "c(db)"],
}


def run(env, cfg):
    """rewriting to the end"""
    with closures(env) as cl:
        fam = FAMILIES[cfg["family"]]
        counts = {k: env.int("n_" + k.replace("(", "_").replace(")", ""), 0, cfg["n"]) for k in fam}
        env.assume(total(counts.values()) <= cfg["n"])
        env.assume(total(counts.values()) >= 1)
        end = cl.fixed_point(state(env, cl, counts), max_iterations=40)
        after = counts_of(end)
        conserved(env, counts, after, "rewriting to the end")
        env.check(env.truth(cl.apply_rules(cl.RULES, end) == end), "nothing is left to rewrite")
        closed = env.truth(env.all([env.eq(n, 0) for k, n in after.items() if k[:5] != "Const"]))
        got = cl.clean(end)
        env.check((isinstance(got, list)) == closed, "a product is closed when only constants are left")
        if not closed:
            env.check(cl.neutrino_mass_estimate([end]) == [], "products that do not close are left out")
        elif env.truth(env.eq(after.get("Const(nunu)", 0), 1)):
            # vevs of a closed diagram come in pairs
            doublets = total(n for k, n in counts.items() if FIELDS[k[2:-1] if k[:2] == "c(" else k][4])
            env.assume(doublets % 2 == 0)
            out = cl.neutrino_mass_estimate([end])
            env.check(len(out) == 1, "a closed product with two neutrinos has one estimate")


def estimate(env, cfg):
    """the estimate collects the constants of closed products"""
    import sympy

    cl = M["clos"]
    n = cfg["n"]
    lists, want = [], []
    for j in range(cfg["lists"]):
        codes, last = [], 0
        for k in range(n):
            c = env.pick(f"c{j}_{k}", list(range(last, len(CONSTS) + 1)))
            codes.append(c)
            last = c
        names = [CONSTS[c] if c < len(CONSTS) else None for c in codes]
        if None not in names:
            env.assume(names.count("nunu") == 1 and names.count("v") % 2 == 0 and names.count("v") >= 2)
        # some order other than the sorted one
        r = env.pick(f"r{j}", list(range(min(n, 3))))
        names = names[r:] + names[:r]
        lists.append(cl.Op(*[cl.Const(symbol(cl, x)) if x else cl.hp for x in names]))
        if None in names:
            continue
        vs = names.count("v")
        powers = {x: names.count(x) for x in CONSTS if x not in ("nunu", "v")}
        powers["loopv2"] += (vs - 2) // 2
        want.append(powers)
    got = cl.neutrino_mass_estimate(lists)
    env.check(len(got) == len(want), "one estimate for every closed product")
    S = sympy.Symbol
    for g, w in zip(got, want):
        d = sympy.Mul(*[S(x) ** p for x, p in w.items()]) * S("v") ** 2 / S("Λ")
        env.check(g == d, "an estimate is the product of its constants, two vevs and the inverse scale")


def iterate(env, cfg):
    """fixed_point repeats the rules until nothing changes"""
    cl = M["clos"]
    size = 5
    table = [env.int(f"f{k}", 0, size - 1) for k in range(size)]
    start = env.int("start", 0, size - 1)

    def f(x):
        y = table[size - 1]
        for k in range(size - 1):
            y = env.ite(env.eq(x, k), table[k], y)
        return y

    rules, calls = {"marker": 1}, []

    def apply_rules(rs, subject):
        calls.append(rs is rules)
        return f(subject)

    old = cl.apply_rules
    cl.apply_rules = apply_rules
    try:
        got = cl.fixed_point(start, rules=rules, max_iterations=cfg["max"])
    finally:
        cl.apply_rules = old
    x, fixed = start, False
    for _ in range(cfg["max"]):
        x = f(x)
    # stopping early at a fixed point gives the same state
    env.check(env.eq(got, x), "the rules are applied until nothing changes or the limit is reached")
    env.check(all(calls), "the given rules are applied")


HARNESSES = {"step": step, "run": run, "estimate": estimate, "iterate": iterate}
