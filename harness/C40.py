"""Loop counts, leading estimates and subsets."""
import contextlib
from fractions import Fraction

from dbs import *

BOUNDS = {
    "loop factors": "powers of loop and loopv2 up to seven each (solver variables)",
    "estimates": "one to three (thorough: four) estimates of any numerical size (solver variables), ties included",
    "sets": "up to five elements, equal ones included (solver variables)",
}
ASSUMPTIONS = [
    "An estimate's numerical mass and scale are solver variables in place of the evaluated expression; its powers of loop factors are solver variables in place of sympy's coefficients of a monomial.",
    "Scales closer than 0.01 TeV, the last digit of the table, and equal leading estimates may be exchanged.",
]
BUDGET = {"quick": 200, "thorough": 800}


def load():
    global M
    M = load_dbs()
    M["u"] = repo("database.utils")


def configs(tier):
    q = tier == "quick"
    out = [("loops", {"g2": g}) for g in (0, 1)]
    out += [("leading", {"n": n}) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    out += [("scales", {"n": n}) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    out += [("table", {"n": n, "top": (7, 2, 1)[n - 1] if q else (7, 5, 2)[n - 1]}) for n in (1, 2, 3)]
    out += [("subsets", {"n": n}) for n in ((0, 1, 2, 3, 4, 5) if q else (0, 1, 2, 3, 4, 5, 6))]
    return out


class Monomial:
    """A product of powers; the coefficient of x**n is there when x has exactly
    that power"""

    def __init__(self, powers):
        self.powers = powers

    def coeff(self, x, n=1):
        b, e = x.as_base_exp()
        return self.powers.get(str(b), 0) == int(e) * n

    def as_powers_dict(self):
        import collections, sympy

        d = collections.defaultdict(int)
        d.update({sympy.Symbol(k): v for k, v in self.powers.items()})
        return d


def monomial(env, powers):
    if env.symbolic:
        return Monomial(powers)
    import sympy

    e = sympy.Symbol("v") ** 2 / sympy.Symbol("Λ")
    for k, p in powers.items():
        e = e * sympy.Symbol(k) ** int(p)
    return e


@contextlib.contextmanager
def replaced(**kw):
    u = M["u"]
    old = {k: getattr(u, k) for k in kw}
    for k, f in kw.items():
        setattr(u, k, f)
    try:
        yield u
    finally:
        for k, f in old.items():
            setattr(u, k, f)


def loops(env, cfg):
    a, b = env.int("loop", 0, 7), env.int("loopv2", 0, 7)
    n, extra = M["u"].loop_data(monomial(env, {"loop": a, "loopv2": b, "g2": cfg["g2"]}))
    env.check(env.eq(n, a), "the number of loops is the power of the loop factor")
    want = len(extra) == 0 if not env.truth(b > 0) else env.all([env.eq(len(extra), b + 1)] + [env.eq(x, k) for k, x in enumerate(extra)])
    env.check(want, "the extra loops are every number up to the power of the vev-or-loop factor")


class Op:
    pass


def leading(env, cfg):
    op, es = Op(), [Op() for _ in range(cfg["n"])]
    masses = [env.rat(f"m{k}") for k in range(cfg["n"])]
    env.assume(env.all([m > 0 for m in masses]))
    asked = []

    def estimates(o):
        asked.append(o is op)
        return list(es)

    with replaced(neutrino_mass_estimate=estimates, numerical_mv=lambda e: masses[es.index(e)]) as u:
        got = u.get_leading_mv(op)
    env.check(any(got is e for e in es), "the leading estimate is one of the operator's")
    env.check(asked == [True], "the operator's estimates are used")
    best = masses[[k for k, e in enumerate(es) if e is got][0]]
    env.check(env.all([m <= best for m in masses]), "no estimate exceeds the leading one")


def scales(env, cfg):
    op, es = Op(), [Op() for _ in range(cfg["n"])]
    values = [env.rat(f"s{k}") for k in range(cfg["n"])]
    with replaced(neutrino_mass_estimate=lambda o: list(es) if o is op else [], numerical_np_scale_estimate=lambda e: values[es.index(e)]) as u:
        got = u.estimate_np_scale(op)
    env.check(len(got) == len(values), "one scale for every estimate")
    env.check(env.all([env.eq(g, v) for g, v in zip(got, values)]), "each estimate's own scale, in order")


class Scale:
    """a scale shown by its name"""

    def __init__(self, value, name):
        self.value, self.name = value, name

    def __round__(self, n=None):
        return round(self.value, n) if n is not None else round(self.value)

    def __lt__(self, other):
        return self.value < other.value

    def __gt__(self, other):
        return self.value > other.value

    def __str__(self):
        return self.name

    def __format__(self, spec):
        return self.name


def table(env, cfg):
    op, n, top = Op(), cfg["n"], cfg["top"]
    powers = [(env.pick(f"l{k}", list(range(top + 1))), env.pick(f"v{k}", list(range(top + 1)))) for k in range(n)]
    es = [Op() for _ in range(n)]
    values = [env.rat(f"s{k}") for k in range(n)]
    find = lambda e: [k for k, x in enumerate(es) if x is e][0]

    def data(e):
        a, b = powers[find(e)]
        return a, list(range(b + 1)) if b else []

    with replaced(neutrino_mass_estimate=lambda o: list(es), numerical_np_scale_estimate=lambda e: Scale(values[find(e)], f"scale{find(e)}"), loop_data=data) as u:
        loops, text = u.table_data(op)
    # the row belongs to an estimate with the greatest scale
    ok = []
    for k, (a, b) in enumerate(powers):
        want = ",".join(str(a + i) for i in range(b + 1)) if b else str(a)
        if (loops, text) == (want, "\\mynum{scale%d}" % k):
            ok.append(env.all([w <= values[k] + Fraction(1, 100) for w in values]))
    env.check(env.any(ok), "a row has the greatest scale and its numbers of loops")


def subsets(env, cfg):
    n = cfg["n"]
    items = [env.int(f"x{k}", 0, 3) for k in range(n)]
    before = list(items)
    got = M["u"].subsets(items)
    env.check(len(got) == 2 ** n, "as many subsets as there are")
    env.check([len(g) for g in got] == sorted(len(g) for g in got), "subsets in order of size")
    marks = [object() for _ in range(n)]
    picks = [frozenset(marks.index(x) for x in g) for g in M["u"].subsets(list(marks))]
    env.check(len(set(picks)) == 2 ** n and all(len(p) == len(g) for p, g in zip(picks, M["u"].subsets(list(marks)))), "every subset once")
    env.check(env.all([env.all([env.eq(len(g), len(p))] + [env.eq(a, items[k]) for a, k in zip(g, sorted(p))]) for g, p in zip(got, picks)]), "subsets keep the elements and their order")
    env.check(len(items) == n and env.all([env.eq(a, b) for a, b in zip(items, before)]), "the list stays as it was")


HARNESSES = {"loops": loops, "leading": leading, "scales": scales, "table": table, "subsets": subsets}
