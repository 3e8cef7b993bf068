"""Model databases with symbolic contents, shared by harnesses."""
import contextlib
import itertools
import sys

from hlib import *

SMN = ("L", "H", "Q", "ub", "db", "eb")
# kind of an exotic: Lorentz type, colour digits, isospin digit
KINDS = {"s": "S,00,0", "t": "S,10,0", "a": "S,01,0", "f": "F,00,1", "g": "F,11,2"}


def load_dbs():
    from symx import instrument

    g = {"db": instrument.load_database()}
    g["ops"] = repo("completions.operators")
    g["fn"] = repo("utils.functions")
    g["comps"] = sys.modules["neutrinomass.completions"]
    g["pkg"] = sys.modules["neutrinomass.database"]
    g["clos"] = sys.modules["neutrinomass.database.closures"]
    return g


class Maker:
    """Texts of fields with symbolic charges.  A code is a kind letter (new
    charges; a prime for a symbolic baryon number), a capital letter (the same
    field at every occurrence) or an SM name; a star conjugates."""

    def __init__(self, env):
        self.env, self.n, self.named = env, 0, {}

    def field(self, code):
        """(text, (kind, y, b))"""
        env = self.env
        conj = code.endswith("*")
        name = code.rstrip("*")
        if name in SMN:
            return name + (".conj" if conj else ""), ("SM" + name, conj, 0)
        if name in "ABCDE":
            kind = "S,00,0"
            if name not in self.named:
                self.named[name] = env.rat("y" + name)
            y, b = self.named[name], 0
        else:
            kind = KINDS[name[0]]
            y = env.rat(f"y{self.n}")
            b = env.rat(f"b{self.n}") if "'" in name else 0
            self.n += 1
        if conj:
            l, c, i = kind.split(",")
            kind, y, b = ",".join([l, c[::-1], i]), -y, -b
        return env.join([kind + ",", env.str_of(y), ",", env.str_of(b) if not isinstance(b, int) else str(b)]), (kind, y, b)

    def fields(self, codes):
        xs = [self.field(c) for c in codes]
        return [t for t, _ in xs], [w for _, w in xs]

    def model(self, M, op, codes, terms=()):
        ts, ws = self.fields(codes)
        tt = [self.fields(t) for t in terms]
        m = M["db"].LazyCompletion(head={"quantum_numbers": ts, "operator_name": op, "terms": [list(t) for t, _ in tt], "topology": "T"},
                                   tail=f"('forced', {self.n}, {op!r})")
        m.what, m.tell = ws, [w for _, w in tt]
        return m


def conj(w):
    k, y, b = w
    if k[:2] == "SM":
        return k, not y, b
    l, c, i = k.split(",")
    return ",".join([l, c[::-1], i]), -y, -b


def exact(env, a, b):
    if a[0] != b[0]:
        return False
    if a[0][:2] == "SM":
        return a[1] == b[1]
    return env.all([env.eq(a[1], b[1]), env.eq(a[2], b[2])])


def alike(env, a, b):
    return env.any([exact(env, a, b), exact(env, a, conj(b))])


def same_term(env, a, b):
    """equal multisets of fields, up to conjugating all of them"""
    if len(a) != len(b):
        return False
    def perm(c):
        return env.any([env.all([exact(env, x, y) for x, y in zip(a, p)]) for p in itertools.permutations(c)])
    return env.any([perm(b), perm([conj(x) for x in b])])


def contained(env, xs, ys, same, dedupe):
    """multiset inclusion; dedupe: equal entries of a list count once"""
    def weights(l):
        if not dedupe:
            return [True] * len(l)
        return [env.not_(env.any([exact(env, l[k], l[j]) for j in range(k)])) if k else True for k in range(len(l))]
    wx, wy = weights(xs), weights(ys)
    def count(x, l, w):
        return env.sum([env.ite(env.all([same(env, x, z), v]), 1, 0) for z, v in zip(l, w)])
    return env.all([count(x, xs, wx) <= count(x, ys, wy) for x in xs])


def inside(env, D, a, b):
    """the content of model a is contained in that of model b"""
    if D.philosophy == "democratic":
        return contained(env, a.what, b.what, alike, True)
    return contained(env, a.tell, b.tell, same_term, False)


def equal(env, D, a, b):
    return env.all([inside(env, D, a, b), inside(env, D, b, a)])


class FakeOp:
    def __init__(self, name, dim):
        self.name, self.mass_dimension = name, dim


@contextlib.contextmanager
def operators(M, dims, scales=None):
    """the catalogue of operators and their scales are replaced

    dims: name -> dimension; scales: name -> list of scales (its estimates)"""
    eff = {k: FakeOp(k, d) for k, d in dims.items()}
    first = list(eff)[: len(eff) // 2]
    new = {"EFF_OPERATORS": {k: eff[k] for k in first}, "DERIV_EFF_OPERATORS": {k: v for k, v in eff.items() if k not in first}}
    if scales is not None:
        new["neutrino_mass_estimate"] = lambda op, *a, **k: [(op.name, i) for i in range(len(scales[op.name]))]
        new["numerical_np_scale_estimate"] = lambda e: scales[e[0]][e[1]]
    old = []
    for mod in (M["comps"], M["ops"], M["pkg"], M["clos"], M["db"]):
        for k, v in new.items():
            if hasattr(mod, k):
                old.append((mod, k, getattr(mod, k)))
                setattr(mod, k, v)
    try:
        yield eff
    finally:
        for mod, k, v in old:
            setattr(mod, k, v)


def snapshot(D):
    return [(k, list(v)) for k, v in D.data.items()]


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))


def build(env, M, spec, by="democratic", criterion="mass"):
    """a database of the stated contents; spec: operator -> [(field codes, term codes)]"""
    mk = Maker(env)
    data = {k: [mk.model(M, k, f, t) for f, t in ms] for k, ms in spec.items()}
    D = M["db"].ModelDatabase("", philosophy=by, criterion=criterion, data=data)
    D.maker = mk
    return D


def among(m, l):
    return any(m is x for x in l)


def check_kept(env, D, before, gone, what):
    """what is left of the models: the operators and their order, the models'
    order, and gone(op, model) exactly for the models that went"""
    env.check(list(D.data) == [k for k, _ in before], what + " keeps the operators and their order")
    for k, l in before:
        left = [m for m in l if among(m, D.data[k])]
        env.check(len(left) == len(D.data[k]) and all(a is b for a, b in zip(left, D.data[k])), what + " keeps the surviving models in order")
        for m in l:
            env.check(env.iff(gone(k, m), not among(m, left)), what + " removes exactly the stated models")
            env.cover("removed" if not among(m, left) else "kept")
