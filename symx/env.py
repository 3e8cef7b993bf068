"""The interface between harnesses and the two ways of running them."""
from fractions import Fraction

import z3

from . import values as V
from .engine import Engine, Violation, PathAbort, Unsupported
from .values import SymBool, SymInt, SymRat, SymStr


def reset_state():
    """Bring global counters to a fixed state so that runs can be repeated."""
    import sympy.tensor.tensor as st
    import sys

    core = sys.modules.get("neutrinomass.tensormethod.core")
    if core is not None:
        for n in ("ISOSPIN", "COLOUR", "GENERATION", "UNDOTTED", "DOTTED"):
            t = getattr(core, n, None)
            if t is not None and hasattr(t, "_autogenerated"):
                del t._autogenerated[:]
    con = sys.modules.get("neutrinomass.tensormethod.contract")
    f = getattr(con, "construct_operators", None)
    for d in (getattr(f, "__defaults__", None) or ()):
        if isinstance(d, list):
            del d[:]


class Env:
    symbolic = False
    known = None

    # derived helpers shared by both
    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def neq(self, a, b):
        return self.not_(self.eq(a, b))

    def iff(self, a, b):
        return self.eq(self.bool_(a), self.bool_(b))


class SymEnv(Env):
    symbolic = True

    def __init__(self, engine):
        self.g = engine
        self.obs = {}
        self.covers = set()
        self.soft = []

    def _var(self, name, kind, mk, rng=None):
        if name in self.g.vars:
            return self.g.vars[name][1]
        e = mk(name)
        self.g.vars[name] = (kind, e)
        if rng is not None:
            # a new variable: its range is satisfiable, no query needed
            self.g.add(rng(e))
        return e

    def int(self, name, lo, hi):
        if lo > hi:
            raise self.g.die(PathAbort("range"))
        return SymInt(
            self._var(name, "int", z3.Int, lambda e: z3.And(e >= lo, e <= hi))
        )

    def rat(self, name):
        return SymRat(self._var(name, "rat", z3.Real))

    def const(self, x):
        return SymRat(Fraction(str(x)))

    def bool(self, name):
        return SymBool(self._var(name, "bool", z3.Bool))

    def char(self, name, alphabet):
        dom = tuple(sorted({ord(c) for c in alphabet}))
        if dom[-1] - dom[0] == len(dom) - 1:
            rng = lambda e: z3.And(e >= dom[0], e <= dom[-1])
        else:
            rng = lambda e: z3.Or(*[e == o for o in dom])
        e = self._var(name, "int", z3.Int, rng)
        if len(dom) == 1:
            return chr(dom[0])
        return SymStr((V.Ch(e, dom),))

    def text(self, name, n, alphabet):
        return V.mk_str(
            [p for k in range(n) for p in V.parts_of(self.char(f"{name}{k}", alphabet))]
        )

    def join(self, parts):
        return V.mk_str([p for s in parts for p in V.parts_of(s)])

    def pick(self, name, seq):
        seq = list(seq)
        i = self.int(name, 0, len(seq) - 1)
        return seq[self.g.concretise(i.e)]

    def str_of(self, x):
        return V.sx_str(x)

    def revive(self, x):
        return V.revive(x)

    def lower(self, x):
        return x.lower()

    def assume(self, c):
        self.g.assume(V.bexpr(c) if isinstance(c, SymBool) else bool(c))

    def check(self, c, label):
        e = c.e if isinstance(c, SymBool) else bool(c)
        for k in self.known or ():
            if k["label"] == label:
                # a recorded finding: note that it fails, go on where it holds
                bad = z3.Not(e) if not isinstance(e, bool) else not e
                if isinstance(bad, bool):
                    if bad:
                        self.soft.append((label, self.g.values(self.g.get_model())))
                    return
                if self.g._check(bad):
                    self.soft.append((label, self.g.values(self.g.answered.model())))
                    return
        self.g.check(e, label)

    def eq(self, a, b):
        return V.deep_eq(a, b)

    def not_(self, c):
        return V.neg(c)

    def bool_(self, c):
        return c if isinstance(c, (SymBool, bool)) else bool(c)

    def all(self, cs):
        return V.all_of(list(cs))

    def any(self, cs):
        return V.any_of(list(cs))

    def truth(self, c):
        return bool(c)

    def sum(self, xs):
        t = SymRat(Fraction(0))
        for x in xs:
            t = t + x
        return t

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            return V.mk_rat(z3.If(c.e, V._real(V.nexpr(a)), V._real(V.nexpr(b))))
        return a if c else b

    def hash_eq(self, a, b):
        from .instrument import sx_hash, HashVal

        ha, hb = sx_hash(a), sx_hash(b)
        return self._hash_struct_eq(ha, hb)

    def _hash_struct_eq(self, ha, hb):
        from .instrument import HashVal

        if isinstance(ha, HashVal) and isinstance(hb, HashVal):
            return self._struct(ha.struct, hb.struct)
        return int(ha) == int(hb)

    def _struct(self, a, b):
        from .instrument import HashVal

        if isinstance(a, HashVal) and isinstance(b, HashVal):
            return self._struct(a.struct, b.struct)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return V.all_of([self._struct(x, y) for x, y in zip(a, b)])
        return V.deep_eq(a, b)

    def observe(self, name, x):
        self.obs[name] = x

    def cover(self, name):
        self.covers.add(name)

    def z3(self):
        return z3

    def solve_unsat(self, cs):
        """True if the z3 constraints cs have no common solution (with the path)."""
        self.g.stats.assertions += 1
        return not self.g._check(*cs)

    def model_of(self, cs):
        if not self.g._check(*cs):
            return None
        return self.g.answered.model()


class ConcEnv(Env):
    """Runs a harness on concrete values (the uninstrumented code)."""

    def __init__(self, values):
        self.v = values
        self.obs = {}
        self.covers = set()
        self.soft = []

    def int(self, name, lo, hi):
        x = int(self.v.get(name, lo))
        if not lo <= x <= hi:
            raise PathAbort("range")
        return x

    def rat(self, name):
        import sympy

        return sympy.Rational(str(self.v.get(name, "0")))

    def const(self, x):
        import sympy

        return sympy.Rational(str(x))

    def bool(self, name):
        return bool(self.v.get(name, False))

    def char(self, name, alphabet):
        c = chr(int(self.v.get(name, ord(sorted(alphabet)[0]))))
        if c not in alphabet:
            raise PathAbort("alphabet")
        return c

    def text(self, name, n, alphabet):
        return "".join(self.char(f"{name}{k}", alphabet) for k in range(n))

    def join(self, parts):
        return "".join(parts)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.int(name, 0, len(seq) - 1)]

    def str_of(self, x):
        return str(x)

    def revive(self, x):
        return x

    def lower(self, x):
        return x.lower()

    def assume(self, c):
        if not c:
            raise PathAbort("assume")

    def check(self, c, label):
        if not bool(c):
            if any(k["label"] == label for k in self.known or ()):
                self.soft.append((label, dict(self.v)))
                return
            raise Violation(label, dict(self.v))

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def not_(self, c):
        return not c

    def bool_(self, c):
        return bool(c)

    def all(self, cs):
        return all(list(cs))

    def any(self, cs):
        return any(list(cs))

    def truth(self, c):
        return bool(c)

    def sum(self, xs):
        import sympy

        t = sympy.Rational(0)
        for x in xs:
            t = t + x
        return t

    def ite(self, c, a, b):
        return a if c else b

    def hash_eq(self, a, b):
        return hash(a) == hash(b)

    def observe(self, name, x):
        self.obs[name] = x

    def cover(self, name):
        self.covers.add(name)


def plain(x, model=None):
    """Observation as plain data; symbolic parts are evaluated in the model."""
    from .engine import _value
    import sympy

    def ev(e):
        return _value(z3.simplify(model.eval(e, model_completion=True)))

    if isinstance(x, SymBool):
        return ev(x.e)
    if isinstance(x, SymInt):
        return str(ev(x.e))
    if isinstance(x, SymRat):
        return str(x.v) if x.concrete else str(ev(x.v))
    if isinstance(x, SymStr):
        out = []
        for p in x.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, V.Ch):
                out.append(chr(ev(p.e)))
            else:
                out.append(str(ev(p.v)))
        return "".join(out)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, Fraction)) or (
        not isinstance(x, float) and V._frac(x) is not None
    ):
        return str(V._frac(x))
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, float):
        return x
    if isinstance(x, (tuple, list)):
        return [plain(i, model) for i in x]
    if isinstance(x, dict):
        import json

        items = [[plain(k, model), plain(v, model)] for k, v in x.items()]
        return ["dict"] + sorted(items, key=lambda i: json.dumps(i, sort_keys=True))
    if isinstance(x, (set, frozenset)):
        import json

        return ["set"] + sorted(
            [plain(i, model) for i in x], key=lambda i: json.dumps(i, sort_keys=True)
        )
    return str(x)
