"""Mixing matrices are unitary."""
import contextlib
import math
import types

import numpy as np
from fractions import Fraction

from cx import *
from hlib import *

BOUNDS = {"angles and phases": "every real value (cosine and sine are solver variables on the unit circle), alone and together, in the numeric and the symbolic form"}
ASSUMPTIONS = [
    "Numbers are exact reals in place of 128-bit complex floating-point numbers; the exponential of i times a phase is its cosine plus i times its sine.",
]
BUDGET = {"quick": 250, "thorough": 800}
NAMES = ("12", "13", "23", "d", "a1", "a2")


def load():
    global M
    M = {"u": repo("analysis.utils")}


def configs(tier):
    out = []
    for form in ("numeric", "symbolic"):
        for i in range(3):
            for j in range(i, 3):
                out.append(("unitary", {"form": form, "i": i, "j": j, "rows": True}))
                if tier != "quick":
                    out.append(("unitary", {"form": form, "i": i, "j": j, "rows": False}))
        out += [("entries", {"form": form, "k": k}) for k in range(3)]
    return out + [("zero", {}), ("shipped", {})]


class Phase:
    """an angle with this cosine and sine; i times it can be exponentiated"""

    __array_ufunc__ = None

    def __init__(self, c, s, factor=1):
        self.c, self.s, self.factor = c, s, factor

    def __mul__(self, o):
        return Phase(self.c, self.s, self.factor * o)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def exp(self):
        assert self.factor in (1j, -1j), self.factor
        return Cx(self.c, self.s if self.factor == 1j else -self.s)


class Matrix(np.matrix):
    """numpy's matrix takes an object matrix for a real one"""

    def getH(self):
        return self.transpose().conjugate()

    H = property(getH)


class Numpy(types.ModuleType):
    """numpy with exact numbers"""

    def __getattr__(self, name):
        import numpy

        return getattr(numpy, name)

    complex128 = object
    matrix = Matrix

    @staticmethod
    def exp(x):
        import numpy

        return x.exp() if isinstance(x, Phase) else numpy.exp(x)


@contextlib.contextmanager
def exact_numpy(env):
    u = M["u"]
    old = u.np
    if env.symbolic:
        u.np = Numpy("numpy")
    try:
        yield u
    finally:
        u.np = old


def circle(env, name):
    c, s = env.rat("c" + name), env.rat("s" + name)
    r = c * c + s * s
    # a counterexample may have rounded roots
    env.assume(env.eq(r, 1) if env.symbolic else abs(r - 1) < Fraction(1, 10 ** 12))
    return c, s


def build(env, form):
    """(matrix entries as Cx, object, {name: (c, s)})"""
    cs = {n: circle(env, n) for n in NAMES}
    if form == "symbolic":
        import sympy

        with exact_numpy(env) as u:
            syms = {k + n: sympy.Symbol(k + n, real=True) for n in NAMES[:3] for k in "cs"}
            ph = {n: sympy.Symbol(n, real=True) for n in NAMES[3:]}
            m = u.UnitaryMatrix(*[syms[k + n] for k in "cs" for n in NAMES[:3]], ph["d"], ph["a1"], ph["a2"], symb=True)
        return m, (lambda e: value(env, e, cs)), cs
    with exact_numpy(env) as u:
        if env.symbolic:
            phases = [Phase(*cs[n]) for n in NAMES[3:]]
        else:
            phases = [math.atan2(float(cs[n][1]), float(cs[n][0])) for n in NAMES[3:]]
        num = (lambda x: x) if env.symbolic else float
        m = u.UnitaryMatrix(*[num(cs[n][k]) for k in (0, 1) for n in NAMES[:3]], *phases, symb=False)
    return m, (lambda e: e if isinstance(e, Cx) else Cx(0)._o(e)), cs


def value(env, e, cs):
    """a sympy expression with these cosines and sines"""
    import sympy

    e = sympy.sympify(e)
    if e.is_Add or e.is_Mul:
        out = Cx(0 if e.is_Add else 1)
        for a in e.args:
            out = out + value(env, a, cs) if e.is_Add else out * value(env, a, cs)
        return out
    if e == sympy.I:
        return Cx(0, 1)
    if e.is_Number:
        return Cx(Fraction(str(sympy.Rational(e))))
    if e.is_Symbol:
        return Cx(cs[e.name[1:]]["cs".index(e.name[0])])
    if e.func == sympy.conjugate:
        return value(env, e.args[0], cs).conjugate()
    if e.is_Pow and e.exp.is_Integer and e.exp > 0:
        return value(env, sympy.Mul(*[e.base] * int(e.exp), evaluate=False), cs)
    if e.func == sympy.exp:
        x = e.args[0] / sympy.I
        for n in NAMES[3:]:
            k = x.coeff(sympy.Symbol(n, real=True))
            if k in (1, -1) and sympy.simplify(x - k * sympy.Symbol(n, real=True)) == 0:
                return Cx(cs[n][0], cs[n][1] * int(k))
    raise AssertionError(f"no value for {e}")


def same(env, a, b, label):
    b = b if isinstance(b, Cx) else Cx(b)
    if env.symbolic:
        env.check(env.eq(a.re, b.re), label)
        env.check(env.eq(a.im, b.im), label)
    else:
        env.check(abs(float(a.re - b.re)) < 1e-9 and abs(float(a.im - b.im)) < 1e-9, label)


def unitary(env, cfg):
    m, val, cs = build(env, cfg["form"])
    dag = m.get_dagger()
    i, j = cfg["i"], cfg["j"]
    left, right = (m.val, dag) if cfg["rows"] else (dag, m.val)
    total = Cx(0)
    for k in range(3):
        total = total + val(left[i, k]) * val(right[k, j])
    same(env, total, 1 if i == j else 0, "rows are orthonormal" if cfg["rows"] else "columns are orthonormal")


def entries(env, cfg):
    m, val, cs = build(env, cfg["form"])
    k = cfg["k"]
    dag, cols = m.get_dagger(), m.cols()
    for j in range(3):
        same(env, val(dag[k, j]), val(m.val[j, k]).conjugate(), "the Hermitian conjugate is that of the matrix")
        same(env, val(cols[k, j]), val(m.val[j, k]), "the columns are those of the matrix")
    # moduli of the entries in the standard parametrisation
    e = lambda a, b: val(m.val[a, b])
    if k == 0:
        same(env, e(0, 2), Cx(cs["13"][1] * cs["d"][0], -cs["13"][1] * cs["d"][1]), "the corner entry is the sine of the 1-3 angle with the CP phase")
    elif k == 1:
        same(env, e(0, 0), Cx(cs["12"][0] * cs["13"][0] * cs["a1"][0], cs["12"][0] * cs["13"][0] * cs["a1"][1]), "first entry")
        same(env, e(0, 1), Cx(cs["12"][1] * cs["13"][0] * cs["a2"][0], cs["12"][1] * cs["13"][0] * cs["a2"][1]), "second entry")
    else:
        same(env, e(1, 2), cs["23"][1] * cs["13"][0], "the sine of the 2-3 angle")
        same(env, e(2, 2), cs["23"][0] * cs["13"][0], "the cosine of the 2-3 angle")


def zero_angles(env, cfg):
    """without angles the matrix is the diagonal of the phases"""
    cs = {n: circle(env, n) for n in NAMES[3:]}
    with exact_numpy(env) as u:
        phases = [Phase(*cs[n]) if env.symbolic else math.atan2(float(cs[n][1]), float(cs[n][0])) for n in NAMES[3:]]
        m = u.UnitaryMatrix(1, 1, 1, 0, 0, 0, *phases)
    val = lambda e: e if isinstance(e, Cx) else Cx(0)._o(e)
    for i in range(3):
        for j in range(3):
            want = 0 if i != j else Cx(*cs[("a1", "a2")[i]]) if i < 2 else 1
            same(env, val(m.val[i, j]), want, "the diagonal of phases without mixing")


def shipped(env, cfg):
    """the shipped matrices are those of the measured angles"""
    u = M["u"]
    eps = env.rat("eps")  # any common relative error of the angles below a permille
    env.assume(env.all([eps <= Fraction(1, 1000), -eps <= Fraction(1, 1000)]))
    for name, v, want in (("PMNS", u.PMNS.val, (u.THETA12, u.THETA13, u.THETA23)), ("CKM", u.CKM, (0.22759, 0.003508, 0.041539))):
        for (a, b), x in (((0, 2), math.sin(want[1])), ((0, 1), math.sin(want[0]) * math.cos(want[1])), ((1, 2), math.sin(want[2]) * math.cos(want[1]))):
            d = Fraction(abs(complex(v[a, b]))) - Fraction(x)
            env.check(abs(d) <= Fraction(2, 1000) * Fraction(x), f"{name} has the measured angles")
    V = u.CKM
    J = complex(V[0, 1] * V[1, 2] * V[0, 2].conjugate() * V[1, 1].conjugate()).imag
    env.check(2.8e-5 < J < 3.4e-5, "CKM has the measured CP violation")


HARNESSES = {"unitary": unitary, "entries": entries, "zero": zero_angles, "shipped": shipped}
