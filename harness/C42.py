"""The Yukawa couplings reproduce the neutrino mass matrix."""
import contextlib
import types
from fractions import Fraction

import numpy

from cx import *
from hlib import *

BOUNDS = {"parameters": "every non-zero complex free parameter and every positive mass scale (solver variables)", "flavours": "every pair"}
ASSUMPTIONS = [
    "The parameters are exact numbers; the measured masses and mixings are the floating-point numbers of the module, so that the mass matrix is compared to one part in a billion of the largest mass.",
    "flavio and wilson are not installed; the couplings do not use them.",
]
BUDGET = {"quick": 200, "thorough": 800}


def load():
    global M
    M = {"u": repo("analysis.utils"), "f": repo("analysis.flavour_anomalies")}


def configs(tier):
    out = [("matrix", {"i": i, "j": j}) for i in range(3) for j in range(i, 3)]
    return out + [("rescale", {"i": i}) for i in range(3)]


class Numpy(types.ModuleType):
    def __init__(self, env):
        super().__init__("numpy")
        self.env, self.roots = env, []

    def __getattr__(self, name):
        return getattr(numpy, name)

    def sqrt(self, x):
        if not isinstance(x, Cx):
            return numpy.sqrt(x)
        env = self.env
        for y, r in self.roots:
            if env.truth(env.eq(x.re, y)):
                return Cx(r)
        r = env.rat(f"root{len(self.roots)}")
        env.assume(env.all([r > 0, env.eq(r * r, x.re)]))
        self.roots.append((x.re, r))
        return Cx(r)


@contextlib.contextmanager
def exact_numpy(env):
    f = M["f"]
    old = f.np
    if env.symbolic:
        f.np = Numpy(env)
    try:
        yield f
    finally:
        f.np = old


def parameters(env):
    a, b, m0 = env.rat("re"), env.rat("im"), env.rat("m0")
    env.assume(m0 > 0)
    env.assume(a * a + b * b > 0)
    if not env.symbolic:
        # the scales a number can be computed at
        m0 = float(m0)
        return complex(float(a), float(b)), m0, complex
    return Cx(a, b), Cx(m0), Cx


def small(env, d, scale, label):
    d = d if isinstance(d, Cx) else Cx(0)._o(d)
    t = Fraction(scale)
    for x in (d.re, d.im):
        if env.symbolic:
            env.check(x <= t, label)
            env.check(-x <= t, label)
        else:
            env.check(abs(x) <= t, label)


def matrix(env, cfg):
    u = M["u"]
    xi, m0, _ = parameters(env)
    with exact_numpy(env) as f:
        xs, zs = f.x(xi, m0), f.Z(xi, m0)
    env.check(len(xs) == 3 and len(zs) == 3, "one coupling for each flavour")
    i, j = cfg["i"], cfg["j"]
    got = m0 * (xs[i] * zs[j] + xs[j] * zs[i])
    U, ms = u.PMNS.val, u.NEUTRINO_MASSES
    want = sum(complex(U[i, k]).conjugate() * complex(U[j, k]).conjugate() * float(ms[k]) for k in range(3))
    env.check(ms[0] == 0 and abs((ms[2] * 1e9) ** 2 / 2.494e-3 - 1) < 1e-9 and abs((ms[1] * 1e9) ** 2 / 7.40e-5 - 1) < 1e-9, "masses from the measured splittings")
    small(env, got - want, float(ms[2]) * 1e-9, "the couplings give the mass matrix")


def rescale(env, cfg):
    """the couplings scale oppositely with the free parameter"""
    xi, m0, _ = parameters(env)
    i = cfg["i"]
    with exact_numpy(env) as f:
        k = env.pick("k", [2, -3, Fraction(1, 2)])
        k2 = k if env.symbolic else float(k)
        x1, x2 = f.x(xi, m0)[i], f.x(xi * k2, m0)[i]
        z1, z2 = f.Z(xi, m0)[i], f.Z(xi * k2, m0)[i]
    for a, b, label in ((x1 * k2, x2, "one coupling grows with the parameter"), (z1, z2 * k2, "the other falls with it")):
        if env.symbolic:
            env.check(env.eq(a.re, b.re), label)
            env.check(env.eq(a.im, b.im), label)
        else:
            env.check(abs(a - b) <= 1e-9 * abs(a), label)


HARNESSES = {"matrix": matrix, "rescale": rescale}
