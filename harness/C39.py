"""The new-physics scale reproduces the neutrino mass."""
import math
from fractions import Fraction

from dbs import *

BOUNDS = {
    "expressions": "v^2/Λ times loop^0..6, loopv2^0..2 (thorough: 0..3), g2^0..2 and each Yukawa coupling to the power 0..2 (not all combinations in quick)",
    "scales": "every positive real scale (solver variable)",
}
ASSUMPTIONS = [
    "The scale is a floating-point number: it is compared to one part in a million.",
    "sympy solves the concrete equation; the solver decides for all scales whether another one could reproduce the mass.",
]
BUDGET = {"quick": 250, "thorough": 800}

VEV = Fraction(174)
MV = Fraction("5e-11")
LOOP = Fraction(1.0 / (16 * math.pi ** 2))
VALUE = {"loop": LOOP, "g2": Fraction("0.6295") ** 2, "yu": Fraction("172.76") / VEV, "yd": Fraction("4.18") / VEV, "ye": Fraction("1.78") / VEV}
TOL = Fraction(1, 10 ** 6)


def load():
    global M
    M = load_dbs()


def configs(tier):
    out = []
    couplings = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 1, 0), (1, 0, 2, 1), (2, 2, 1, 1), (1, 1, 1, 1)]
    if tier == "quick":
        for n in (0, 1, 2):
            for k, c in enumerate(couplings if n < 2 else couplings[:7:3]):
                out.append(("scale", {"couplings": c, "n": n, "loops": [k % 4, (k + 3) % 7] if n < 2 else [k % 4]}))
        return out + [("mass", {"n": n, "g2": g, "ye": y}) for n in range(4) for g in range(3) for y in range(2)]
    for n in (0, 1, 2, 3):
        for c in itertools.product(range(3), repeat=4) if n < 2 else couplings:
            out.append(("scale", {"couplings": c, "n": n, "loops": list(range(7)) if n < 3 else [1, 4]}))
    return out + [("mass", {"n": n, "g2": g, "ye": y}) for n in range(6) for g in range(3) for y in range(3)]


def expression(powers):
    import sympy

    S = sympy.Symbol
    e = S("v") ** 2 / S("Λ")
    for k, p in powers.items():
        e = e * S(k) ** p
    return e


def coupling(powers):
    k = VEV ** 2
    for name, p in powers.items():
        if name != "loopv2":
            k *= VALUE[name] ** p
    return k


def scale(env, cfg):
    g2, ye, yu, yd = cfg["couplings"]
    powers = {"g2": g2, "ye": ye, "yu": yu, "yd": yd, "loopv2": cfg["n"], "loop": env.pick("loop", cfg["loops"])}
    got = M["clos"].numerical_np_scale_estimate(expression(powers))
    s = Fraction(float(got)) * 1000  # in GeV
    env.check(s > 0, "the scale is positive")
    K, n = coupling(powers), powers["loopv2"]
    L = env.rat("L")
    env.assume(L > 0)
    # the neutrino mass at the scale L, both sides times L^(2n+1)
    bracket, power, l2 = 1, L, L * L
    for _ in range(n):
        bracket, power = bracket * (l2 * env.const(str(LOOP)) + env.const(str(VEV ** 2))), power * l2
    mass, target = bracket * env.const(str(K)), power * env.const(str(MV))
    low, high = env.const(str(s * (1 - TOL))), env.const(str(s * (1 + TOL)))
    env.check(env.implies(L >= high, mass < target), "every larger scale gives a lighter neutrino")
    env.check(env.implies(L <= low, mass > target), "every smaller scale gives a heavier neutrino")


def mass(env, cfg):
    """the mass at one TeV"""
    powers = {"loopv2": cfg["n"], "g2": cfg["g2"], "ye": cfg["ye"]}
    for k, hi in (("loop", 5), ("yu", 2), ("yd", 1)):
        powers[k] = env.pick(k, list(range(hi + 1)))
    got = float(M["clos"].numerical_mv(expression(powers)))
    want = coupling(powers) / 1000 * (LOOP + VEV ** 2 / 10 ** 6) ** powers["loopv2"]
    # every admissible reading of the rounded number
    x = env.rat("x")
    env.assume(env.all([x >= env.const(str(want * (1 - TOL))), x <= env.const(str(want * (1 + TOL)))]))
    d = x - env.const(str(Fraction(got)))
    env.check(env.all([d <= env.const(str(3 * TOL * want)), -d <= env.const(str(3 * TOL * want))]), "the mass at one TeV is the expression's value")


HARNESSES = {"scale": scale, "mass": mass}
