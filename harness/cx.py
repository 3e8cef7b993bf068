"""Exact complex numbers."""
from fractions import Fraction


class Cx:
    """exact complex number"""

    __array_ufunc__ = None

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    def _o(self, o):
        if isinstance(o, Cx):
            return o
        if isinstance(o, complex):
            return Cx(frac(o.real), frac(o.imag))
        return Cx(frac(o))

    def __add__(self, o):
        o = self._o(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-self._o(o))

    def __rsub__(self, o):
        return self._o(o) - self

    def __mul__(self, o):
        o = self._o(o)
        if zero(self) or zero(o):
            return Cx(0)
        return Cx(mul(self.re, o.re) - mul(self.im, o.im), mul(self.re, o.im) + mul(self.im, o.re))

    __rmul__ = __mul__

    def inverse(self):
        n = self.re * self.re + self.im * self.im
        return Cx(self.re / n, -self.im / n)

    def __truediv__(self, o):
        o = self._o(o)
        if isinstance(o.im, (int, Fraction)) and o.im == 0:
            return Cx(self.re / o.re, self.im / o.re)
        return self * o.inverse()

    def __rtruediv__(self, o):
        return self._o(o) * self.inverse()

    def conjugate(self):
        return Cx(self.re, -self.im)

    conj = conjugate


def zero(z):
    return all(isinstance(x, (int, Fraction)) and x == 0 for x in (z.re, z.im))


def mul(a, b):
    for x in (a, b):
        if isinstance(x, (int, Fraction)) and x == 0:
            return 0
    return a * b


def frac(x):
    if isinstance(x, float):
        return int(x) if x == int(x) else Fraction(x)
    return x
