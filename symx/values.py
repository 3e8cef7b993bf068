"""Symbolic proxies: SymBool, SymInt, SymRat, SymStr."""
from fractions import Fraction
import numbers
import re

import z3

from .engine import cur, Unsupported

_TOKEN_RE = re.compile("(⟨[^⟩]*⟩|⟦[^⟧]*⟧)")
HASH = 90001  # one hash for every number while running symbolically


def is_sym(x):
    return isinstance(x, (SymBool, SymInt, SymStr)) or (
        isinstance(x, SymRat) and not isinstance(x.v, Fraction)
    )


def has_sym(x, depth=4):
    if isinstance(x, (SymBool, SymInt, SymRat, SymStr)):
        return True
    if depth and isinstance(x, (tuple, list, set, frozenset)):
        return any(has_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


# -- booleans ---------------------------------------------------------------
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mk_bool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, bexpr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return -self._int() - 1

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.e == bexpr(o))
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return neg(r)

    def __hash__(self):
        return HASH

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "True" if bool(self) else "False"

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __neg__(self):
        return -self._int()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def bexpr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, (SymInt, SymRat)):
        return nexpr(x) != 0
    return z3.BoolVal(bool(x))


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def neg(x):
    if isinstance(x, SymBool):
        return mk_bool(z3.Not(x.e))
    if x is NotImplemented:
        return x
    return not x


# -- numbers ----------------------------------------------------------------
def _frac(o):
    """A Fraction for concrete numbers (sympy's included), else None."""
    if isinstance(o, bool):
        return Fraction(int(o))
    if isinstance(o, int):
        return Fraction(o)
    if isinstance(o, Fraction):
        return o
    if isinstance(o, SymRat) and isinstance(o.v, Fraction):
        return o.v
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return None
        return Fraction(o)
    if type(o).__module__.startswith("sympy"):
        p, q = getattr(o, "p", None), getattr(o, "q", None)
        if isinstance(p, int) and isinstance(q, int) and q:
            return Fraction(p, q)
        if getattr(o, "is_Float", False):
            return Fraction(float(o))
    if type(o).__module__ == "numpy" and hasattr(o, "item"):
        try:
            return _frac(o.item())
        except Exception:
            return None
    return None


def nexpr(o):
    """z3 arithmetic expression for any number, or None."""
    if isinstance(o, SymInt):
        return o.e
    if isinstance(o, SymRat):
        if isinstance(o.v, Fraction):
            return z3.Q(o.v.numerator, o.v.denominator)
        return o.v
    if isinstance(o, SymBool):
        return o._int().e
    if isinstance(o, int):
        return z3.IntVal(int(o))
    f = _frac(o)
    if f is None:
        return None
    return z3.Q(f.numerator, f.denominator)


def _real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mk_rat(e):
    e = z3.simplify(_real(e))
    if z3.is_rational_value(e):
        return SymRat(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return SymRat(e)


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, op, rev=False):
        if isinstance(o, SymRat) or (
            not isinstance(o, (int, SymInt, SymBool)) and _frac(o) is not None
        ):
            a, b = _real(self.e), _real(nexpr(o))
            return mk_rat(op(b, a) if rev else op(a, b))
        b = nexpr(o) if isinstance(o, (int, SymInt, SymBool)) else None
        if b is None:
            return NotImplemented
        return mk_int(op(b, self.e) if rev else op(self.e, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        return _divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return _divmod(o, self)[0]

    def __mod__(self, o):
        return _divmod(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        return _divmod(self, o)

    def __truediv__(self, o):
        return mk_rat(_real(self.e)) / o

    def __rtruediv__(self, o):
        return o / mk_rat(_real(self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mk_int(r)
        if isinstance(o, float) and o == 0.5 or o == Fraction(1, 2):
            return sqrt(self)
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def _cmp(self, o, op):
        b = nexpr(o)
        if b is None:
            return NotImplemented
        a = self.e
        if not z3.is_int(b):
            a = z3.ToReal(a)
        return mk_bool(op(a, b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().concretise(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return str(self.__index__())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def bit_length(self):
        return self.__index__().bit_length()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Integral.register(SymInt)


def sqrt(n):
    """The real square root of a symbolic number, bracketed by integers."""
    e = _real(nexpr(n))
    g = cur()
    if not bool(mk_bool(e >= 0)):
        raise ValueError("square root of a negative number")
    name = "sqrt!" + z3.simplify(e).sexpr()
    r, k = z3.Real(name), z3.Int(name + "!floor")
    g.add(z3.And(k >= 0, z3.ToReal(k * k) <= e, e < z3.ToReal((k + 1) * (k + 1)),
                 z3.ToReal(k) <= r, r < z3.ToReal(k + 1), r * r == e))
    out = mk_rat(r)
    out.floor = k
    return out


def _divmod(a, b):
    if isinstance(b, SymInt):
        b = b.__index__()
    if isinstance(a, int) and isinstance(b, int):
        return divmod(a, b)
    if not isinstance(b, int):
        return NotImplemented, NotImplemented
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    e = a.e
    if b > 0:
        return mk_int(e / b), mk_int(e % b)
    # Python: a // b == (-a) // (-b), a % b == -((-a) % (-b))
    return mk_int((-e) / (-b)), mk_int(-((-e) % (-b)))


class SymRat:
    """A rational: a Fraction, or a z3 real expression."""

    __slots__ = ("v", "floor")

    is_Number = True
    is_Rational = True

    def __init__(self, v):
        self.v = v
        self.floor = None

    @property
    def concrete(self):
        return isinstance(self.v, Fraction)

    def _bin(self, o, op):
        f = _frac(o)
        if self.concrete and f is not None and not isinstance(o, float):
            return SymRat(Fraction(op(self.v, f)))
        b = nexpr(o)
        if b is None:
            return NotImplemented
        return mk_rat(op(_real(nexpr(self)), _real(b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        f = _frac(o)
        if f is not None:
            if f == 0:
                raise ZeroDivisionError
            return self._bin(o, lambda a, b: a / b)
        b = nexpr(o)
        if b is None:
            return NotImplemented
        if cur().branch(b == 0):
            raise ZeroDivisionError
        return mk_rat(_real(nexpr(self)) / _real(b))

    def __rtruediv__(self, o):
        f = _frac(o)
        if f is None:
            return NotImplemented
        return SymRat(f) / self

    def __pow__(self, o):
        if isinstance(o, int):
            r = SymRat(Fraction(1))
            for _ in range(abs(o)):
                r = r * self
            return r if o >= 0 else SymRat(Fraction(1)) / r
        if isinstance(o, float) and o == 0.5 or _frac(o) == Fraction(1, 2):
            return sqrt(self)
        raise Unsupported("power of a symbolic rational")

    def __neg__(self):
        if self.concrete:
            return SymRat(-self.v)
        return mk_rat(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.concrete:
            return SymRat(abs(self.v))
        return mk_rat(z3.If(self.v < 0, -self.v, self.v))

    def _cmp(self, o, op):
        f = _frac(o)
        if self.concrete and f is not None:
            return op(self.v, f)
        b = nexpr(o)
        if b is None:
            return NotImplemented
        return mk_bool(op(_real(nexpr(self)), _real(b)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return HASH

    def __bool__(self):
        if self.concrete:
            return self.v != 0
        return cur().branch(self.v != 0)

    def _value(self):
        if self.concrete:
            return self.v
        return Fraction(cur().concretise(self.v, finite=False))

    def __float__(self):
        return float(self._value())

    def __int__(self):
        return int(self._value())

    def __trunc__(self):
        return int(self._value())

    def __floor__(self):
        import math

        if not self.concrete:
            return mk_int(self.floor if self.floor is not None else z3.ToInt(self.v))
        return math.floor(self._value())

    def __round__(self, n=None):
        if self.concrete:
            return round(self.v, n)
        x = self.v * 10 ** (n or 0)
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        half = z3.RealVal("1/2")
        f = z3.If(d < half, f, z3.If(d > half, f + 1, f + f % 2))
        return mk_int(f) if n is None else mk_rat(z3.ToReal(f) / 10 ** n)

    def __index__(self):
        v = self._value()
        if v.denominator != 1:
            raise TypeError("not an integer")
        return int(v)

    @property
    def p(self):
        return self._value().numerator

    @property
    def q(self):
        return self._value().denominator

    numerator = p
    denominator = q

    @property
    def is_integer(self):
        if self.concrete:
            return self.v.denominator == 1
        return bool(mk_bool(z3.IsInt(self.v)))

    @property
    def is_zero(self):
        return bool(self == 0)

    @property
    def is_negative(self):
        return bool(self < 0)

    @property
    def is_positive(self):
        return bool(self > 0)

    @property
    def is_nonnegative(self):
        return bool(self >= 0)

    def _sympy_(self):
        import sympy

        v = self._value()
        return sympy.Rational(v.numerator, v.denominator)

    def __repr__(self):
        if self.concrete:
            return str(self.v)
        return "⟦" + self.v.sexpr().replace("\n", " ") + "⟧"

    __str__ = __repr__

    def __format__(self, spec):
        return format(str(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._sympy_(), name)


numbers.Rational.register(SymRat)


# -- strings ----------------------------------------------------------------
class Ch:
    """One character, a z3 integer code point from a finite set."""

    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom  # tuple of code points

    def token(self):
        return _register("⟨" + self.e.sexpr() + "⟩", self)


class Atom:
    """The decimal text of a positive rational (p or p/q), as a whole."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v  # z3 real expression, positive on this path

    def token(self):
        return _register("⟦" + self.v.sexpr().replace("\n", " ") + "⟧", self)


def parts_of(s):
    if isinstance(s, SymStr):
        return s.parts
    return tuple(str.__str__(s))


_TOKENS = {}


def _register(tok, part):
    _TOKENS[tok] = part
    return tok


def revive(s):
    """Plain text that went through C-level formatting: put the parts back."""
    if isinstance(s, SymStr) or type(s) is not str or not ("⟨" in s or "⟦" in s):
        return s
    out = []
    for piece in _TOKEN_RE.split(s):
        if piece[:1] in ("⟨", "⟦") and piece:
            p = _TOKENS.get(piece)
            if p is None:
                raise Unsupported("a symbolic text was cut by code outside /repo")
            out.append(p)
        else:
            out.extend(piece)
    return mk_str(out)


def mk_str(parts):
    parts = tuple(parts)
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return SymStr(parts)


def _ch_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if ord(b) not in a.dom:
            return False
        return a.e == ord(b)
    if not set(a.dom) & set(b.dom):
        return False
    return a.e == b.e


def str_eq(a, b):
    """bool or z3 expression: do the two texts agree?"""
    a, b = list(parts_of(a)), list(parts_of(b))
    conj = []
    while a or b:
        if not a or not b:
            return False
        x, y = a[0], b[0]
        if isinstance(x, Atom) or isinstance(y, Atom):
            if isinstance(y, Atom) and not isinstance(x, Atom):
                a, b, x, y = b, a, y, x
            if isinstance(y, Atom):
                if not _delim(a[1:]) or not _delim(b[1:]):
                    raise Unsupported("text next to a number")
                conj.append(x.v == y.v)
                a, b = a[1:], b[1:]
                continue
            run = []
            i = 0
            while i < len(b):
                c = b[i]
                if isinstance(c, Ch):
                    if not any(chr(o) in "0123456789/" for o in c.dom):
                        break
                    c = chr(cur().concretise(c.e))
                if isinstance(c, str) and c in "0123456789/":
                    run.append(c)
                    i += 1
                else:
                    break
            text = "".join(run)
            try:
                f = Fraction(text)
            except (ValueError, ZeroDivisionError):
                return False
            if str(f) != text or f <= 0:
                return False
            conj.append(x.v == z3.Q(f.numerator, f.denominator))
            a, b = a[1:], b[i:]
            continue
        r = _ch_eq(x, y)
        if r is False:
            return False
        if r is not True:
            conj.append(r)
        a, b = a[1:], b[1:]
    if not conj:
        return True
    return z3.And(*conj)


def _delim(rest):
    if not rest:
        return True
    c = rest[0]
    if isinstance(c, str):
        return c not in "0123456789/"
    if isinstance(c, Ch):
        return not any(chr(o) in "0123456789/" for o in c.dom)
    return False


class SymStr(str):
    """Text with symbolic characters or numbers in it.

    A subclass of str, whose underlying text is only a token; operations that
    would read that text are overridden here or intercepted by the instrumentation.
    """

    __slots__ = ("parts",)

    def __new__(cls, parts):
        parts = tuple(parts)
        s = str.__new__(
            cls, "".join(p if isinstance(p, str) else p.token() for p in parts)
        )
        s.parts = parts
        return s

    def concrete(self):
        """Fix every symbolic part (all values are explored, numbers apart)."""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Ch):
                out.append(chr(cur().concretise(p.e)))
            else:
                out.append(str(Fraction(cur().concretise(p.v, finite=False))))
        return "".join(out)

    def _atoms(self):
        return any(isinstance(p, Atom) for p in self.parts)

    def __len__(self):
        if self._atoms():
            return len(self.concrete())
        return len(self.parts)

    def __bool__(self):
        return bool(self.parts)

    def __iter__(self):
        return iter([mk_str((p,)) for p in self._chars().parts])

    def _chars(self):
        if self._atoms():
            return _Plain(self.concrete())
        return self

    def __getitem__(self, i):
        if not self._atoms():
            if isinstance(i, slice):
                return mk_str(self.parts[i])
            return mk_str((self.parts[i],))
        # positions before the first number are known; so is a tail slice
        first = next(k for k, p in enumerate(self.parts) if isinstance(p, Atom))
        last = max(k for k, p in enumerate(self.parts) if isinstance(p, Atom))
        n = len(self.parts)
        if isinstance(i, slice):
            if i.step in (None, 1):
                a, b = i.start, i.stop
                a_ok = a is None or 0 <= a <= first or -(n - last - 1) <= a < 0
                b_ok = b is None or 0 <= b <= first or -(n - last - 1) <= b < 0
                if a_ok and b_ok:
                    return mk_str(self.parts[i])
            if i.step == -1 and i.start is None and i.stop is None:
                return self.concrete()[::-1]
            return self.concrete()[i]
        if 0 <= i < first or -(n - last - 1) <= i < 0:
            return mk_str((self.parts[i],))
        if i == first:
            # first digit of the number: only known not to be a sign
            return _NumHead(self.parts[first])
        return self.concrete()[i]

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        r = str_eq(self, o)
        return r if isinstance(r, bool) else mk_bool(r)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return HASH

    def _lt(self, o, strict):
        a, b = list(parts_of(self)), list(parts_of(o))
        while True:
            if not a:
                return bool(b) if strict else True
            if not b:
                return False
            x, y = a[0], b[0]
            if isinstance(x, Atom) or isinstance(y, Atom):
                # numbers are ordered by value, not by text (documented)
                if isinstance(x, Atom) and isinstance(y, Atom):
                    if bool(mk_bool(x.v == y.v)):
                        a, b = a[1:], b[1:]
                        continue
                    return bool(mk_bool(x.v < y.v))
                if isinstance(x, Atom):
                    c = y if isinstance(y, str) else chr(cur().concretise(y.e))
                    return not (c < "0" or c in "0123456789")
                c = x if isinstance(x, str) else chr(cur().concretise(x.e))
                return c < "0" or c in "0123456789"
            r = _ch_eq(x, y)
            same = r if isinstance(r, bool) else cur().branch(r)
            if same:
                a, b = a[1:], b[1:]
                continue
            ex = z3.IntVal(ord(x)) if isinstance(x, str) else x.e
            ey = z3.IntVal(ord(y)) if isinstance(y, str) else y.e
            return cur().branch(ex < ey)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return SymStr.__lt__(mk_sym(o), self) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return SymStr.__le__(mk_sym(o), self) if isinstance(o, str) else NotImplemented

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(self.parts + parts_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(parts_of(o) + self.parts)

    def __mul__(self, n):
        return mk_str(self.parts * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return self.concrete() % args

    def __rmod__(self, o):
        if o.count("%") == 1 and "%s" in o:
            a, b = o.split("%s")
            return mk_str(parts_of(a) + self.parts + parts_of(b))
        return o % self.concrete()

    def __contains__(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        p = parts_of(o)
        if len(p) == 1 and isinstance(p[0], Ch) and not self._atoms():
            # one unknown character: one decision
            es = []
            for c in self.parts:
                r = _ch_eq(p[0], c)
                if r is True:
                    return True
                if r is not False:
                    es.append(r)
            return cur().branch(z3.Or(*es)) if es else False
        return self.find(o) >= 0

    def __int__(self):
        r = str_int(self)
        return r if isinstance(r, int) else int(r)

    def __float__(self):
        return float(self.concrete())

    def __str__(self):
        return self

    def __repr__(self):
        return str.__repr__(str.__str__(self))

    def __format__(self, spec):
        return str.__str__(self) if not spec else format(self.concrete(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getnewargs__(self):
        return (self.concrete(),)

    # methods ---------------------------------------------------------------
    def _match_at(self, i, sub):
        p = parts_of(sub)
        seg = self.parts[i : i + len(p)]
        if len(seg) < len(p):
            return False
        if any(isinstance(x, Atom) for x in seg) or any(isinstance(x, Atom) for x in p):
            for x, y in zip(seg, p):
                if isinstance(x, Atom) != isinstance(y, Atom):
                    # a digit run against a number: decided by str_eq below if
                    # the text could be digits, otherwise they differ
                    c = y if isinstance(x, Atom) else x
                    if isinstance(c, str) and c not in "0123456789/":
                        return False
                    raise Unsupported("digits searched in a number")
        r = str_eq(mk_str(seg), mk_str(p))
        return r if isinstance(r, bool) else cur().branch(r)

    def startswith(self, p, *a):
        if a:
            return self.concrete().startswith(p, *a)
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return self._match_at(0, p)

    def endswith(self, p, *a):
        if a:
            return self.concrete().endswith(p, *a)
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        n = len(parts_of(p))
        if n > len(self.parts):
            return False
        return self._match_at(len(self.parts) - n, p)

    def find(self, sub, *a):
        if a:
            return self.concrete().find(sub, *a)
        n = len(parts_of(sub))
        for i in range(len(self.parts) - n + 1):
            if self._match_at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        if a:
            return self.concrete().count(sub, *a)
        n = len(parts_of(sub))
        if n == 0:
            return len(self) + 1
        i = c = 0
        while i <= len(self.parts) - n:
            if self._match_at(i, sub):
                c += 1
                i += n
            else:
                i += 1
        return c

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, word = [], []
            for p in self.parts:
                white = (
                    p.isspace()
                    if isinstance(p, str)
                    else any(chr(o).isspace() for o in p.dom)
                    and chr(cur().concretise(p.e)).isspace()
                    if isinstance(p, Ch)
                    else False
                )
                if white:
                    if word:
                        out.append(mk_str(word))
                        word = []
                else:
                    word.append(p)
            if word:
                out.append(mk_str(word))
            if maxsplit >= 0 and len(out) > maxsplit + 1:
                return self.concrete().split(sep, maxsplit)
            return out
        n = len(parts_of(sep))
        out, word, i = [], [], 0
        while i < len(self.parts):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match_at(i, sep):
                out.append(mk_str(word))
                word = []
                i += n
            else:
                word.append(self.parts[i])
                i += 1
        out.append(mk_str(word))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.concrete().rsplit(sep, maxsplit)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        n = len(parts_of(sep))
        return (mk_str(self.parts[:i]), sep, mk_str(self.parts[i + n :]))

    def replace(self, old, new, count=-1):
        n = len(parts_of(old))
        if n == 0:
            return self.concrete().replace(old, new, count)
        out, i = [], 0
        while i < len(self.parts):
            if count != 0 and i + n <= len(self.parts) and self._match_at(i, old):
                out.extend(parts_of(new))
                i += n
                count -= 1
            else:
                out.append(self.parts[i])
                i += 1
        return mk_str(out)

    def _map_case(self, f):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(f(p))
            elif isinstance(p, Atom):
                out.append(p)
            else:
                img = {o: f(chr(o)) for o in p.dom}
                if all(chr(o) == c for o, c in img.items()):
                    out.append(p)
                    continue
                runs = []  # (first, last, shift) over the sorted domain
                for o in p.dom:
                    d = ord(img[o]) - o
                    if runs and runs[-1][2] == d:
                        runs[-1][1] = o
                    else:
                        runs.append([o, o, d])
                e = p.e + runs[-1][2]
                for lo, hi, d in reversed(runs[:-1]):
                    e = z3.If(p.e <= hi, p.e + d, e)
                e = z3.simplify(e)
                out.append(Ch(e, tuple(sorted({ord(c) for c in img.values()}))))
        return mk_str(out)

    def lower(self):
        return self._map_case(str.lower)

    def upper(self):
        return self._map_case(str.upper)

    def swapcase(self):
        return self._map_case(str.swapcase)

    def _strip(self, chars, left, right):
        chars = chars if chars is not None else " \t\n\r\x0b\x0c"
        parts = list(self.parts)

        def drop(p):
            if isinstance(p, str):
                return p in chars
            if isinstance(p, Atom):
                if any(c in "0123456789/" for c in chars):
                    raise Unsupported("strip digits")
                return False
            hit = [o for o in p.dom if chr(o) in chars]
            if not hit:
                return False
            return cur().branch(z3.Or(*[p.e == o for o in hit]))

        while left and parts and drop(parts[0]):
            parts.pop(0)
        while right and parts and drop(parts[-1]):
            parts.pop()
        return mk_str(parts)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        if self.startswith(p):
            return mk_str(self.parts[len(parts_of(p)) :])
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return mk_str(self.parts[: -len(parts_of(p))])
        return self

    def join(self, it):
        it = list(it)
        out = []
        for k, x in enumerate(it):
            if not isinstance(x, str):
                raise TypeError("sequence item: expected str instance")
            if k:
                out.extend(self.parts)
            out.extend(parts_of(x))
        return mk_str(out)

    def _pred(self, f):
        if self._atoms():
            return f(self.concrete())
        if not self.parts:
            return f("")
        for p in self.parts:
            if isinstance(p, str):
                ok = f(p)
            else:
                yes = [o for o in p.dom if f(chr(o))]
                ok = (
                    True
                    if len(yes) == len(p.dom)
                    else False
                    if not yes
                    else cur().branch(z3.Or(*[p.e == o for o in yes]))
                )
            if not ok:
                return False
        return True

    def isdigit(self):
        return self._pred(str.isdigit)

    def isalpha(self):
        return self._pred(str.isalpha)

    def isspace(self):
        return self._pred(str.isspace)

    def isalnum(self):
        return self._pred(str.isalnum)

    def isupper(self):
        return self.concrete().isupper()

    def islower(self):
        return self.concrete().islower()

    def encode(self, *a, **k):
        return self.concrete().encode(*a, **k)

    def splitlines(self, *a):
        return self.concrete().splitlines(*a)

    def translate(self, t):
        return self.concrete().translate(t)

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def title(self):
        return self.concrete().title()

    def capitalize(self):
        return self.concrete().capitalize()

    def casefold(self):
        return self._map_case(str.casefold)

    def zfill(self, n):
        return self.concrete().zfill(n)

    def ljust(self, *a):
        return self.concrete().ljust(*a)

    def rjust(self, *a):
        return self.concrete().rjust(*a)

    def rfind(self, sub, *a):
        return self.concrete().rfind(sub, *a)

    def rindex(self, sub, *a):
        return self.concrete().rindex(sub, *a)

    def rpartition(self, sep):
        return self.concrete().rpartition(sep)


class _Plain:
    def __init__(self, s):
        self.parts = tuple(s)


class _NumHead(str):
    """The unknown first digit of a number: equal to no sign, comma or letter."""

    def __new__(cls, atom):
        return str.__new__(cls, "⟦digit⟧")

    def __eq__(self, o):
        if isinstance(o, str) and len(o) == 1 and o in "0123456789":
            raise Unsupported("first digit of a number")
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = str.__hash__

    def __contains__(self, o):
        return False


def mk_sym(s):
    return s if isinstance(s, SymStr) else SymStr(tuple(s))


def str_int(s):
    """int(text) for symbolic text."""
    parts = list(parts_of(s))
    while parts and parts[0] == " ":
        parts.pop(0)
    sign = 1
    if parts and parts[0] in ("-", "+") and isinstance(parts[0], str):
        sign = -1 if parts[0] == "-" else 1
        parts = parts[1:]
    if not parts:
        raise ValueError("invalid literal for int()")
    if len(parts) == 1 and isinstance(parts[0], Atom):
        v = parts[0].v
        if not cur().branch(z3.IsInt(v)):
            raise ValueError("invalid literal for int()")
        return mk_int(sign * z3.ToInt(v))
    total = z3.IntVal(0)
    for k, p in enumerate(parts):
        if isinstance(p, str):
            d = z3.IntVal(int(p))
        elif isinstance(p, Ch):
            digits = [o for o in p.dom if chr(o).isdigit()]
            if len(digits) < len(p.dom):
                if not digits or not cur().branch(z3.Or(*[p.e == o for o in digits])):
                    raise ValueError("invalid literal for int()")
            d = p.e - ord("0")
        else:
            raise Unsupported("int of mixed text")
        total = total * 10 + d
    return mk_int(sign * total)


def int_str(n):
    """str(symbolic integer): one digit stays symbolic, otherwise fix the value."""
    c = cur()
    if c.must(z3.And(n.e >= 0, n.e <= 9)):
        e = z3.simplify(n.e + 48)
        dom = tuple(
            48 + d for d in range(10) if not c.must(n.e != d)
        )
        if len(dom) == 1:
            return chr(dom[0])
        return SymStr((Ch(e, dom),))
    return str(n.__index__())


def rat_str(q):
    """str(symbolic rational): sign and zero are decided, the size is one atom."""
    if q.concrete:
        return str(q)
    c = cur()
    if c.branch(q.v == 0):
        return "0"
    if c.branch(q.v < 0):
        return SymStr(("-", Atom(z3.simplify(-q.v))))
    return SymStr((Atom(q.v),))


def sx_str(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return int_str(x)
    if isinstance(x, SymRat):
        return rat_str(x)
    return revive(str(x))


# -- deep equality without forking -------------------------------------------
def deep_eq(a, b):
    """bool or SymBool: a == b, containers compared element by element."""
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if not any(has_sym(k) for k in list(a) + list(b)):
            if set(a) != set(b):
                return False
            return all_of([deep_eq(a[k], b[k]) for k in a])
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return all_of([deep_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


def all_of(xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    return mk_bool(z3.And(*es)) if es else True


def any_of(xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    return mk_bool(z3.Or(*es)) if es else False
