"""Regular expressions over symbolic text.

The pattern is concrete; it is parsed by Python's own parser and matched by
backtracking, in the order of the `re` module, with symbolic character tests.
"""
import math
import re
from re import _constants as C
from re import _parser as P

import z3

from .engine import Unsupported
from . import values as V


def _is(e):
    return bool(V.mk_bool(e)) if not isinstance(e, bool) else e


def _in_range(c, lo, hi):
    if isinstance(c, str):
        return lo <= ord(c) <= hi
    inside = [o for o in c.dom if lo <= o <= hi]
    if not inside:
        return False
    if len(inside) == len(c.dom):
        return True
    return z3.And(c.e >= lo, c.e <= hi)


_CLASSES = {
    C.CATEGORY_DIGIT: str.isdigit,
    C.CATEGORY_SPACE: str.isspace,
    C.CATEGORY_WORD: lambda ch: ch.isalnum() or ch == "_",
}
_NOT = {
    C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
    C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
    C.CATEGORY_NOT_WORD: C.CATEGORY_WORD,
}


def _or(es):
    es = [e for e in es if e is not False]
    if any(e is True for e in es):
        return True
    if not es:
        return False
    return z3.Or(*es)


def _neg(e):
    return (not e) if isinstance(e, bool) else z3.Not(e)


def _category(c, cat):
    if cat in _NOT:
        return _neg(_category(c, _NOT[cat]))
    f = _CLASSES[cat]
    if isinstance(c, str):
        return f(c)
    return _or([c.e == o for o in c.dom if f(chr(o))])


def _set(c, items):
    neg, out = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append(V._ch_eq(c, chr(av)))
        elif op is C.RANGE:
            out.append(_in_range(c, *av))
        elif op is C.CATEGORY:
            out.append(_category(c, av))
        else:
            raise Unsupported(f"regular expression {op}")
    e = _or(out)
    return _neg(e) if neg else e


def _char(c):
    if isinstance(c, V.Atom):
        raise Unsupported("a regular expression read into a number")
    return c


def _m(ops, k, s, i, g):
    """ends (and groups) of matches of ops[k:] at s[i:], in order of preference"""
    if k == len(ops):
        yield i, g
        return
    op, av = ops[k]
    nxt = lambda j, gg: _m(ops, k + 1, s, j, gg)
    if i < len(s) and isinstance(s[i], V.Atom) and op is C.LITERAL:
        yield from _number(ops, k, s, i, g)
        return
    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        if i >= len(s):
            return
        ok = _single(op, av, _char(s[i]))
        if _is(ok):
            yield from nxt(i + 1, g)
        return
    if op is C.BRANCH:
        for alt in av[1]:
            for j, gg in _m(list(alt), 0, s, i, g):
                yield from nxt(j, gg)
        return
    if op is C.SUBPATTERN:
        num, add, sub, p = av
        if add or sub:
            raise Unsupported("regular expression flags")
        for j, gg in _m(list(p), 0, s, i, g):
            yield from nxt(j, {**gg, num: (i, j)} if num else gg)
        return
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, p = av
        if len(p) == 1 and any(isinstance(x, V.Atom) for x in s[i:]):
            yield from _over(list(p), lo, hi, op is C.MAX_REPEAT, ops, k, s, i, g, nxt)
            return
        yield from _rep(list(p), lo, hi, op is C.MAX_REPEAT, s, i, g, nxt)
        return
    if op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                yield from nxt(i, g)
        elif av is C.AT_END_STRING:
            if i == len(s):
                yield from nxt(i, g)
        elif av is C.AT_END:
            if i == len(s) or (i == len(s) - 1 and _is(V._ch_eq(_char(s[i]), "\n"))):
                yield from nxt(i, g)
        else:
            raise Unsupported(f"regular expression {av}")
        return
    raise Unsupported(f"regular expression {op}")


def _rep(p, lo, hi, greedy, s, i, g, nxt):
    if lo == 0 and not greedy:
        yield from nxt(i, g)
    if hi:
        for j, gg in _m(p, 0, s, i, g):
            if j == i:
                continue
            yield from _rep(p, max(lo - 1, 0), hi if hi is C.MAXREPEAT else hi - 1, greedy, s, j, gg, nxt)
    if lo == 0 and greedy:
        yield from nxt(i, g)


class Top(list):
    """the outermost sequence of a pattern"""


def _delimited(ops, k):
    """after op k comes something that cannot match inside a number"""
    if k == len(ops):
        return isinstance(ops, Top)
    op, av = ops[k]
    if op is C.LITERAL:
        return chr(av) not in "0123456789/"
    return op is C.AT


def _number(ops, k, s, i, g):
    """literal characters against the text of a positive number"""
    run = ""
    while k < len(ops) and ops[k][0] is C.LITERAL and chr(ops[k][1]) in "0123456789/":
        run += chr(ops[k][1])
        k += 1
    if not run or run[0] in "0/":
        return
    if k == len(ops) or not _delimited(ops, k):
        raise Unsupported("a regular expression read into a number")
    q = re.fullmatch(r"([1-9]\d*)(?:/([1-9]\d*))?", run)
    if not q or q[2] == "1" or (q[2] and math.gcd(int(q[1]), int(q[2])) > 1):
        return  # not how a number is written
    if _is(s[i].v == z3.Q(int(q[1]), int(q[2] or 1))):
        yield from _m(ops, k, s, i + 1, g)


def _over(p, lo, hi, greedy, ops, k, s, i, g, nxt):
    """a repeated character over text with numbers inside, each taken whole"""
    if hi is not C.MAXREPEAT or lo > 1 or not _delimited(ops, k + 1):
        raise Unsupported("a regular expression read into a number")
    op, av = p[0]
    ends = [i] if lo == 0 else []
    while i < len(s):
        if isinstance(s[i], V.Atom):
            if op is C.ANY:
                ok = True
            elif op is C.IN:
                oks = [_set(ch, av) for ch in "0123456789/"]
                if any(oks) != all(oks):
                    raise Unsupported("a regular expression read into a number")
                ok = all(oks)
            else:
                raise Unsupported("a regular expression read into a number")
        else:
            ok = _is(_single(op, av, s[i]))
        if not ok:
            break
        i += 1
        ends.append(i)
    for j in reversed(ends) if greedy else ends:
        yield from nxt(j, g)


def _single(op, av, c):
    if op is C.LITERAL:
        return V._ch_eq(c, chr(av))
    if op is C.NOT_LITERAL:
        return _neg(V._ch_eq(c, chr(av)))
    if op is C.ANY:
        return _neg(V._ch_eq(c, "\n"))
    if op is C.IN:
        return _set(c, av)
    raise Unsupported(f"regular expression {op}")


class Match:
    def __init__(self, s, groups, n):
        self.s, self.g, self.n = s, groups, n

    def __bool__(self):
        return True

    def group(self, *ks):
        out = []
        for k in ks or (0,):
            if k != 0 and k not in self.g:
                out.append(None)
            else:
                a, b = self.g[k]
                out.append(V.mk_str(self.s[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(k) if k in self.g else default for k in range(1, self.n))

    def start(self, k=0):
        return self.g[k][0]

    def end(self, k=0):
        return self.g[k][1]

    def span(self, k=0):
        return self.g[k]


class Rx:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, re.Pattern):
            pattern, flags = pattern.pattern, pattern.flags & ~re.UNICODE
        self.pattern = pattern = V.mk_sym(pattern).concrete() if isinstance(pattern, V.SymStr) else pattern
        if flags:
            raise Unsupported("regular expression flags")
        t = P.parse(pattern)
        if t.state.flags & ~re.UNICODE:
            raise Unsupported("regular expression flags")
        self.ops, self.n = Top(list(t)), t.state.groups

    def _at(self, s, i, full=False):
        for j, g in _m(self.ops, 0, s, i, {}):
            if full and j != len(s):
                continue
            return Match(s, {**g, 0: (i, j)}, self.n)
        return None

    def match(self, text):
        return self._at(V.parts_of(text), 0)

    def fullmatch(self, text):
        return self._at(V.parts_of(text), 0, True)

    def _iter(self, s):
        i, last = 0, -1
        while i <= len(s):
            m = None
            if not (i < len(s) and isinstance(s[i], V.Atom)) or self._optional():
                m = self._at(s, i)
            if m is not None and not (m.end() == m.start() == last):
                yield m
                last = m.end()
                i = m.end() if m.end() > i else i + 1
            else:
                i += 1

    def _optional(self):
        return True

    def search(self, text):
        s = V.parts_of(text)
        for m in self._iter(s):
            return m
        return None

    def finditer(self, text):
        return list(self._iter(V.parts_of(text)))

    def findall(self, text):
        out = []
        for m in self._iter(V.parts_of(text)):
            gs = m.groups("")
            out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
        return out

    def split(self, text, maxsplit=0):
        s, out, at, n = V.parts_of(text), [], 0, 0
        for m in self._iter(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(V.mk_str(s[at:m.start()]))
            out.extend(m.groups())
            at, n = m.end(), n + 1
        out.append(V.mk_str(s[at:]))
        return out

    def sub(self, repl, text, count=0):
        from .instrument import sx_call

        s, out, at, n = V.parts_of(text), [], 0, 0
        if isinstance(repl, str) and "\\" in V.parts_of(repl):
            raise Unsupported("a replacement with references")
        for m in self._iter(s):
            if count and n >= count:
                break
            out.extend(s[at:m.start()])
            out.extend(V.parts_of(repl if isinstance(repl, str) else sx_call(repl, m)))
            at, n = m.end(), n + 1
        out.extend(s[at:])
        return V.mk_str(out)


def method(pat, name, args, kw):
    """pat.name(*args) for a compiled pattern and symbolic arguments"""
    f = getattr(Rx(pat), name)
    return f(*args, **kw)
