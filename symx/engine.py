"""Path exploration by re-execution; z3 decides branches and assertions."""
import os
import time

import z3


FORKS = {} if os.environ.get("SYMX_FORKS") else None


def _note_fork(s):
    if FORKS is not None:
        import traceback

        fr = [
            f"{f.filename.split('/')[-1]}:{f.lineno}"
            for f in traceback.extract_stack()[:-2]
            if "symx" not in f.filename or f.name == "concrete"
        ]
        k = (str(s)[:100], " ".join(fr[-6:]))
        FORKS[k] = FORKS.get(k, 0) + 1


class PathAbort(BaseException):
    """The current path ends here (an assumption cannot hold on it)."""


class Inconclusive(BaseException):
    """The solver answered unknown."""


class Diverged(BaseException):
    """Re-execution did not follow the recorded decisions."""


class Unsupported(Exception):
    """The code did something with a symbolic value that has no encoding."""

    def __init__(self, *a):
        super().__init__(*a)
        if Engine.current is not None:
            Engine.current.dead = self


class Violation(Exception):
    def __init__(self, label, model):
        super().__init__(label)
        self.label = label
        self.model = model


class Stats:
    FIELDS = (
        "paths", "aborted", "branches", "forks", "queries", "sat", "unsat",
        "assertions", "concretised", "incomplete", "unsupported",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.unsupported_why = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["unsupported_why"] = self.unsupported_why
        return d


FIRST_MS = 4000  # for the incremental solver, before others are tried


class Engine:
    """State of one path; a new prefix starts a new path."""

    current = None

    def __init__(self, timeout_ms=20000):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.solver = None

    # -- one path -----------------------------------------------------------
    def start(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.dead = None
        self.trace = []  # (decision, other side feasible)
        self.solver = z3.Solver()
        self.solver.set("timeout", min(self.timeout_ms, FIRST_MS))
        self.model = None
        self.vars = {}
        self.pc = []
        self.notes = []
        self.quiet = False

    def _check(self, *extra):
        t = time.perf_counter()
        self.answered = s = self.solver
        r = s.check(*extra)
        if r == z3.unknown:
            # nonlinear queries: a fresh solver may choose its tactic freely
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(*self.pc, *extra)
            r, self.answered = s.check(), s
        if r == z3.unknown:
            self.answered = s = self.solver
            s.set("timeout", self.timeout_ms)
            r = s.check(*extra)
            s.set("timeout", min(self.timeout_ms, FIRST_MS))
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        raise self.die(Inconclusive(f"solver: {s.reason_unknown()}"))

    def die(self, exc):
        """Remember an engine signal, in case the code under test swallows it."""
        self.dead = exc
        return exc

    def alive(self):
        if self.dead is not None:
            raise self.dead

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)
        if self.model is not None and not z3.is_true(
            self.model.eval(e, model_completion=True)
        ):
            self.model = None

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise self.die(PathAbort("infeasible"))
            self.model = self.answered.model()
        return self.model

    def feasible(self):
        if self.model is not None:
            return True
        if self._check():
            self.model = self.answered.model()
            return True
        return False

    def branch(self, e):
        """Decide the truth of e on this path, remembering the other side."""
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self.alive()
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, bool):
                raise self.die(Diverged("branch"))
            self.pos += 1
            self.trace.append((d, False))
            self.add(s if d else z3.Not(s))
            return d
        m = self.get_model()
        here = z3.is_true(m.eval(s, model_completion=True))
        other = z3.Not(s) if here else s
        both = self._check(other)
        d = here
        if both:
            # prefer True first, so that the order does not depend on the model
            d = True
            self.stats.forks += 1
            _note_fork(s)
        self.pos += 1
        self.prefix.append(d)
        self.trace.append((d, both))
        self.add(s if d else z3.Not(s))
        return d

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise self.die(PathAbort("assume"))
            return
        self.add(z3.simplify(e))
        if not self.feasible():
            raise self.die(PathAbort("assume"))

    def must(self, e):
        """True if e holds for every value on this path (no fork)."""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return not self._check(z3.Not(e))

    def check(self, e, label):
        """Assert e for all values of this path."""
        self.alive()
        self.stats.assertions += 1
        if isinstance(e, bool):
            if e:
                return
            raise self.die(Violation(label, self.values(self.get_model())))
        s = z3.simplify(e)
        if z3.is_true(s):
            return
        if self._check(z3.Not(s)):
            raise self.die(Violation(label, self.values(self.answered.model())))

    def concretise(self, e, finite=True):
        """A concrete value for e on this path; all others are explored too."""
        s = z3.simplify(e)
        v = _value(s)
        if v is not None:
            return v
        self.stats.concretised += 1
        for _ in range(100000):
            if self.pos < len(self.prefix):
                # replay: recorded as the literal value in the prefix
                tag = self.prefix[self.pos]
                if isinstance(tag, tuple) and tag[0] == "v":
                    val, d = tag[1], tag[2]
                    self.pos += 1
                    lit = _lit(s, val)
                    self.trace.append((tag, False))
                    self.add(s == lit if d else s != lit)
                    if d:
                        return val
                    continue
                raise self.die(Diverged("concretise"))
            m = self.get_model()
            lit = m.eval(s, model_completion=True)
            val = _value(lit)
            if val is None:
                raise self.die(Inconclusive("no value"))
            other = self._check(s != lit)
            tag = ("v", val, True)
            self.pos += 1
            self.prefix.append(tag)
            if other and not finite:
                # infinite domain: this value only, and say so
                self.stats.incomplete += 1
                other = False
            self.trace.append((tag, other))
            if other:
                self.stats.forks += 1
                _note_fork(s)
            self.add(s == lit)
            return val
        raise self.die(Unsupported("too many values"))

    def values(self, model):
        out = {}
        for name, (kind, e) in self.vars.items():
            v = _value(model.eval(e, model_completion=True))
            if kind == "rat":
                out[name] = str(v)
            elif kind == "bool":
                out[name] = bool(v)
            else:
                out[name] = int(v) if v == int(v) else str(v)
        return out

    def alternatives(self, base_len):
        """Prefixes of the unexplored siblings of this path."""
        out = []
        path = [d for d, _ in self.trace]
        for i in range(base_len, len(self.trace)):
            d, both = self.trace[i]
            if both:
                alt = ("v", d[1], not d[2]) if isinstance(d, tuple) else (not d)
                out.append(path[:i] + [alt])
        return out


def _value(e):
    from fractions import Fraction

    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def _lit(e, v):
    from fractions import Fraction

    if z3.is_bool(e):
        return z3.BoolVal(v)
    if z3.is_int(e):
        return z3.IntVal(v)
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


def cur():
    return Engine.current
