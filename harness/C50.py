"""The tables of one-loop Weinberg models close at every vertex and are complete."""
import itertools
from fractions import Fraction

from hlib import *

BOUNDS = {
    "hypercharge": "the free hypercharge of a table: all rationals (tables); all multiples of 1/6 between -3 and 3 (the generated list)",
    "weak isospin": "the SU(2) dimensions handed to a table: all integers from 1 to 9; the family parameter of the lists of dimensions: all integers from 1 to 9 (thorough: 30)",
    "colour": "the six colour assignments the tables offer",
}
ASSUMPTIONS = ["A model closes if, following the loop in one of its two directions, every step changes the quantum numbers by those of the external fields entering there: L between a scalar and a fermion, H between two scalars or two fermions, H H at the quartic vertex."]
BUDGET = {"quick": 120, "thorough": 400}


def load():
    global hl
    hl = repo("database.heavyloops")


SHAPES = {"tbl_2_1": 4, "tbl_2_2": 4, "tbl_2_3": 4, "tbl_3_1": 3}
COLOURS = {"00", "10", "01", "02", "20", "11"}


def configs(tier):
    top = 9 if tier == "quick" else 30
    out = [("table", {"t": t}) for t in SHAPES]
    out += [("dims", {"n": n, "top": top}) for n in (3, 4)]
    out += [("listed", {"n": n}) for n in (3, 4)]
    return out + [("generated", {"part": k}) for k in range(4)]


def parse(env, text, dims, y):
    """(kind, colour, position of the dimension, offset of the hypercharge)"""
    kind, colour, iso, rest = env.revive(text).split(",")
    pos = [k for k, d in enumerate(dims) if env.truth(env.eq(iso, env.str_of(d - 1)))]
    off = [o for o in OFFSETS if env.truth(env.eq(rest, env.str_of(y + env.const(str(o)))))]
    env.check(len(off) == 1, "the hypercharge differs from the free one by a multiple of a half")
    return str(kind), str(colour), pos, off[0] if off else None


HAVE = set()  # the list has no input: made once
OFFSETS = [Fraction(k, 2) for k in range(-4, 5)]


def closes(fields, colour=True):
    """whether the loop closes in one of its directions"""
    for ring in (fields, fields[::-1]):
        ok, legs = True, []
        for k, (kind, col, _, off) in enumerate(ring):
            kind2, col2, _, off2 = ring[(k + 1) % len(ring)]
            d = off2 - off
            if kind != kind2:
                leg = ["L"] if d == Fraction(-1, 2) else None
            elif d == Fraction(1, 2):
                leg = ["H"]
            elif d == 1 and kind == "S" and len(ring) == 3:
                leg = ["H", "H"]
            else:
                leg = None
            if leg is None or (colour and col != col2):
                ok = False
                break
            legs += leg
        if ok and sorted(legs) == ["H", "H", "L", "L"]:
            return True
    return False


def table(env, cfg):
    n = SHAPES[cfg["t"]]
    y = env.rat("y")
    dims = [env.int(f"d{k}", 1, 9) for k in range(n)]
    for a, b in itertools.combinations(range(n), 2):
        env.assume(env.neq(dims[a], dims[b]))
    models = getattr(hl, cfg["t"])(list(dims), y)
    seen = []
    for m in models:
        env.check(len(m) == n, "one field per line of the loop")
        fields = [parse(env, f, dims, y) for f in m]
        env.check([f[2] for f in fields] == [[k] for k in range(n)], "the dimensions are those handed in")
        env.check(fields[0][3] == 0, "the first field has the free hypercharge")
        env.check(closes(fields, colour=False), "hypercharge flows through every vertex")
        env.check(closes(fields), "colour flows through every vertex")
        env.check({f[1] for f in fields} <= COLOURS, "known colours")
        seen.append(fields[0][1])
    env.check(sorted(seen) == sorted(COLOURS), "each colour assignment once")
    env.check(len({tuple(f.split(",")[0] for f in map(env.revive, m)) for m in models}) == 1, "the same kinds of field for every colour")
    env.observe("seen", seen)


def walk(env, d, n):
    """whether the dimensions can run round the loop (a truth value)"""
    step = lambda a, b: env.any([env.eq(a - b, 1), env.eq(b - a, 1)])
    if n == 4:
        return env.all([step(d[k], d[(k + 1) % 4]) for k in range(4)])
    trip = env.any([env.eq(d[0] - d[1], 2), env.eq(d[1] - d[0], 2), env.all([env.eq(d[0], d[1]), d[0] >= 2])])
    return env.all([trip, step(d[1], d[2]), step(d[2], d[0])])


def dims(env, cfg):
    """the families of dimensions: sound, and complete for each least dimension"""
    n, top = cfg["n"], cfg["top"]
    fam = {4: hl.tbl_2_su2_reps_func, 3: hl.tbl_3_su2_reps_func}[n]
    m = env.int("m", 1, top)
    rows = fam(m)
    for r in rows:
        env.check(len(r) == n, "one dimension per field")
        env.check(walk(env, r, n), "neighbouring dimensions differ by those of the external fields")
    # complete: any run round the loop whose least dimension is m is a row,
    # or a row of the family before
    d = [env.int(f"d{k}", 1, top + 2) for k in range(n)]
    env.assume(walk(env, d, n))
    env.assume(env.all([x >= m for x in d]))
    env.assume(env.any([env.eq(x, m) for x in d]))
    hit = env.any([env.all([env.eq(a, b) for a, b in zip(r, d)]) for r in rows])
    before = env.any([env.all([m > 1] + [env.eq(a, b) for a, b in zip(r, d)]) for r in fam(m - 1)])
    env.check(env.any([hit, before]), "every run of dimensions is in the tables")


def listed(env, cfg):
    """the listed dimensions are complete up to quintets"""
    n = cfg["n"]
    rows = {4: hl.tbl_2_su2_reps, 3: hl.tbl_3_su2_reps}[n]
    for r in rows:
        env.check(len(r) == n and bool(walk(env, r, n)), "listed dimensions run round the loop")
    d = [env.int(f"d{k}", 1, 7) for k in range(n)]
    env.assume(walk(env, d, n))
    env.assume(env.any([x <= 5 for x in d]))
    env.check(env.any([env.all([env.eq(a, b) for a, b in zip(r, d)]) for r in rows]), "every run with a field up to a quintet is listed")


def generated(env, cfg):
    """the generated list has every table at every hypercharge"""
    part = cfg["part"]
    name = list(SHAPES)[part]
    have = HAVE or HAVE.update(hl.generate_models()) or HAVE
    k = env.pick("y", range(-18, 19))
    y = hl.Rational(k, 6)
    rows = hl.tbl_3_su2_reps if SHAPES[name] == 3 else hl.tbl_2_su2_reps
    for r in rows:
        for m in getattr(hl, name)(r, y):
            env.check(m in have, "the list has every table at every hypercharge")
    env.observe("n", len(have))


HARNESSES = {"table": table, "dims": dims, "listed": listed, "generated": generated}
