"""Collection and text helpers do what they say for every input."""
import itertools

from hlib import *

BOUNDS = {
    "flatten": "12 nested shapes of lists and tuples up to four levels with symbolic integer, rational and text leaves",
    "chunks": "lists of 0 to 7 symbolic items, piece sizes 1 to 8",
    "multisets": "pairs of lists of 0 to 3 (quick) / 4 (thorough) symbolic integers, rationals or texts",
    "foldr": "0 to 4 symbolic items with and without a start value, over the free function (pairs)",
    "fixed point": "every function on 2 to 4 (quick) / 5 (thorough) points whose iteration settles",
    "factors": "1 <= n <= 60 (quick) / 400 (thorough), n symbolic",
    "replacement": "texts of up to 5 (quick) / 6 (thorough) symbolic characters, six sets of keys (overlapping, one beginning with another, with special characters)",
    "term helpers": "lists of up to three field strings of up to three symbolic characters",
}
ASSUMPTIONS = ["A text replacement prefers the longest key at a place, and goes from left to right.",
               "A free function stands for every function in foldr."]
BUDGET = {"quick": 150, "thorough": 900}

SHAPES = [[], ["."], (".", "."), [["."], "."], [[], ".", ()], (".", [".", (".",)]), [[["."]]], [[["."], "."], (".",)],
          (((),),), [".", [".", [".", ["."]]]], ((".", "."), (".", ".")), [["."], [], ["."], ()]]
KEYSETS = [
    {"a": "b"},
    {"a": "b", "b": "a"},
    {"a": "b", "ab": "c"},
    {"ab": "c", "a": "b", "b": "ab"},
    {"a.": "x", ".": "a"},
    {"aa": "a", "a": "aa", "ba": ""},
    {"a": "x", "ab": "y", "abb": "z", "b.": ""},
    {"bb": "1", "bbb": "2", "b": "3"},
]


def load():
    global cu, fn, tu, mt
    cu = repo("completions.utils")
    fn = repo("utils.functions")
    tu = repo("tensormethod.utils")
    mt = repo("utils")


def configs(tier):
    quick = tier == "quick"
    out = [("flat", {"s": k, "kind": kd}) for k in range(len(SHAPES)) for kd in ("int", "text")]
    out += [("chunk", {"n": n, "f": f}) for n in range(8) for f in ("c", "u")]
    top = 3 if quick else 4
    out += [("multi", {"a": a, "b": b, "kind": k}) for a in range(top + 1) for b in range(top + 1) if abs(a - b) < 2
            for k in (("rat", "text") if a + b < (6 if quick else 8) else ("rat",))]
    out += [("fold", {"n": n, "start": s}) for n in range(5) for s in ("no", "zero", "some") if n or s != "no"]
    out += [("fix", {"n": n}) for n in range(2, 5 if quick else 6)]
    step = 20
    out += [("divisors", {"lo": lo, "hi": lo + step - 1}) for lo in range(1, 61 if quick else 401, step)]
    out += [("replace", {"k": k, "n": n}) for k in range(len(KEYSETS)) for n in range(1, 6 if quick else 7)]
    out += [("parens", {"n": n}) for n in range(1, 6)]
    out += [("linear", {"n": n, "w": w}) for n in range(1, 4) for w in (1, 2, 3) if n * w < (7 if quick else 10)]
    return out


def leaf(env, kind, name):
    return env.int(name, 0, 9) if kind == "int" else env.text(name, 2, "ab")


def flat(env, cfg):
    leaves = []

    def build(s):
        if s == ".":
            x = leaf(env, cfg["kind"], f"x{len(leaves)}")
            leaves.append(x)
            return x
        r = [build(i) for i in s]
        return tuple(r) if isinstance(s, tuple) else r

    data = build(SHAPES[cfg["s"]])
    out = list(cu.flatten(data))
    env.check(len(out) == len(leaves), "every leaf once")
    env.check(env.all([env.eq(a, b) for a, b in zip(out, leaves)]), "the leaves in order")
    env.observe("flat", out)


def chunk(env, cfg):
    l = [env.int(f"x{k}", 0, 9) for k in range(cfg["n"])]
    n = env.int("n", 1, 8)
    f = cu.chunks if cfg["f"] == "c" else fn.chunks
    keep = list(l)
    out = list(f(l, n))
    env.check(all(a is b for a, b in zip(l, keep)) and len(l) == len(keep), "the list is left alone")
    flat_ = [x for c in out for x in c]
    env.check(len(flat_) == len(keep) and all(a is b for a, b in zip(flat_, keep)), "the pieces make up the list")
    env.check(env.all([env.eq(n, len(c)) for c in out[:-1]]), "every piece but the last has the given size")
    if out:
        env.check(env.all([len(out[-1]) > 0, n >= len(out[-1])]), "the last piece is not empty and not larger")
    env.observe("pieces", [len(c) for c in out])


def multi(env, cfg):
    kind = cfg["kind"]
    mk = lambda nm: env.rat(nm) if kind == "rat" else leaf(env, kind, nm)
    xs = [mk(f"x{k}") for k in range(cfg["a"])]
    ys = [mk(f"y{k}") for k in range(cfg["b"])]
    r = cu.multiset_equality(xs, ys)
    if len(xs) != len(ys):
        want = False
    else:
        want = env.any([env.all([env.eq(x, y) for x, y in zip(xs, p)]) for p in itertools.permutations(ys)])
    env.check(env.iff(r, want), "the same items equally often")
    env.check(env.iff(cu.multiset_equality(iter(ys), tuple(xs)), want), "either way round, from any iterables")


def fold(env, cfg):
    xs = [env.int(f"x{k}", 0, 9) for k in range(cfg["n"])]
    keep = list(xs)
    f = lambda x, acc: ("f", x, acc)
    if cfg["start"] == "no":
        out = cu.foldr(f, xs)
        want = keep[-1]
        rest = keep[:-1]
    else:
        acc = 0 if cfg["start"] == "zero" else env.int("acc", -2, 2)
        out = cu.foldr(f, xs, acc)
        want, rest = acc, keep
    for x in reversed(rest):
        want = ("f", x, want)
    a, b = out, want
    while isinstance(b, tuple):
        if not isinstance(a, tuple) or len(a) != 3:
            env.check(False, "folds every item")
        env.check(env.eq(a[1], b[1]), "items are combined from the right")
        a, b = a[2], b[2]
    env.check(env.eq(a, b), "the fold starts from the given value or the last item")
    env.check(len(xs) == len(keep) and all(p is q for p, q in zip(xs, keep)), "the items are left alone")


def fix(env, cfg):
    n = cfg["n"]
    t = [env.int(f"t{k}", 0, n - 1) for k in range(n)]
    calls = []

    def f(x):
        calls.append(x)
        if len(calls) > 40:
            env.check(False, "the iteration ends")
        return t[int(x)]

    x = env.int("x", 0, n - 1)
    at, seen = int(x), []
    while True:
        nxt = int(t[at])
        if nxt == at:
            break
        seen.append(at)
        env.assume(nxt not in seen)
        at = nxt
    out = cu.fixedpoint(f, x)
    env.check(env.eq(out, at), "the first point that maps to itself")
    env.observe("fixed", out)


def divisors(env, cfg):
    n = env.int("n", cfg["lo"], cfg["hi"])
    out = cu.factors(n)
    out = list(out)
    for d in range(1, cfg["hi"] + 1):
        is_div = env.eq(n % d, 0)
        env.check(env.iff(env.any([env.eq(o, d) for o in out]), is_div), "exactly the divisors")
    env.check(env.all([env.all([o >= 1, o <= n]) for o in out]), "divisors lie between one and the number")


def replace(env, cfg):
    keys = KEYSETS[cfg["k"]]
    chars = [env.char(f"c{k}", "ab.") for k in range(cfg["n"])]
    s = env.join(chars)
    mapping = dict(keys)
    got = cu.multiple_replace(mapping, s)
    # left to right, the longest key first
    i, parts = 0, []
    order = sorted(keys, key=lambda k: -len(k))
    while i < len(chars):
        for k in order:
            if i + len(k) <= len(chars) and env.truth(env.all([env.eq(a, b) for a, b in zip(chars[i:], k)])):
                parts.append(keys[k])
                i += len(k)
                break
        else:
            parts.append(chars[i])
            i += 1
    env.check(env.eq(got, env.join(parts) if parts else ""), "every occurrence is replaced once, by its own value")
    env.check(mapping == keys, "the mapping is left alone")
    env.observe("text", got)


def parens(env, cfg):
    chars = [env.char(f"c{k}", "()aD") for k in range(cfg["n"])]
    s = env.join(chars)
    out = tu.strip_parens(s)
    both = env.all([env.eq(chars[0], "("), env.eq(chars[-1], ")")])
    if env.truth(both):
        want = env.join(chars[1:-1]) if len(chars) > 2 else ""
    else:
        want = s
    env.check(env.eq(out, want), "only a surrounding pair of parentheses is removed")


class Named:
    """an object known by its text"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def linear(env, cfg):
    words = [[env.char(f"c{i}_{k}", "DLGa") for k in range(cfg["w"])] for i in range(cfg["n"])]
    for w in words:
        # something is left after the derivatives
        env.assume(env.not_(env.eq(w[-1], "D")))
    coll = [env.join(w) for w in words]
    isD = [[env.eq(c, "D") for c in w] for w in words]

    def strength(w):
        # the first letter after the last derivative
        return env.any([env.all([env.eq(w[k], "G"), (k == 0 or env.eq(w[k - 1], "D"))]
                                + [env.not_(env.eq(c, "D")) for c in w[k:]]) for k in range(len(w))])

    fs = env.any([strength(w) for w in words])
    env.check(env.iff(tu.is_fieldstrength_in(coll), fs), "a field strength is found exactly when there is one")
    env.check(env.iff(tu.is_deriv_in(coll), env.any([d[0] for d in isD])), "a derivative is found exactly when there is one")
    flat_ = [d for w in isD for d in w]
    one = env.any([env.all([x if k == j else env.not_(x) for k, x in enumerate(flat_)]) for j in range(len(flat_))])
    env.check(env.iff(tu.is_linear_in_deriv(coll), env.all([one, env.not_(fs)])), "linear exactly with one derivative and no field strength")


HARNESSES = {"flat": flat, "chunk": chunk, "multi": multi, "fold": fold, "fix": fix, "divisors": divisors,
             "replace": replace, "parens": parens, "linear": linear}
