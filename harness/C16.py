"""Pattern matching is sound and complete."""
import itertools

from hlib import *

BOUNDS = {
    "patterns and data": "nested tuples and lists up to three levels and six leaves; pattern leaves chosen by the solver among variables ?x, ? and constants, data leaves symbolic integers, rationals or texts (the empty text included)",
}
ASSUMPTIONS = ["Data hold no text starting with a question mark."]
BUDGET = {"quick": 120, "thorough": 900}

# shapes: "." is a leaf
SHAPES = [".", (), (".",), (".", "."), (".", ".", "."), ((".",), "."), (".", (".", ".")), ((".", "."), (".", ".")),
          ((), "."), [".", "."], (".", [".", "."]), (((".",),),), (".", ((".", "."), "."))]


def load():
    global m, ut
    m = repo("utils.match")
    ut = repo("utils")


def leaves(s):
    return 1 if s == "." else sum(leaves(x) for x in s)


def configs(tier):
    out = []
    for i, a in enumerate(SHAPES):
        for j, b in enumerate(SHAPES):
            if leaves(a) > (3 if tier == "quick" else 4) or leaves(b) > 4:
                continue
            for kind in ("int", "text"):
                if tier == "quick" and kind == "text" and (i + j) % 2:
                    continue
                out.append(("match", {"p": i, "d": j, "kind": kind, "consts": 1 if leaves(a) > 2 and tier == "quick" else 2}))
    out.append(("fields", {}))
    return out


def leaf(env, name, kind):
    if kind == "int":
        return env.int(name, 0, 2)
    n = int(env.int(name + "n", 0, 1))
    return env.text(name, n, "ab") if n else ""


def build(env, s, mk, path="r"):
    if s == ".":
        return mk(path)
    xs = [build(env, x, mk, f"{path}{k}") for k, x in enumerate(s)]
    return xs if isinstance(s, list) else tuple(xs)


def is_var(p):
    return isinstance(p, Var)


class Var(str):
    """marks a variable in the harness; plain text for the code"""


def same(env, a, b):
    """equality of nested data, a condition"""
    ca, cb = isinstance(a, (tuple, list)), isinstance(b, (tuple, list))
    if ca != cb:
        return False
    if ca:
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return env.all([same(env, x, y) for x, y in zip(a, b)])
    return env.eq(a, b)


def unify(env, p, d, bound):
    """the condition for a match, first occurrences binding"""
    if is_var(p):
        if p in bound:
            return same(env, bound[p], d)
        bound[p] = d
        return True
    cp, cd = isinstance(p, (tuple, list)), isinstance(d, (tuple, list))
    if cp != cd:
        return False
    if not cp:
        return env.eq(p, d)
    if isinstance(p, list) != isinstance(d, list) or len(p) != len(d):
        return False
    return env.all([unify(env, x, y, bound) for x, y in zip(p, d)])


def subst(p, r):
    if is_var(p):
        return r[str(p)]
    if isinstance(p, (tuple, list)):
        return type(p)(subst(x, r) for x in p)
    return p


def variables(p):
    if is_var(p):
        return {str(p)}
    if isinstance(p, (tuple, list)):
        return set().union(*[variables(x) for x in p]) if p else set()
    return set()


def plain(p):
    if is_var(p):
        return "" + str.__str__(p)
    if isinstance(p, (tuple, list)):
        return type(p)(plain(x) for x in p)
    return p


def match(env, cfg):
    kind = cfg["kind"]
    data = build(env, SHAPES[cfg["d"]], lambda n: leaf(env, "d" + n, kind))
    def pl(n):
        c = env.pick("k" + n, range(3 if cfg["consts"] == 2 else 2))
        if c == 2:
            return Var("?")
        if c == 1 or cfg["consts"] == 1 and n[-1] == "0":
            return Var("?x")
        return leaf(env, "p" + n, kind)
    pat = build(env, SHAPES[cfg["p"]], pl)
    judge(env, pat, data)


def judge(env, pat, data):
    bound = {}
    want = unify(env, pat, data, bound)
    p = plain(pat)
    r = ut.pmatch(p, data)
    ok = r is not False
    env.check(env.iff(ok, want), "matches exactly when some assignment does")
    env.check(m.is_match(p, data) is ok, "is_match agrees")
    if ok:
        env.check(isinstance(r, dict) and set(map(str, r)) == variables(pat), "every variable is assigned, and nothing else")
        env.check(same(env, subst(pat, {str(k): v for k, v in r.items()}), data), "the assignment turns the pattern into the data")
    env.observe("ok", ok)
    env.cover("match" if ok else "fail")


def fields(env, cfg):
    """data of the kind fields are matched with"""
    y, b = env.rat("y"), env.rat("b")
    data = ("L", (("Isospin", ("i0",)), ("Colour", ())), (("3b", b), ("y", y)), "fermi", env.int("d", 0, 1), env.bool("c"))
    for pat in (("?l", Var("?i"), (("3b", Var("?b")), ("y", Var("?y"))), "fermi", 0, False),
                (Var("?l"), Var("?i"), (("3b", Var("?b")), ("y", Var("?b"))), Var("?s"), Var("?d"), Var("?c")),
                (Var("?l"), (Var("?a"), ("Colour", ())), Var("?ch"), Var("?s"), Var("?d"), True),
                (Var("?l"), Var("?i"), (Var("?b"), ("y", env.const("1/2"))), Var("?s"), Var("?d"), Var("?c"))):
        if pat[0] == "?l" and not is_var(pat[0]):
            pat = (Var("?l"),) + pat[1:]
        judge(env, pat, data)


HARNESSES = {"match": match, "fields": fields}
COVERS = {"match": ["match", "fail"]}
