"""Duplicate removal keeps exactly one representative per class."""
from hlib import *

BOUNDS = {
    "lists": "0 to 5 (quick; 7 and 8 of two classes) / 6 (thorough) items",
    "relations": "arbitrary symmetric relations (a solver variable per pair), and equality of symbolic integers, rationals and texts",
    "dropped positions": "every subset of 0..6 positions",
}
ASSUMPTIONS = ["An item is removed exactly when it is related to an earlier kept one; for equivalence relations this is one representative per class."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global fn, ut
    fn = repo("utils.functions")
    ut = repo("utils")


def configs(tier):
    top = 5 if tier == "quick" else 6
    out = [("relation", {"n": n, "fn": f}) for n in range(top + 1) for f in ("pop", "nopop")]
    out += [("classes", {"n": n, "fn": f, "kind": k}) for n in range(top + 1) for f in ("pop", "nopop") for k in ("int", "rat", "text")]
    if tier == "quick":
        out += [("classes", {"n": n, "fn": f, "kind": "int", "top": 1}) for n in (7, 8) for f in ("pop", "nopop")]
    out += [("drop", {"n": n}) for n in range(7)]
    return out


class Item:
    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        raise AssertionError("items are compared by the given relation only")

    __hash__ = None


def run(env, which, l, eq):
    if which == "pop":
        r = ut.remove_equivalent(l, eq)
        env.check(r is None, "the in-place version returns nothing")
        return l
    before = list(l)
    out = fn.remove_equivalent_nopop(l, eq)
    env.check(len(l) == len(before) and all(a is b for a, b in zip(l, before)), "the copying version leaves the list alone")
    env.check(out is not l, "a new list is returned")
    return out


def judge(env, l, out, rel):
    """rel(i, j) for i < j: a condition"""
    kept, it = [], iter(out)
    pos = 0
    got = []
    for x in out:
        while pos < len(l) and l[pos] is not x:
            pos += 1
        env.check(pos < len(l), "kept items are items of the list, in order")
        got.append(pos)
        pos += 1
    for j in range(len(l)):
        dup = env.any([rel(i, j) for i in got if i < j])
        if j in got:
            env.check(env.not_(dup), "no two kept items are equivalent")
        else:
            env.check(dup, "a removed item is equivalent to an earlier kept one")
    env.observe("kept", got)


def relation(env, cfg):
    n = cfg["n"]
    e = {(i, j): env.bool(f"e{i}{j}") for i in range(n) for j in range(i + 1, n)}
    items = [Item(k) for k in range(n)]
    eq = lambda a, b: e[(min(a.k, b.k), max(a.k, b.k))]
    out = run(env, cfg["fn"], list(items) if cfg["fn"] == "pop" else items, eq)
    judge(env, items, out, lambda i, j: e[(i, j)])


def classes(env, cfg):
    n = cfg["n"]
    if cfg["kind"] == "int":
        vals = [env.int(f"v{k}", 0, cfg.get("top", 3)) for k in range(n)]
    elif cfg["kind"] == "rat":
        vals = [env.rat(f"v{k}") for k in range(n)]
    else:
        vals = [env.text(f"v{k}", 2, "ab0") for k in range(n)]
    items = [[v] for v in vals]
    out = run(env, cfg["fn"], list(items), lambda a, b: a[0] == b[0])
    judge(env, items, out, lambda i, j: env.eq(vals[i], vals[j]))
    # doing it again changes nothing
    again = run(env, cfg["fn"], list(out), lambda a, b: a[0] == b[0])
    env.check(len(again) == len(out) and all(a is b for a, b in zip(again, out)), "doing it again changes nothing")


def drop(env, cfg):
    n = cfg["n"]
    l = [None, 0, "x", [], None, 5, 6][:n]
    vals = set()
    for k in range(n):
        if env.truth(env.bool(f"d{k}")):
            vals.add(k)
    out = fn.dropped_vals(l, vals)
    want = [x for k, x in enumerate(l) if k not in vals]
    env.check(len(out) == len(want) and all(a is b for a, b in zip(out, want)), "exactly the named positions are dropped")


HARNESSES = {"relation": relation, "classes": classes, "drop": drop}
