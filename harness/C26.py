"""Filtering removes exactly the models that extend a known one."""
from hlib import *

BOUNDS = {
    "models": "one to three (thorough: four) models of one to four exotics, against none to three sieve models of one to three exotics",
    "exotics": "arbitrary rational hypercharge and in part baryon number, two colour and Lorentz types, so that any overlap of contents occurs",
    "divisors": "numbers 1 to 400 for the divisor sets of the harness factors (C17 covers factors itself)",
}
ASSUMPTIONS = ["A model is the set of its exotics' quantum numbers, as the grouping of completions makes it."]
BUDGET = {"quick": 200, "thorough": 800}

CASES = {
    "11": ((1,), (1,)), "21": ((2,), (1,)), "12": ((1,), (2,)), "22": ((2,), (2,)), "2.11": ((2,), (1, 1)),
    "11.1": ((1, 1), (1,)), "31": ((3,), (1,)), "32": ((3,), (2,)), "21.1": ((2, 1), (1,)), "0": ((2, 1), ()),
    "22.12": ((2,), (1, 2)),
}
MORE = {"33": ((3,), (3,)), "42": ((4,), (2,)), "111.11": ((1, 1, 1), (1, 1)), "22.2": ((2, 2), (2,)), "3.21": ((3,), (2, 1))}


def load():
    global comp
    comp = repo("completions.completions")


def configs(tier):
    names = list(CASES) + ([] if tier == "quick" else list(MORE))
    out = [("filter", {"case": k, "types": t}) for k in names for t in ("s", "st")]
    out += [("registry", {"n": n}) for n in ((1, 1), (2, 1), (2, 2), (3, 1))]
    return out + [("wide", {"n": n}) for n in (6, 9)]


class Token:
    """stands for a completion; filtering must not look at it"""


def info(env, tag, kind):
    y = env.rat("y" + tag)
    env.assume(y >= 0)
    if kind == "t":
        return ("S", 1, 0, 0, ("3b", env.rat("b" + tag)), ("y", y))
    return ("F", 0, 0, 1, ("3b", 0), ("y", y))


def same(env, a, b):
    return env.all([env.eq(p[1], q[1]) for p, q in zip(a[4:], b[4:])]) if a[:4] == b[:4] else False


def model(env, n, tag, types):
    fs = [info(env, f"{tag}{k}", types[(k + len(types)) % len(types)]) for k in range(n)]
    for i, a in enumerate(fs):
        for b in fs[:i]:
            env.assume(env.not_(same(env, a, b)))
    return tuple(sorted(fs))


def within(env, xs, ys):
    return env.all([env.any([same(env, x, y) for y in ys]) for x in xs])


def content(env, xs, ys):
    return env.all([within(env, xs, ys), within(env, ys, xs)])


def table(env, sizes, tag, types):
    ms = [model(env, n, f"{tag}{k}", types) for k, n in enumerate(sizes)]
    for i, a in enumerate(ms):
        for b in ms[:i]:
            env.assume(env.not_(content(env, a, b)))
    return {m: [Token() for _ in range(1 + k)] for k, m in enumerate(ms)}, ms


def filter(env, cfg):
    a, b = {**CASES, **MORE}[cfg["case"]]
    comps, ms = table(env, a, "a", cfg["types"])
    sieve, ss = table(env, b, "b", cfg["types"])
    sizes = len(comps), len(sieve)
    vals = [list(v) for v in comps.values()]
    out = comp.filter_completions(comps, sieve)
    env.check((len(comps), len(sieve)) == sizes, "the given tables are left alone")
    got = list(out.items())
    for m, val in zip(ms, vals):
        hit = [v for k, v in got if env.truth(content(env, k, m))]
        gone = env.any([within(env, s, m) for s in ss])
        env.check(env.iff(gone, not hit), "a model is removed exactly when it contains a sieve model")
        if hit:
            env.check(len(hit) == 1 and list(hit[0]) == val, "kept models keep their completions")
            env.cover("kept")
        else:
            env.cover("removed")
    env.check(all(any(env.truth(content(env, k, m)) for m in ms) for k, _ in got), "nothing is invented")
    env.observe("kept", len(got))


def registry(env, cfg):
    comps, ms = table(env, cfg["n"], "a", "s")
    reg = comp.prime_registry(comps)
    fields = [f for m in ms for f in m]
    for v in reg.values():
        env.check(v > 1 and all(v % d for d in range(2, v)), "fields are given primes")
    ks = list(reg.items())
    for i, (k, v) in enumerate(ks):
        for l, w in ks[:i]:
            env.check(env.neq(v, w), "every field has a prime of its own")
            env.check(env.not_(same(env, k, l)), "every field is listed once")
    for f in fields:
        env.check(f in reg, "every field is listed")
    nums = comp.model_registry(comps, reg)
    for m in ms:
        p = 1
        for f in m:
            p *= reg[f]
        env.check(nums[m] == p, "a model's number is the product over its fields")
    env.check(len(nums) == len(ms), "every model has a number")


def wide(env, cfg):
    """many known exotics beside a symbolic one"""
    y = env.rat("y")
    env.assume(y >= 0)
    vals = [env.rat(f"k{k}") for k in range(cfg["n"])]
    for k, v in enumerate(vals):
        env.assume(env.eq(v, k))
    fs = [("S", 1, 0, 0, ("3b", 0), ("y", v)) for v in vals]
    x = ("S", 1, 0, 0, ("3b", 0), ("y", y))
    comps = {tuple(fs[:4]): [Token()], tuple(fs[2:6]): [Token()], tuple(fs[:1]): [Token()], tuple(fs[3:]): [Token()]}
    sieve = {(x,): [Token()], (fs[0], fs[4]): [Token()]}
    out = comp.filter_completions(comps, sieve)
    got = list(out)
    for m in comps:
        gone = env.any([env.any([env.eq(f[5][1], y) for f in m]), any(f is fs[0] for f in m) and any(f is fs[4] for f in m)])
        env.check(env.iff(gone, not any(env.truth(content(env, k, m)) for k in got)), "a model is removed exactly when it contains a sieve model")
    env.observe("kept", len(out))


HARNESSES = {"filter": filter, "registry": registry, "wide": wide}
COVERS = {"filter": ["kept", "removed"]}
