"""Products of fields add charges and conserve dimension."""
import itertools

import reps
from hlib import *

BOUNDS = {
    "charges": "all rationals, keys y, 3b, l",
    "pairs": "all representations with at most 2 (quick) / 3 (thorough) indices each",
    "triples": "all triples of representations with at most one index each (quick: all of one order), quartets and quintets of selected ones, and large single products (27 with 27 of colour)",
}
ASSUMPTIONS = ["The expected decompositions come from weight diagrams (Gelfand-Tsetlin patterns and reflections), computed apart from the package."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global core
    core = repo("tensormethod.core")


def s(d):
    return "".join(map(str, d))


def configs(tier):
    n = 2 if tier == "quick" else 3
    ds = dynkins(n)
    pairs = [(a, b) for a in ds for b in ds]
    if tier == "quick":
        pairs = [p for k, p in enumerate(pairs) if sum(p[0]) + sum(p[1]) <= 2 or k % 4 == 0]
    out = [("prod", {"ds": [s(a), s(b)]}) for a, b in pairs]
    one = dynkins(1)
    tri = itertools.combinations_with_replacement(one, 3) if tier == "quick" else itertools.product(one, repeat=3)
    out += [("prod", {"ds": [s(d) for d in t]}) for t in tri]
    out += [("prod", {"ds": q}) for q in (
        ["10101", "10101", "10011", "10010"], ["00100", "00001", "00010", "00001"],
        ["10000", "01000", "10001", "01001"], ["00001", "00001", "00002", "00002"],
        ["00220", "00220"], ["33000", "33000"], ["00004", "00005"], ["00001"] * 5, ["00100", "00100", "00100", "00010"], ["00110"] * 3)]
    out += [("alone", {"d": s(d)}) for d in one]
    return out


def fld(env, k, ds):
    ch = {"l": env.rat(f"l{k}"), "y": env.rat(f"y{k}"), "3b": env.rat(f"b{k}")}
    return core.Field("ABEFG"[k], ds, charges=ch, is_conj=k == 1 and env.bool("conj"))


def prod(env, cfg):
    ds = cfg["ds"]
    fs = [fld(env, k, d) for k, d in enumerate(ds)]
    out = core.decompose_product(*fs)
    for r in out:
        env.check(set(r.charges) == {"y", "3b", "l"}, "every charge present")
        for key in ("y", "3b", "l"):
            env.check(env.eq(r.charges[key], env.sum(f.charges[key] for f in fs)),
                      "charges are the sums")
    # multiplicities: those of each step multiply along the history
    want = reps.product_many([tuple(map(int, d)) for d in ds])
    got = {}
    for r in out:
        m, x = 1, r
        while x.history:
            m *= x.multiplicity
            x = x.history.left
        got[tuple(r.dynkin_ints)] = got.get(tuple(r.dynkin_ints), 0) + m
    env.check(got == want, "irreducible parts with multiplicity")
    total = 1
    for d in ds:
        total *= reps.dim(tuple(map(int, d)))
    env.check(sum(m * reps.dim(k) for k, m in got.items()) == total, "dimension conserved")
    ysum = env.sum(f.charges["y"] for f in fs)
    combine = (0, 0, 0, 0, 0) in want
    singlet = env.any([bool(r.is_singlet) for r in out])
    env.check(env.iff(singlet, env.all([combine, env.eq(ysum, 0)])),
              "a singlet exactly when hypercharge cancels and the representations combine")
    for r in out:
        names, x = [], r.walked()
        while isinstance(x, core.Prod):
            names.append(x.right)
            env.check(x.irrep.dynkin == x.irrep.dynkin.strip(), "irrep recorded")
            x = x.left
        names.append(x)
        names.reverse()
        env.check(len(names) == len(fs) and all(a is b for a, b in zip(names, fs)),
                  "history names the factors in order")
        env.check(env.eq(r.label, env.join([f.label_with_dagger for f in fs])), "label joined")
        env.check(r.walked().irrep is r, "history starts at the product")
    env.observe("out", [[r.label, r.dynkin, r.y, r.multiplicity] for r in out])


def alone(env, cfg):
    f = fld(env, 0, cfg["d"])
    env.check(core.decompose_product(f) is f and f.walked() is f, "a single field stays itself")
    g = f.conj
    env.check(env.iff(f.is_singlet, env.all([cfg["d"] == "00000", env.eq(f.charges["y"], 0)])), "singlet")
    if cfg["d"][:2] != "00":
        return
    out = f * g
    env.check(any(env.truth(r.is_singlet) for r in out), "a field and its conjugate make a singlet")


HARNESSES = {"prod": prod, "alone": alone}
