"""Conjugation of fields, with and without indices."""
from hlib import *

BOUNDS = {
    "dynkin digits": "0..9 each (symbolic), 0..2 where the default symmetry is derived from them",
    "charges": "all rationals, three keys, any order of keys",
    "indices": "every representation with at most 3 (quick) / 4 (thorough) indices",
    "derivs": "0..6", "labels": "two letters",
}
ASSUMPTIONS = ["Labels do not themselves contain the dagger character."]


def load():
    global core
    core = repo("tensormethod.core")


def configs(tier):
    out = [("field", {"sym": s}) for s in ("given", "derived")]
    n = 3 if tier == "quick" else 4
    for d in dynkins(n):
        for g in ((0,) if sum(d) > 2 else (0, 1)):
            out.append(("indexed", {"dynkin": "".join(map(str, d)), "gen": g}))
    return out


def mk(env, dynkin, symmetry, indexed=False):
    orders = [("l", "y", "3b")]
    if not indexed:
        orders += [("y", "3b", "l"), ("3b", "y")]
    keys = env.pick("order", orders)
    nf = env.int("nf", 1, 3)
    env.assume(env.neq(nf, 2))
    charges = {k: env.rat("q_" + k) for k in keys}
    return dict(
        label=env.text("label", 2, "abz"),
        dynkin=dynkin,
        charges=charges,
        is_conj=env.bool("is_conj"),
        comm=env.int("comm", 0, 1),
        symmetry=symmetry,
        multiplicity=env.int("mult", 1, 5),
        latex=env.text("latex", 2, "\\xy"),
        nf=nf,
        derivs=env.int("derivs", 0, 6),
        stripped={"label": "A"} if indexed else env.pick("stripped", [None, {"label": "A"}]),
    )


def same(env, a, b, names, what):
    for n in names:
        env.check(env.eq(getattr(a, n), getattr(b, n)), f"{what}: {n} kept")


def field(env, cfg):
    if cfg["sym"] == "given":
        dynkin = env.text("d", 5, "0123456789")
        kw = mk(env, dynkin, [[1], [1, 1]])
    else:
        dynkin = env.text("d", 5, "012")
        kw = mk(env, dynkin, None, cfg["sym"] == "derived")
    f = core.Field(**kw)
    c = f.conj
    env.check(env.eq(list(c.charges), list(f.charges)), "charge keys kept")
    for k in f.charges:
        env.check(env.eq(c.charges[k] + f.charges[k], 0), "charges negated")
    d = dynkin
    env.check(
        env.eq(c.dynkin, env.join([d[1], d[0], d[3], d[2], d[4]])), "dynkin swapped"
    )
    env.check(env.not_(env.eq(c.is_conj, f.is_conj)), "flag flipped")
    same(env, c, f, ["label", "comm", "symmetry", "multiplicity", "latex", "nf",
                     "derivs", "stripped", "history"], "conj")
    env.check(c.conj == f, "involution")
    env.check(env.eq(c.conj.latex, f.latex), "involution: latex")
    env.observe("conj", [c.label, c.dynkin, list(c.charges.items()), c.is_conj])


def indexed(env, cfg):
    kw = mk(env, cfg["dynkin"], None, True)
    f = core.Field(**kw)
    idx = index_string(cfg["dynkin"], cfg["gen"])
    x = f(idx)
    c = x.conj
    flip = {"u": "d", "d": "u", "i": "i", "g": "g"}
    want = []
    for s in idx.split():
        if s[0] == "-":
            want.append(s[1:])
        elif s[0] == "c":
            want.append("-" + s)
        else:
            want.append(flip[s[0]] + s[1:])
    env.check([str(i) for i in c.indices] == want, "indices conjugated in place")
    for k in f.charges:
        env.check(env.eq(c.charges[k] + f.charges[k], 0), "charges negated")
    env.check(env.not_(env.eq(c.is_conj, x.is_conj)), "flag flipped")
    base = kw["label"]
    dag = env.join([base, "†"])
    if env.truth(x.is_conj):
        env.check(env.eq(x.label, dag), "dagger present")
        env.check(env.eq(c.label, base), "dagger removed")
    else:
        env.check(env.eq(c.label, dag), "dagger added")
    d = cfg["dynkin"]
    env.check(c.dynkin == d[1] + d[0] + d[3] + d[2] + d[4], "representation conjugate")
    same(env, c, x, ["comm", "symmetry", "latex", "nf", "derivs", "stripped"], "conj")
    cc = c.conj
    env.check([str(i) for i in cc.indices] == idx.split(), "involution: indices")
    same(env, cc, x, ["label", "dynkin", "charges", "is_conj", "comm", "symmetry",
                      "latex", "nf", "derivs", "stripped"], "involution")
    env.check(env.eq(c.field.label, base), "field label without dagger")
    env.check(c.field.conj == x.field, "field of conjugate is conjugate of field")
    env.check(cc.field == f, "field recovered")
    env.observe("conj", [c.label, [str(i) for i in c.indices], c.charges, c.is_conj])


HARNESSES = {"field": field, "indexed": indexed}
