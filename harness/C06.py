"""A derivative changes the Lorentz labels by one each and nothing else."""
from hlib import *

BOUNDS = {
    "representations": "gauge digits 0..1 (quick; up to 2 for a few) or 0..2 (thorough) each; Lorentz digits of the field 0..2, requested digits 0..9 symbolic",
    "charges": "all rationals, keys y, 3b, l", "derivatives": "up to 4 in a row for stripping",
}
ASSUMPTIONS = ["Stripping is judged on fields that start with at most one Lorentz index (scalars and two-component fermions)."]


def load():
    global core
    core = repo("tensormethod.core")


def configs(tier):
    g = ["000", "100", "010", "001", "101", "111"]
    if tier != "quick":
        g += ["110", "002", "200", "021", "102", "012", "222"]
    out = [("deriv", {"lor": f"{u}{v}", "gauge": x}) for u in range(3) for v in range(3) for x in g]
    n = 2 if tier == "quick" else 3
    for lor in ("00", "10", "01"):
        for x in g:
            for path in paths(tuple(map(int, lor)), n):
                out.append(("strip", {"lor": lor, "gauge": x, "path": path}))
    if tier == "quick":
        for x, n in (("110", 1), ("200", 1), ("020", 1), ("112", 1), ("000", 3), ("001", 4)):
            out += [("strip", {"lor": l, "gauge": x, "path": p}) for l in ("00", "10") for p in paths(tuple(map(int, l)), n) if len(p) == n]
    return out


def paths(l, n):
    """sequences of Lorentz labels reached by 1..n derivatives"""
    out = []
    for du, dv in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        u, v = l[0] + du, l[1] + dv
        if u < 0 or v < 0:
            continue
        out.append([f"{u}{v}"])
        if n > 1:
            out += [[f"{u}{v}"] + p for p in paths((u, v), n - 1)]
    return out


def mk(env, dynkin):
    nf = env.int("nf", 1, 3)
    env.assume(env.neq(nf, 2))
    return core.Field("A", dynkin, charges={k: env.rat("q" + k) for k in ("l", "y", "3b")},
                      is_conj=env.bool("conj"), comm=env.int("comm", 0, 1), nf=nf,
                      latex="a")


def deriv(env, cfg):
    f = mk(env, cfg["lor"] + cfg["gauge"])
    u, v = map(int, cfg["lor"])
    want = env.text("t", 2, "0123456789")
    good = env.all([
        env.any([env.eq(want[0], str(u + s)) for s in (1, -1) if u + s >= 0]),
        env.any([env.eq(want[1], str(v + s)) for s in (1, -1) if v + s >= 0]),
    ])
    try:
        g = core.D(f, want)
        ok = True
    except AssertionError:
        ok = False
    env.check(env.iff(ok, good), "accepted exactly when both labels change by one")
    env.observe("ok", ok)
    env.cover("accepted" if ok else "rejected")
    if ok:
        kept(env, g, f, 1)
        env.check(env.eq(g.dynkin, env.join([want, cfg["gauge"]])), "only the Lorentz labels change")
        env.check(env.eq(g.stripped["charges"], f.charges), "bare charges remembered")
        env.check(g.stripped["dynkin"] == f.dynkin and g.stripped["label"] == "A"
                  and g.stripped["latex"] == "a" and g.stripped["symmetry"] == f.symmetry,
                  "bare field remembered")
        c = g.conj
        env.check(env.eq(c.derivs, g.derivs) and c.stripped is not None, "conjugation keeps the derivative")


def kept(env, g, f, n):
    env.check(env.eq(g.charges, f.charges), "charges kept")
    env.check(env.eq((g.comm, g.nf, g.is_conj), (f.comm, f.nf, f.is_conj)), "statistics, generations and flag kept")
    env.check(env.eq(g.derivs, f.derivs + n), "derivatives counted")
    env.check(env.eq(g.label, "D" * n + f.label), "label prefixed")


def backwards(text):
    """the same kinds of indices, numbered from the last to the first"""
    n = len(text.split())
    return " ".join(i.rstrip("0123456789") + str(n - k) for k, i in enumerate(text.split()))


def strip(env, cfg):
    f = mk(env, cfg["lor"] + cfg["gauge"])
    g = f
    for d in cfg["path"]:
        g = core.D(g, d)
    n = len(cfg["path"])
    kept(env, g, f, n)
    gen = 1 if env.truth(env.eq(f.nf, 3)) else 0
    idx = backwards(index_string(g.dynkin, gen))
    x = g(idx)
    env.check(env.eq(x.derivs, n), "indexed derivative counted")
    bare = x.strip_derivs()
    env.check(bare == f, "stripped field is the original")
    env.check(env.eq(bare.latex, "a"), "stripped latex")
    if f.is_fermion and sum(map(int, cfg["path"][-1])) == 0:
        return
    y = x.strip_derivs_with_indices()
    env.check(y.field == f, "stripped indexed field is the original field")
    gauge = [str(i) for i in x.indices if i.index_type in ("Colour", "Isospin")]
    got = [str(i) for i in y.indices if i.index_type in ("Colour", "Isospin")]
    env.check(gauge == got, "gauge indices kept")
    env.check([str(i) for i in x.gauge_indices][: len(gauge)] == gauge, "gauge indices listed")
    env.check(env.eq(y.derivs, 0), "no derivative left")
    z = f(backwards(index_string(f.dynkin, gen)))
    env.check(z.strip_derivs() is z and z.strip_derivs_with_indices() is z, "nothing to strip")
    env.observe("y", [y.label, [str(i) for i in y.indices]])


HARNESSES = {"deriv": deriv, "strip": strip}
COVERS = {"deriv": ["accepted", "rejected"]}
