"""Operator bookkeeping: dimension, topology type, derivative placement."""
import itertools

import C09
from comps import *

BOUNDS = {
    "dimension": "fields of every Lorentz label with up to two undotted and dotted indices; operators of one to five fields with any number of derivatives on each (a solver variable); stand-in field lists of length up to four with symbolic Lorentz digits",
    "placements": "operators of two to five fields with one or two derivatives, with and without isospin doublets, generations, colour and repeated fields; all charges",
}
ASSUMPTIONS = ["Whether a placement vanishes is judged by expanding it in field components (fermions anticommute); repeated fields without generations occur in one of the operators only."]
BUDGET = {"quick": 150, "thorough": 600}

EXTRA = {
    "LDL": (["L u0_ i0_ g0_", "DL.c u1_ i1_ g1_"], ["-i0_ -i1_"]),
    "HDL": (["DH u0_ d0_ i0_", "L u1_ i1_ g0_", "N u2_ g1_"], ["-i0_ -i1_"]),
    "DHDH": (["DH u0_ d0_ i0_", "DH.c u1_ d1_ i1_", "R"], ["-i0_ -i1_"]),
    "QdD": (["Q u0_ c0_ i0_ g0_", "Ddb d0_ -c0_ g1_", "H.c i1_"], ["-i0_ -i1_"]),
    "1D4": (["DQ d0_ c0_ i0_ g0_", "Q.c d1_ -c0_ i1_ g1_", "H i2_", "DH.c u0_ d2_ i3_"], ["-i0_ -i1_", "-i2_ -i3_"]),
    "NNd": (["DN d0_ g0_", "N u0_ g1_", "R"], []),
}


def load():
    global M, core, ccore, comp
    M = load_comps()
    core, ccore, comp = M["core"], M["ccore"], M["comp"]
    C09.core = core
    OPS.update(EXTRA)


NAMES = list(EXTRA) + ["D2a", "D3"]
DIMS = ["LLHH", "QQdd", "QQQL", "2", "3a", "8", "D2a", "D3", "LDL", "HDL", "QQTR"]


def configs(tier):
    out = [("dims", {"op": o}) for o in DIMS] + [("field", {"d": "".join(map(str, d))}) for d in itertools.product(range(3), repeat=2)]
    out += [("lists", {"n": n}) for n in (1, 2, 3)]
    out += [("moves", {"op": o, "eff": e}) for o in NAMES for e in (False, True) if e or o in ("LDL", "HDL", "D2a")]
    if tier != "quick":
        out += [("lists", {"n": 4})]
    return out


def field(env, cfg):
    d = cfg["d"]
    f = core.Field("X", d + "000", charges={"y": env.rat("y")})
    odd = (int(d[0]) + int(d[1])) % 2
    known = odd or d in ("00", "11")
    try:
        v = f.mass_dim
    except Exception as e:
        env.check(not known and "mass dimension" in str(e), "only scalars, vectors and fermions have a dimension")
        return
    env.check(known, "dimension is refused for other fields")
    env.check(env.eq(2 * v, 3 if odd else 2), "three halves for fermions, one for bosons")
    env.check(f.is_fermion == bool(odd) and f.is_boson == (not odd), "fermions have an odd number of spinor labels")


def dims(env, cfg):
    eff, ch = sym_operator(env, M, cfg["op"])
    n = [env.int(f"n{k}", 0, 1000) for k, _ in enumerate(eff.operator.indexed_fields)]
    twice = 0
    s = f = 0
    for k, x in enumerate(eff.operator.indexed_fields):
        x.derivs = n[k]
        odd = sum(i.index_type in ("Undotted", "Dotted") for i in x.indices) % 2
        twice = twice + (3 if odd else 2) + 2 * n[k]
        s, f = s + (not odd), f + odd
    d = eff.mass_dimension
    env.check(env.eq(2 * d, twice), "one per boson, three halves per fermion, one per derivative")
    env.check(eff.topology_type == {"n_scalars": s, "n_fermions": f}, "topology type counts bosons and fermions")
    env.check(env.eq(2 * eff.operator.mass_dim, twice - 2 * env.sum(n)), "an operator's dimension is the sum over its fields")
    env.observe("d", d)


class Fields:
    """an operator that is nothing but its fields"""
    def __init__(self, fs):
        self.fields = fs
        self.indexed_fields = self.tensors = fs


def lists(env, cfg):
    n = cfg["n"]
    fs, twice, ferm = [], 0, []
    for k in range(n):
        u, d = env.char(f"u{k}", "012"), env.char(f"d{k}", "012")
        ok = env.any([env.all([env.eq(u, a), env.eq(d, b)]) for a, b in ("00", "11", "10", "01", "21", "12")])
        env.assume(ok)
        f = core.Field(f"X{k}", env.join([u, d, "000"]), charges={"y": 0}, derivs=env.int(f"n{k}", 0, 50))
        odd = env.any([env.all([env.eq(u, a), env.eq(d, b)]) for a, b in ("10", "01", "21", "12")])
        fs.append(f)
        ferm.append(env.ite(odd, 1, 0))
        twice = twice + 2 + ferm[-1] + 2 * f.derivs
    total = env.sum(ferm)
    eff = ccore.EffectiveOperator("X", Fields(fs))
    t = eff.topology_type
    env.check(env.all([env.eq(t["n_fermions"], total), env.eq(t["n_scalars"], n - total)]), "topology type counts bosons and fermions")
    try:
        d = eff.mass_dimension
    except AssertionError:
        env.check(env.any([env.eq(total, k) for k in range(1, n + 1, 2)]), "only an odd number of fermions is refused")
        env.cover("refused")
        return
    env.check(env.eq(2 * d, twice), "one per boson, three halves per fermion, one per derivative")
    env.cover("accepted")


def shape(x):
    """a field and its gauge indices"""
    f = x.strip_derivs_with_indices() if x.derivs else x
    return f


def moves(env, cfg):
    eff, ch = sym_operator(env, M, cfg["op"])
    op = eff.operator
    before = [str(t) for t in op.tensors]
    out = comp.derivative_combinations(eff if cfg["eff"] else op)
    env.check([str(t) for t in op.tensors] == before, "the given operator is left alone")
    if cfg["eff"]:
        env.check(all(isinstance(o, ccore.EffectiveOperator) and o.name == eff.name for o in out), "operators keep their name")
        out = [o.operator for o in out]
    env.check(all(isinstance(o, core.Operator) for o in out), "operators are returned")
    gauge = lambda x: [str(i) for i in x.indices if i.index_type not in ("Undotted", "Dotted")]
    bare = lambda x: x.strip_derivs() if x.derivs else x.field
    src = list(op.indexed_fields)
    nd = sum(x.derivs for x in src)
    eps = sorted(str(e) for e in op.epsilons)
    seen = []
    for o in out:
        fs = list(o.indexed_fields)
        env.check(len(fs) == len(src), "the fields are kept")
        env.check(sorted(str(e) for e in o.epsilons) == eps, "gauge contractions are kept")
        left = list(src)
        place = []
        for x in fs:
            m = [s for s in left if gauge(s) == gauge(x) and bare(s).label == bare(x).label]
            env.check(bool(m), "every field is one of the operator's, with its gauge indices")
            s = m[0]
            left.remove(s)
            a, b = bare(s), bare(x)
            env.check(a.dynkin == b.dynkin and a.is_conj == b.is_conj, "representation kept")
            env.check(env.all([env.eq(x.charges[k], s.charges[k]) for k in s.charges]), "charges kept")
            env.check(x.comm == s.comm and x.nf == s.nf and b == a, "statistics and generations kept")
            env.check(x.derivs in (0, 1), "one derivative at most on a field")
            if x.derivs:
                place.append(src.index(s))
                lor = sum(i.index_type == "Undotted" for i in x.indices), sum(i.index_type == "Dotted" for i in x.indices)
                want = {(0, 0): (1, 1), (1, 0): (0, 1), (0, 1): (1, 0)}[tuple(map(int, b.dynkin[:2]))]
                env.check(lor == want, "the lowest spin after the derivative")
            else:
                env.check(x.dynkin == b.dynkin, "no other field is changed")
        env.check(len(place) == nd, "as many derivatives as before")
        seen.append(tuple(sorted(place)))
        ix = [str(i) for x in fs for i in x.indices if i.index_type in ("Undotted", "Dotted")]
        env.check(len(set(ix)) == len(ix), "spinor indices are all free")
    env.check(len(set(seen)) == len(seen), "no placement twice")
    order = lambda f: f.label + ("*" if f.is_conj else "") + str(f.derivs)
    for want in itertools.combinations(range(len(src)), nd):
        if want in seen:
            continue
        # build it and expand it
        ts = []
        for k, s in enumerate(src):
            b = bare(s)
            if k in want:
                u, d = map(int, b.dynkin[:2])
                b = core.D(b, {(0, 0): "11", (1, 0): "01", (0, 1): "10"}[u, d])
            u, d = map(int, b.dynkin[:2])
            ts.append(b(" ".join([f"u{k}{j}" for j in range(u)] + [f"d{k}{j}" for j in range(d)] + gauge(s))))
        o = ts[0]
        for t in ts[1:] + list(op.epsilons):
            o = o * t
        env.check(not C09.poly(o, order), "only vanishing placements are left out")
    env.cover("several" if len(seen) > 1 else "one")
    env.observe("placements", str(sorted(seen)))


HARNESSES = {"field": field, "dims": dims, "lists": lists, "moves": moves}
COVERS = {"lists": ["refused", "accepted"], "moves": ["several"]}
