"""Operators with symbolic charges and their completions, shared by harnesses."""
from hlib import *

DYN = {"L": ("10001", "f"), "Q": ("10101", "f"), "eb": ("10000", "f"), "ub": ("10010", "f"), "db": ("10010", "f"),
       "H": ("00001", "b"), "N": ("10000", "f"), "R": ("00000", "b"), "T": ("00010", "b"), "W": ("00002", "b")}

# fields (a D in front: with a derivative, Lorentz labels given), then invariant tensors
OPS = {
    "LLHH": (["H i0_", "H i1_", "L u0_ i2_ g0_", "L u1_ i3_ g1_"], ["-i0_ -i2_", "-i3_ -i1_"]),
    "LLHH'": (["H i0_", "H i1_", "L u0_ i2_ g0_", "L u1_ i3_ g1_"], ["-i2_ -i3_", "-i0_ -i1_"]),
    "QQdd": (["Q u0_ c0_ i0_ g0_", "L u1_ i1_ g1_", "db u2_ -c1_ g2_", "N u3_ g3_"], ["-i0_ -i1_"]),
    "LLQd": (["L u0_ i0_ g0_", "Q.c d0_ -c0_ i1_ g1_", "H i2_", "H.c i3_", "ub.c d1_ c1_ g3_", "N u4_ g5_"],
             ["-i0_ -i1_", "-i2_ -i3_"]),
    "QQQL": (["Q u0_ c0_ i0_ g0_", "Q u1_ c1_ i1_ g1_", "Q u2_ c2_ i2_ g2_", "L u3_ i3_ g3_"], ["-i0_ -i1_", "-i2_ -i3_"]),
    "QQTR": (["Q u0_ c0_ i0_ g0_", "Q u1_ c1_ i1_ g1_", "T.c c2_", "R"], ["-i0_ -i1_"]),
    "QdQd": (["Q u0_ c0 i0_ g0_", "Q u1_ c1 i1_ g1_", "db u2_ -c2 g2_", "db u3_ -c3 g3_"], ["-i0_ -i1_"]),
    "LHLHW": (["H i0_", "H i1_", "L u0_ i2_ g0_", "L u1_ i3_ g1_", "W i4_ i5_"], ["-i0_ -i2_", "-i1_ -i4_", "-i3_ -i5_"]),
    "HHHH": (["H i0_", "H i1_", "H.c i2_", "H.c i3_", "R"], ["-i0_ -i2_", "-i1_ -i3_"]),
    "2": (["H i0_", "L u5_ i1_ g5_", "L u6_ i2_ g6_", "L u7_ i3_ g7_", "eb u9_ g9_"], ["-i0_ -i2_", "-i3_ -i1_"]),
    "3a": (["H i0_", "L u25_ i1_ g25_", "L u26_ i2_ g26_", "Q u28_ c1_ i3_ g28_", "db u30_ -c3_ g30_"],
           ["-i1_ -i2_", "-i3_ -i0_"]),
    "4b": (["H i0_", "L u45_ i1_ g45_", "L u46_ i2_ g46_", "Q.c d1_ -c13_ i3_ g48_", "ub.c d3_ c15_ g50_"],
           ["-i1_ -i2_", "-i3_ -i0_"]),
    "8": (["H i0_", "L u0_ i1_ g0_", "eb.c d0_ g1_", "ub.c d1_ c0_ g2_", "db u1_ -c1_ g3_"], ["-i0_ -i1_"]),
    "D2a": (["DH u30_ d16_ i0_", "DL d17_ i1_ g30_", "H i2_", "L u31_ i3_ g31_"], ["-i0_ -i2_", "-i3_ -i1_"]),
    "D3": (["H i0_", "H i1_", "DH u41_ d26_ i2_", "L u42_ i3_ g47_", "eb.c d27_ g49_"], ["-i0_ -i2_", "-i3_ -i1_"]),
}


def load_comps():
    g = {}
    g["core"] = repo("tensormethod.core")
    g["ccore"] = repo("completions.core")
    g["comp"] = repo("completions.completions")
    g["topo"] = repo("completions.topologies")
    return g


def sym_operator(env, M, name, extra=False):
    """(EffectiveOperator, {label: (y, 3b)}): charges symbolic, the sum zero."""
    core, ccore = M["core"], M["ccore"]
    texts, epss = OPS[name]
    base, ch = {}, {}
    fields, tot = [], {}
    for t in texts:
        lab, *ix = t.split()
        conj = lab.endswith(".c")
        lab = lab[:-2] if conj else lab
        deriv = lab[0] == "D"
        lab = lab[1:] if deriv else lab
        if lab not in base:
            ch[lab] = {"y": env.rat("y" + lab), "3b": env.rat("b" + lab)}
            if extra:
                ch[lab]["z"] = env.rat("z" + lab)
            dyn, st = DYN[lab]
            base[lab] = core.Field(lab, dyn, charges=dict(ch[lab]), comm=core.FERMI if st == "f" else core.BOSE,
                                   nf=3 if st == "f" else 1)
        f = base[lab].conj if conj else base[lab]
        if deriv:
            u = sum(i[0] == "u" for i in ix)
            f = core.D(f, f"{u}{sum(i[0] == 'd' for i in ix)}")
        fields.append(f(" ".join(ix)))
        for k, v in ch[lab].items():
            tot[k] = tot.get(k, 0) + (-v if conj else v)
    for k in tot:
        env.assume(env.eq(tot[k], 0))
    op = None
    for x in fields + [core.eps(e) for e in epss]:
        op = x if op is None else op * x
    return ccore.EffectiveOperator(name, op), ch


def show(p):
    """a text by which partitions are put in a fixed order"""
    if isinstance(p, tuple) and hasattr(p, "field"):
        return f"{p.field}@{p.node}"
    if isinstance(p, tuple):
        return "(" + ",".join(map(show, p)) + ")"
    return str(p)


def ordered_partitions(M, eff):
    parts = M["comp"].partitions(eff)
    return sorted(parts, key=lambda d: (d["topology"], show(d["partition"]), str(d["operator"].operator)))


def is_leaf(p):
    return hasattr(p, "field") and hasattr(p, "node")


def leaves(p):
    if is_leaf(p):
        return [p]
    return [x for q in p for x in leaves(q)]


def blocks(name, size):
    """(op, block) configurations; blocks split the partitions, see part_range"""
    return [{"op": name, "k": k, "of": size} for k in range(size)]


def my_parts(M, eff, cfg):
    ps = ordered_partitions(M, eff)
    return [p for i, p in enumerate(ps) if i % cfg["of"] == cfg["k"]]


def is_real(ccore, f):
    return isinstance(f, (ccore.RealScalar, ccore.MajoranaFermion))


def side_of(graph, edge, start):
    """the nodes reached from start without crossing the edge"""
    seen, todo = {start}, [start]
    while todo:
        n = todo.pop()
        for m in graph.neighbors(n):
            if {n, m} == set(edge) or m in seen:
                continue
            seen.add(m)
            todo.append(m)
    return seen
