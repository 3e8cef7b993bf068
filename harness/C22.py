"""Distributing fields over a topology uses each field once, everywhere."""
import itertools

from comps import *

BOUNDS = {
    "templates": "nested partition templates of two to four (thorough: five) leaves in ten shapes, the scalar or fermion label of every leaf chosen by the solver (and the node numbers, for single placements)",
    "fields": "two to four (thorough: five) distinct fields, the statistics of each chosen by the solver so that they fit the template",
    "graphs": "trees of three to seven internal and external nodes, every pair or triple of nodes next to one vertex, node numbers chosen by the solver",
    "operators": "the operators of C18 with symbolic charges: every partition",
    "counters": "two to four fields of one label with and without isospin indices",
}
ASSUMPTIONS = ["Fields fit the template: as many scalars and fermions as it has places.",
               "Fields without indices occur at most once in an operator."]
BUDGET = {"quick": 150, "thorough": 900}

SHAPES = ["(..)", "(.(..))", "((..).)", "(...)", "((..)(..))", "(.(.(..)))", "(..(..))", "(....)", "(((..).).)", "((..)..)"]
BIG = ["((..).(..))", "(.(.(.(..))))", "(..(...))"]

TREES = [
    [(1, 9), (2, 9), (9, 3)],
    [(1, 9), (2, 9), (9, 8), (8, 3), (8, 4)],
    [(1, 9), (2, 9), (3, 9), (9, 4)],
    [(1, 9), (2, 9), (9, 8), (8, 3), (8, 7), (7, 4), (7, 5)],
    [(1, 9), (2, 9), (3, 9), (9, 8), (8, 4), (8, 5), (8, 6)],
]


def load():
    global M, core, comp, topo, nx
    M = load_comps()
    core, comp, topo = M["core"], M["comp"], M["topo"]
    import networkx as nx


def configs(tier):
    shapes = SHAPES if tier == "quick" else SHAPES + BIG
    out = [("distribute", {"shape": s}) for s in shapes]
    out += [("one", {"shape": s}) for s in shapes]
    for t, tree in enumerate(TREES):
        for c in (9, 8, 7):
            nb = [a if b == c else b for a, b in tree if c in (a, b)]
            for k in (2, 3):
                if len(nb) == k + 1:
                    out += [("edge", {"t": t, "c": c, "nodes": list(p)}) for p in itertools.permutations(nb, k)]
    plan = ["LLHH", "LLHH'", "D2a", "QQdd", "QQTR"] + (["QQQL", "3a", "2", "D3"] if tier != "quick" else ["QQQL"])
    out += [("parts", {"op": o}) for o in plan]
    out += [("counters", {"n": n, "iso": i}) for n in (1, 2, 3, 4) for i in (0, 1)]
    return out


class Fld:
    """a field of which only the statistics is known"""

    def __init__(self, k, boson):
        self.k = k
        self.is_boson = boson

    def __repr__(self):
        return f"f{self.k}"


def parse(shape, mk):
    st = [[]]
    for c in shape:
        if c == "(":
            st.append([])
        elif c == ")":
            x = tuple(st.pop())
            st[-1].append(x)
        else:
            st[-1].append(mk())
    return st[0][0]


def template(env, shape, nodes=True):
    k = [0]

    def mk():
        i = k[0]
        k[0] += 1
        return topo.Leaf(env.char(f"t{i}", "FS"), env.int(f"n{i}", 1, 500) if nodes else 2 * 3 ** (i + 1))

    return parse(shape, mk)


def shape_of(p):
    if isinstance(p, topo.Leaf):
        return "."
    return "(" + "".join(shape_of(q) for q in p) + ")"


def fitting(env, tl):
    fs = [Fld(k, env.bool(f"s{k}")) for k in range(len(tl))]
    ns = lambda cs: env.sum([env.ite(c, env.const(1), env.const(0)) for c in cs])
    env.assume(env.eq(ns([f.is_boson for f in fs]), ns([env.eq(l.field, "S") for l in tl])))
    return fs


def check_placed(env, p, tmpl, fs, shape):
    env.check(shape_of(p) == shape, "the shape of the topology is kept")
    ls, tl = leaves(p), leaves(tmpl)
    env.check(all(isinstance(l.field, Fld) for l in ls) and sorted(l.field.k for l in ls) == list(range(len(fs))),
              "every field is placed once")
    env.check(env.all([env.eq(a.node, b.node) for a, b in zip(ls, tl)]), "the node numbers are kept")
    env.check(env.all([env.iff(a.field.is_boson, env.eq(b.field, "S")) for a, b in zip(ls, tl)]),
              "scalars go on scalar lines and fermions on fermion lines")
    return tuple(l.field.k for l in ls)


def distribute(env, cfg):
    t = template(env, cfg["shape"], False)
    fs = fitting(env, leaves(t))
    out = comp.distribute_fields(list(fs), t)
    got = [check_placed(env, p, t, fs, cfg["shape"]) for p in out]
    env.check(len(set(got)) == len(got), "no placement is listed twice")
    # every placement that fits is there
    tl = leaves(t)
    for perm in itertools.permutations(range(len(fs))):
        fits = env.all([env.iff(fs[k].is_boson, env.eq(l.field, "S")) for k, l in zip(perm, tl)])
        env.check(env.iff(fits, perm in got), "every placement that fits is listed")
    env.observe("n", len(got))


def one(env, cfg):
    """filling in order, and replacing the first occurrence only"""
    t = template(env, cfg["shape"])
    fs = fitting(env, leaves(t))
    p = comp.replace_fields(fs, t)
    check_placed(env, p, t, fs, cfg["shape"])
    x = Fld(99, True)
    q, found = comp.replace(t, "S", x)
    tl, ql = leaves(t), leaves(q)
    env.check(shape_of(q) == cfg["shape"] and len(ql) == len(tl), "the shape is kept")
    anyS = env.any([env.eq(l.field, "S") for l in tl])
    env.check(env.iff(found, anyS), "a place is found exactly when there is one")
    for k, (a, b) in enumerate(zip(ql, tl)):
        first = env.all([env.eq(b.field, "S")] + [env.not_(env.eq(c.field, "S")) for c in tl[:k]])
        env.check(env.iff(a.field is x, first), "only the first occurrence is replaced")
        env.check(env.eq(a.node, b.node), "the node numbers are kept")
        if a.field is not x:
            env.check(env.eq(a.field, b.field), "other places are left alone")


def edge(env, cfg):
    tree = TREES[cfg["t"]]
    nodes = sorted({n for e in tree for n in e})
    # node numbers do not matter: shift and order chosen by the solver
    rename = {n: n * 3 for n in nodes}
    a, b = int(env.int("a", 0, len(nodes) - 1)), cfg["c"] % len(nodes)
    rename[nodes[a]], rename[nodes[b]] = rename[nodes[b]], rename[nodes[a]]
    g = nx.Graph()
    for x, y in tree:
        g.add_edge(rename[x], rename[y])
    c = cfg["c"]
    nb = {x if y == c else y for x, y in tree if c in (x, y)}
    (rest,) = nb - set(cfg["nodes"])
    got = comp.get_connecting_edge(g, [rename[n] for n in cfg["nodes"]])
    env.check(tuple(got) == (rename[c], rename[rest]), "the line leaving the vertex of the nodes")
    env.check(g.number_of_edges() == len(tree), "the graph is left alone")


def parts(env, cfg):
    eff, ch = sym_operator(env, M, cfg["op"])
    got = comp.partitions(eff)
    tops = topo.get_topology_data(**eff.topology_type)
    given = sorted(str(f) for f in eff.indexed_fields)
    nS = sum(1 for f in eff.fields if f.is_boson)
    nF = len(given) - nS
    from math import factorial

    seen = {}
    labels = {str(f): f.label for f in eff.indexed_fields}
    n_top = {}
    for d in got:
        ls = leaves(d["partition"])
        env.check(sorted(str(l.field) for l in ls) == given, "every field is placed once")
        tmpl = [t for t in tops if t["partition_file"].endswith(d["topology"] + ".m") or d["topology"] in t["partition_file"]]
        tl = leaves(tmpl[0]["partition"])
        env.check(shape_of(d["partition"]) == shape_of(tmpl[0]["partition"]), "the shape of the topology is kept")
        env.check([l.node for l in ls] == [l.node for l in tl], "the node numbers are kept")
        env.check(all((a.field.is_boson) == (b.field == "S") for a, b in zip(ls, tl)), "scalars go on scalar lines and fermions on fermion lines")
        g = d["graph"]
        env.check(sorted(map(sorted, g.edges)) == sorted(map(sorted, tmpl[0]["graph"].edges)), "the graph is the topology's")
        for l in ls:
            (e,) = [e for e in g.edges if l.node in e]
            lab = g.edges[e]["particle"]
            env.check(lab[: len(l.field.label)] == l.field.label and lab[len(l.field.label):].isdigit(), "external lines are labelled by their field")
        env.check(sorted(map(str, d["epsilons"])) == sorted(map(str, d["operator"].operator.epsilons)), "the invariant tensors are the operator's")
        key = (d["topology"], show(d["partition"]), str(d["operator"].operator))
        env.check(key not in seen, "no partition is listed twice")
        seen[key] = d
        n_top.setdefault((d["topology"], str(d["operator"].operator)), []).append(d)
    for k, v in n_top.items():
        env.check(len(v) == factorial(nS) * factorial(nF), "every placement is listed for every topology and colour structure")
    env.check(len({k[0] for k in n_top}) == len(tops), "every topology is used")
    ncol = len({k[1] for k in n_top})
    env.check(len(n_top) == ncol * len(tops), "every colour structure is used with every topology")
    colour = M_colour(eff)
    env.check(ncol == colour, "every colour structure is used")


def M_colour(eff):
    contract = repo("tensormethod.contract")
    return len({str(o) for o in contract.colour_singlets([eff.operator], overcomplete=True)})


def counters(env, cfg):
    """fields that are interchangeable share a counter"""
    n = cfg["n"]
    b = env.rat("b")
    fs = []
    for k in range(n):
        fs.append(core.IndexedField("A", f"u{k}" + (f" i{k}" if cfg["iso"] else ""), charges={"y": env.rat("y"), "3b": b}))
    # which neighbours are contracted, chosen by the solver
    pair = {}
    op = fs[0]
    for f in fs[1:]:
        op = op * f
    op = op * core.IndexedField("Z", "u9", charges={"y": env.rat("z"), "3b": b})
    if cfg["iso"] and n > 1:
        i = int(env.int("i", 0, n - 1))
        j = int(env.int("j", 0, n - 1))
        env.assume(i != j)
        op = op * core.eps(f"-i{i} -i{j}")
        pair = {i: j, j: i}
        if n == 4 and env.truth(env.bool("both")):
            k, l = [x for x in range(4) if x not in pair]
            op = op * core.eps(f"-i{k} -i{l}")
            pair.update({k: l, l: k})
    out = comp.indexed_fields_with_counters(op)
    env.check(len(out) == n + 1, "every field is counted")
    num = {str(f): c for f, c in out.items()}
    for i in range(n):
        for j in range(i + 1, n):
            same = num[str(fs[i])] == num[str(fs[j])]
            want = pair.get(i) == j if cfg["iso"] else True
            env.check(same == want, "interchangeable fields share a counter, others do not")


HARNESSES = {"distribute": distribute, "one": one, "edge": edge, "parts": parts, "counters": counters}
