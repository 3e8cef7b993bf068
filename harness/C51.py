"""Vertices with derivatives become the interactions without them; completions
of derivative operators."""
import itertools

import C18
from comps import *

BOUNDS = {
    "diagrams": "trees of two vertices with two fields on each: scalars and left- or right-handed fermions, with or without a derivative, one or two derivatives altogether; singlets and doublets of isospin contracted within and across the vertices, colour flowing through the internal line; distinct fields, equal scalars and equal fermions of one generation",
    "pairs": "two like pairs of fields meeting at an inner vertex or at the last one, all isospin contractions of them with doublets and one triplet",
    "charges": "hypercharge and baryon number of every field: all rationals whose sums vanish",
    "operators": "all placements of the derivatives of a derivative operator and of operators without derivatives",
    "field strings": "one field string of three fields, one of two and one of one, or three of one, with any number of derivatives and Lorentz labels; any numbers of invariants up to four",
}
ASSUMPTIONS = ["Derivatives on a scalar and on a fermion at one vertex are not followed (not among the cases the code documents).",
               "Exotics in real representations with zero hypercharge are real fields and carry no baryon number; where it would flow through one, it is not followed.",
               "The invariants of a field string (C09) are a stand-in when it is chosen between field strings."]
BUDGET = {"quick": 200, "thorough": 700}

KINDS = {"S": (0, 0, 0), "u": (1, 0, 0), "d": (0, 1, 0), "DS": (1, 1, 1), "Du": (0, 1, 1), "Dd": (1, 0, 1)}
WIRES = [[], [[0, 1], [2, 3]], [[0, 2], [1, 3]], [[0, 3]], [[0, 1]]]


def load():
    global M, core, ccore, comp, nx
    import networkx as nx
    M = load_comps()
    core, ccore, comp = M["core"], M["ccore"], M["comp"]
    C18.M = M


def ud(ks):
    return [sum(KINDS[k][j] for k in ks) for j in range(3)]


def bare(k):
    """the chirality without the derivative"""
    return {"DS": "S", "Du": "u", "Dd": "d"}.get(k, k)


def sensible(a, b):
    return {a, b} not in ({"DS", "Du"}, {"DS", "Dd"})


def configs(tier):
    pairs = [p for p in itertools.combinations_with_replacement(KINDS, 2) if sensible(*p)]
    out, n = [], 0
    for p, q in itertools.product(pairs, repeat=2):
        u, d, der = ud(p + q)
        if u % 2 or d % 2 or der not in (1, 2):
            continue
        n += 1
        for w in (range(len(WIRES)) if tier != "quick" else [n % len(WIRES), (n + 2) % len(WIRES)]):
            out.append(("diagram", {"a": list(p), "b": list(q), "w": WIRES[w], "colour": (n + w) % 2, "same": 0}))
    # like scalars; not those antisymmetric in isospin at the last vertex, whose operator vanishes
    for p, q in ((["DS", "DS"], ["S", "S"]), (["S", "S"], ["DS", "DS"]), (["DS", "DS"], ["u", "u"]), (["u", "u"], ["DS", "DS"]), (["d", "d"], ["DS", "DS"])):
        out += [("diagram", {"a": p, "b": q, "w": w, "colour": 0, "same": s}) for w in ([], [[0, 1], [2, 3]], [[0, 2], [1, 3]]) for s in (0, 1, 2) if s < 2 or [2, 3] not in w]
    # like fermions of one generation
    for p, q in ((["Du", "Du"], ["S", "S"]), (["Dd", "Dd"], ["S", "S"]), (["S", "S"], ["Du", "Du"]), (["u", "u"], ["DS", "DS"])):
        out += [("diagram", {"a": p, "b": q, "w": w, "colour": 0, "same": s, "nf": 1}) for w in ([], [[0, 1], [2, 3]], [[0, 2], [1, 3]])
                for s in ([1] if q[0] in ("S", "DS") else [2]) if s < 2 or [2, 3] not in w]
    for ks in (["u", "S"], ["d", "S"], ["S", "S"]):
        # where the isospin indices go: 0 1 and 2 3 are the pairs, 4 5 the others
        for w in ([], [[0, 1], [2, 3]], [[0, 2]], [[0, 2], [1, 3]], [[0, 2], [1, 4], [3, 4]], [[0, 4], [2, 4]], [[1, 3]], [[0, 3], [1, 2]]):
            out += [("twins", {"ks": ks, "w": w, "inner": n}) for n in (0, 1)]
    out += [("listing", {"op": op}) for op in ("D2a", "LLHH", "LLHH'")]
    out += [("unwanted", {"n": n}) for n in (1, 2, 3)]
    out += [("longest", {"n": n}) for n in (0, 1, 2, 3)]
    out += [("labels", {"n": n}) for n in (1, 2, 3)]
    return out


def vertex(ks, line=None):
    """what leaves a vertex with fields ks (and the line coming in): None if it
    is not allowed, else its Lorentz type"""
    u, d, der = ud(ks)
    if line:
        u, d = u + (line == "u"), d + (line == "d")
    if u % 2 and d % 2:
        return None
    out = "u" if u % 2 else "d" if d % 2 else "S"
    fermions = [bare(k) for k in ks if bare(k) != "S"]
    if len(fermions) == 2 and der:
        # the derivatives go; a scalar couples to fermions of one chirality
        if fermions[0] != fermions[1]:
            return None
    return out


def complete(fields, epss, part, graph):
    op = fields[0]
    for t in fields[1:] + epss:
        op = op * t
    return comp.partition_completion({"partition": part, "epsilons": list(epss), "graph": graph, "topology": "test",
                                      "operator": ccore.EffectiveOperator("X", op)})


def diagram(env, cfg):
    ks = cfg["a"] + cfg["b"]
    ix = [[f"u{p}_"] * KINDS[k][0] + [f"d{p}_"] * KINDS[k][1] for p, k in enumerate(ks)]
    epss = []
    if cfg["colour"]:
        ix[1].append("c31_")
        ix[2].append("-c32_")
        epss.append(core.delta("c32_ -c31_"))
    for i, j in cfg["w"]:
        ix[i].append(f"i{i}_")
        ix[j].append(f"i{j}_")
        epss.append(core.eps(f"-i{i}_ -i{j}_"))
    same = {0: [], 1: [0, 1], 2: [2, 3]}[cfg["same"]]
    labs = ["A" if p in same else "ABHK"[p] for p in range(4)]
    ch = {l: {"y": env.rat("y" + l), "3b": env.rat("b" + l)} for l in labs}
    for q in ("y", "3b"):
        env.assume(env.eq(env.sum(ch[l][q] for l in labs), 0))
    fields = []
    for p, k in enumerate(ks):
        ferm, nf = bare(k) != "S", 1 if bare(k) == "S" else cfg.get("nf", 3)
        if nf > 1:
            ix[p].append(f"g{p}_")
        gauge = [sum(i[0] == "c" for i in ix[p]), sum(i[0] == "-" for i in ix[p]), sum(i[0] == "i" for i in ix[p])]
        f = core.Field(labs[p], "".join(map(str, KINDS[bare(k)][:2] + tuple(gauge))), charges=dict(ch[labs[p]]),
                       comm=core.FERMI if ferm else core.BOSE, nf=nf)
        if k != bare(k):
            f = core.D(f, "".join(map(str, KINDS[k][:2])))
        fields.append(f(" ".join(ix[p])))
    leaf = lambda p: M["topo"].Leaf(fields[p], p + 1)
    part = ((leaf(0), leaf(1)), leaf(2), leaf(3))
    graph = nx.Graph([(1, 5), (2, 5), (5, 6), (6, 3), (6, 4)])
    line = vertex(cfg["a"])
    # the flow as seen from the other end
    ok = line is not None and vertex(cfg["b"], line) == "S"
    # two like fields of one generation, antisymmetric in isospin
    vanish = any(set(w) == set(same) for w in cfg["w"]) and all(bare(ks[p]) == "S" or cfg.get("nf") == 1 for p in same)
    out = complete(fields, epss, part, graph)
    if isinstance(out, ccore.FailedCompletion):
        env.cover("refused")
        env.check(not ok or vanish, "a diagram is refused only for its Lorentz structure or a vanishing coupling")
        return
    env.check(ok, "a diagram whose vertices are not allowed is refused")
    env.check(not vanish, "a vanishing coupling is refused")
    env.cover("built")
    terms = out.terms
    env.check(len(terms) == 2 and len(out.exotics) == 1, "one interaction for each vertex")
    exotic = list(out.exotics)[0]
    env.check([(sorted(e), d.get("particle")) for *e, d in out.graph.edges(data=True) if d] == [([5, 6], exotic.label)], "the exotic is on the internal line")
    real = is_real(ccore, exotic)
    env.cover(type(exotic).__name__)
    nocolour = not cfg["colour"]
    reals = env.eq(exotic.charges["3b"], 0) if real else env.const("0") == env.const("0")
    for t, ps in zip(terms, ((0, 1), (2, 3))):
        C18.judge_term(env, t, reals)
        fs = [f for f in t.tensors if isinstance(f, core.IndexedField)]
        sm = [f for f in fs if f.label in labs]
        env.check(sorted(f.label for f in sm) == sorted(labs[p] for p in ps) and len(fs) == 3, "each vertex has its fields and the exotic")
        for p in ps:
            f = [f for f in sm if f.label == labs[p]][0 if labs[ps[0]] != labs[ps[1]] else ps.index(p)]
            kinds = [i.index_type for i in f.indices if i.index_type in ("Undotted", "Dotted")]
            env.check(kinds == {"S": [], "u": ["Undotted"], "d": ["Dotted"]}[bare(ks[p])], "fields get back the chirality without derivative")
            env.check(len([i for i in f.indices if i.index_type == "Isospin"]) == len([i for i in ix[p] if i[0] == "i"])
                      and len([i for i in f.indices if i.index_type == "Colour"]) == len([i for i in ix[p] if i.lstrip("-")[0] == "c"]), "fields keep their gauge indices")
            for q in ("y", "3b"):
                env.check(env.eq(f.charges[q], ch[labs[p]][q]), "fields keep their charges")
        chir = [i.index_type for f in fs for i in f.indices if i.index_type in ("Undotted", "Dotted")]
        env.check(len(chir) in (0, 2) and len(set(chir)) <= 1, "two fermions of one chirality meet, or none")
        # contractions within the vertex are those of the operator
        inside = {frozenset(str(i).lstrip("-") for i in e.indices) for e in t.tensors
                  if not isinstance(e, core.IndexedField) and str(e.indices[0].tensor_index_type) == "Isospin"}
        for w in cfg["w"]:
            if set(w) <= set(ps):
                env.check(frozenset(f"i{x}_" for x in w) in inside, "isospin contractions are kept")
    env.observe("terms", len(terms))


def twins(env, cfg):
    """two like pairs of fields meet, next to the last vertex or there"""
    a, b = cfg["ks"]
    ks = [a, b, a, b] + ["S"] * (2 if cfg["inner"] else 1)
    labs = ["A", "B", "A", "B", "H", "K"][:len(ks)]
    ix = [[f"u{p}_"] * KINDS[k][0] + [f"d{p}_"] * KINDS[k][1] for p, k in enumerate(ks)]
    epss = []
    for n, (i, j) in enumerate(cfg["w"]):
        for x, nm in ((i, f"i{2 * n}_"), (j, f"i{2 * n + 1}_")):
            ix[x].append(nm)
        epss.append(core.eps(f"-i{2 * n}_ -i{2 * n + 1}_"))
    ch = {l: {"y": env.rat("y" + l), "3b": env.rat("b" + l)} for l in set(labs)}
    for q in ("y", "3b"):
        env.assume(env.eq(env.sum(ch[l][q] for l in labs), 0))
    fields = []
    for p, k in enumerate(ks):
        ferm = bare(k) != "S"
        dyn = KINDS[k][:2] + (0, 0, sum(i[0] == "i" for i in ix[p]))
        f = core.Field(labs[p], "".join(map(str, dyn)), charges=dict(ch[labs[p]]), comm=core.FERMI if ferm else core.BOSE, nf=3 if ferm else 1)
        fields.append(f(" ".join(ix[p] + ([f"g{p}_"] if ferm else []))))
    leaf = lambda p: M["topo"].Leaf(fields[p], p + 1)
    pairs = ((leaf(0), leaf(1)), (leaf(2), leaf(3)))
    if cfg["inner"]:
        part = (pairs, leaf(4), leaf(5))
        graph = nx.Graph([(1, 7), (2, 7), (3, 8), (4, 8), (7, 9), (8, 9), (9, 10), (5, 10), (6, 10)])
    else:
        part = pairs + (leaf(4),)
        graph = nx.Graph([(1, 6), (2, 6), (3, 7), (4, 7), (6, 8), (7, 8), (5, 8)])
    # exchanging the pairs: a sign for each isospin epsilon between them, for
    # fermions one for the spinor epsilon and one for the order
    odd = sum((i < 2) != (j < 2) and max(i, j) < 4 for i, j in cfg["w"]) % 2
    out = complete(fields, epss, part, graph)
    refused = isinstance(out, ccore.FailedCompletion)
    env.check(refused == bool(odd), "like pairs couple unless their coupling is antisymmetric")
    if refused:
        env.cover("refused")
        return
    env.cover("built")
    terms = out.terms
    env.check(len(terms) == (4 if cfg["inner"] else 3), "one interaction for each vertex")
    lines = {tuple(sorted(e)): d.get("particle") for *e, d in out.graph.edges(data=True) if d}
    env.check(sorted(lines) == ([(7, 9), (8, 9), (9, 10)] if cfg["inner"] else [(6, 8), (7, 8)]), "each internal line has its exotic")
    names = list(lines.values())
    env.check(names[0] == names[1] and len(set(names)) == len(names) - 1, "like pairs produce one exotic")
    env.check(set(names) == {e.label for e in out.exotics}, "each internal line has its exotic")
    reals = env.all([env.eq(e.charges["3b"], 0) for e in out.exotics if is_real(ccore, e)])
    for t in terms:
        C18.judge_term(env, t, reals)
    env.observe("terms", len(terms))


def key(c):
    return (c.topology, show(c.partition), sorted(e.label for e in c.exotics))


def listing(env, cfg):
    """completions() of an operator"""
    eff, ch = sym_operator(env, M, cfg["op"])
    got = list(comp.completions(eff))
    ops = comp.derivative_combinations(eff) if cfg["op"][0] == "D" else [eff]
    want = [c for op in ops for c in comp.operator_completions(op)]
    env.check(len(got) == len(want) and len(want) > 0, "every completion of every placement is listed once")
    env.check(sorted(len(c.terms) for c in got) == sorted(len(c.terms) for c in want), "they are the completions of the placements")
    reps = lambda c: sorted((e.dynkin, type(e).__name__) for e in c.exotics)
    env.check(sorted(map(reps, got)) == sorted(map(reps, want)), "they are the completions of the placements")
    env.check({c.operator.name for c in got} == {cfg["op"]}, "the operator's name is kept")


class F:
    """what is asked of a field"""

    def __init__(self, derivs, irrep):
        self.derivs, self.lorentz_irrep = derivs, irrep


IRREPS = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (2, 2)]


def unwanted(env, cfg):
    dop = repo("tensormethod.deriv_operators")
    strings, keep = [], []
    for s in range(cfg["n"]):
        fs, good = [], []
        for k in range({1: 3, 2: 2 - s, 3: 1}[cfg["n"]]):
            n = env.int(f"n{s}{k}", 0, 3)
            irrep = env.pick(f"l{s}{k}", IRREPS[:5] if cfg["n"] == 1 else IRREPS[1:5:3] + IRREPS[2:4])
            fs.append(F(n, irrep))
            good.append(env.any([env.eq(n, 0), env.all([env.eq(n, 1), irrep in ((1, 0), (0, 1), (1, 1))])]))
        strings.append(fs)
        keep.append(env.all(good))
    out = dop.remove_unwanted_deriv_structures(list(strings))
    for s, k in zip(strings, keep):
        env.check(env.iff(any(o is s for o in out), k), "field strings with one derivative on a field and no higher spin are kept")
    env.check([i for o in out for i, s in enumerate(strings) if s is o] == sorted(i for o in out for i, s in enumerate(strings) if s is o) and
              len({id(o) for o in out}) == len(out), "in order, once each")


def longest(env, cfg):
    dop = repo("tensormethod.deriv_operators")
    sizes = [env.int(f"n{i}", 0, 4) for i in range(cfg["n"])]
    lists = []
    for i, n in enumerate(sizes):
        m = [x for x in range(5) if env.truth(env.eq(n, x))][0]
        lists.append([f"inv{i}.{j}" for j in range(m)])
    asked = []

    def invs(*fs):
        asked.append(fs)
        return lists[fs[0]]
    old, dop.invariants = dop.invariants, invs
    try:
        out = dop.keep_longest_invariants([(i, "f", "g") for i in range(cfg["n"])])
    finally:
        dop.invariants = old
    env.check(asked == [(i, "f", "g") for i in range(cfg["n"])], "the invariants of each field string are asked for")
    env.check(all(len(out) >= len(l) for l in lists), "the field string with the most structures is kept")
    env.check(out == [] or any(out == l for l in lists), "its invariants are returned")


def labels(env, cfg):
    dop = repo("tensormethod.deriv_operators")
    table = {}
    for i in range(cfg["n"]):
        n = env.int(f"n{i}", 0, 3)
        m = [x for x in range(4) if env.truth(env.eq(n, x))][0]
        table[str(i + 1)] = [f"op{i}.{j}" for j in range(m)]
    out = dop.label_operators(table)
    env.check(sorted(out.values()) == sorted(x for l in table.values() for x in l), "every operator gets one label")
    for k, l in table.items():
        for j, x in enumerate(l):
            env.check(out.get(k + ("abc"[j] if len(l) > 1 else "")) == x, "labels are numbers, with letters where there are several")


HARNESSES = {"diagram": diagram, "twins": twins, "listing": listing, "unwanted": unwanted, "longest": longest, "labels": labels}
COVERS = {"twins": ["refused", "built"], "diagram": ["refused", "built", "ComplexScalar", "RealScalar", "MajoranaFermion", "VectorLikeDiracFermion"]}
