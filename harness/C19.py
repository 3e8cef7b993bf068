"""An exotic carries exactly the quantum numbers flowing through its line."""
import itertools

from comps import *

BOUNDS = {
    "operators": "twelve operators of four and five fields (thorough: also one of six and another of five) with and without derivatives and colour epsilons; all their partitions (topologies, placements of the fields, colour structures)",
    "charges": "hypercharge and baryon number of every distinct field: all rationals whose sum over the operator vanishes",
}
ASSUMPTIONS = ["Exotics in real representations with zero hypercharge are real fields and carry no baryon number; where it would flow through one, it is not followed.",
               "Fields without indices occur at most once in an operator."]
BUDGET = {"quick": 200, "thorough": 900}


def load():
    global M
    M = load_comps()


def configs(tier):
    plan = {"LLHH": 8, "LLHH'": 8, "D2a": 8, "QQdd": 24, "QQQL": 24, "QQTR": 8, "QdQd": 48, "LHLHW": 48, "2": 48, "3a": 48, "8": 48, "D3": 48}
    if tier != "quick":
        plan.update({"4b": 48, "LLQd": 384})
    return [("flow", b) for op, of in plan.items() for b in blocks(op, of)]


def ctype(f):
    """colour triality and isospin parity"""
    _, _, cu, cd, i = map(int, f.dynkin)
    return (cu - cd) % 3, i % 2


def flow(env, cfg):
    core, ccore, comp = M["core"], M["ccore"], M["comp"]
    eff, ch = sym_operator(env, M, cfg["op"])
    given = sorted(str(f) for f in eff.indexed_fields)
    for part in my_parts(M, eff, cfg):
        before = {frozenset(e): a for e, a in ((e, d.get("particle")) for *e, d in part["graph"].edges(data=True))}
        c = comp.partition_completion(part)
        if isinstance(c, ccore.FailedCompletion):
            continue
        env.cover("completion")
        g = c.graph
        ext = leaves(c.partition)
        env.check(sorted(str(l.field) for l in ext) == given, "the external legs carry the operator's fields")
        env.check(len(set(l.node for l in ext)) == len(ext), "every external leg carries one field")
        env.check(all(g.degree(l.node) == 1 for l in ext), "operator fields sit on external legs")
        env.check(sum(1 for n in g.nodes if g.degree(n) == 1) == len(ext), "every external leg carries a field")
        env.check(sorted(str(f) for f in c.operator.indexed_fields) == given, "the completion records its operator")
        env.check(c.operator.name == eff.name, "the completion records its operator's name")
        by_label = {}
        for e in c.exotics:
            by_label.setdefault(e.label, []).append(e)
        inner = [e for e in g.edges if g.degree(e[0]) > 1 and g.degree(e[1]) > 1]
        outer = [e for e in g.edges if e not in inner]
        for e in outer:
            env.check(g.edges[e]["particle"] == before[frozenset(e)], "external legs keep their labels")
        # a real field carries no baryon number: where the flow says otherwise,
        # baryon number is not followed
        sane = []
        for e in inner:
            if any(is_real(ccore, x) for x in by_label.get(g.edges[e].get("particle"), ())):
                side = side_of(g, e, e[0])
                sane.append(env.eq(env.sum([l.field.charges["3b"] for l in ext if l.node in side]), 0))
        sane = env.all(sane)
        used = {}
        for e in inner:
            lab = g.edges[e].get("particle")
            env.check(lab in by_label, "every internal line carries an exotic")
            used[lab] = used.get(lab, 0) + 1
            side = side_of(g, e, e[0])
            mine = [l.field for l in ext if l.node in side]
            env.check(0 < len(mine) < len(ext), "a line splits the operator's fields")
            tot = {k: env.sum([f.charges[k] for f in mine]) for k in ("y", "3b")}
            t = sum(ctype(f)[0] for f in mine) % 3
            i = sum(ctype(f)[1] for f in mine) % 2
            odd = sum(1 for f in mine if f.is_fermion) % 2 == 1
            oks = []
            for x in by_label[lab]:
                xt, xi = ctype(x)
                fermi = sum(map(int, x.dynkin[:2])) == 1
                signs = []
                for s in (1, -1):
                    # the labels may belong to the conjugate: colour and charges together
                    signs.append(env.all([(s * xt - t) % 3 == 0] + [env.eq(x.charges["y"] * s, tot["y"]),
                                         env.any([env.not_(sane), env.eq(x.charges["3b"] * s, tot["3b"])])]))
                oks.append(env.all([fermi == odd, x.is_fermion == odd, xi == i, env.any(signs)]))
            env.check(env.any(oks), "an exotic carries what flows through its line")
        for lab, xs in by_label.items():
            env.check(used.get(lab, 0) == len(xs), "exotics and internal lines match one to one")
        # fields are told apart by name: one name, one field
        for lab, xs in by_label.items():
            for x in xs[1:]:
                env.check(env.all([x.dynkin == xs[0].dynkin] + [env.eq(x.charges[k], xs[0].charges[k]) for k in ("y", "3b")]),
                          "exotics of one name are one field")
        # and the same fields meeting at two vertices produce the same exotic
        # there, if they are contracted into the same representation
        made = {}
        for q in subtrees(c.partition):
            kids = []
            for r in q:
                kids.append(r.field.label if is_leaf(r) else line_of(g, r))
            lab = line_of(g, q)
            made.setdefault(tuple(sorted(kids)), []).append(lab)
        for labs in made.values():
            for a, b in itertools.combinations(labs, 2):
                alike = by_label[a][0].dynkin == by_label[b][0].dynkin
                env.check((a == b) == alike, "the same fields contracted alike produce one exotic")
                env.cover("twice")
        env.observe("exotics", sorted(by_label))


def subtrees(p, top=True):
    """the parts of a partition that end on an internal line"""
    if is_leaf(p):
        return []
    return ([] if top else [p]) + [x for q in p for x in subtrees(q, False)]


def line_of(g, p):
    """the label of the line on which a part ends"""
    mine = {l.node for l in leaves(p)}
    rest = {n for n in g.nodes if g.degree(n) == 1} - mine
    for e in g.edges:
        for start in e:
            side = side_of(g, e, start)
            if mine <= side and not rest & side and g.degree(e[0]) > 1 and g.degree(e[1]) > 1:
                return g.edges[e]["particle"]


HARNESSES = {"flow": flow}
COVERS = {"flow": ["completion", "twice"]}
