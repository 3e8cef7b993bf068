"""Every interaction of a completion is a neutral, Lorentz-invariant term."""
import C09
from comps import *

BOUNDS = {
    "operators": "twelve operators of four and five fields (thorough: also one of six and another of five) with and without derivatives and colour epsilons, of fixed field representations; all their partitions (topologies, placements of the fields, colour structures)",
    "charges": "hypercharge and baryon number of every distinct field: all rationals whose sum over the operator vanishes (so every exotic's charge takes every sign and zero)",
}
ASSUMPTIONS = ["Exotics in real representations with zero hypercharge are real fields and carry no baryon number; where it would flow through one, it is not followed.",
               "Fields without indices occur at most once in an operator.",
               "Whether a coupling vanishes is judged by expanding it in field components (fermions anticommute, exotics have one generation)."]
BUDGET = {"quick": 200, "thorough": 900}


def load():
    global M
    M = load_comps()
    op = M["core"].Operator
    if not hasattr(op.safe_simplify, "spied"):
        simplify = op.safe_simplify

        def spy(self, *a, **k):
            out = simplify(self, *a, **k)
            if out == 0:
                VANISHED.append(self)
            return out
        spy.spied = True
        op.safe_simplify = spy


# what was found to vanish while completing a partition
VANISHED = []


def order(f):
    return f.label + ("*" if f.is_conj else "") + str(f.derivs)


def configs(tier):
    plan = {"LLHH": 8, "LLHH'": 8, "D2a": 8, "QQdd": 24, "QQQL": 24, "QQTR": 8, "QdQd": 48, "LHLHW": 48, "2": 48, "3a": 48, "8": 48, "D3": 48}
    if tier != "quick":
        plan.update({"4b": 48, "LLQd": 384})
    out = [("listing", {"op": op, "verbose": v}) for op in ("LLHH", "LLHH'", "QQTR", "D2a", "QQdd") for v in (False, True)]
    return out + [("terms", b) for op, of in plan.items() for b in blocks(op, of)]


def chirality(p):
    """what flows out of a subtree: S, u or d; None if some vertex is not allowed"""
    if is_leaf(p):
        k = [i.index_type for i in p.field.indices if i.index_type in ("Undotted", "Dotted")]
        return {"Undotted": "u", "Dotted": "d"}[k[0]] if k else "S"
    xs = [chirality(q) for q in p]
    if None in xs:
        return None
    fs = [x for x in xs if x != "S"]
    if len(fs) > 2 or (len(fs) == 2 and fs[0] != fs[1]):
        return None
    return fs[0] if len(fs) == 1 else "S"


def judge_term(env, term, reals):
    core, ccore = M["core"], M["ccore"]
    fields = [t for t in term.tensors if isinstance(t, core.IndexedField)]
    env.check(env.eq(env.sum([f.charges["y"] for f in fields]), 0), "every term is neutral")
    env.check(env.implies(reals, env.eq(env.sum([f.charges.get("3b", 0) for f in fields]), 0)), "every term conserves baryon number")
    for f in fields:
        env.check(f.derivs == 0, "no derivatives are left in a Lagrangian term")
        lor = [i for i in f.indices if i.index_type in ("Undotted", "Dotted")]
        env.check(len(lor) <= 1, "no vector or higher-spin field appears")
    # raised and lowered indices of every gauge and Lorentz type balance
    count = {}
    for t in term.tensors:
        for i in t.indices:
            kind = i.index_type if isinstance(t, core.IndexedField) else str(i.tensor_index_type)
            if kind == "Generation":
                continue
            count[kind] = count.get(kind, 0) + (1 if i.is_up else -1)
    env.check(all(v == 0 for v in count.values()), "raised and lowered indices balance")
    for f in term.free_indices:
        env.check(f.index_type == "Generation", "no gauge or Lorentz index is free")
    twice = sum(3 if any(i.index_type in ("Undotted", "Dotted") for i in f.indices) else 2 for f in fields)
    env.check(twice <= 8, "every term is renormalisable")
    env.check(len(fields) >= 3, "every term is an interaction")
    labels = [f.label for f in fields]
    if len(set(labels)) < len(labels):
        env.check(bool(C09.poly(term, order)), "no term vanishes identically")
        env.cover("repeated")


def terms(env, cfg):
    ccore, comp = M["ccore"], M["comp"]
    eff, ch = sym_operator(env, M, cfg["op"], extra=False)
    n = 0
    for part in my_parts(M, eff, cfg):
        VANISHED.clear()
        c = comp.partition_completion(part)
        if isinstance(c, ccore.FailedCompletion):
            for t in VANISHED:
                env.check(not C09.poly(t, order), "a coupling is called vanishing only if it is")
                env.cover("vanishing")
            env.observe("failed", str(c.reason).split(" at ")[0])
            if not any(f.derivs for f in eff.fields):
                env.check(chirality(part["partition"]) is None or "Vanishing" in c.reason,
                          "a completion fails only for its Lorentz structure or a vanishing coupling")
            continue
        if not any(f.derivs for f in eff.fields):
            env.check(chirality(part["partition"]) is not None, "every vertex has an allowed Lorentz structure")
        env.cover("completion")
        reals = env.all([env.eq(e.charges["3b"], 0) for e in c.exotics if is_real(ccore, e)])
        for t in c.terms:
            judge_term(env, t, reals)
        for e in c.exotics:
            lor = [i for i in e.indices if i.index_type in ("Undotted", "Dotted")]
            env.check(len(lor) <= 1, "exotics are scalars or fermions of spin one half")
        env.check(len(c.terms) == len(c.exotics) + 1, "one vertex more than internal lines")
        env.check(c.topology == part["topology"], "the topology is recorded")
        for e in c.exotics:
            env.cover(type(e).__name__)
        n += len(c.terms)
    env.observe("terms", n)


def listing(env, cfg):
    """the completions of an operator are those of its partitions"""
    ccore, comp = M["ccore"], M["comp"]
    eff, ch = sym_operator(env, M, cfg["op"])
    mine = [comp.partition_completion(p) for p in ordered_partitions(M, eff)]
    mine = [c for c in mine if not isinstance(c, ccore.FailedCompletion)]
    got = list(comp.operator_completions(eff, verbose=cfg["verbose"]))
    key = lambda c: (c.topology, show(c.partition), sorted(e.label for e in c.exotics))
    env.check(sorted(map(key, got)) == sorted(map(key, mine)), "every partition that completes is listed once")
    env.observe("n", len(got))


HARNESSES = {"terms": terms, "listing": listing}
COVERS = {"terms": ["completion", "RealScalar", "ComplexScalar", "MajoranaFermion", "VectorLikeDiracFermion"]}
