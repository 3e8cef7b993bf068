"""The dimension filter removes exactly the higher-dimensional extensions."""
from dbs import *

BOUNDS = {
    "databases": "one to three operators (thorough: four) with up to three models of up to three exotics and up to two interaction terms, both philosophies",
    "dimensions": "any integer mass dimension between 5 and 11 for every operator",
    "steps": "the whole filter, the filter of one operator and of one model, filtering twice, and filter() of an ordered database",
}
ASSUMPTIONS = ["The catalogues of operators are replaced by stand-ins with symbolic dimensions.",
               "A model's list of fields is a set of texts; a field and its conjugate in one model count twice."]
BUDGET = {"quick": 200, "thorough": 800}

from C29 import DBS, MORE, same


def load():
    global M
    M = load_dbs()


def configs(tier):
    out = []
    for n, spec in {**DBS, **(MORE if tier != "quick" else {})}.items():
        terms = any(t for ms in spec.values() for _, t in ms)
        out.append(("whole", {"db": n, "by": "stringent" if terms else "democratic", "how": "filter_by_dimension" if n != "two" else "filter"}))
    out += [("whole", {"db": n, "by": "democratic", "how": "filter"}) for n in ("terms", "loose")]
    out += [("step", {"db": n, "by": by}) for n, by in (("pair", "democratic"), ("terms", "stringent"), ("loose", "stringent"), ("two", "democratic"), ("chain", "democratic"))[:None if tier != "quick" else 3]]
    return out


def prepare(env, cfg):
    spec = {**DBS, **MORE}[cfg["db"]]
    D = build(env, M, spec, cfg["by"], "dimension")
    D.is_ordered = True
    d = {k: env.int("dim_" + k, 5, 11) for k in spec}
    return D, d, snapshot(D)


def whole(env, cfg):
    D, d, before = prepare(env, cfg)
    with operators(M, d):
        getattr(D, cfg["how"])()
        def gone(k, m):
            return env.any([env.all([d[j] < d[k], inside(env, D, n, m)]) for j, l in before for n in l if j != k])
        check_kept(env, D, before, gone, "filtering")
        n = len(before)
        # an entry of the table is positive exactly when a subset of the removed models is in the row's operator
        for a, (k, l) in enumerate(before):
            env.check(all(len(D.filter_data[b]) == n for b in range(n)), "the table has a row and a column per operator")
            col = [float(D.filter_data[b][a]) for b in range(n)]
            env.check((sum(col) > 0) == (len(l) > len(D.data[k])), "a column is empty exactly when nothing was removed")
            for b, (j, _) in enumerate(before):
                env.check(env.implies(d[j] >= d[k], col[b] == 0), "only lower dimensions reject")
        want = replay_table(env, D, d, before)
        env.check(all(abs(float(D.filter_data[b][a]) - want[b][a]) < 1e-9 for a in range(n) for b in range(n)), "the table sums the fractions removed")
        after = snapshot(D)
        getattr(D, cfg["how"])()
        env.check(same(after, snapshot(D)), "filtering again changes nothing")
    env.observe("left", str([(k, len(v)) for k, v in D.data.items()]))


def replay_table(env, D, d, before):
    """every surviving model rejects in turn, its share of what is left then"""
    left = {k: list(l) for k, l in before}
    ks = [k for k, _ in before]
    out = [[0.0] * len(ks) for _ in ks]
    for b, j in enumerate(ks):
        for n in list(left[j]):
            for a, k in enumerate(ks):
                if not env.truth(d[j] < d[k]):
                    continue
                drop = [m for m in left[k] if env.truth(inside(env, D, n, m))]
                if drop:
                    out[b][a] += len(drop) / len(left[k])
                    left[k] = [m for m in left[k] if not among(m, drop)]
    return out


def step(env, cfg):
    D, d, before = prepare(env, cfg)
    j = env.pick("op", list(d))
    models = D.data[j]
    if not models:
        return
    m0 = models[env.pick("model", range(len(models)))]
    with operators(M, d):
        D.filter_model_by_dimension(j, m0)
        check_kept(env, D, before, lambda k, m: env.all([d[j] < d[k], inside(env, D, m0, m)]), "one step")
        row = list(d).index(j)
        for a, (k, l) in enumerate(before):
            for b in range(len(before)):
                want = (len(l) - len(D.data[k])) / len(l) if b == row and l else 0
                env.check(abs(float(D.filter_data[b][a]) - want) < 1e-9, "the rejection table counts the removed fraction")
        before = snapshot(D)
        D.filter_models_by_dimension(j)
        check_kept(env, D, before, lambda k, m: env.any([env.all([d[j] < d[k], inside(env, D, n, m)]) for n in models]), "one operator's step")


HARNESSES = {"whole": whole, "step": step}
COVERS = {"whole": ["removed", "kept"], "step": ["removed", "kept"]}
