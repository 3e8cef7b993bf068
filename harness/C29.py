"""The neutrino-mass filter removes exactly the subleading models."""
from dbs import *

BOUNDS = {
    "databases": "one to three operators (thorough: four) with up to three models of up to three exotics and up to two interaction terms, both philosophies",
    "scales": "any rational new-physics scale for every operator, so any order and any ties",
    "steps": "the whole filter, the filter of one operator and of one model, filtering twice, and filter() of an ordered database",
}
ASSUMPTIONS = ["A model's list of fields is a set of texts; a field and its conjugate in one model count twice."]
BUDGET = {"quick": 200, "thorough": 800}

DBS = {
    "one": {"x": [(["s"], []), (["s", "s"], [])]}, "two": {"x": [(["s"], [])], "y": [(["s", "s"], []), (["s"], [])]},
    "three": {"x": [(["A"], [])], "y": [(["s"], [])], "z": [(["A", "s"], [])]}, "pair": {"x": [(["s"], [])], "y": [(["A", "s"], []), (["A"], [])]},
    "kinds": {"x": [(["t"], []), (["f"], [])], "y": [(["a", "f"], [])]},
    "chain": {"x": [(["A"], [])], "y": [(["A", "B"], []), (["B"], [])], "z": [(["A", "B", "C"], []), (["C"], [])]},
    "bary": {"x": [(["t'"], [])], "y": [(["a'"], [])]}, "empty": {"x": [], "y": [(["s"], [])], "z": [(["s"], [])]},
    "terms": {"x": [(["A"], [["A", "L"]])], "y": [(["A", "B"], [["A", "L"], ["B", "L"]]), (["B"], [["B*", "L*"]])]},
    "loose": {"x": [(["A"], [["A", "H"]])], "y": [(["A"], [["A", "L"]]), (["A"], [["A", "H"], ["A", "L"]])]},
    "twice": {"x": [(["A"], [["A", "L"], ["A", "L"]])], "y": [(["A"], [["A", "L"]]), (["B"], [["L", "B"], ["B", "L"]])]},
}
MORE = {
    "open": {"x": [(["s"], [])], "y": [(["s"], [])], "z": [(["s", "s"], [])]},
    "four": {"x": [(["s"], [])], "y": [(["s"], [])], "z": [(["s"], [])], "w": [(["A", "s"], [])]},
    "wide": {"x": [(["s"], []), (["A", "B"], [])], "y": [(["A", "s"], []), (["B"], [])], "z": [(["A", "B", "C"], [])]},
    "termsx": {"x": [(["A"], [["A", "L"], ["B", "A"]]), (["B"], [["B", "L"]])], "y": [(["A", "B"], [["A*", "L*"], ["B", "L"], ["B", "A"]])], "z": [(["C"], [["C", "L"]])]},
}


def load():
    global M
    M = load_dbs()


def configs(tier):
    out = []
    for n, spec in {**DBS, **(MORE if tier != "quick" else {})}.items():
        terms = any(t for ms in spec.values() for _, t in ms)
        for how in ("filter_by_mass", "filter") if tier != "quick" or terms else ("filter",) if n in ("two", "kinds") else ("filter_by_mass",):
            out.append(("whole", {"db": n, "by": "stringent" if terms else "democratic", "how": how}))
    out += [("whole", {"db": n, "by": "democratic", "how": "filter_by_mass"}) for n in ("terms", "loose")]
    out += [("step", {"db": n, "by": by}) for n, by in (("pair", "democratic"), ("terms", "stringent"), ("loose", "stringent"), ("two", "democratic"), ("chain", "democratic"))[:None if tier != "quick" else 3]]
    return out


def prepare(env, cfg):
    spec = {**DBS, **MORE}[cfg["db"]]
    D = build(env, M, spec, cfg["by"])
    s = {k: env.rat("scale_" + k) for k in spec}
    D.scale_dict = dict(s)
    return D, s, snapshot(D)


def whole(env, cfg):
    D, s, before = prepare(env, cfg)
    getattr(D, cfg["how"])()
    def gone(k, m):
        return env.any([env.all([s[j] > s[k], inside(env, D, n, m)]) for j, l in before for n in l if j != k])
    check_kept(env, D, before, gone, "filtering")
    env.check(env.all([env.eq(D.scale_dict[k], s[k]) for k in s]), "filtering keeps the scales")
    after = snapshot(D)
    getattr(D, cfg["how"])()
    env.check(same(after, snapshot(D)), "filtering again changes nothing")
    env.observe("left", str([(k, len(v)) for k, v in D.data.items()]))


def same(a, b):
    return [k for k, _ in a] == [k for k, _ in b] and all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for (_, x), (_, y) in zip(a, b))


def step(env, cfg):
    D, s, before = prepare(env, cfg)
    j = env.pick("op", list(s))
    models = D.data[j]
    if not models:
        return
    m0 = models[env.pick("model", range(len(models)))]
    keep = env.pick("table", [False, True])
    D.filter_model_by_mass(j, m0, keep_filter_data=keep)
    check_kept(env, D, before, lambda k, m: env.all([s[j] > s[k], inside(env, D, m0, m)]), "one step")
    row = list(s).index(j)
    for a, (k, l) in enumerate(before):
        for b in range(len(before)):
            want = (len(l) - len(D.data[k])) / len(l) if keep and b == row and l else 0
            env.check(abs(float(D.filter_data[b][a]) - want) < 1e-9, "the rejection table counts the removed fraction when asked")
    before = snapshot(D)
    D.filter_models_by_mass(j)
    check_kept(env, D, before, lambda k, m: env.any([env.all([s[j] > s[k], inside(env, D, n, m)]) for n in models]), "one operator's step")


HARNESSES = {"whole": whole, "step": step}
COVERS = {"whole": ["removed", "kept"], "step": ["removed", "kept"]}
