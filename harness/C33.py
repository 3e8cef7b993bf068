"""Queries and the seesaw filter select exactly the matching models."""
from dbs import *

BOUNDS = {
    "databases": "one or two operators with up to three models (thorough: four) of up to three exotics and up to three interactions of up to three fields",
    "predicates": "any truth value for every model",
    "patterns": "exact quantum numbers, and patterns leaving colour, hypercharge or baryon number open; up to three patterns for one interaction",
    "fields": "arbitrary rational hypercharges and baryon numbers for eight colour and isospin types, among them those of the seesaw fields",
}
ASSUMPTIONS = ["Regular expressions are matched by a model of Python's re, restricted to what the patterns use and compared with re on replayed paths."]
BUDGET = {"quick": 150, "thorough": 600}

KINDS.update({"n": "F,00,0", "m": "F,00,2", "p": "S,00,2"})
MODELS = {
    "scalars": [["p'"], ["s", "p"], []], "fermions": [["n'", "m"], ["f"]], "mixed": [["p"], ["t'", "m"]],
    "conj": [["A", "A*"], ["s", "n"]], "same": [["n", "n"], ["p"]],
}
MORE = {"fermionsx": [["n'", "m"], ["m'"], ["f"]], "scalarsx": [["p'"], ["s'", "p"], []], "more": [["n'", "m'", "p'"], ["s'", "f'"]], "four": [["n"], ["m"], ["p"], ["s"]]}
# pattern -> (kind or None, start of kind, hypercharge or None, baryon number or None)
PATTERNS = {
    "F,00,2,0,0": (["F,00,2"], 0, 0), "F,00,0,0,0": (["F,00,0"], 0, 0), "S,00,2,1,0": (["S,00,2"], 1, 0), "S,00,2,-1,": (["S,00,2"], -1, None),
    "S,": (["S,00,0", "S,00,2", "S,10,0", "S,01,0"], None, None), "F,00,.,0,": (["F,00,0", "F,00,2", "F,00,1"], 0, None), "S,00,0,": (["S,00,0"], None, None),
    "S,..,0,1/3,": (["S,00,0", "S,10,0", "S,01,0"], "1/3", None), "S,10,.*,.*,1$": (["S,10,0"], None, 1), "F,00,[02],-1/2,0": (["F,00,0", "F,00,2"], "-1/2", 0),
    "F,00,2,": (["F,00,2"], None, None), "L": (["SML"], None, None), "H": (["SMH"], None, None), "eb": (["SMeb"], None, None), "b": ([], None, None), "00,2": ([], None, None), ",0,": ([], None, None), r"H\.conj": (["SMH*"], None, None),
}
TERMS = {
    "yukawa": [["L", "H", "n"], ["n", "n"]], "split": [["L", "s"], ["H", "m"], ["L*", "H*", "s"]], "scalars": [["s", "p"], ["H", "H*", "p"]], "one": [["L", "L", "A"], ["A*"]],
    "none": [], "eb": [["eb", "s"], ["L", "H", "eb*"]],
}
ASKED = [["L"], ["L", "H"], ["L", "H", "F,00,0,0,0"], ["S,00,0,"], ["S,00,0,", "L"], ["S,", "H"], [r"H\.conj", "H"], ["S,00,2,1,0", r"H\.conj"], ["L", "L"], [], ["eb", "S,..,0,1/3,"], ["b"], ["L", ",0,"], ["F,00,2,0,0", "L"]]


def load():
    global M
    M = load_dbs()


def configs(tier):
    ms = {**MODELS, **(MORE if tier != "quick" else {})}
    out = [("field", {"models": m}) for m in ms] + [("seesaw", {"models": m}) for m in ms]
    out += [("interaction", {"terms": t, "asked": a}) for t in TERMS for a in ASKED]
    return out + [("query", {"shape": s}) for s in ([1], [2, 1], [0, 3], [])]


def matches(env, pattern, w):
    kinds, y, b = PATTERNS[pattern]
    if w[0][:2] == "SM":
        name = w[0] + ("*" if w[1] else "")
        return any(name.startswith(k) for k in kinds)
    if w[0] not in kinds:
        return False
    def hold(x, v):
        if v is None:
            return True
        return env.eq(x, env.const(v)) if not isinstance(x, int) else x == v
    return env.all([hold(w[1], y), hold(w[2], b)])


def field(env, cfg):
    mk = Maker(env)
    for k, codes in enumerate({**MODELS, **MORE}[cfg["models"]]):
        m = mk.model(M, "x", codes)
        for p in PATTERNS:
            got = bool(m.contains_field(p))
            env.check(env.iff(env.any([matches(env, p, w) for w in m.what]), got), "a model contains a field exactly when some field matches")
            env.cover("matched" if got else "not matched")


def seesaw(env, cfg):
    spec = {"x": [(c, []) for c in {**MODELS, **MORE}[cfg["models"]]], "y": [(["n'"], [])]}
    D = build(env, M, spec)
    before = snapshot(D)
    def bad(k, m):
        return env.any([matches(env, p, w) for w in m.what for p in ("F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0")])
    got = D.query(M["db"].ModelDatabase.no_seesaws)
    env.check(all(len(a[1]) == len(b[1]) for a, b in zip(before, snapshot(D))), "a query leaves the database alone")
    D.filter_by_query(D.no_seesaws)
    check_kept(env, D, before, bad, "the seesaw filter")
    env.check(all(len(got[k]) == len(v) and all(a is b for a, b in zip(got[k], v)) for k, v in D.data.items()), "filtering by a query keeps its answer")


def interaction(env, cfg):
    mk = Maker(env)
    m = mk.model(M, "x", ["s"], TERMS[cfg["terms"]])
    ask = cfg["asked"]
    got = m.contains_interaction(ask)
    want = env.any([env.all([env.any([matches(env, p, w) for w in t]) for p in ask]) for t in m.tell])
    env.check(env.iff(want, bool(got)), "an interaction is contained exactly when one matches all patterns")
    env.cover("matched" if got else "not matched")


def query(env, cfg):
    spec = {k: [(["s"], []) for _ in range(n)] for k, n in zip("xyz", cfg["shape"])}
    D = build(env, M, spec)
    before = snapshot(D)
    flags = {id(m): env.bool(f"flag{i}") for i, m in enumerate(m for _, l in before for m in l)}
    seen = []
    def ask(m):
        seen.append(m)
        return flags[id(m)]
    got = D.query(ask)
    env.check(list(got) == [k for k, _ in before], "the answer lists every operator")
    for k, l in before:
        want = [m for m in l if env.truth(flags[id(m)])]
        env.check(len(want) == len(got[k]) and all(a is b for a, b in zip(want, got[k])), "the answer holds exactly the models asked for, in order")
        env.check(len(D.data[k]) == len(l) and all(a is b for a, b in zip(l, D.data[k])), "a query leaves the database alone")
    D.filter_by_query(ask)
    check_kept(env, D, before, lambda k, m: env.not_(flags[id(m)]), "filtering by a query")


HARNESSES = {"field": field, "seesaw": seesaw, "interaction": interaction, "query": query}
COVERS = {"field": ["matched", "not matched"], "seesaw": ["removed", "kept"], "interaction": ["matched", "not matched"], "query": ["removed", "kept"]}
