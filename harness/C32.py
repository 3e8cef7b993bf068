"""Removing equivalent models keeps one model per content."""
from dbs import *

BOUNDS = {
    "databases": "one to three operators with up to four models (thorough: five) of up to three exotics and up to two interaction terms, both philosophies",
}
ASSUMPTIONS = ["A model's list of fields is a set of texts; a field and its conjugate in one model count twice."]
BUDGET = {"quick": 200, "thorough": 800}

DBS = {
    "one": {"x": [(["s"], [])]}, "none": {"x": [], "y": [(["s"], []), (["s"], [])]}, "two": {"x": [(["s"], []), (["s"], [])], "y": [(["s"], []), (["s"], [])]},
    "three": {"x": [(["s"], []), (["s"], []), (["s"], [])]},
    "pairs": {"x": [(["A", "s"], []), (["s", "A"], [])], "y": [(["s"], [])]}, "mixed": {"x": [(["t"], []), (["a"], []), (["t", "a"], [])]},
    "kinds": {"x": [(["f", "s"], []), (["s", "f"], []), (["f"], [])]}, "triple": {"x": [(["A", "B", "C"], []), (["C", "A*", "B"], []), (["A", "B"], [])]},
    "terms": {"x": [(["A"], [["A", "L"]]), (["A"], [["L", "A"]]), (["B"], [["B*", "L*"]])], "y": [(["A"], [["A", "L"]])]},
    "twice": {"x": [(["A"], [["A", "L"], ["A", "L"]]), (["A"], [["A", "L"]]), (["B"], [["B", "L"], ["L", "A"]])]},
}
MORE = {"wide": {"x": [(["s", "s"], []), (["s", "s"], [])], "y": [(["s"], [])]},
        "four": {"x": [(["s"], []), (["s"], []), (["s"], []), (["s"], [])]},
        "five": {"x": [(["s"], []), (["s"], []), (["s"], []), (["s"], []), (["A"], [])]},
        "termsx": {"x": [(["A"], [["A", "L"], ["B", "H"]]), (["B"], [["H", "A"], ["B", "L"]]), (["A", "B"], [["A*", "L*"], ["B*", "H*"]])]}}


def load():
    global M
    M = load_dbs()


def configs(tier):
    out = []
    for n, spec in {**DBS, **(MORE if tier != "quick" else {})}.items():
        terms = any(t for ms in spec.values() for _, t in ms)
        out.append(("dedupe", {"db": n, "by": "stringent" if terms else "democratic"}))
    return out + [("dedupe", {"db": n, "by": "democratic"}) for n in ("terms", "twice")]


def dedupe(env, cfg):
    D = build(env, M, {**DBS, **MORE}[cfg["db"]], cfg["by"])
    before = snapshot(D)
    D.remove_equivalent_models()
    def gone(k, m):
        l = dict(before)[k]
        i = next(i for i, x in enumerate(l) if x is m)
        return env.any([equal(env, D, n, m) for n in l[:i]])
    check_kept(env, D, before, gone, "removal")
    after = snapshot(D)
    D.remove_equivalent_models()
    env.check(all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for (_, a), (_, b) in zip(after, snapshot(D))), "removal again changes nothing")


HARNESSES = {"dedupe": dedupe}
COVERS = {"dedupe": ["removed", "kept"]}
