"""Model numbers divide exactly when contents are included."""
from dbs import *

BOUNDS = {
    "databases": "one to three operators with up to three models (thorough: four) of one to three exotics and up to three interaction terms of one to three fields",
    "fields": "scalars and fermions of five colour and isospin types with arbitrary rational hypercharge (in part baryon number), so that any two may coincide, be conjugate or differ; SM fields in terms",
}
ASSUMPTIONS = ["A model's list of fields is a set of texts; a field and its conjugate in one model count twice.",
               "Texts with numbers inside are ordered by value of the number; only the order inside a sorted term depends on it."]
BUDGET = {"quick": 200, "thorough": 800}

DBS = {
    "one": {"x": [(["s", "s"], [])]}, "two": {"x": [(["s"], []), (["s", "s"], [])]}, "ops": {"x": [(["s"], [])], "y": [(["s"], [])], "z": [(["t"], [])]},
    "colour": {"x": [(["t"], []), (["a"], [])], "y": [(["t", "a"], [])]}, "kinds": {"x": [(["s", "f"], []), (["f"], [])], "y": [(["g", "s"], [])]},
    "bary": {"x": [(["t'"], [])], "y": [(["a'", "s"], [])]}, "conj": {"x": [(["A", "B*"], []), (["A*", "B"], [])], "y": [(["A", "A*"], [])]},
    "subsets": {"x": [(["A", "B", "C"], []), (["A", "C"], [])], "y": [(["B"], []), (["C", "B"], [])]},
    "terms": {"x": [(["A"], [["A", "s"]])], "y": [(["A"], [["s", "A"]])]},
    "twice": {"x": [(["A"], [["A", "L"], ["A", "L"]]), (["A"], [["A", "L"]])]},
    "sm": {"x": [(["A"], [["L", "H", "A"]])], "y": [(["A"], [["A*", "H*", "L*"], ["L", "A"]]), (["B"], [["A", "L*", "H"]])]},
    "many": {"x": [(["A", "B"], [["A", "B"], ["A", "L"]]), (["B"], [["B", "A"]])], "y": [(["A"], [["L*", "A*"], ["B*", "A*"], ["A"]])]},
    "mixed": {"x": [(["A"], [["A", "t"]])], "y": [(["A"], [["a", "A*"]])]},
}
MORE = {
    "three": {"x": [(["s"], []), (["s"], []), (["s", "s"], [])]},
    "termsx": {"x": [(["A"], [["s", "s"]])], "y": [(["A"], [["s", "s"]])]},
    "four": {"x": [(["s"], []), (["s"], [])], "y": [(["s"], []), (["s"], [])]},
    "barys": {"x": [(["t'"], []), (["t'"], [])], "y": [(["a'"], [])]},
}


def load():
    global M
    M = load_dbs()


def configs(tier):
    names = list(DBS) + ([] if tier == "quick" else list(MORE))
    out = []
    for n in names:
        spec = {**DBS, **MORE}[n]
        terms = any(t for ms in spec.values() for _, t in ms)
        out.append(("numbers", {"db": n, "by": "stringent" if terms else "democratic"}))
    return out + [("numbers", {"db": "many", "by": "democratic"}), ("refuse", {})]


def numbers(env, cfg):
    D = build(env, M, {**DBS, **MORE}[cfg["db"]], cfg["by"])
    models = [m for v in D.data.values() for m in v]
    env.check(D.is_democratic == (cfg["by"] == "democratic") and D.is_stringent == (cfg["by"] == "stringent"), "philosophy")
    # primes of the fields
    fs = [(t, w) for m in models for t, w in zip(m.head["quantum_numbers"], m.what)]
    ps = [D.exotic_prime_dict[t] for t, _ in fs]
    for k, (t, w) in enumerate(fs):
        env.check(is_prime(ps[k]), "fields are given primes")
        env.check(D.exotic_prime_dict[M["fn"].conjugate_field(t)] == ps[k], "a field and its conjugate share the prime")
        back = D.inv_exotic_prime_dict[ps[k]]
        env.check(env.any([env.eq(back, t), env.eq(back, M["fn"].conjugate_field(t))]), "a prime leads back to the field or its conjugate")
        for j in range(k):
            env.check(env.iff(alike(env, w, fs[j][1]), ps[k] == ps[j]), "fields share a prime exactly when they agree up to conjugation")
    ts = [(tuple(sorted(t)), w) for m in models for t, w in zip(m.head["terms"], m.tell)]
    qs = [D.term_prime_dict[t] for t, _ in ts]
    for k, (t, w) in enumerate(ts):
        env.check(is_prime(qs[k]), "terms are given primes")
        for j in range(k):
            env.check(env.iff(same_term(env, w, ts[j][1]), qs[k] == qs[j]), "terms share a prime exactly when they agree up to conjugation")
        back = D.inv_term_prime_dict[qs[k]]
        env.check(env.any([env.eq(back, t), env.eq(back, M["fn"].conjugate_term(t))]), "a prime leads back to the term or its conjugate")
    # numbers
    ns = [D.model_number(m) for m in models]
    for i, a in enumerate(models):
        env.check(ns[i] == (D.democratic_model_number(a) if cfg["by"] == "democratic" else D.stringent_model_number(a)), "the philosophy decides")
        for j, b in enumerate(models):
            env.check(env.iff(inside(env, D, a, b), ns[j] % ns[i] == 0), "numbers divide exactly when contents are included")
            if i != j:
                env.cover("divides" if ns[j] % ns[i] == 0 else "does not divide")
    env.observe("divisibility", str([[y % x == 0 for y in ns] for x in ns]))


def refuse(env, cfg):
    for kw in ({"philosophy": "other"}, {"criterion": "size"}):
        try:
            M["db"].ModelDatabase("", data={}, **kw)
            env.check(False, "unknown philosophies and criteria are refused")
        except AssertionError:
            pass
    D = M["db"].ModelDatabase("", data={})
    env.check(D.is_democratic and D.is_mass and not D.is_forced, "defaults")


HARNESSES = {"numbers": numbers, "refuse": refuse}
COVERS = {"numbers": ["divides", "does not divide"]}
