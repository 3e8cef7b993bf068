"""Related models share at least two exotics, and exclude the model itself."""
from dbs import *

BOUNDS = {
    "tables": "one to three rows (thorough: four) of models of one to three exotics with arbitrary rational hypercharges, row labels in order or not",
    "rows": "every row of every table",
}
ASSUMPTIONS = ["No model lists a field twice or beside its conjugate (stored models name each field once, in one orientation).",
               "pandas and sympy.factorint run unmodified on the numbers of each path."]
BUDGET = {"quick": 200, "thorough": 800}

TABLES = {
    "one": [["s", "s"]], "single": [["A"], ["A"], ["A", "B"]], "two": [["A", "s"], ["A", "B"]], "three": [["A", "B"], ["A", "B", "C"], ["C", "s"]],
    "kinds": [["A", "f"], ["f", "A"]], "conj": [["A", "B*"], ["A*", "B"], ["A*", "C", "B*"]], "full": [["A", "B", "C"], ["A", "B"], ["C", "B"], ["C"]],
    "colour": [["t", "A"], ["a", "A"]], "same": [["A", "t", "f"], ["f", "A", "t"]],
}
MORE = {"twox": [["s", "s"], ["A", "s"]], "threex": [["A", "B"], ["A", "B", "s"], ["B", "s"]], "kindsy": [["s", "f"], ["f", "s"]], "wide": [["A", "s", "s"], ["A", "s"], ["s", "s"]], "four": [["A", "s"], ["s", "A"], ["A", "B"], ["A", "B", "s"]], "kindsx": [["s", "f", "t"], ["s", "f"], ["a", "f"]]}
LABELS = {"plain": None, "mixed": [7, 0, 3, 1]}


def load():
    global M
    M = load_dbs()


def configs(tier):
    names = list(TABLES) + ([] if tier == "quick" else list(MORE))
    return [("related", {"table": t, "labels": l}) for t in names for l in LABELS] + [("names", {"table": t}) for t in names if t not in ("three", "same") or tier != "quick"]


def table(env, cfg, terms=0):
    rows = {**TABLES, **MORE}[cfg["table"]]
    D = build(env, M, {"x": [(c, [c] * terms) for c in rows]})
    models = D.data["x"]
    for m in models:
        for i, w in enumerate(m.what):
            for v in m.what[:i]:
                env.assume(env.not_(alike(env, v, w)))
    data = {"democratic_num": [D.democratic_model_number(m) for m in models], "stringent_num": [D.stringent_model_number(m) for m in models],
            "completion": [f"('row', {i})" for i in range(len(models))]}
    return D, models, M["db"].ModelDataFrame.new(data, D.exotic_prime_dict, D.term_prime_dict)


def related(env, cfg):
    D, models, df = table(env, cfg)
    labels = LABELS[cfg["labels"]]
    labels = (labels or list(range(len(models))))[: len(models)]
    df.index = labels
    for i, m in enumerate(models):
        got = list(df.related_models(labels[i]).index)
        env.check(len(got) == len(set(got)), "each related model is listed once")
        env.check(labels[i] not in got, "a model is not related to itself")
        env.check(df.completion(labels[i]) == ("row", i), "the completion of a row is its own")
        for j, n in enumerate(models):
            if i == j:
                continue
            want = env.all([len(n.what) > 1, contained(env, n.what, m.what, alike, True)])
            env.check(env.iff(want, labels[j] in got), "related are exactly the models made of two or more of the fields")
            env.cover("related" if labels[j] in got else "unrelated")


def names(env, cfg):
    D, models, df = table(env, cfg, 1)
    for m in models:
        for t in m.head["quantum_numbers"]:
            n = df.exotic2int[t]
            env.check(n == D.exotic_prime_dict[t] and df.exotics[t] == n, "a field's number is the database's")
            back = df.int2exotic[n]
            env.check(env.any([env.eq(back, t), env.eq(back, M["fn"].conjugate_field(t))]), "a field's number leads back to it or its conjugate")
            env.check(env.eq(df.exotics[n], back), "both directions of the lookup agree")
        for t in m.head["terms"]:
            t = tuple(sorted(t))
            n = df.term2int[t]
            env.check(n == D.term_prime_dict[t] and df.terms[t] == n, "a term's number is the database's")
            back = df.int2term[n]
            env.check(env.any([env.eq(back, t), env.eq(back, M["fn"].conjugate_term(t))]), "a term's number leads back to it or its conjugate")
            env.check(env.eq(df.terms[n], back), "both directions of the lookup agree")


HARNESSES = {"related": related, "names": names}
COVERS = {"related": ["related", "unrelated"]}
