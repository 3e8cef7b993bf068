"""Ordering and processing a database keep every operator and model."""
import os
import tempfile

from dbs import *

BOUNDS = {
    "databases": "one to three operators (thorough: four) with up to three models of up to two exotics, given directly or read from files with one operator or more each",
    "scales": "one or two positive rational estimates per operator, in any order and with any ties; operators in the catalogue that the database lacks",
    "dimensions": "any integer mass dimension between 5 and 11 for every operator",
    "steps": "order, filter, process with and without seesaw removal, force, once or twice, with both criteria",
}
ASSUMPTIONS = ["The catalogues of operators and their scale estimates are replaced by stand-ins with symbolic values; estimates themselves are C38 and C39.",
               "Files hold concrete quantum numbers; the scales stay symbolic."]
BUDGET = {"quick": 200, "thorough": 800}

KINDS.update({"n": "F,00,0", "p": "S,00,2"})
DBS = {"one": {"x": [["A"]]}, "two": {"x": [["A"], ["B"]], "y": [["A", "C"]]}, "three": {"x": [["A"]], "y": [], "z": [["B"], ["A"]]}}
MORE = {"four": {"x": [["A"]], "y": [["B"]], "z": [["B"], ["A"]], "w": []}}
PROC = {"pair": {"x": [["A"], ["A*"]], "y": [["A", "s"], ["A"]]}, "seesaw": {"x": [["n"]], "y": [["n"], ["A"]]}, "three": {"x": [["A"]], "y": [["s"], ["A"]], "z": [["A", "B"]]}}
PMORE = {"seesaws": {"x": [["n", "A"], ["p"]], "y": [["n"], ["A"], ["p"]]}, "wide": {"x": [["A"], ["B"]], "y": [["s"], ["A", "s"]], "z": [["A", "B"], ["s"]]}}
FILES = {"split": [{"x": ["S,00,0,1,0"], "y": ["S,00,0,1,0", "S,10,0,1/3,0"]}, {"z": ["F,00,1,1/2,0;S,00,0,1,0"]}], "one": [{"x": ["S,00,0,1,0", "F,00,0,0,0"]}], "none": [],
         "seesaw": [{"y": ["F,00,2,0,0", "S,00,2,1,0"]}, {"x": ["S,01,0,-1/3,0"], "z": ["S,10,0,1/3,0"]}]}


def load():
    global M
    M = load_dbs()


def configs(tier):
    more = tier != "quick"
    out = [("order", {"db": n, "by": by, "extra": e}) for n in {**DBS, **(MORE if more else {})} for by in ("mass", "dimension") for e in ([0, 1] if more or n == "two" else [0])]
    out += [("process", {"db": n, "by": by, "seesaws": s}) for n in {**PROC, **(PMORE if more else {})} for by in ("mass", "dimension") for s in (True, False)]
    out += [("files", {"files": f, "by": by}) for f in FILES for by in ("mass", "dimension")]
    return out + [("scales", {"n": n}) for n in ([1, 1], [2, 1], [3, 2])] + [("scales", {"n": [3, 3, 2]})] * more + [("force", {"shape": s}) for s in ([1], [0, 2, 1], [])]


def catalogue(env, names, by, n=1, pos=True):
    dims = {k: env.int("dim_" + k, 5, 11) if by == "dimension" else 5 for k in names}
    scales = {}
    for i, k in enumerate(names):
        scales[k] = [env.rat(f"scale_{k}{j}") for j in range(n if isinstance(n, int) else n[i])]
        if pos:
            for s in scales[k]:
                env.assume(s > 0)
    return dims, scales


def largest(env, l):
    out = l[0]
    for x in l[1:]:
        out = env.ite(x > out, x, out)
    return out


def check_order(env, D, before, by, dims, scales):
    env.check(sorted(D.data) == sorted(k for k, _ in before), "ordering keeps every operator")
    for k, l in before:
        env.check(len(D.data[k]) == len(l) and all(a is b for a, b in zip(D.data[k], l)), "ordering keeps the models of every operator")
    ks = list(D.data)
    for a, b in zip(ks, ks[1:]):
        if by == "mass":
            env.check(largest(env, scales[a]) >= largest(env, scales[b]), "operators come by decreasing scale")
        else:
            env.check(dims[a] <= dims[b], "operators come by increasing dimension")
    if by == "mass":
        env.check(all(k in D.scale_dict for k in ks), "every operator is given its scale")
        env.check(env.all([env.eq(D.scale_dict[k], largest(env, scales[k])) for k in ks]), "an operator's scale is its largest estimate")
    env.check(D.is_ordered is True, "the database is marked as ordered")


def order(env, cfg):
    spec = {k: [(c, []) for c in ms] for k, ms in {**DBS, **MORE}[cfg["db"]].items()}
    D = build(env, M, spec, "democratic", cfg["by"])
    before = snapshot(D)
    dims, scales = catalogue(env, list(spec) + ["v"] * cfg["extra"], cfg["by"], [2] + [1] * 4)
    with operators(M, dims, scales):
        D.order()
        check_order(env, D, before, cfg["by"], dims, scales)
        env.cover("moved" if list(D.data) != list(spec) else "not moved")
        D.order()
        check_order(env, D, before, cfg["by"], dims, scales)


def dominated(env, D, before, by, dims, scales, out):
    """gone(k, m): m is out, or repeats an earlier model, or extends a leading one"""
    def first(k, m):
        l = dict(before)[k]
        i = next(i for i, x in enumerate(l) if x is m)
        return env.all([env.not_(out(m))] + [env.not_(env.all([env.not_(out(n)), equal(env, D, n, m)])) for n in l[:i]])
    def above(j, k):
        return largest(env, scales[j]) > largest(env, scales[k]) if by == "mass" else dims[j] < dims[k]
    def gone(k, m):
        return env.any([env.not_(first(k, m))] + [env.all([above(j, k), env.not_(out(n)), inside(env, D, n, m)]) for j, l in before for n in l if j != k])
    return gone


def process(env, cfg):
    spec = {k: [(c, []) for c in ms] for k, ms in {**PROC, **PMORE}[cfg["db"]].items()}
    D = build(env, M, spec, "democratic", cfg["by"])
    before = snapshot(D)
    dims, scales = catalogue(env, list(spec), cfg["by"])
    def out(m):
        if not cfg["seesaws"]:
            return False
        seesaw = lambda w: (w[0] in ("F,00,0", "F,00,2") and env.eq(w[1], 0)) or (w[0] == "S,00,2" and env.eq(w[1], 1))
        return env.any([seesaw(w) for w in m.what])
    with operators(M, dims, scales):
        D.process(filter_seesaws=cfg["seesaws"])
        env.check(sorted(D.data) == sorted(spec), "processing keeps every operator")
        ks = list(D.data)
        env.check(env.all([largest(env, scales[a]) >= largest(env, scales[b]) if cfg["by"] == "mass" else dims[a] <= dims[b] for a, b in zip(ks, ks[1:])]), "processing orders the operators")
        gone = dominated(env, D, before, cfg["by"], dims, scales, out)
        for k, l in before:
            left = [m for m in l if among(m, D.data[k])]
            env.check(len(left) == len(D.data[k]) and all(a is b for a, b in zip(left, D.data[k])), "processing keeps the surviving models in order")
            for m in l:
                env.check(env.iff(gone(k, m), not among(m, left)), "processing removes exactly seesaws, repetitions and subleading models")
                env.cover("removed" if not among(m, left) else "kept")


def files(env, cfg):
    spec = FILES[cfg["files"]]
    names = [k for f in spec for k in f]
    dims, scales = catalogue(env, names or ["x"], cfg["by"])
    with tempfile.TemporaryDirectory() as where:
        for i, f in enumerate(spec):
            with open(os.path.join(where, f"f{i}.dat"), "w") as h:
                rows = [(k, j, m) for k, ms in f.items() for j, m in enumerate(ms)]
                for k, j, m in sorted(rows, key=lambda r: r[1]):  # models of two operators alternate
                    head = {"operator_name": k, "quantum_numbers": m.split(";"), "terms": [], "topology": "T"}
                    h.write(f'LazyCompletion(head={head}, tail="(\'full\', {k!r}, {j})")\n')
        with open(os.path.join(where, "other.txt"), "w") as h:
            h.write("no model\n")
        D = M["db"].ModelDatabase(where, criterion=cfg["by"])
    env.check(sorted(D.data) == sorted(names), "every operator of the files is read")
    for f in spec:
        for k, ms in f.items():
            env.check([m.head["quantum_numbers"] for m in D.data[k]] == [m.split(";") for m in ms], "every model of the files is read, in order")
            env.check(all(m.operator_name == k for m in D.data[k]), "models are read under their operator")
    before = snapshot(D)
    for m in (m for _, l in before for m in l):
        m.what = []
        for t in m.head["quantum_numbers"]:
            l, c, i, y, b = t.split(",")
            m.what.append((",".join([l, c, i]), env.const(y), env.const(b)))
    env.check(D.is_ordered is False, "a database read from files is not ordered yet")
    with operators(M, dims, scales):
        D.filter()
        ks = list(D.data)
        env.check(sorted(ks) == sorted(names), "filtering keeps every operator")
        env.check(env.all([largest(env, scales[a]) >= largest(env, scales[b]) if cfg["by"] == "mass" else dims[a] <= dims[b] for a, b in zip(ks, ks[1:])]), "filtering orders the operators first")
        for k, l in before:
            for m in l:
                above = [env.all([largest(env, scales[j]) > largest(env, scales[k]) if cfg["by"] == "mass" else dims[j] < dims[k], inside(env, D, n, m)]) for j, o in before for n in o if j != k]
                env.check(env.iff(env.any(above), not among(m, D.data[k])), "filtering removes exactly the subleading models")
        D.force()
    for k, l in before:
        env.check(all(x[:2] == ("full", k) for x in D.data[k]), "stored models are expanded under their operator")


def scales(env, cfg):
    names = ["u", "v", "w"][: len(cfg["n"])]
    dims, sc = catalogue(env, names, "mass", cfg["n"])
    D = M["db"].ModelDatabase("", data={})
    with operators(M, dims, sc):
        D.fill_scale_dict()
    env.check(sorted(D.scale_dict) == names and sorted(D.symbolic_scale_dict) == names, "every catalogued operator is given a scale")
    for k in names:
        env.check(env.eq(D.scale_dict[k], largest(env, sc[k])), "an operator's scale is its largest estimate")
        name, i = D.symbolic_scale_dict[k]
        env.check(name == k and env.truth(env.eq(sc[k][i], D.scale_dict[k])), "the estimate kept gives the scale kept")


def force(env, cfg):
    spec = {k: [(["s"], []) for _ in range(n)] for k, n in zip("xyz", cfg["shape"])}
    D = build(env, M, spec)
    before = snapshot(D)
    D.force()
    env.check(list(D.data) == [k for k, _ in before] and D.is_forced, "expanding keeps every operator")
    for k, l in before:
        env.check([x for x in D.data[k]] == [eval(m.tail) for m in l], "each stored model is expanded once, in order")
    D.force()
    for k, l in before:
        env.check([x for x in D.data[k]] == [eval(m.tail) for m in l], "expanding again changes nothing")


HARNESSES = {"order": order, "process": process, "files": files, "scales": scales, "force": force}
COVERS = {"order": ["moved", "not moved"], "process": ["removed", "kept"]}
