"""Stored operators reload as equal operators."""
import copy
import itertools
import os
import pickle

from hlib import *

BOUNDS = {
    "charges": "all rationals, keys y, 3b and optionally l",
    "fields": "one to four (quick) / five fields with up to three indices of a kind, plain and conjugated, one or three generations, up to two derivatives, given LaTeX",
    "tensors": "isospin and spinor epsilons, colour epsilons of both kinds, colour deltas, none",
    "catalogue": "all operators of operators.p and deriv_operators.p, with symbolic charges",
}
ASSUMPTIONS = []
BUDGET = {"quick": 120, "thorough": 600}

# (label, digits, conjugated, generations, derivative digits...)
FIELDS = {
    "L": ("L", "10001", 0, 3, []), "Lc": ("L", "01001", 1, 3, []), "Q": ("Q", "10101", 0, 1, []),
    "d": ("db", "10010", 0, 1, []), "dc": ("db", "01100", 1, 3, []), "H": ("H", "00001", 0, 1, []),
    "Hc": ("H", "00001", 1, 1, []), "S": ("S", "00000", 0, 1, []), "G": ("G", "20110", 0, 1, []),
    "T": ("T", "00002", 0, 1, []), "X": ("X", "00200", 0, 1, []), "Xc": ("X", "00020", 1, 1, []),
    "DH": ("H", "00001", 0, 1, ["11001"]), "DDH": ("H", "00001", 0, 1, ["11001", "00001"]),
    "DL": ("L", "10001", 0, 1, ["01001"]), "DLc": ("L", "01001", 1, 1, ["10001"]),
}
# fields with their indices, invariant tensors
OPS = [
    (["S:"], []), (["H:i0", "Hc:i1"], ["-i0 -i1"]),
    (["L:u0 i0 g0", "L:u1 i1 g1", "H:i2", "H:i3"], ["-i0 -i2", "-i1 -i3"]),
    (["L:u0 i0 g1", "Lc:d0 i1 g2"], ["-i1 -i0"]),
    (["Q:u0 c0 i0", "d:u1 -c1", "H:i1"], ["-i0 -i1", "-u0 -u1", "D c1 -c0"]),
    (["Q:u0 c0 i0", "Q:u1 c1 i1", "Q:u2 c2 i2"], ["-c0 -c1 -c2", "-u0 -u1"]),
    (["d:u0 -c0", "d:u1 -c1", "d:u2 -c2"], ["c2 c0 c1"]),
    (["d:u0 -c0", "dc:d0 c1 g0"], ["D c0 -c1"]),
    (["G:u0 u1 c0 -c1", "X:c2 c3", "Xc:-c4 -c5"], ["D c1 -c2", "D c4 -c0", "D c5 -c3"]),
    (["T:i0 i1", "T:i2 i3"], ["-i0 -i2", "-i3 -i1"]),
    (["DH:u0 d0 i0", "DL:d1 i1", "H:i2"], ["-i0 -i1", "-d0 -d1"]),
    (["DDH:i0", "DLc:u0 i1", "S:"], ["-i0 -i1"]),
    (["X:c0 c1", "d:u0 -c2"], ["D c2 -c0"]),
    (["X:C0 C1", "L:U0 I_0 g_1", "H:_i3"], []),
]


def load():
    global core
    core = repo("tensormethod.core")


def catalogue():
    d = os.path.join(os.environ.get("SYMX_REPO", "/repo"), "neutrinomass", "completions")
    out = {}
    for n in ("operators.p", "deriv_operators.p"):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = pickle.load(f)
    return out


def configs(tier):
    out = [("built", {"k": k}) for k in range(len(OPS))]
    names = list(FIELDS)
    for a, b in itertools.combinations(names, 2):
        out.append(("pair", {"a": a, "b": b}))
    for n in range(8):
        out.append(("stored", {"part": n}))
    return out


def field(env, n, tag):
    lab, dig, conj, nf, ders = FIELDS[n]
    ch = {"y": env.rat(f"y{tag}"), "3b": env.rat(f"b{tag}")}
    if tag == "0":
        ch["l"] = env.rat("l0")
    ferm = (int(dig[0]) + int(dig[1])) % 2
    f = core.Field(lab, dig, charges=ch, is_conj=bool(conj), nf=nf, comm="fermi" if ferm else "bose",
                   latex=None if tag == "1" else r"\tilde{" + lab + "}")
    for d in ders:
        f = core.D(f, d[:2])
    return f


def plain(x):
    """text, numbers and containers of them"""
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return type(x).__name__ in ("str", "int", "bool", "NoneType", "Rational", "Integer", "Half", "Zero", "One",
                                "NegativeOne", "SymRat", "SymInt", "SymStr", "SymBool", "Fraction") or isinstance(x, str)


def judge(env, op):
    form = op.pickle_form()
    env.check(plain(form), "stored form is plain data")
    back = core.Operator.from_pickle_form(form)
    compare(env, op, back)
    env.check(same_form(env, form, back.pickle_form()), "stored again, the form is the same")
    compare(env, op, copy.deepcopy(op))


def compare(env, op, back):
    env.check(isinstance(back, core.Operator), "an operator is loaded")
    a, b = list(op.indexed_fields), list(back.indexed_fields)
    env.check(len(a) == len(b), "number of fields")
    for f, g in zip(a, b):
        env.check(f == g and g == f, "fields are equal")
        for at in ("label", "dynkin", "is_conj", "comm", "symmetry", "latex", "nf", "derivs"):
            env.check(env.eq(getattr(f, at), getattr(g, at)), f"{at} kept")
        env.check([str(i) for i in f.indices] == [str(i) for i in g.indices], "indices kept in order")
        env.check(set(f.charges) == set(g.charges) and env.truth(env.all([env.eq(f.charges[k], g.charges[k]) for k in f.charges])), "charges kept")
        env.check((f.stripped is None) == (g.stripped is None), "derivative data kept")
        if f.derivs:
            env.check(f.strip_derivs_with_indices() == g.strip_derivs_with_indices(), "stripping derivatives agrees")
        env.check(f.field == g.field, "bare fields are equal")
    ea, eb = list(op.epsilons), list(back.epsilons)
    env.check(len(ea) == len(eb), "number of invariant tensors")
    for x, y in zip(ea, eb):
        env.check(str(x.args[0]) == str(y.args[0]) and [str(i) for i in x.indices] == [str(i) for i in y.indices], "invariant tensors kept")
        env.check(x == y, "invariant tensors are equal")
    env.check([str(i) for i in op.free_indices] == [str(i) for i in back.free_indices], "free indices kept")


def same_form(env, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_form(env, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_form(env, x, y) for x, y in zip(a, b))
    return env.truth(env.eq(a, b)) if a is not None else b is None


def built(env, cfg):
    fs, es = OPS[cfg["k"]]
    op = core.Field("Z", "00000", charges={"y": env.rat("z")})("")
    for k, f in enumerate(fs):
        n, idx = f.split(":")
        op = op * field(env, n, str(k))(idx)
    for e in es:
        op = op * (core.delta(e[2:]) if e[0] == "D" else core.eps(e))
    judge(env, op)
    env.observe("form", [str(t) for t in op.tensors])


def pair(env, cfg):
    a, b = field(env, cfg["a"], "0"), field(env, cfg["b"], "1")
    op = a.fresh_indices() * b.fresh_indices()
    judge(env, op)


def stored(env, cfg):
    """the shipped operators, their charges replaced by arbitrary ones"""
    for n, ops in catalogue().items():
        for k, name in enumerate(ops):
            if k % 8 != cfg["part"]:
                continue
            form = ops[name]
            orig = core.Operator.from_pickle_form(form)
            got = orig.pickle_form()
            env.check(all(core.IndexedField(**d) == core.IndexedField(**e) for d, e in zip(form["fields"], got["fields"]))
                      and len(form["fields"]) == len(got["fields"]), "shipped fields survive")
            env.check(form["epsilons"] == got["epsilons"], "shipped tensors survive")
            ch = {}
            new = {"fields": [], "epsilons": form["epsilons"]}
            for d in form["fields"]:
                key = (d["label"].strip("†"))
                if key not in ch:
                    ch[key] = {"y": env.rat("y_" + str(len(ch))), "3b": env.rat("b_" + str(len(ch)))}
                new["fields"].append({**d, "charges": {c: -v if d["is_conj"] else v for c, v in ch[key].items()}})
            judge(env, core.Operator.from_pickle_form(new))


HARNESSES = {"built": built, "pair": pair, "stored": stored}
