"""Exported completions reload to the same completion."""
import contextlib

from comps import *
from dbs import load_dbs

BOUNDS = {
    "exotics": "scalars and fermions with up to three colour and three isospin indices (quick: ten representations); hypercharge and baryon number any rationals, both conjugation flags, both halves of a Dirac fermion, plain and Greek labels, LaTeX names with and without backslash; conjugates, partners and lowered fields of all these",
    "SM fields": "all six fields, conjugated and with one derivative of every kind, any index names of a list; epsilon and delta tensors",
    "completions": "completions of the listed operators (quick: six partitions; thorough: every fourth) at symbolic charges (L, Q, H and the singlets carry any rational charges that add up to zero)",
}
ASSUMPTIONS = ["Text is evaluated in the namespace of neutrinomass.database.database, with the SM fields replaced by ones with symbolic charges for whole completions.",
               "Exported exotics have at most the charges y and 3b and carry the index symmetry that cons_completion_field gives (a bare dirac_partner() keeps another one, which no text records)."]
BUDGET = {"quick": 250, "thorough": 800}

SM = ("L", "Q", "H", "eb", "ub", "db")


def load():
    global M
    M = {**load_comps(), **load_dbs()}
    import importlib

    M["export"] = importlib.import_module("neutrinomass.database.export")
    M["sm"] = repo("tensormethod.sm")


def configs(tier):
    reps = [(l, a, b, i) for l in ("00", "10", "01") for a in range(4) for b in range(4 - a) for i in range(4)]
    if tier == "quick":
        reps = [("00", 0, 0, 0), ("00", 1, 0, 1), ("00", 1, 1, 0), ("00", 0, 2, 2), ("10", 0, 0, 1), ("10", 0, 1, 0), ("10", 1, 1, 2), ("01", 1, 0, 1), ("01", 0, 0, 0), ("01", 2, 0, 0)]
    out = [("exotic", {"dyn": l + f"{a}{b}{i}", "tier": tier}) for l, a, b, i in reps]
    out += [("smfield", {"f": f}) for f in SM] + [("invariants", {})]
    out += [("operator", {"op": o}) for o in ("LLHH", "2", "3a", "4b", "8", "D2a", "D3")]
    if tier == "quick":
        return out + [("completion", {"op": o, "k": k, "of": 1000}) for o, k in (("LLHH", 1), ("2", 24), ("3a", 8), ("4b", 36), ("D3", 28))]
    for o in ("2", "3a", "4b", "8", "D3"):
        out += [("completion", {"op": o, "k": k, "of": 1000}) for k in list(range(0, 48, 4)) + [42]]
    out += [("completion", {"op": o, "k": k, "of": 1000}) for o in ("LLHH", "LLHH'", "D2a") for k in range(8)]
    return out


@contextlib.contextmanager
def names(fields):
    """the SM fields as the database module sees them"""
    db, old = M["db"], {}
    for k, f in fields.items():
        old[k] = vars(db).get(k)
        setattr(db, k, f)
    try:
        yield
    finally:
        for k, f in old.items():
            if f is None:
                delattr(db, k)
            else:
                setattr(db, k, f)


def reload(text):
    """the text evaluated by the database module, as LazyCompletion.force does"""
    return M["db"].LazyCompletion(head={"quantum_numbers": [], "operator_name": ""}, tail=text).force()


def same_tensor(env, a, b, what):
    env.check(type(a) is type(b), what + ": class")
    env.check([str(i) for i in a.indices] == [str(i) for i in b.indices], what + ": indices")
    if not hasattr(b, "label"):
        env.check(str(a).split("(")[0] == str(b).split("(")[0], what + ": kind of invariant tensor")
        return
    env.check(a.label == b.label, what + ": label")
    env.check(a.dynkin == b.dynkin and a.is_conj == b.is_conj and a.comm == b.comm and a.nf == b.nf and a.derivs == b.derivs, what + ": flags")
    env.check(a.latex == b.latex, what + ": LaTeX name")
    env.check(getattr(a, "is_unbarred", None) == getattr(b, "is_unbarred", None), what + ": half of a Dirac fermion")
    env.check(set(a.charges) == set(b.charges), what + ": charge names")
    env.check(env.all([env.eq(a.charges[k], b.charges[k]) for k in b.charges]), what + ": charges")
    env.check(a == b, what + ": equality")


def same_operator(env, a, b, what):
    env.check(len(a.tensors) == len(b.tensors), what + ": number of tensors")
    for x, y in zip(a.tensors, b.tensors):
        same_tensor(env, x, y, what)


def index_string(dyn, tag=""):
    u, d, cu, cd, i = map(int, dyn)
    out = [f"u{k}{tag}" for k in range(u)] + [f"d{k}{tag}" for k in range(d)]
    out += [f"c{k}{tag}" for k in range(cu)] + [f"-c{9 - k}{tag}" for k in range(cd)] + [f"i{k}{tag}" for k in range(i)]
    return " ".join(out)


def exotic(env, cfg):
    core, cc = M["core"], M["ccore"]
    dyn = cfg["dyn"]
    fermion = dyn[:2] != "00"
    ch = {"y": env.rat("y"), "3b": env.rat("b")}
    conj = env.pick("conj", [False, True])
    label = env.pick("label", ["θ", "f1"]) if fermion else env.pick("label", ["η", "S10"])
    latex = env.pick("latex", [None, r"\tilde{\xi}"])
    f = core.IndexedField(label + ("†" if conj else ""), index_string(dyn, env.pick("tag", ["", "_"] if cfg["tier"] != "quick" else ["_"])), charges=dict(ch), is_conj=conj,
                          comm=core.FERMI if fermion else core.BOSE, latex=latex)
    e = cc.cons_completion_field(f, is_unbarred=env.pick("unb", [True, False]) if fermion else None)
    how = env.pick("how", ["plain", "conj", "partner", "lower"])
    if how == "conj":
        e = e.conj
    elif how == "partner":
        if not isinstance(e, cc.VectorLikeDiracFermion):
            return
        e = e.dirac_partner().lower_su2()[0]
    elif how == "lower":
        e = e.lower_su2()[0]
    text = M["export"].export_tensor(e)
    same_tensor(env, reload(text), e, "exotic")
    got = M["export"].export_exotics({e})
    new = reload(got)
    env.check(isinstance(new, set) and len(new) == 1, "a set of exotics reloads as a set")
    same_tensor(env, list(new)[0], e, "exotic in a set")
    env.check(reload(M["export"].export_exotics(set())) == set(), "no exotics reload as no exotics")
    env.cover(type(e).__name__)


def smfield(env, cfg):
    core = M["core"]
    f = getattr(M["sm"], cfg["f"])
    f = f.conj if env.pick("conj", [False, True]) else f
    kinds = [""]
    a, b = int(f.dynkin[0]), int(f.dynkin[1])
    for da in (-1, 1):
        for db in (-1, 1):
            if a + da >= 0 and b + db >= 0:
                kinds.append(f"{a + da}{b + db}")
    k = env.pick("deriv", kinds)
    x = core.D(f, k) if k else f
    tag = env.pick("tag", ["", "_", "^"])
    n = list(map(int, x.dynkin))
    ix = index_string(x.dynkin, tag)
    if f.nf > 1 and env.pick("gen", [True, False]):
        ix += " g0" + tag
    x = x(ix)
    text = M["export"].export_tensor(x)
    new = reload(text)
    same_tensor(env, new, x, "SM field")
    env.check((new.stripped is None) == (x.stripped is None), "SM field: what is under the derivative")
    env.cover("derivative" if k else "none")


def invariants(env, cfg):
    core = M["core"]
    t = env.pick("text", ["-i0 -i1", "-u3_ -u4", "-d0^ -d1^", "c0 c1 c2", "-c0 -c1 -c2_"])
    x = core.eps(t)
    same_tensor(env, reload(M["export"].export_tensor(x)), x, "epsilon")
    t = env.pick("delta", ["c0 -c1", "c0_ -c1", "c4^ -c5_^"])
    x = core.delta(t)
    same_tensor(env, reload(M["export"].export_tensor(x)), x, "delta")
    try:
        M["export"].export_tensor(core.Index("i0"))
        env.check(False, "what is no tensor is refused")
    except (ValueError, AttributeError, TypeError):
        pass


def bases(env, name, ch):
    """the plain fields of an operator, by label"""
    core, out = M["core"], {}
    for t in OPS[name][0]:
        lab = t.split()[0]
        lab = lab[:-2] if lab.endswith(".c") else lab
        lab = lab[1:] if lab[0] == "D" else lab
        dyn, st = DYN[lab]
        out[lab] = core.Field(lab, dyn, charges=dict(ch[lab]), comm=core.FERMI if st == "f" else core.BOSE, nf=3 if st == "f" else 1)
    return out


def operator(env, cfg):
    eff, ch = sym_operator(env, M, cfg["op"])
    with names(bases(env, cfg["op"], ch)):
        new = reload(M["export"].export_operator(eff.operator))
        same_operator(env, new, eff.operator, "operator")
        terms = reload(M["export"].export_terms([eff.operator, eff.operator]))
        env.check(isinstance(terms, list) and len(terms) == 2, "terms reload as a list")
        for t in terms:
            same_operator(env, t, eff.operator, "term")


def completion(env, cfg):
    cc, db = M["ccore"], M["db"]
    eff, ch = sym_operator(env, M, cfg["op"])
    import networkx as nx

    with names(bases(env, cfg["op"], ch)):
        for p in my_parts(M, eff, cfg):
            c = M["comp"].partition_completion(p)
            if not isinstance(c, cc.Completion):
                env.cover("failed")
                continue
            env.cover("completed")
            full = reload(M["export"].export_completion(c, lazy=False))
            lazy = reload(M["export"].export_completion(c))
            env.check(isinstance(lazy, db.LazyCompletion), "the lazy form is a stored completion")
            for new, what in ((full, "full"), (lazy.force(), "lazy")):
                env.check(type(new) is cc.Completion, what + " form reloads as a completion")
                env.check(new.operator.name == c.operator.name and new.topology == c.topology, what + " form: operator name and topology")
                same_operator(env, new.operator.operator, c.operator.operator, what + " form: operator")
                env.check(new.partition == c.partition, what + " form: partition")
                env.check(show(new.partition) == show(c.partition), what + " form: leaves of the partition")
                env.check(nx.to_dict_of_dicts(new.graph) == nx.to_dict_of_dicts(c.graph), what + " form: graph")
                env.check(len(new.terms) == len(c.terms), what + " form: number of terms")
                for x, y in zip(new.terms, c.terms):
                    same_operator(env, x, y, what + " form: term")
                env.check(isinstance(new.exotics, set) and len(new.exotics) == len(c.exotics), what + " form: number of exotics")
                key = lambda e: (e.label, str(e.indices))
                for x, y in zip(sorted(new.exotics, key=key), sorted(c.exotics, key=key)):
                    same_tensor(env, x, y, what + " form: exotic")
            head(env, c, lazy.head)


def head(env, c, h):
    env.check(h["operator_name"] == c.operator.name and h["topology"] == c.topology, "header: operator name and topology")
    # one text per exotic, its hypercharge not negative
    want = []
    for e in c.exotics:
        neg = env.truth(e.y < 0)
        d = e.dynkin
        col = d[2:4][::-1] if neg else d[2:4]
        y, b = (-e.charges["y"], -e.charges["3b"]) if neg else (e.charges["y"], e.charges["3b"])
        want.append(env.join([f"{'S' if d[:2] == '00' else 'F'},{col},{d[4]},", env.str_of(y), ",", env.str_of(b)]))
    multiset(env, list(h["quantum_numbers"]), want, "header: one normalised text per exotic")
    env.check(len(h["terms"]) == len(c.terms), "header: one entry per term")
    for t, term in zip(h["terms"], c.terms):
        want = []
        for f in term.fields:
            if f.label.rstrip("†") in SM:
                want.append(f.label.rstrip("†") + (".conj" if f.is_conj else ""))
            else:
                d = f.dynkin
                want.append(env.join([f"{'S' if d[:2] == '00' else 'F'},{d[2:4]},{d[4]},", env.str_of(f.charges["y"]), ",", env.str_of(f.charges["3b"])]))
        multiset(env, list(t), want, "header: the fields of a term")


def multiset(env, got, want, what):
    env.check(len(got) == len(want), what)
    left = list(got)
    for w in want:
        i = next((i for i, g in enumerate(left) if env.truth(env.eq(g, w))), None)
        env.check(i is not None, what)
        if i is not None:
            left.pop(i)


HARNESSES = {"exotic": exotic, "smfield": smfield, "invariants": invariants, "operator": operator, "completion": completion}
COVERS = {"exotic": ["ComplexScalar", "VectorLikeDiracFermion"], "smfield": ["derivative", "none"], "completion": ["completed"]}
