"""The JSON export of a completion records everything."""
from comps import *

BOUNDS = {
    "exotics": "scalars and fermions with up to two colour and two isospin indices, any rational charges, both conjugation flags, both halves of a Dirac fermion, conjugates, partners and lowered fields",
    "SM fields": "all six fields, conjugated and with one derivative of every kind; epsilon and delta tensors",
    "completions": "completions of the listed operators (quick: three partitions; thorough: every sixth) at symbolic charges",
}
ASSUMPTIONS = ["An exotic in a graph is recorded by its label, as in the graph itself."]
BUDGET = {"quick": 200, "thorough": 800}

SM = ("L", "Q", "H", "eb", "ub", "db")
TYPES = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}


def load():
    global M
    M = load_comps()
    M["js"] = repo("database.json_serialiser")
    M["sm"] = repo("tensormethod.sm")


def configs(tier):
    reps = [l + f"{a}{b}{i}" for l in ("00", "10", "01") for a in range(3) for b in range(3 - a) for i in range(3)]
    if tier == "quick":
        reps = ["00000", "00101", "00110", "00020", "00002", "10001", "10010", "10110", "01101", "01000", "10002"]
    out = [("exotic", {"dyn": r}) for r in reps]
    out += [("smfield", {"f": f}) for f in SM] + [("invariant", {})]
    out += [("operator", {"op": o}) for o in ("LLHH", "2", "3a", "4b", "8", "D2a", "D3")]
    if tier == "quick":
        return out + [("completion", {"op": o, "k": k, "of": 1000}) for o, k in (("LLHH", 1), ("3a", 8), ("D3", 28))]
    for o in ("2", "3a", "4b", "8", "D3"):
        out += [("completion", {"op": o, "k": k, "of": 1000}) for k in range(0, 48, 6)]
    return out + [("completion", {"op": o, "k": k, "of": 1000}) for o in ("LLHH", "D2a") for k in range(0, 8, 2)]


def get(d, k):
    """names are compared apart from case"""
    hits = [v for q, v in d.items() if q.lower() == k.lower()]
    return hits[0] if len(hits) == 1 else ("missing", k)


def plain(env, x, text=True):
    """only what JSON can hold"""
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(env, v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(env, v) for v in x)
    return x is None or isinstance(x, (str, int, float, bool)) or type(x).__module__.startswith("symx")


def by_type(f):
    out = {v: [] for v in TYPES.values()}
    for i in f.indices:
        s = str(i)
        out[TYPES[s.lstrip("-")[0].lower()]].append(s)
    return out


def tensor(env, d, t, what):
    """d is the record of the tensor t"""
    cc = M["ccore"]
    if not hasattr(t, "label"):
        kind = "Delta" if str(t).startswith("KD") else "Eps"
        env.check(get(d, "Field") is False and get(d, "label") == kind, what + ": kind of invariant tensor")
        env.check(list(get(d, "Indices")) == [str(i) for i in t.indices], what + ": indices of the invariant tensor")
        return
    ex = isinstance(t, cc.FieldType)
    env.check(get(d, "Field") is True and get(d, "Exotic") is ex and get(d, "Deriv") is bool(t.derivs), what + ": what kind of field")
    env.check(get(d, "IsConj") is bool(t.is_conj), what + ": conjugation")
    env.check({k: list(v) for k, v in get(d, "Indices").items()} == by_type(t), what + ": indices by type")
    if not ex:
        lab = t.label.replace("†", "")
        lab = lab[1:] if t.derivs else lab
        env.check(get(d, "Label").replace("†", "") == lab, what + ": label of the bare field")
        if t.derivs:
            env.check(get(d, "DerivDynkin") == t.dynkin[:2], what + ": Lorentz labels of the differentiated field")
        return
    env.check(get(d, "Label") == t.label and get(d, "Latex") == t.latex and get(d, "Nf") == t.nf and get(d, "Comm") == t.comm, what + ": label and flags")
    env.check(list(get(d, "LorentzDynkin")) == [int(x) for x in t.dynkin[:2]], what + ": Lorentz labels")
    env.check(list(get(d, "ColourDynkin")) == [int(x) for x in t.dynkin[2:4]], what + ": colour labels")
    env.check(get(d, "IsospinDynkin") == int(t.dynkin[4]), what + ": isospin label")
    env.check(get(d, "Symmetry") == t.symmetry, what + ": symmetry")
    ch = get(d, "Charges")
    env.check(set(ch) == set(t.charges), what + ": names of the charges")
    for k, v in t.charges.items():
        env.check(env.eq(ch[k], env.str_of(v)), what + ": charges")
    want = t.is_unbarred if isinstance(t, cc.VectorLikeDiracFermion) else None
    env.check(get(d, "IsUnbarred") is want, what + ": half of a Dirac fermion")


def exotic(env, cfg):
    core, cc = M["core"], M["ccore"]
    dyn = cfg["dyn"]
    fermion = dyn[:2] != "00"
    u, v, p, q, i = map(int, dyn)
    ix = [f"u{k}" for k in range(u)] + [f"d{k}" for k in range(v)] + [f"c{k}" for k in range(p)] + [f"-c{8 - k}" for k in range(q)] + [f"i{k}" for k in range(i)]
    conj = env.pick("conj", [False, True])
    f = core.IndexedField(("θ" if fermion else "η") + ("†" if conj else ""), " ".join(ix), charges={"y": env.rat("y"), "3b": env.rat("b")}, is_conj=conj,
                          comm=core.FERMI if fermion else core.BOSE, latex=env.pick("latex", [None, r"\tilde{\xi}"]))
    e = cc.cons_completion_field(f, is_unbarred=env.pick("unb", [True, False]) if fermion else None)
    how = env.pick("how", ["plain", "conj", "partner", "lower"])
    if how == "conj":
        e = e.conj
    elif how == "partner":
        if not isinstance(e, cc.VectorLikeDiracFermion):
            return
        e = e.dirac_partner()
    elif how == "lower":
        e = e.lower_su2()[0]
    d = M["js"].export_tensor(e)
    env.check(plain(env, d), "the record can be written as JSON")
    tensor(env, d, e, "exotic")
    l = M["js"].export_exotics({e})
    env.check(len(l) == 1, "one record for each exotic")
    tensor(env, l[0], e, "exotic in a set")
    env.check(list(M["js"].export_exotics(set())) == [], "no records for no exotics")
    env.cover(type(e).__name__)


def smfield(env, cfg):
    core = M["core"]
    f = getattr(M["sm"], cfg["f"])
    f = f.conj if env.pick("conj", [False, True]) else f
    a, b = int(f.dynkin[0]), int(f.dynkin[1])
    kinds = [""] + [f"{a + da}{b + db}" for da in (-1, 1) for db in (-1, 1) if a + da >= 0 and b + db >= 0]
    k = env.pick("deriv", kinds)
    x = core.D(f, k) if k else f
    u, v, p, q, i = map(int, x.dynkin)
    ix = [f"u{k}" for k in range(u)] + [f"d{k}" for k in range(v)] + [f"c{k}" for k in range(p)] + [f"-c{8 - k}" for k in range(q)] + [f"i{k}" for k in range(i)]
    if f.nf > 1 and env.pick("gen", [True, False]):
        ix.append("g4")
    x = x(" ".join(ix))
    d = M["js"].export_tensor(x)
    env.check(plain(env, d), "the record can be written as JSON")
    tensor(env, d, x, "SM field")
    env.cover("derivative" if k else "none")


def invariant(env, cfg):
    core = M["core"]
    x = core.eps(env.pick("text", ["-i0 -i1", "-u3_ -u4", "-d0^ -d1^", "c0 c1 c2", "-c0 -c1 -c2_"]))
    tensor(env, M["js"].export_tensor(x), x, "epsilon")
    x = core.delta(env.pick("delta", ["c0 -c1", "c0_ -c1", "c4^ -c5_^"]))
    tensor(env, M["js"].export_tensor(x), x, "delta")


def op_record(env, rec, op, what):
    env.check(len(rec) == len(op.tensors), what + ": one record per tensor")
    for d, t in zip(rec, op.tensors):
        tensor(env, d, t, what)


def operator(env, cfg):
    eff, ch = sym_operator(env, M, cfg["op"])
    d = M["js"].export_eff_operator(eff)
    env.check(get(d, "Name") == eff.name, "the operator's name")
    op_record(env, get(d, "Operator"), eff.operator, "operator")
    l = M["js"].export_terms([eff.operator] * 2)
    env.check(len(l) == 2, "a record for each term")
    for r in l:
        op_record(env, r, eff.operator, "term")


def leaves(env, rec, part):
    if hasattr(part, "field"):
        env.check(get(rec, "Node") == part.node and get(rec, "Field") == str(part.field), "a leaf records its field and node")
        return
    env.check(isinstance(rec, (list, tuple)) and len(rec) == len(part), "the partition's shape")
    for r, p in zip(rec, part):
        leaves(env, r, p)


def completion(env, cfg):
    cc, js = M["ccore"], M["js"]
    eff, ch = sym_operator(env, M, cfg["op"])
    for p in my_parts(M, eff, cfg):
        c = M["comp"].partition_completion(p)
        if not isinstance(c, cc.Completion):
            env.cover("failed")
            continue
        env.cover("completed")
        d = js.export_completion(c)
        env.check(plain(env, d), "the record can be written as JSON")
        op = get(d, "EffectiveOperator")
        env.check(get(op, "Name") == c.operator.name, "operator name")
        op_record(env, get(op, "Operator"), c.operator.operator, "operator")
        leaves(env, get(d, "Partition"), c.partition)
        terms = get(d, "Terms")
        env.check(len(terms) == len(c.terms), "a record for each term")
        for r, t in zip(terms, c.terms):
            op_record(env, r, t, "term")
        ex = list(get(d, "Exotics"))
        env.check(len(ex) == len(c.exotics), "a record for each exotic")
        for e in c.exotics:
            hit = [r for r in ex if get(r, "Label") == e.label and get(r, "Indices") == by_type(e)]
            env.check(len(hit) == 1, "each exotic is recorded")
            if hit:
                tensor(env, hit[0], e, "exotic")
        g = get(d, "Graph")
        env.check(sorted(n["id"] for n in g["nodes"]) == sorted(c.graph.nodes), "the nodes of the graph")
        links = g["links"] if "links" in g else g["edges"]
        rec = sorted(tuple(sorted((l["source"], l["target"]))) + (l["particle"],) for l in links)
        env.check(rec == sorted(tuple(sorted((a, b))) + (x["particle"],) for a, b, x in c.graph.edges.data()), "the edges of the graph and the fields on them")
        same = js.export_completion(c)
        env.check([get(r, "Label") for t in get(same, "Terms") for r in t if get(r, "Field")] == [get(r, "Label") for t in terms for r in t if get(r, "Field")], "exporting changes nothing")


HARNESSES = {"exotic": exotic, "smfield": smfield, "invariant": invariant, "operator": operator, "completion": completion}
COVERS = {"exotic": ["ComplexScalar", "VectorLikeDiracFermion"], "smfield": ["derivative", "none"], "completion": ["completed"]}
