"""Exotic field classes, partners, lowering of SU(2) indices and mass terms."""
from hlib import *

BOUNDS = {
    "representations": "scalars and left- or right-handed fermions with up to two colour indices and up to two isospin indices (thorough: three and three); spins above one half and vectors for rejection",
    "charges": "hypercharge, baryon number and one extra charge: all rationals",
    "other": "conjugation flag, both halves of a Dirac fermion, three kinds of labels, LaTeX names",
}
ASSUMPTIONS = ["Exotics in real representations with zero hypercharge are real fields and carry no other charge."]
BUDGET = {"quick": 200, "thorough": 600}


def load():
    global core, cc, lag
    core, cc = repo("tensormethod.core"), repo("completions.core")


def configs(tier):
    n, k = (2, 2) if tier == "quick" else (3, 3)
    reps = [(l, a, b, i) for l in ("00", "10", "01") for a in range(n + 1) for b in range(n + 1 - a) for i in range(k + 1)]
    out = [("build", {"dyn": l + f"{a}{b}{i}"}) for l, a, b, i in reps]
    out += [("reject", {"dyn": d}) for d in ("11000", "20001", "02000", "11110", "21000", "12001")]
    out += [("partner", {"dyn": l + f"{a}{b}{i}"}) for l, a, b, i in reps]
    out += [("lower", {"dyn": l + f"{a}{b}{i}"}) for l, a, b, i in reps if i or l != "00"]
    out += [("mass", {"dyn": l + f"{a}{b}{i}"}) for l, a, b, i in reps if a + b <= 2 and i <= 2]
    return out


def field(env, dyn, charges, conj):
    """a stand-alone indexed field as they come out of the contraction code"""
    comm = core.FERMI if int(dyn[0]) + int(dyn[1]) else core.BOSE
    label = env.pick("label", ["φ", "S1", "ψ~"]) if comm == core.FERMI else env.pick("label", ["φ", "S1"])
    return core.IndexedField(label + ("†" if conj else ""), index_string(dyn), charges=dict(charges), is_conj=conj,
                             comm=comm, latex=env.pick("latex", [r"\phi", "F"]))


def charges_of(env, extra=True):
    c = {"y": env.rat("y"), "3b": env.rat("b")}
    if extra:
        c["z"] = env.rat("z")
    return c


def self_conj(dyn):
    return dyn[2] == dyn[3] and int(dyn[4]) % 2 == 0


def same(env, a, b, what, charges=True, label=True):
    if label:
        env.check(a.label == b.label, what + ": label")
    env.check([str(i) for i in a.indices] == [str(i) for i in b.indices], what + ": indices")
    env.check(a.dynkin == b.dynkin, what + ": representation")
    env.check(a.is_conj == b.is_conj, what + ": conjugation flag")
    env.check(a.latex == b.latex, what + ": LaTeX name")
    env.check(a.comm == b.comm, what + ": statistics")
    if charges:
        env.check(set(a.charges) == set(b.charges), what + ": charge names")
        for k in b.charges:
            env.check(env.eq(a.charges[k], b.charges[k]), what + ": charges")


def build(env, cfg):
    dyn = cfg["dyn"]
    fermion = dyn[:2] != "00"
    ch = charges_of(env)
    conj = env.pick("conj", [False, True])
    unb = env.pick("unb", [None, True, False]) if fermion else None
    f = field(env, dyn, ch, conj)
    e = cc.cons_completion_field(f, is_unbarred=unb)
    same(env, e, f, "built exotic")
    real = env.truth(env.eq(ch["y"], 0)) and self_conj(dyn)
    cls = {(True, True): cc.MajoranaFermion, (True, False): cc.VectorLikeDiracFermion,
           (False, True): cc.RealScalar, (False, False): cc.ComplexScalar}[(fermion, real)]
    env.check(type(e) is cls, "the class is real exactly for real representations")
    env.cover(cls.__name__)
    if cls is cc.VectorLikeDiracFermion:
        env.check(e.is_unbarred == (unb is not False), "the half of the Dirac fermion is kept")
    env.check(bool(e.is_real_sm_irrep) == real, "real representation")
    env.check(e.is_fermion == fermion and e.is_scalar == (not fermion), "spin")
    # conjugation keeps the class; twice gives the field back
    c = e.conj
    env.check(type(c) is cls, "conjugate has the same class")
    for k in ch:
        env.check(env.eq(c.charges[k], -ch[k]), "conjugate has opposite charges")
    env.check(c.latex == e.latex and c.is_conj == (not conj), "conjugate keeps the LaTeX name")
    env.check(("†" in c.label) == (not conj), "dagger")
    same(env, c.conj, e, "conjugate of the conjugate")
    if cls is cc.VectorLikeDiracFermion:
        env.check(c.is_unbarred == e.is_unbarred, "conjugation keeps the half")
        ci = e.conj_indices
        for k in ch:
            env.check(env.eq(ci.charges[k], ch[k]), "conjugating indices leaves charges alone")
        env.check([str(i) for i in ci.indices] == [str(i) for i in c.indices] and ci.latex == e.latex and ci.is_unbarred == e.is_unbarred,
                  "conjugating indices conjugates the indices")
    # copies
    import copy
    d = copy.deepcopy(e)
    env.check(type(d) is cls and getattr(d, "is_unbarred", None) == getattr(e, "is_unbarred", None), "a copy has the same class and half")
    same(env, d, e, "copy")
    env.check(d == e, "a copy is equal")
    # the bare indexed field
    b = e.indexed_field
    env.check(b.label == e.label and [str(i) for i in b.indices] == [str(i) for i in f.indices], "bare field keeps label and indices")
    # direct construction of the wrong class is refused
    args = (e.label, " ".join(str(i) for i in e.indices))
    for k in (cc.MajoranaFermion, cc.RealScalar):
        try:
            k(*args, charges=dict(ch))
            ok = True
        except AssertionError:
            ok = False
        want = env.truth(env.eq(ch["y"], 0)) and dyn[2] == dyn[3] and fermion == (k is cc.MajoranaFermion)
        env.check(ok == want, "real field classes refuse complex representations and the wrong spin")


def reject(env, cfg):
    """fields that are neither scalars nor of spin one half are no exotics"""
    dyn = cfg["dyn"]
    f = core.IndexedField("V", index_string(dyn), charges=charges_of(env), comm=core.BOSE)
    try:
        cc.cons_completion_field(f)
        env.check(f.is_fermion or f.is_scalar, "higher spins are refused")
    except AssertionError:
        env.check(False, "refused by an assertion")
    except Exception as e:
        env.check("Unrecognised" in str(e), "higher spins are refused with a message")
        env.cover("refused")


def exotic(env, dyn, cls=None, extra=True):
    ch = charges_of(env, extra)
    f = field(env, dyn, ch, env.pick("conj", [False, True]))
    unb = env.pick("unb", [True, False]) if dyn[:2] != "00" else None
    e = cc.cons_completion_field(f, is_unbarred=unb)
    if isinstance(e, (cc.RealScalar, cc.MajoranaFermion)):
        for k in ch:
            env.assume(env.eq(ch[k], 0))
    return e, ch


def flip_colour(f):
    out = []
    for i in f.indices:
        s = str(i)
        if s.lstrip("-")[0] == "c":
            s = s[1:] if s[0] == "-" else "-" + s
        out.append(s)
    return out


def partner(env, cfg):
    e, ch = exotic(env, cfg["dyn"], extra=False)
    env.cover(type(e).__name__)
    if isinstance(e, cc.VectorLikeDiracFermion):
        p = e.dirac_partner()
        env.check(type(p) is cc.VectorLikeDiracFermion, "partner of a Dirac fermion is one")
        env.check(p.is_unbarred == (not e.is_unbarred), "partner is the other half")
        core_label = lambda x: x.label.replace("†", "").replace("~", "")
        if ("~" in e.label) == (not e.is_unbarred):
            env.check(core_label(p) == core_label(e), "partners share the label")
            env.check(("~" in p.label) == e.is_unbarred, "the barred half is marked")
            env.check(p.dirac_partner().label == e.label, "partner of the partner: label")
            env.check(p.conj.label == e.conj.dirac_partner().label, "partner and conjugate labels commute")
        for k in ch:
            env.check(env.eq(p.charges[k], -ch[k]), "partner has opposite charges")
        same(env, p.conj.conj, p, "partner")
        q, r = e.conj.dirac_partner(), p.conj
        same(env, q, r, "partner of the conjugate", label=False)
    elif isinstance(e, cc.MajoranaFermion):
        p = e.majorana_partner()
        env.check(type(p) is cc.MajoranaFermion and p.label == e.label, "partner of a Majorana fermion is itself")
        for k in p.charges:
            env.check(env.eq(p.charges[k], 0), "a Majorana fermion is neutral")
    elif isinstance(e, cc.RealScalar):
        p = e.swap_colour_indices()
        env.check(type(p) is cc.RealScalar and p.label == e.label, "colour swap keeps the real scalar")
        for k in p.charges:
            env.check(env.eq(p.charges[k], 0), "a real scalar is neutral")
    else:
        return
    env.check(sorted(str(i) for i in p.indices) == sorted(flip_colour(e)), "partner has conjugate colour and the same spin and isospin")
    env.check(p.latex == e.latex and p.is_conj == e.is_conj and p.comm == e.comm, "partner keeps name, flag and statistics")
    back = {cc.VectorLikeDiracFermion: "dirac_partner", cc.MajoranaFermion: "majorana_partner", cc.RealScalar: "swap_colour_indices"}[type(e)]
    b = getattr(p, back)()
    same(env, b, e, "partner of the partner", label=False)
    if isinstance(e, cc.VectorLikeDiracFermion):
        env.check(b.is_unbarred == e.is_unbarred, "partner of the partner is the same half")


def lower(env, cfg):
    """lowering: each SU(2) index once, by an epsilon of its own"""
    e, ch = exotic(env, cfg["dyn"], extra=False)
    skip = env.pick("skip", [[], ["Isospin"], ["Undotted", "Dotted"], ["Isospin", "Undotted", "Dotted"]])
    low, eps = e.lower_su2(skip=skip)
    env.check(type(low) is type(e), "lowering keeps the class")
    env.check(getattr(low, "is_unbarred", None) == getattr(e, "is_unbarred", None), "lowering keeps the half")
    env.check(low.label == e.label and low.is_conj == e.is_conj and low.latex == e.latex, "lowering keeps label and flag")
    for k in ch:
        env.check(env.eq(low.charges[k], e.charges[k]), "lowering keeps charges")
    want, seen = [], []
    for i in e.indices:
        if i.index_type in ("Undotted", "Dotted", "Isospin") and i.index_type not in skip:
            want.append(str(i) + "^")
            seen.append({str(i), str(i) + "^"})
        else:
            want.append(str(i))
    env.check([str(i) for i in low.indices] == want, "each lowered index is renamed and others are left")
    got = [{str(i)[1:] for i in x.indices} for x in eps]
    env.check(all(not i.is_up for x in eps for i in x.indices), "the epsilons contract raised indices")
    key = lambda s: sorted(s)
    env.check(sorted(map(key, got)) == sorted(map(key, seen)), "one epsilon per lowered index")
    env.cover("lowered" if eps else "nothing lowered")


def mass(env, cfg):
    e, ch = exotic(env, cfg["dyn"], extra=False)
    t = e.mass_term
    tens = list(t.tensors)
    fields = [x for x in tens if isinstance(x, core.IndexedField)]
    env.check(len(fields) == 2, "a mass term holds two fields")
    for k in ch:
        env.check(env.eq(env.sum([f.charges.get(k, 0) for f in fields]), 0), "a mass term is neutral")
    env.check(len(list(t.free_indices)) == 0, "a mass term is a singlet")
    if isinstance(e, cc.VectorLikeDiracFermion):
        other = e.dirac_partner().label
    elif isinstance(e, cc.ComplexScalar):
        other = e.conj.label
    else:
        other = e.label
    env.check(sorted(f.label for f in fields) == sorted([e.label, other]), "a mass term joins a field and its partner")
    kind = lambda f: sorted(i.index_type for i in f.indices)
    env.check(kind(fields[0]) == kind(fields[1]), "both fields have the same indices")
    count = {}
    for x in tens:
        for i in x.indices:
            count.setdefault(str(i).lstrip("-"), []).append(bool(i.is_up))
    env.check(all(sorted(v) == [False, True] for v in count.values()), "every index is contracted once")
    env.check(all(not isinstance(x, core.IndexedField) and len(x.indices) == 2 for x in tens if x not in fields), "indices are contracted by epsilons")
    env.cover(type(e).__name__)


HARNESSES = {"build": build, "reject": reject, "partner": partner, "lower": lower, "mass": mass}
CL = ["ComplexScalar", "RealScalar", "MajoranaFermion", "VectorLikeDiracFermion"]
COVERS = {"build": CL, "reject": ["refused"], "partner": CL, "lower": ["lowered", "nothing lowered"], "mass": CL}
