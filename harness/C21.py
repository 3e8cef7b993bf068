"""Vertices are allowed exactly when their Lorentz structure is."""
import itertools

from hlib import *

BOUNDS = {
    "vertices": "two fields of any kind; three fields: all scalars, all fermions or one scalar and two fermions; four scalars - every order, with and without gauge and generation indices; kinds: scalar, left- and right-handed fermion, and a scalar with a derivative (one undotted and one dotted index)",
    "derivatives": "symbolic: zero to two on a fermion, one to three on a scalar with derivative, any total (more than two are refused)",
    "charges": "all rationals",
}
ASSUMPTIONS = ["Vertices of two scalars and a fermion do not occur in the topologies (their operators would not be renormalisable)."]
BUDGET = {"quick": 120, "thorough": 900}

LOR = {"S": (0, 0), "u": (1, 0), "d": (0, 1), "V": (1, 1)}


def load():
    global core, comp
    core = repo("tensormethod.core")
    comp = repo("completions.completions")


def fermi(k):
    return k in "ud"


def configs(tier):
    out = []
    for n in (2, 3):
        for ks in itertools.product("SudV", repeat=n):
            nf = sum(map(fermi, ks))
            if n == 3 and nf == 1:
                continue
            for g in (0, 1):
                if tier == "quick" and g and n == 3 and "V" in ks:
                    continue
                out.append(("vertex", {"ks": "".join(ks), "gauge": g}))
    out += [("vertex", {"ks": "SSSS", "gauge": g}) for g in (0, 1)]
    # the same field more than once
    out += [("vertex", {"ks": ks, "gauge": 1, "same": 1}) for ks in ("uu", "dd", "ud", "SS", "uuu", "ddd", "uud", "udd", "Suu", "ddS", "SSS", "SSSS", "VV", "VVS")]
    out += [("helpers", {"ks": "".join(k)}) for n in (1, 2, 3, 4) for k in itertools.product("SudV", repeat=n) if n < 4 or tier != "quick"]
    return out


def make(env, k, pos, gauge, derivs, same=0):
    u, d = LOR[k]
    ix = [f"u{pos}"] * u + [f"d{pos}"] * d
    if gauge:
        ix += [f"c{pos}", f"i{pos}"] if pos % 2 else [f"-c{pos}"]
        if fermi(k):
            ix.append(f"g{pos}")
    return core.IndexedField(k.upper() if same else "ABHK"[pos], " ".join(ix), charges={q: env.rat(q + (k if same else str(pos))) for q in ("y", "3b")},
                             derivs=derivs, comm=core.FERMI if fermi(k) else core.BOSE)


def vertex(env, cfg):
    ks = cfg["ks"]
    ders = [0 if k == "S" else env.int(f"n{p}", 1, 3) if k == "V" else env.int(f"n{p}", 0, 2) for p, k in enumerate(ks)]
    fields = [make(env, k, p, cfg["gauge"], ders[p], cfg.get("same", 0)) for p, k in enumerate(ks)]
    total = sum(ders)
    U, D = sum(LOR[k][0] for k in ks), sum(LOR[k][1] for k in ks)
    keep = list(fields)
    refused = False
    try:
        ok, eps = comp.get_lorentz_epsilons(tuple(fields))
    except Exception as e:
        if "Not currently supporting" not in str(e):
            raise
        refused = True
    env.check(env.iff(refused, total > 2), "more than two derivatives are refused, fewer are not")
    if refused:
        return
    nf = sum(map(fermi, ks))
    plain = env.truth(env.eq(total, 0))
    if nf == len(ks) == 3 and plain:
        want = False
    else:
        want = not (U % 2 and D % 2)
    env.check(bool(ok) == want, "a vertex is allowed exactly when its Lorentz structure is")
    env.cover("allowed" if want else "refused")
    if not want:
        env.check(len(eps) == 0, "a refused vertex has no contractions")
        return
    free = {str(i) for f in keep for i in f.indices if i.index_type in ("Undotted", "Dotted")}
    seen = []
    for e in eps:
        a, b = [str(i) for i in e.indices]
        env.check(a[0] == "-" and b[0] == "-", "contractions lower the indices")
        env.check(a[1:] in free and b[1:] in free and a[1] == b[1] and a != b, "contractions pair indices of one type")
        seen += [a, b]
    env.check(len(set(seen)) == len(seen), "no index is contracted twice")
    env.check(len(eps) == U // 2 + D // 2, "all that can be is contracted")
    env.check(U + D - 2 * len(eps) <= 1, "at most one spinor index is left")
    env.observe("eps", sorted(str(sorted(map(str, e.indices))) for e in eps))


def helpers(env, cfg):
    ks = cfg["ks"]
    fields = [make(env, k, p, 1, LOR[k][0] * LOR[k][1]) for p, k in enumerate(ks)]
    nf = sum(map(fermi, ks))
    env.check(bool(comp.all_scalars(fields)) == (nf == 0), "all scalars")
    env.check(bool(comp.all_fermions(fields)) == (nf == len(ks)), "all fermions")
    if nf == len(ks) - 1:
        out = comp.drop_scalar(fields)
        env.check(len(out) == nf and all(a is b for a, b in zip(out, [f for f, k in zip(fields, ks) if fermi(k)])),
                  "only the scalar is dropped")


HARNESSES = {"vertex": vertex, "helpers": helpers}
COVERS = {"vertex": ["allowed", "refused"]}
