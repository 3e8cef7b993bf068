"""Indices attached to a field match its representation exactly."""
from hlib import *

BOUNDS = {
    "representations": "all with at most 3 (quick) / 4 (thorough) gauge and Lorentz indices",
    "index strings": "0..3 (4) indices of symbolic type (u, d, c, i) and position, and optionally a last generation index",
    "charges": "all rationals",
    "fresh indices": "two or three fields with at most 3 indices, after 0..11 earlier calls",
}
ASSUMPTIONS = ["At most one generation index, given last.", "Indices in one string have distinct labels."]

LETTERS = "udci"
WHICH = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}


def load():
    global core
    core = repo("tensormethod.core")


def configs(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for d in dynkins(n):
        ds = "".join(map(str, d))
        for m in range(n + 1):
            if m == sum(d) or sum(d) <= 1 or m == sum(d) - 1:
                out.append(("call", {"dynkin": ds, "n": m, "gen": (sum(d) + d[0]) % 2}))
    for m in range(0, n + 1):
        out.append(("read", {"n": m}))
    for a in dynkins(2 if tier == "quick" else 3):
        for b in ("10001", "10101", "00010") if tier == "quick" else ("10001", "10101", "00010", "01020", "00112"):
            out.append(("fresh", {"a": "".join(map(str, a)), "b": b}))
    return out


def tokens(env, n):
    out = []
    for k in range(n):
        c = env.char(f"type{k}", LETTERS)
        low = env.truth(env.bool(f"low{k}"))
        out.append((c, low, env.join(["-" if low else "", c, str(k)])))
    return out


def spaced(env, parts):
    out = []
    for k, p in enumerate(parts):
        out += ([" "] if k else []) + [p]
    return env.join(out)


def call(env, cfg):
    ds = cfg["dynkin"]
    u, d, cu, cd, i = map(int, ds)
    f = core.Field("A", ds, charges={"y": env.rat("y"), "3b": env.rat("b")},
                   is_conj=env.bool("conj"), comm=env.int("comm", 0, 1), nf=3)
    toks = tokens(env, cfg["n"])
    parts = [t for _, _, t in toks] + (["g0"] if cfg["gen"] else [])
    text = spaced(env, parts)
    order = "u" * u + "d" * d + "c" * (cu + cd) + "i" * i
    if len(toks) != len(order):
        good = False
    else:
        good = env.all([env.eq(t[0], o) for t, o in zip(toks, order)])
        lows = [(low, o) for (_, low, _), o in zip(toks, order)]
        if any(low and o != "c" for low, o in lows):
            good = False
        if sum(1 for low, o in lows if low) != cd:
            good = False
    try:
        x = f(text)
        ok = True
    except (AssertionError, KeyError, ValueError, IndexError, TypeError):
        ok = False
    env.check(env.iff(ok, good), "accepted exactly when the indices match")
    env.observe("ok", ok)
    env.cover("accepted" if ok else "rejected")
    if ok:
        env.check(x.dynkin == ds, "representation kept")
        env.check(env.eq([env.revive(str(k)) for k in x.indices], [env.str_of(p) for p in parts]), "index order kept")
        env.check(env.eq(x.charges, f.charges), "charges kept")
        env.check(env.eq((x.is_conj, x.comm, x.nf, x.derivs), (f.is_conj, f.comm, f.nf, f.derivs)), "flags kept")
        env.check(env.eq(x.label, f.label_with_dagger), "label kept")
        env.check(env.eq(x.field.label, "A") and x.field == f, "field recovered")
        by = x.indices_by_type
        n = {"Undotted": u, "Dotted": d, "Colour": cu + cd, "Isospin": i, "Generation": cfg["gen"]}
        env.check({k: len(v) for k, v in by.items()} == n, "indices by type")


def read(env, cfg):
    toks = tokens(env, cfg["n"])
    for c, low, _ in toks:
        env.assume(env.any([not low, env.eq(c, "c")]))
    out = core.get_dynkin(spaced(env, [t for _, _, t in toks] + ["g0"]))
    want = []
    for letter, lowered in (("u", 0), ("d", 0), ("c", 0), ("c", 1), ("i", 0)):
        want.append(sum(1 for c, low, _ in toks if bool(low) == bool(lowered)
                        and env.truth(env.eq(c, letter))))
    env.check(env.eq(out, "".join(map(str, want))), "Dynkin digits count the indices")
    env.observe("out", out)


def fresh(env, cfg):
    for _ in range(env.pick("before", [0, 1, 9, 11])):
        for t in "udcig":
            core.Index.fresh(t)
    fs = []
    for k, ds in enumerate((cfg["a"], cfg["b"], cfg["a"])):
        fs.append(core.Field("AB"[k % 2], ds, charges={"y": env.rat(f"y{k}")},
                             is_conj=env.bool("conj") if k == 1 else False, nf=env.pick(f"nf{k}", [1, 3]) if k == 1 else 1))
    seen = []
    for f in fs:
        x = f.fresh_indices()
        env.check(x.dynkin == f.dynkin, "fresh indices match the representation")
        u, d, cu, cd, i = f.dynkin_ints
        types = [k.index_type for k in x.indices]
        want = ["Undotted"] * u + ["Dotted"] * d + ["Colour"] * (cu + cd) + ["Isospin"] * i
        want += ["Generation"] if f.nf == 3 else []
        env.check(types == want, "fresh indices in order")
        env.check([k.is_up for k in x.indices] == [True] * (u + d + cu) + [False] * cd
                  + [True] * (i + (f.nf == 3)), "fresh indices raised and lowered")
        env.check(env.eq(x.charges, f.charges), "charges kept")
        env.check(env.eq(x.is_conj, f.is_conj), "flag kept")
        env.check(x.field == f, "field recovered")
        for k in x.indices:
            env.check(not any(k == s or k == -s for s in seen), "fresh indices are new")
            seen.append(k)
    env.observe("seen", [str(k) for k in seen])


HARNESSES = {"call": call, "read": read, "fresh": fresh}
COVERS = {"call": ["accepted", "rejected"]}
