"""The summary of an exotic does not depend on its conjugation."""
import itertools

from hlib import *

BOUNDS = {
    "fields": "scalars and fermions (left- and right-handed, plain and conjugated) with up to three colour and three isospin labels (quick: two and two), every rational hypercharge and baryon number, optionally a third charge; completions of one to three exotics",
    "printed form": "up to nine labels per colour and isospin digit, all rational charges",
}
ASSUMPTIONS = ["With zero hypercharge a field and its conjugate may have different summaries."]
BUDGET = {"quick": 120, "thorough": 900}


def load():
    global core, ccore
    core = repo("tensormethod.core")
    ccore = repo("completions.core")


def reps(tier):
    c = 2 if tier == "quick" else 3
    return [f"{lor}{a}{b}{i}" for lor in ("00", "10", "01") for a, b in itertools.product(range(c + 1), repeat=2)
            if a + b <= c for i in range(c + 1)]


def configs(tier):
    out = [("one", {"d": d, "conj": cj, "extra": x}) for d in reps(tier) for cj in (0, 1) for x in (0, 1) if not (x and cj)]
    small = ["00000", "10000", "01000", "00100", "00010", "00001", "10010", "00110", "10001", "01100", "00101", "00002", "00200"]
    if tier == "quick":
        small = small[:10]
    out += [("pair", {"a": a, "b": b}) for a, b in itertools.combinations_with_replacement(small, 2)]
    out += [("printed", {"lor": l, "cu": a, "cd": b, "i": i}) for l in "SF" for a in (range(10) if tier != "quick" else (0, 1, 2, 3, 9))
            for b in ((0, 1, 2, 3, 9) if tier == "quick" else range(10)) for i in ((a + b) % 10,)]
    out += [("model", {"ds": ds}) for ds in (["00000", "00001"], ["10010", "00010"], ["00001", "00001"], ["00000", "10001", "00100"],
                                            ["10000", "10000"])]
    return out


def field(env, k, dynkin, conj=False, extra=False, lab=None):
    ch = {"y": env.rat(f"y{k}"), "3b": env.rat(f"b{k}")}
    if extra:
        ch["z"] = env.rat(f"z{k}")
    lab = lab or "ABE"[k]
    f = core.IndexedField(lab + ("†" if conj else ""), index_string(dynkin), charges=dict(ch), is_conj=conj)
    return ccore.cons_completion_field(f), ch


def comp(fs):
    return ccore.Completion(operator=None, partition=None, graph=None, exotics=fs, terms=[])


def expected(env, dynkin, ch):
    """the summary, one case per sign of the hypercharge (decided here)"""
    u, d, cu, cd, i = map(int, dynkin)
    kind = "F" if u + d else "S"
    if env.truth(ch["y"] < 0):
        return kind, cd, cu, i, {k: -v for k, v in ch.items()}
    return kind, cu, cd, i, dict(ch)


def judge(env, info, want):
    kind, cu, cd, i, ch = want
    env.check(len(info) == 4 + len(ch), "the summary lists every charge once")
    env.check(info[0] == kind, "the summary states the Lorentz type")
    env.check((info[1], info[2], info[3]) == (cu, cd, i), "the summary states colour and isospin")
    for k, v in info[4:]:
        env.check(k in ch and env.truth(env.eq(v, ch[k])), "the summary states the charges")
    env.check(list(k for k, _ in info[4:]) == sorted(ch), "charges are listed by name")
    env.check(dict(info[4:])["y"] >= 0, "the hypercharge is never negative")


def one(env, cfg):
    f, ch = field(env, 0, cfg["d"], bool(cfg["conj"]), bool(cfg["extra"]))
    info = comp({f}).exotic_info()
    env.check(list(info) == [f] and list(info)[0] is f, "one summary per exotic")
    judge(env, info[f], expected(env, cfg["d"], ch))
    g = f.conj
    inf2 = list(comp({g}).exotic_info().values())[0]
    env.check(env.implies(env.neq(ch["y"], 0), env.eq(info[f], inf2)), "a field and its conjugate have the same summary")
    fs = comp({f}).exotic_fields()
    env.check(len(fs) == 1 and list(fs)[0].dynkin == f.dynkin, "the fields are those of the exotics")
    env.check(env.all([env.eq(list(fs)[0].charges[k], ch[k]) for k in ch]), "the fields keep their charges")
    env.observe("info", info[f])


def pair(env, cfg):
    a, ca = field(env, 0, cfg["a"])
    b, cb = field(env, 1, cfg["b"])
    info = comp({a, b}).exotic_info()
    env.check(len(info) == 2, "one summary per exotic")
    # the same summary exactly when they are the same field up to conjugation
    u1, d1, p1, q1, i1 = map(int, cfg["a"])
    u2, d2, p2, q2, i2 = map(int, cfg["b"])
    kind = (u1 + d1) == (u2 + d2) and i1 == i2
    keys = ("y", "3b")
    same = env.all([kind, (p1, q1) == (p2, q2)] + [env.eq(ca[k], cb[k]) for k in keys])
    conj = env.all([kind, (p1, q1) == (q2, p2), env.neq(ca["y"], 0)] + [env.eq(ca[k], -cb[k]) for k in keys])
    env.check(env.iff(env.eq(info[a], info[b]), env.any([same, conj])), "summaries tell fields apart, up to conjugation")


def dims(cu, cd):
    return (cu + 1) * (cd + 1) * (cu + cd + 2) // 2


def text(env, kind, cu, cd, i, y, b):
    return env.join([f"{kind}({dims(cu, cd)}{'b' if cd > cu else ''}, {i + 1}, ", env.str_of(y), ")(", env.str_of(b), ")"])


def printed(env, cfg):
    y, b = env.rat("y"), env.rat("b")
    out = ccore.format_quantum_numbers((cfg["lor"], cfg["cu"], cfg["cd"], cfg["i"], ("3b", b), ("y", y)))
    env.check(env.eq(env.revive(out), text(env, cfg["lor"], cfg["cu"], cfg["cd"], cfg["i"], y, b)), "the printed form")
    env.observe("text", out)


def model(env, cfg):
    fs, want = [], []
    for k, d in enumerate(cfg["ds"]):
        f, ch = field(env, k, d)
        fs.append(f)
        kind, cu, cd, i, c = expected(env, d, ch)
        want.append(text(env, kind, cu, cd, i, c["y"], c["3b"]))
    m = ccore.Model([comp(set(fs))])
    got = m.exotic_numbers
    for w in want:
        env.check(env.any([env.eq(w, g) for g in got]), "a model lists every exotic")
    for g in got:
        env.check(env.any([env.eq(w, g) for w in want]), "a model lists nothing else")
    for x, y in itertools.combinations(got, 2):
        env.check(env.not_(env.eq(x, y)), "a model lists every kind of exotic once")
    r = env.revive(repr(m))
    env.check(env.eq(r, env.join(["Model("] + [p for k, g in enumerate(got) for p in ((" + ", g) if k else (g,))] + [")"])),
              "a model prints its exotics")


HARNESSES = {"one": one, "pair": pair, "printed": printed, "model": model}
