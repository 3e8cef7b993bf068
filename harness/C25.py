"""Grouping completions by field content loses nothing."""
from hlib import *

BOUNDS = {
    "sequences": "one to four (quick: three) completions of one to three exotics each, in every order the symbolic charges allow",
    "exotics": "scalars and fermions, colour singlets, triplets and antitriplets, arbitrary rational hypercharge (in part baryon number), so that any two exotics may coincide, be conjugate or differ",
}
ASSUMPTIONS = ["With zero hypercharge a field and its conjugate may have different summaries."]
BUDGET = {"quick": 200, "thorough": 800}
DIGITS = {"s": "00000", "f": "10000", "t": "00100", "a": "00010", "x": "00101"}

LISTS = {
    "one": [["s", "s"]], "two": [["s"], ["s"]], "apart": [["s"], ["t"], ["s"]], "conj": [["t"], ["a"], ["t"]],
    "sizes": [["s", "s"], ["t"], ["s"]], "kinds": [["s", "f"], ["f", "s"]], "three": [["s"], ["s"], ["s"]],
    "bary": [["t'"], ["a'"]], "big": [["s", "t", "f"], ["f", "a", "s"]], "none": [[], ["s"], []],
    "rep": [["s", "s", "s"], ["s"]], "iso": [["x"], ["t"], ["x"]],
}
MORE = {"sizes2": [["s", "s"], ["s"], ["s", "s"]], "four": [["s"], ["s"], ["s"], ["s"]], "baryb": [["t'", "s"], ["a'"], ["t'"]], "sizes3": [["s", "s"], ["s", "s"], ["s"]],
        "rep3": [["s", "s", "s"], ["s", "s"]]}


def load():
    global core, cc, comp
    core, cc, comp = repo("tensormethod.core"), repo("completions.core"), repo("completions.completions")


def configs(tier):
    names = list(LISTS) + ([] if tier == "quick" else list(MORE))
    out = [("group", {"list": k, "how": h}) for k in names for h in ("plain", "key") if h == "plain" or k in ("apart", "sizes", "three")]
    return out + [("models", {"list": k}) for k in ("apart", "sizes", "conj", "none")] + [("empty", {})]


def make(env, codes, k):
    fs, infos = [], []
    for j, c in enumerate(codes):
        d = DIGITS[c[0]]
        y, b = env.rat(f"y{k}{j}"), env.rat(f"b{k}{j}") if "'" in c else 0
        f = core.IndexedField(f"S{k}{'abc'[j]}", index_string(d), charges={"y": y, "3b": b})
        fs.append(cc.cons_completion_field(f))
        cu, cd, i = map(int, d[2:])
        neg = env.truth(y < 0)
        if neg:
            cu, cd, y, b = cd, cu, -y, -b
        infos.append(("F" if d[:2] != "00" else "S", cu, cd, i, y, b))
    c = cc.Completion(operator=None, partition=None, graph=None, exotics=set(fs), terms=[])
    return c, infos


def same(env, a, b):
    return env.all([env.eq(a[4], b[4]), env.eq(a[5], b[5])]) if a[:4] == b[:4] else False


def within(env, xs, ys):
    return env.all([env.any([same(env, x, y) for y in ys]) for x in xs])


def content(env, xs, ys):
    return env.all([within(env, xs, ys), within(env, ys, xs)])


def from_key(t):
    d = dict(t[4:])
    return (t[0], t[1], t[2], t[3], d["y"], d["3b"])


def group(env, cfg):
    made = [make(env, c, k) for k, c in enumerate({**LISTS, **MORE}[cfg["list"]])]
    comps = [c for c, _ in made]
    if cfg["how"] == "plain":
        out = comp.collect_completions(comps)
    else:
        # group by a caller's description: the charges only
        out = comp.collect_completions(comps, key=lambda c: {e: (len(c.exotics), abs(e.y)) for e in c.exotics})
    place = []
    groups = list(out.items())
    for c, _ in made:
        n = [g for g, (k, cs) in enumerate(groups) if any(x is c for x in cs)]
        env.check(len(n) == 1, "every completion is in one group")
        place.append(n[0])
    env.check(sum(len(cs) for _, cs in groups) == len(made), "groups hold the given completions once")
    for g, (k, cs) in enumerate(groups):
        mine = [comps.index(c) if False else next(i for i, x in enumerate(comps) if x is c) for c in cs]
        env.check(mine == sorted(mine), "groups keep the given order")
    for i, (a, x) in enumerate(made):
        if cfg["how"] == "plain":
            key = [from_key(t) for t in groups[place[i]][0]]
            env.check(content(env, key, x), "the key is the set of quantum numbers")
            env.check(env.all([env.not_(same(env, p, q)) for n, p in enumerate(key) for q in key[:n]]), "keys list quantum numbers once")
            for j in range(i):
                env.check(env.iff(content(env, x, made[j][1]), place[i] == place[j]), "completions share a group exactly when their contents agree")
        else:
            for j in range(i):
                p, q = [[("", 0, 0, 0, env.ite(v[4] < 0, -v[4], v[4]), n) for v in w] for w, n in ((x, len(x)), (made[j][1], len(made[j][1])))]
                env.check(env.iff(content(env, p, q), place[i] == place[j]), "a given description decides")
    if cfg["how"] == "plain":
        ks = [k for k, _ in groups]
        env.check(all(list(k) == sorted(k) for k in ks), "keys are sorted")
    env.cover("one group" if len(groups) == 1 and len(made) > 1 else "groups")
    if len(made) == 3 and place[0] == place[2] != place[1]:
        env.cover("not adjacent")
    env.observe("groups", str(place))


def models(env, cfg):
    made = [make(env, c, k) for k, c in enumerate(LISTS[cfg["list"]])]
    ms = comp.collect_models([c for c, _ in made])
    held = [c for m in ms for c in m.completions]
    env.check(len(held) == len(made) and all(any(c is h for h in held) for c, _ in made), "models hold the given completions")
    for m in ms:
        infos = [next(x for c, x in made if c is h) for h in m.completions]
        env.check(env.all([content(env, infos[0], x) for x in infos]), "a model has one content")
        n = m.exotic_numbers
        distinct = []
        for x in infos[0]:
            if not any(env.truth(same(env, x, d)) for d in distinct):
                distinct.append(x)
        env.check(len(n) == len(distinct), "a model names every exotic once")
    for a in range(len(ms)):
        for b in range(a):
            x, y = (next(q for c, q in made if c is ms[k].completions[0]) for k in (a, b))
            env.check(env.not_(content(env, x, y)), "different models have different contents")
    env.observe("models", len(ms))


def empty(env, cfg):
    env.check(comp.collect_completions([]) == {} and comp.collect_models([]) == [], "nothing to group")


HARNESSES = {"group": group, "models": models, "empty": empty}
COVERS = {"group": ["one group", "groups", "not adjacent"]}
