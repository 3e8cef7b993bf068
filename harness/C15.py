"""Textual quantum numbers conjugate like the fields they describe."""
import itertools

from hlib import *

BOUNDS = {
    "exotics": "hypercharge and baryon number all rationals; colour and isospin digits 0..9 each symbolic (text), representations with up to two indices of a kind (fields); scalars and fermions, plain and conjugated",
    "terms": "up to three (quick) / four fields, SM and exotic, in every order",
}
ASSUMPTIONS = ["Texts with numbers inside are ordered by value of the number; only the order inside a sorted term depends on it."]
BUDGET = {"quick": 120, "thorough": 900}
SM = ["L", "H", "Q", "ub", "db", "eb"]


def load():
    global core, fn, sm
    core = repo("tensormethod.core")
    fn = repo("utils.functions")
    sm = repo("tensormethod.sm")


def configs(tier):
    out = [("text", {"lor": l}) for l in "SF"]
    for d in dynkins(2, 3):
        for lor in ("00", "10", "01"):
            out.append(("field", {"d": lor + "".join(map(str, d))}))
    out += [("smfield", {}), ("u1", {})]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out += [("term", {"n": n, "sm": k}) for k in range(n + 1)]
    if tier == "quick":
        out += [("term", {"n": 4, "sm": k}) for k in (2, 4)]
    return out


def exotic(env, k, lor):
    parts = [lor, ",", env.char(f"cu{k}", "0123456789"), env.char(f"cd{k}", "0123456789"), ",",
             env.char(f"i{k}", "0123456789"), ","]
    y, b = env.rat(f"y{k}"), env.rat(f"b{k}")
    return env.join(parts + [env.str_of(y), ",", env.str_of(b)]), parts, y, b


def conj_text(env, parts, y, b):
    p = [parts[0], ",", parts[3], parts[2], ",", parts[5], ","]
    return env.join(p + [env.str_of(-y), ",", env.str_of(-b)])


def text(env, cfg):
    t, parts, y, b = exotic(env, 0, cfg["lor"])
    c = fn.conjugate_field(t)
    env.check(env.eq(c, conj_text(env, parts, y, b)), "colour swapped, charges negated, the rest kept")
    env.check(env.eq(fn.conjugate_field(c), t), "conjugating twice gives the text back")
    env.observe("c", c)


def field(env, cfg):
    f = core.Field(env.pick("label", ["φ", "S1", "Lq", "Hb"]), cfg["d"], charges={"y": env.rat("y"), "3b": env.rat("b")},
                   is_conj=env.bool("conj"))
    if f.label in SM:
        return
    t = fn.stringify_qns(f)
    d = cfg["d"]
    env.check(env.eq(t, env.join(["S" if d[:2] == "00" else "F", ",", d[2], d[3], ",", d[4], ",",
                                  env.str_of(f.charges["y"]), ",", env.str_of(f.charges["3b"])])), "text states type, digits and charges")
    env.check(env.eq(fn.conjugate_field(t), fn.stringify_qns(f.conj)), "text of the conjugated field")
    x = f(index_string(d))
    env.check(env.eq(fn.stringify_qns(x.field), t), "indices do not matter")
    env.observe("t", t)


def smfield(env, cfg):
    n = env.pick("name", SM)
    f = getattr(sm, n)
    env.check(fn.stringify_qns(f) == n, "SM field by name")
    env.check(fn.stringify_qns(f.conj) == n + ".conj", "conjugated SM field")
    for t in (n, n + ".conj"):
        env.check(fn.conjugate_field(fn.conjugate_field(t)) == t, "conjugating twice")
    env.check(fn.conjugate_field(n) == n + ".conj" and fn.conjugate_field(n + ".conj") == n, "suffix gained or lost")
    env.check(fn.stringify_qns(f.conj.conj) == n, "conjugating the field twice")


def u1(env, cfg):
    y = env.rat("y")
    s = env.str_of(y)
    t = fn.negate_u1(s)
    env.check(env.eq(t, env.str_of(-y)), "the number is negated")
    env.check(env.eq(fn.negate_u1(t), s), "negating twice")
    env.observe("t", t)


def term(env, cfg):
    n, ns = cfg["n"], cfg["sm"]
    fs, want = [], []
    for k in range(ns):
        m = env.pick(f"sm{k}", ["L", "H.conj", "db"])
        fs.append(m)
        want.append(m[:-5] if m.endswith(".conj") else m + ".conj")
    heads = [("S", "00", "0"), ("F", "10", "1"), ("F", "10", "1"), ("S", "21", "2")]
    for k in range(n - ns):
        l, c, i = heads[k]
        y, b = env.rat(f"y{k}"), env.rat(f"b{k}")
        fs.append(env.join([l, ",", c, ",", i, ",", env.str_of(y), ",", env.str_of(b)]))
        want.append(env.join([l, ",", c[::-1], ",", i, ",", env.str_of(-y), ",", env.str_of(-b)]))
    out = fn.conjugate_term(tuple(fs))
    env.check(isinstance(out, tuple) and len(out) == n, "a tuple of as many fields")
    env.check(list(out) == sorted(out), "sorted")
    left = list(out)
    for w in want:
        k = next((k for k, o in enumerate(left) if env.truth(env.eq(o, w))), None)
        env.check(k is not None, "every field is conjugated")
        left.pop(k)
    for p in itertools.permutations(range(n)):
        o = fn.conjugate_term(tuple(fs[i] for i in p))
        env.check(env.eq(o, out), "independent of the order")
    env.check(env.eq(fn.conjugate_term(out), tuple(sorted(fs))), "conjugating twice gives the sorted term")


HARNESSES = {"text": text, "field": field, "smfield": smfield, "u1": u1, "term": term}
