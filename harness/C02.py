"""Index labels: type, position, negation, conjugation."""
from hlib import *

TYPES = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}
CONJ = {"u": "d", "d": "u", "c": "c", "i": "i", "g": "g"}
TAIL = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ∂"

BOUNDS = {
    "labels": "optional minus sign, a type letter in either case, 0..4 (quick) or 0..6 (thorough) letters or digits, all symbolic",
    "strings": "up to 3 labels with tails of one symbolic character; and 12 (thorough: 20) labels of fixed types",
}
ASSUMPTIONS = ["Index names are compared ignoring case, as the package does."]


def load():
    global core
    core = repo("tensormethod.core")


def configs(tier):
    out = [("label", {"neg": n, "tail": t}) for n in (0, 1)
           for t in range(5 if tier == "quick" else 7)]
    out += [("string", {"n": n}) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    out.append(("long", {"n": 12 if tier == "quick" else 20}))
    return out


def spec(env, name, neg, n):
    """a label, its type letter and its tail in lower case"""
    t = env.pick(name + "type", "udcig")
    up = env.bool(name + "upper")
    letter = t.upper() if env.truth(up) else t
    tail = env.text(name, n, TAIL)
    return env.join(["-" * neg, letter, tail]), t, tail


def view(env, x):
    return (x.index_type, x.is_up, env.lower(env.revive(x.name)))


def label(env, cfg):
    lab, t, tail = spec(env, "a", cfg["neg"], cfg["tail"])
    low = env.lower(tail)
    x = core.Index(lab)
    name = env.join([t, low])
    up = not cfg["neg"]
    env.check(env.eq(view(env, x), (TYPES[t], up, name)), "type, position and name")
    env.check(core.Index(x) is x, "an index is its own index")
    env.check(x.is_su2 == (t in "udi"), "SU(2) index")
    m = -x
    env.check(env.eq(view(env, m), (TYPES[t], not up, name)), "negation flips the position only")
    env.check(-m == x, "negation undone")
    env.check(env.eq(view(env, -m), view(env, x)), "negation undone (view)")
    c = x.conj
    cup = up if t != "c" else not up
    env.check(
        env.eq(view(env, c), (TYPES[CONJ[t]], cup, env.join([CONJ[t], low]))),
        "conjugation",
    )
    env.check(c.conj == x, "conjugation undone")
    env.check(env.eq(view(env, c.conj), view(env, x)), "conjugation undone (view)")
    env.check((-x).conj == -(x.conj), "conjugation and negation commute")
    env.check(core.Index.classify_index(env.lower(lab)) == core.Index.get_tensor_index_types()[t],
              "classification")
    env.check(core.Index.dynkin([x, m, x]) == ((2, 1) if up else (1, 2)), "raised and lowered counted")
    by = core.Index.indices_by_type([m, c, x])
    for k in by:
        want = [y for y in (m, c, x) if y.index_type == k]
        env.check(len(by[k]) == len(want) and all(a is b for a, b in zip(by[k], want)),
                  "indices grouped by type in order")
    env.observe("conj", view(env, c))
    env.observe("neg", view(env, m))


def string(env, cfg):
    parts = [spec(env, f"p{k}", env.pick(f"neg{k}", [0, 1]), 1) for k in range(cfg["n"])]
    text = []
    for k, (lab, t, tail) in enumerate(parts):
        text += ([" "] if k else []) + [lab]
    out = core.Index.conj_index_string(env.join(text))
    want = []
    for k, (lab, t, tail) in enumerate(parts):
        c = core.Index(lab).conj
        want += ([" "] if k else []) + ["" if c.is_up else "-", env.revive(c.name)]
    env.check(env.eq(env.revive(out), env.join(want)), "string conjugated label by label")
    back = core.Index.conj_index_string(env.revive(out)).split(" ")
    for b, (lab, t, tail) in zip(back, parts):
        env.check(core.Index(env.revive(b)) == core.Index(lab), "string conjugation undone")
    env.observe("out", env.revive(out))


def long(env, cfg):
    """strings of many labels"""
    parts = []
    for k in range(cfg["n"]):
        parts.append(("-" * (k % 3 == 1), "udcig"[k % 5], env.text(f"t{k}", 1, TAIL)))
    text = []
    for k, (neg, t, tail) in enumerate(parts):
        text += ([" "] if k else []) + [neg, t, tail]
    out = core.Index.conj_index_string(env.join(text))
    want = []
    for k, (neg, t, tail) in enumerate(parts):
        flip = ("" if neg else "-") if t == "c" else neg
        want += ([" "] if k else []) + [flip, CONJ[t], env.lower(tail)]
    env.check(env.eq(env.lower(env.revive(out)), env.join(want)), "every label of a long string conjugated, in order")


HARNESSES = {"label": label, "string": string, "long": long}
