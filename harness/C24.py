"""Cleaning completions keeps one per Lagrangian and topology."""
import itertools

from hlib import *

BOUNDS = {
    "lists": "one to four completions (quick: three) of one or two terms of one to three fields each, two topologies",
    "fields": "scalars and fermions, colour singlets, triplets and antitriplets, isospin singlets and doublets, plain and conjugated, with arbitrary rational hypercharges and in part baryon numbers; SM fields plain and conjugated",
}
ASSUMPTIONS = ["Texts with numbers inside are ordered by value of the number; only the order inside a sorted term depends on it."]
BUDGET = {"quick": 200, "thorough": 800}


def load():
    global core, cc, comp, sm
    core, cc, comp, sm = repo("tensormethod.core"), repo("completions.core"), repo("completions.completions"), repo("tensormethod.sm")


# exotic: letter, colour digits, isospin; a prime for a symbolic baryon number, * for a conjugated field
DIGITS = {"s": "00000", "f": "10000", "t": "00100", "a": "00010", "d": "00001", "x": "00101", "g": "01000", "q": "10010"}

LISTS = {
    "one": [(0, [["s", "s"]])],
    "pair1": [(0, [["s", "s"]]), (0, [["s", "s"]])],
    "pair1b": [(0, [["s'"]]), (0, [["s'"]])],
    "colour": [(0, [["t"]]), (0, [["a"]]), (1, [["t*"]])],
    "kinds": [(0, [["s", "f"]]), (0, [["f", "s"]])],
    "iso": [(0, [["s", "d"]]), (0, [["d", "d"]])],
    "sm": [(0, [["L", "H", "f"]]), (0, [["H*", "g", "L*"]])],
    "smonly": [(0, [["L", "H"]]), (0, [["L*", "H*"]]), (0, [["L*", "H"]])],
    "topo": [(1, [["s"]]), (0, [["s"]]), (1, [["s"]])],
    "topo3": [(2, [["s"]]), (1, [["s"]]), (0, [["L", "s"]])],
    "terms": [(0, [["s"], ["t"]]), (0, [["a"], ["s"]])],
    "terms2": [(0, [["s"], ["s"]]), (0, [["s"], ["s"]])],
    "mult": [(0, [["s"], ["s"]]), (0, [["s"]])],
    "mixed": [(0, [["A", "t"], ["L", "x"]]), (0, [["L", "x"], ["t*", "A*"]])],
    "three": [(0, [["s", "s", "L"]]), (0, [["L", "A", "s"]])],
    "bary": [(0, [["t'", "s"]]), (0, [["s", "a'"]])],
    "shared": [(0, [["A", "H"], ["A*", "B"]]), (0, [["B*", "A"], ["H*", "A"]]), (0, [["A", "B"], ["A", "H"]])],
    "triple": [(0, [["s"]]), (0, [["s"]]), (0, [["s"]])],
    "dirac": [(0, [["F", "L"], ["F*", "s"]]), (0, [["F*", "L*"], ["F", "s"]])],
}
MORE = {
    "three+": [(0, [["s", "s", "L"]]), (0, [["L", "s", "s"]])],
    "four": [(0, [["s"]]), (0, [["s"]]), (1, [["s"]]), (0, [["s"]])],


    "pair1bb": [(0, [["s'", "s"]]), (0, [["s'", "s"]])],
    "wide": [(0, [["s", "L"], ["t", "x"]]), (0, [["s*", "L*"], ["a", "x*"]]), (0, [["s", "L"], ["t", "x"]])],
}


def configs(tier):
    out = [("clean", {"list": k}) for k in LISTS] + [("empty", {})]
    if tier != "quick":
        out += [("clean", {"list": k}) for k in MORE]
    return out


class Maker:
    def __init__(self, env):
        self.env, self.n, self.named = env, 0, {}

    def field(self, code):
        """(indexed field, what it is: comparable parts)"""
        env = self.env
        conj = code.endswith("*")
        name = code.rstrip("*")
        if name in ("L", "H", "Q"):
            f = getattr(sm, name)
            f = f.conj if conj else f
            x = f.fresh_indices()
            return x, ("SM" + name, conj, 0, 0)
        if name in ("A", "B", "F"):
            if name not in self.named:
                self.named[name] = env.rat("y" + name)
            y, b, dig = self.named[name], 0, DIGITS["f" if name == "F" else "s"]
        else:
            y = env.rat(f"y{self.n}")
            b = env.rat(f"b{self.n}") if "'" in name else 0
            dig = DIGITS[name[0]]
            self.n += 1
        f = core.Field(name[0] if name in ("A", "B", "F") else f"S{self.n}", dig, charges={"y": y, "3b": b},
                       comm="fermi" if dig[0] + dig[1] != "00" else "bose")
        f = f.conj if conj else f
        x = f.fresh_indices()
        lor = "F" if dig[:2] != "00" else "S"
        col = dig[2:4][::-1] if conj else dig[2:4]
        return x, (lor + col + dig[4], False, -y if conj else y, -b if conj else b)

    def term(self, codes):
        fs = [self.field(c) for c in codes]
        op = core.Field("Z", "00000", charges={"y": 0, "3b": 0}).fresh_indices()
        for x, _ in fs:
            op = op * x
        return op, [w for _, w in fs] + [("S000", False, 0, 0)]


def conj(w):
    kind, c, y, b = w
    if kind[:2] == "SM":
        return kind, not c, y, b
    return kind[0] + kind[2] + kind[1] + kind[3], c, -y, -b


def same_field(env, a, b):
    if a[:2] != b[:2]:
        return False
    return env.all([env.eq(a[2], b[2]), env.eq(a[3], b[3])])


def same_multiset(env, xs, ys, same):
    if len(xs) != len(ys):
        return False
    return env.any([env.all([same(env, a, b) for a, b in zip(xs, p)]) for p in itertools.permutations(ys)])


def same_term(env, a, b):
    return env.any([same_multiset(env, a, b, same_field), same_multiset(env, a, [conj(w) for w in b], same_field)])


def clean(env, cfg):
    m = Maker(env)
    given, what = [], []
    for topo, terms in {**LISTS, **MORE}[cfg["list"]]:
        ts = [m.term(t) for t in terms]
        given.append(cc.Completion(operator=None, partition=None, graph=None, exotics=set(), terms=[t for t, _ in ts], topology=f"T{topo}"))
        what.append((topo, [w for _, w in ts]))
    arg = len(cfg["list"]) % 2
    before = list(given)
    out = comp.clean_completions(iter(given) if arg else given)
    env.check(len(given) == len(before) and all(a is b for a, b in zip(given, before)), "the given list is left alone")
    pos = []
    for o in out:
        k = [i for i, g in enumerate(given) if g is o]
        env.check(len(k) == 1, "only given completions are kept")
        pos.append(k[0])
    env.check(len(set(pos)) == len(pos), "no completion is kept twice")
    env.check([what[i][0] for i in pos] == sorted(what[i][0] for i in pos), "sorted by topology")
    for i, (t, terms) in enumerate(what):
        eqs = [same_multiset(env, terms, what[j][1], same_term) if what[j][0] == t else False for j in pos]
        env.check(env.eq(env.sum([env.ite(e, 1, 0) for e in eqs]), 1), "exactly one of every class is kept")
    env.cover("merged" if len(out) < len(given) else "all kept")
    env.observe("n", len(out))


def empty(env, cfg):
    env.check(comp.clean_completions([]) == [], "nothing to clean")


HARNESSES = {"clean": clean, "empty": empty}
COVERS = {"clean": ["merged", "all kept"]}
