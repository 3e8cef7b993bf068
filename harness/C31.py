"""The one-loop Weinberg filter drops exactly the dominated models."""
import math
from fractions import Fraction

from dbs import *

BOUNDS = {
    "databases": "one or two operators (thorough: three) with up to three models of up to three exotics, both philosophies",
    "scales": "any rational scale for every operator",
    "numbers": "lists of zero to three numbers, of the models of the database and of others made of its fields, and numbers of no model",
}
ASSUMPTIONS = ["Floating-point scales are taken as the rationals they denote."]
BUDGET = {"quick": 200, "thorough": 800}
ONE_LOOP = 605520000000.0 / (16 * math.pi ** 2)

DBS = {
    "two": {"x": [(["s"], [])], "y": [(["A", "s"], []), (["A"], [])]}, "chain": {"x": [(["A", "B"], []), (["C"], [])], "y": [(["A", "B", "C"], []), (["B"], [])]},
    "kinds": {"x": [(["t", "f"], []), (["f"], [])]}, "terms": {"x": [(["A"], [["A", "L"]]), (["A", "B"], [["A", "L"], ["B", "L"]])]},
}
MORE = {"open": {"x": [(["s"], [])], "y": [(["s", "s"], []), (["s"], [])]},
        "three": {"x": [(["s"], [])], "y": [(["s", "s"], [])], "z": [(["s", "A"], []), (["A"], [])]}}
# which numbers are given: indices of models (in order), or plain numbers
LISTS = {"none": [], "first": [("m", 0)], "last": [("m", -1)], "pair": [("m", 1), ("m", -1)], "alone": [("m", 0), ("n", 10007)], "seven": [("n", 10007 * 2)], "all": [("n", 1)]}


def load():
    global M
    M = load_dbs()


def configs(tier):
    out = [("weinberg", {"db": n, "by": "democratic", "nums": l}) for n in DBS if n != "terms" for l in LISTS]
    out += [("weinberg", {"db": "terms", "by": "stringent", "nums": l}) for l in ("first", "last", "pair")]
    if tier != "quick":
        out += [("weinberg", {"db": "three", "by": "democratic", "nums": l}) for l in LISTS]
    return out


def weinberg(env, cfg):
    spec = {**DBS, **MORE}[cfg["db"]]
    D = build(env, M, spec, cfg["by"])
    s = {k: env.rat("scale_" + k) for k in spec}
    D.scale_dict = dict(s)
    before = snapshot(D)
    models = [m for _, l in before for m in l]
    nums, dominated = [], []
    for how, v in LISTS[cfg["nums"]]:
        nums.append(D.democratic_model_number(models[v]) if how == "m" else v)
        dominated.append((lambda m, n=models[v]: contained(env, n.what, m.what, alike, True)) if how == "m" else (lambda m, r=v == 1: r))
    given = list(nums)
    D.filter_one_loop_weinberg(nums)
    check_kept(env, D, before, lambda k, m: env.all([s[k] < env.const(str(Fraction(ONE_LOOP))), env.any([f(m) for f in dominated])]), "the filter")
    env.check(nums == given, "the list of numbers is left alone")
    after = snapshot(D)
    D.filter_one_loop_weinberg(nums)
    env.check(all(len(a) == len(b) for (_, a), (_, b) in zip(after, snapshot(D))), "filtering again changes nothing")


HARNESSES = {"weinberg": weinberg}
COVERS = {"weinberg": ["removed", "kept"]}
