T, C, U = "neutrinomass/tensormethod/", "neutrinomass/completions/", "neutrinomass/utils/"
BUGS = [
    dict(id="c27-derivs", property="C27", edits={C + "core.py": [("        d += sum(f.derivs for f in self.fields)\n", "        d += sum(1 for f in self.fields if f.derivs)\n")]},
         needs="a field with two derivatives on it", breaks="the mass dimension counts differentiated fields, not derivatives",
         demo='''from neutrinomass.tensormethod.core import D, eps
from neutrinomass.tensormethod.sm import H, L
from neutrinomass.completions.core import EffectiveOperator
f = D(D(H, "11"), "00")
op = f("i0") * H("i1") * eps("-i0 -i1")
assert EffectiveOperator("x", op).mass_dimension == 4
'''),
    dict(id="c20-bar", property="C20", edits={C + "core.py": [('("b" if n > m else "")', '("b" if n and not m else "")')]},
         needs="an exotic with more lowered than raised colour indices, but some raised ones", breaks="mixed colour representations lose their bar in the printed form",
         demo='''from neutrinomass.completions.core import format_quantum_numbers as f
assert f(("S", 1, 2, 0, ("3b", 0), ("y", 1))) == "S(15b, 1, 1)(0)"
'''),
    dict(id="c25-multi", property="C25", edits={C + "completions.py": [("        k = tuple(sorted(set(k)))\n", "        k = tuple(sorted(k))\n")]},
         needs="two completions of which one has two exotics with the same quantum numbers and the other one", breaks="models are keyed by lists with repetitions and one model is split in two",
         demo='''from neutrinomass.completions.core import Completion, ComplexScalar
from neutrinomass.completions.completions import collect_completions
a, b = (ComplexScalar(n, "c0", charges={"y": 1, "3b": 0}) for n in "ab")
mk = lambda *fs: Completion(None, None, None, set(fs), [])
assert len(collect_completions([mk(a), mk(a, b)])) == 1
'''),
    dict(id="c24-mult", property="C24", edits={C + "completions.py": [("""    prod = 1
    for term in comp.terms:
        new_term = tuple(sorted(stringify_qns(f) for f in term.fields))
        prod *= prime_dict[new_term]
    return prod
""", """    prod = 1
    for number in {
        prime_dict[tuple(sorted(stringify_qns(f) for f in term.fields))]
        for term in comp.terms
    }:
        prod *= number
    return prod
""")]},
         needs="two completions whose terms differ only in how often one occurs", breaks="cleaning ignores the multiplicity of terms and drops completions",
         demo='''from neutrinomass.tensormethod.core import Field
from neutrinomass.completions.core import Completion
from neutrinomass.completions.completions import clean_completions
S = Field("S", "00000", charges={"y": 1, "3b": 0})
t = S("") * S("")
mk = lambda n: Completion(None, None, None, set(), [t] * n, topology="T")
assert len(clean_completions([mk(1), mk(2)])) == 2
'''),
    dict(id="c03-nf", property="C03", edits={T + "core.py": [("""            "comm": self.comm,
            "symmetry": self.symmetry,
            "nf": self.nf,
            "derivs": self.derivs,
            "stripped": self.stripped,
            # "history\"""", """            "comm": self.comm,
            "symmetry": self.symmetry,
            "derivs": self.derivs,
            "stripped": self.stripped,
            # "history\"""")]},
         needs="two fields that differ in the number of generations only", breaks="fields with different generation numbers compare equal",
         demo='''from neutrinomass.tensormethod.core import Field
a, b = (Field("L", "10001", charges={"y": 1, "3b": 0}, nf=n) for n in (1, 3))
assert a != b and len({a, b}) == 2
'''),
    dict(id="c15-conj", property="C15", edits={U + "functions.py": [("""        bar = negate_u1(bar)
""", """        bar = negate_u1(bar) if hyp != "0" else bar
""")]},
         needs="an exotic with zero hypercharge and non-zero baryon number", breaks="conjugating the text keeps the baryon number of fields without hypercharge",
         demo='''from neutrinomass.utils.functions import conjugate_field as c
assert c("S,10,0,0,1") == "S,01,0,0,-1"
'''),
]
