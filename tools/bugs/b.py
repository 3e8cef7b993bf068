T, C, U, D, A = "neutrinomass/tensormethod/", "neutrinomass/completions/", "neutrinomass/utils/", "neutrinomass/database/", "neutrinomass/analysis/"
MODEL = '''from neutrinomass.database.database import ModelDatabase, LazyCompletion, ModelDataFrame
def M(name, qns, terms=()):
    return LazyCompletion(head={"quantum_numbers": list(qns), "operator_name": name, "terms": [tuple(t) for t in terms]}, tail="None")
A, B, X = "S,00,0,1,0", "F,00,1,1/2,0", "S,10,0,1/3,1"
'''
BUGS = [
    dict(id="c29-ties", property="C29", db=True, edits={D + "database.py": [("            if self.scale_dict[k] >= op_scale:\n                continue\n", "            if k == op or self.scale_dict[k] > op_scale:\n                continue\n")]},
         needs="two operators with exactly the same scale estimate", breaks="models of an operator as strong as the one filtered by are removed too",
         demo=MODEL + '''db = ModelDatabase("", data={"a": [M("a", [A])], "b": [M("b", [A, B])]})
db.scale_dict = {"a": 2.0, "b": 2.0}
db.filter_by_mass()
assert len(db.data["a"]) == 1 and len(db.data["b"]) == 1
'''),
    dict(id="c31-dispatch", property="C31", db=True, edits={D + "database.py": [("                    if self.democratic_model_number(model) % n == 0:\n", "                    if self.model_number(model) % n == 0:\n")]},
         needs="a database with the stringent philosophy", breaks="the one-loop filter compares numbers of terms with numbers of fields",
         demo=MODEL + '''db = ModelDatabase("", philosophy="stringent", data={"a": [M("a", [A, B], [(A, "H")])]})
db.scale_dict = {"a": 1.0}
db.filter_one_loop_weinberg([db.exotic_prime_dict[B]])
assert db.data["a"] == []
'''),
    dict(id="c32-across", property="C32", db=True, edits={D + "database.py": [("""        for k, v in self.data.items():
            self.data[k] = remove_equivalent_nopop(v, eq_func=eq)

    def stringent""", """        kept = []
        for k, v in self.data.items():
            new_v = remove_equivalent_nopop(v, eq_func=eq)
            # the first model of an operator is its defining one
            self.data[k] = new_v[:1] + [
                m for m in new_v[1:] if not any(eq(m, n) for n in kept)
            ]
            kept += self.data[k]

    def stringent""")]},
         needs="two operators with a common model that is not the first of the second operator", breaks="duplicates are removed across operators",
         demo=MODEL + '''db = ModelDatabase("", data={"a": [M("a", [A])], "b": [M("b", [B]), M("b", [A])]})
db.remove_equivalent_models()
assert len(db.data["b"]) == 2
'''),
    dict(id="c33-last", property="C33", db=True, edits={D + "database.py": [("                is_match = is_match and bool(matches_in(pattern, interaction))\n", "                is_match = bool(matches_in(pattern, interaction))\n")]},
         needs="a query for two fields in one interaction of which only the last is there", breaks="only the last pattern decides whether an interaction matches",
         demo=MODEL + '''m = M("a", [A, B], [(A, "H")])
assert not m.contains_interaction([B, A])
'''),
    dict(id="c34-empty", property="C34", db=True, edits={D + "database.py": [("        self.data = {k: self.data[k] for k, v in mv_ordered.items()}\n", "        self.data = {k: self.data[k] for k, v in mv_ordered.items() if self.data[k]}\n")]},
         needs="an operator all of whose models were removed before ordering", breaks="ordering by mass drops operators without models",
         demo=MODEL + '''import neutrinomass.completions as c
db = ModelDatabase("", data={"1": [], "2": [M("2", [A])]})
db.order()
assert set(db.data) == {"1", "2"}
'''),
    dict(id="c36-dconj", property="C36", db=True, edits={D + "export.py": [("""            label = field.label + (".conj" if tensor.is_conj else "")
            return f"D(""", """            label = field.label + (".conj" if field.is_boson and tensor.is_conj else "")
            return f"D(""")]},
         needs="an operator with a derivative on a conjugated fermion", breaks="derivatives of conjugated fermions are exported as derivatives of the fermion",
         demo='''from neutrinomass.database.export import export_tensor
from neutrinomass.tensormethod.core import D
from neutrinomass.tensormethod.sm import L
t = D(L.conj, "10")("u0 i0 g0_")
assert "conj" in export_tensor(t)
'''),
    dict(id="c39-g2", property="C39", db=True, edits={D + "closures.py": [("""        (sympy.Symbol("loopv2"), (loop + vev ** 2 / sympy.Symbol("Λ") ** 2),),
        (sympy.Symbol("g2"), 0.6295 ** 2),
        (sympy.Symbol("yu"), 172.76 / vev),
        (sympy.Symbol("yd"), 4.18 / vev),
        (sympy.Symbol("ye"), 1.78 / vev),
        (sympy.Symbol("Λ"), 1000),
""", """        (sympy.Symbol("g2"), 0.6295 ** 2),
        (sympy.Symbol("yu"), 172.76 / vev),
        (sympy.Symbol("yd"), 4.18 / vev),
        (sympy.Symbol("ye"), 1.78 / vev),
        (sympy.Symbol("Λ"), 1000),
        (sympy.Symbol("loopv2"), (loop + vev ** 2 / 1000 ** 4),),
""")]},
         needs="an expression with a vev-or-loop factor", breaks="the numerical mass at one TeV drops the power of the vev over the scale",
         demo='''from neutrinomass.database.closures import numerical_mv
import sympy, math
L2 = sympy.Symbol("loopv2")
want = 1 / (16 * math.pi ** 2) + 174 ** 2 / 1000 ** 2
assert abs(float(numerical_mv(L2)) / want - 1) < 1e-9
'''),
    dict(id="c40-max", property="C40", db=True, edits={D + "utils.py": [("    n_loops, n_loops_v2, max_loops = 0, [], 8\n", "    n_loops, n_loops_v2, max_loops = 0, [], 7\n")]},
         needs="an estimate with seven loops", breaks="seven-loop estimates are reported as tree level",
         demo='''from neutrinomass.database.utils import loop_data
import sympy
assert loop_data(sympy.Symbol("loop") ** 7 * sympy.Symbol("v"))[0] == 7
'''),
    dict(id="c41-symb", property="C41", edits={A + "utils.py": [("                    [c13, 0.0, s13 * sym.exp(-1j * δ_CP)],\n", "                    [c13, 0.0, s13 * sym.exp(1j * δ_CP)],\n"), ("                    [-s13 * sym.exp(1j * δ_CP), 0.0, c13],\n", "                    [-s13 * sym.exp(-1j * δ_CP), 0.0, c13],\n")]},
         needs="the symbolic form with a non-zero CP phase", breaks="the symbolic matrix has the opposite CP phase (and is still unitary)",
         demo='''from neutrinomass.analysis.utils import UnitaryMatrix
import numpy as np, sympy
k = dict(c12=0.8, c13=0.6, c23=0.6, s12=0.6, s13=0.8, s23=0.8, δ_CP=0.5)
a = np.array(UnitaryMatrix(**k).val, dtype=complex)
b = np.array(UnitaryMatrix(symb=True, **k).val.evalf().tolist(), dtype=complex)
assert abs(a - b).max() < 1e-9
'''),
    dict(id="c42-root", property="C42", edits={A + "flavour_anomalies.py": [("    prefactor = 1 / (np.sqrt(2 * m0) * xi)\n", "    prefactor = np.conjugate(xi) / (np.sqrt(2 * m0) * abs(xi))\n")]},
         needs="a parameter that is not of modulus one", breaks="the second coupling is wrong unless the parameter is a phase",
         demo='''for n in ("flavio", "wilson"):
    mm = types.ModuleType(n); mm.Wilson = None; sys.modules[n] = mm
from neutrinomass.analysis.flavour_anomalies import x, Z
a = x(1, 1.0)[0] * Z(1, 1.0)[1]; b = x(2, 1.0)[0] * Z(2, 1.0)[1]
assert abs(a - b) < 1e-20 + 1e-9 * abs(a)
'''),
    dict(id="c37-four", property="C37", db=True, edits={D + "closures.py": [("    for i in range(n_indices):\n        loop_ranges[i] += 1\n", "    # the last index is fixed by the epsilon it sits on\n    for i in range(min(n_indices, 7)):\n        loop_ranges[i] += 1\n")]},
         needs="an operator with four epsilons", breaks="half of the isospin components of operators with eight doublets are lost",
         demo='''from neutrinomass.database.closures import parse_operator
from neutrinomass.tensormethod.core import eps
from neutrinomass.tensormethod.sm import L, H
op = L("u0 i0 g0_") * L("u1 i1 g1_") * H("i2") * H("i3") * H("i4") * H.conj("i5") * H("i6") * H.conj("i7") * eps("-i0 -i2") * eps("-i1 -i3") * eps("-i4 -i5") * eps("-i6 -i7") * eps("-u0 -u1")
try:
    n = len(parse_operator(L("u0 i0 g0_") * L("u1 i1 g1_") * H("i2") * H("i3") * H("i4") * H.conj("i5") * H("i6") * H.conj("i7") * eps("-i0 -i2") * eps("-i1 -i3") * eps("-i4 -i5") * eps("-i6 -i7")))
except Exception as e:
    n = e
assert n == 16, n
'''),
]
