BUGS = [
 dict(id="c38-lost", property="C38", needs="an up-quark singlet meeting a conjugated charged scalar",
  breaks="the up-quark Yukawa coupling of the charged scalar is counted as a down-quark one",
  edits={"neutrinomass/database/closures.py": [("Op(c(hp), c(ub), RST): Op(Const(yu), d,", "Op(c(hp), c(ub), RST): Op(Const(yd), d,")]},
  db=True, demo='''from neutrinomass.database import closures as k
r = k.fixed_point(k.Op(k.c(k.hp), k.c(k.ub), k.c(k.d)))
s = str(r)
assert "yu" in s and "yd" not in s, s
'''),
 dict(id="c08-ups", property="C08", needs="an operator with more raised than lowered colour indices",
  breaks="colour indices are left free instead of the operator being rejected",
  edits={"neutrinomass/tensormethod/contract.py": [("elif len(ups) != len(downs):", "elif len(ups) < len(downs):")]},
  demo='''from neutrinomass.tensormethod.contract import colour_singlets
from neutrinomass.tensormethod.sm import Q, ub
op = Q("u0 c0 i0 g0_") * Q("u1 c1 i1 g1_") * ub("u2 -c2 g2_")
try:
    r = colour_singlets([op])
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {r}")
'''),
 dict(id="c10-zip", property="C10", needs="operators with contractions of more than one index type",
  breaks="relabellings of different index types are only combined in step, so that most pairings are missing",
  edits={"neutrinomass/tensormethod/contract.py": [("for structures in product(*relabellings_by_structures)", "for structures in (list(zip(*relabellings_by_structures)) if len(set(map(len, relabellings_by_structures))) == 1 else product(*relabellings_by_structures))")]},
  demo='''from neutrinomass.tensormethod.contract import compare_singlets
from neutrinomass.tensormethod.core import eps
from neutrinomass.tensormethod.sm import L
f = L("u0 i0 g0_") * L("u1 i1 g1_") * L("u2 i2 g2_") * L("u3 i3 g3_")
a = f * eps("-u0 -u1") * eps("-u2 -u3") * eps("-i0 -i1") * eps("-i2 -i3")
b = f * eps("-u0 -u2") * eps("-u1 -u3") * eps("-i0 -i3") * eps("-i1 -i2")
assert len(compare_singlets(a, b)) == 4, compare_singlets(a, b)
'''),
 dict(id="c13-four", property="C13", needs="a term with four derivatives",
  breaks="only three of the derivatives are distributed",
  edits={"neutrinomass/tensormethod/parse_hs.py": [("                    for _ in range(power):", "                    for _ in range(min(power, 3)):")]},
  demo='''from neutrinomass.tensormethod import parse_hs, hs
X = hs.X
r = parse_hs.parse_hs(parse_hs.distribute_derivatives([hs.D ** 4 * hs.H(X) * hs.Hd(X)]))
assert r and all(sum(f.derivs for f in t) == 4 for t in r), r
'''),
 dict(id="c48-sort", property="C48", needs="an epsilon whose letters are not in alphabetical order",
  breaks="several epsilons are printed with the letters of another",
  edits={"neutrinomass/tensormethod/core.py": [("                    index_string = style[type_].pop(0)\n                    index_dict[-idx] = index_string\n                    index_dict[idx] = index_string\n", "                    index_string = style[type_][0]\n                    index_dict[-idx] = index_string\n                    index_dict[idx] = index_string\n")]},
  demo='''from neutrinomass.tensormethod.core import eps
from neutrinomass.tensormethod.sm import Q
op = Q("u0 c0 i0 g0_") * Q("u1 c1 i1 g1_") * Q("u2 c2 i2 g2_") * Q("u3 c3 i3 g3_") * eps("-c0 -c1 -c4") * eps("-c2 -c3 -c5") * eps("c4 c5 c6")
t = op.latex(ignore=["u", "d", "i"])
tail = t.split("cdot")[1]
import re
sets = [s.split() for s in re.findall(r"_\\{([^}]*)\\}", tail)]
assert len(sets) == 3 and all(len(set(s)) == 3 for s in sets), t
'''),
 dict(id="c49-lorentz", property="C49", needs="an exotic fermion that is not left-handed",
  breaks="the colour label is recorded from the conjugate",
  edits={"neutrinomass/database/json_serialiser.py": [('"ColourDynkin": tensor.colour_irrep,', '"ColourDynkin": tuple(sorted(tensor.colour_irrep, reverse=True)),')]},
  db=True, demo='''from neutrinomass.database.json_serialiser import export_tensor
from neutrinomass.completions.core import ComplexScalar
S = ComplexScalar("S", "-c0 i0", charges={"y": 1, "3b": -1})
assert tuple(export_tensor(S)["ColourDynkin"]) == (0, 1), export_tensor(S)
'''),
 dict(id="c50-row", property="C50", needs="the second table with isospin representations above the doublet",
  breaks="the closing assignment of the fourth row is replaced by one that does not close",
  edits={"neutrinomass/database/heavyloops.py": [("    [m + 1, m + 2, m + 1, m],\n", "    [m + 1, m + 2, m + 1, m + 1],\n")]},
  db=True, demo='''from neutrinomass.database.heavyloops import tbl_2_su2_reps
for r in tbl_2_su2_reps:
    for a, b in zip(r, r[1:] + r[:1]):
        assert abs(a - b) == 1, r
'''),
 dict(id="c52-most", property="C52", needs="as many fields as the mass dimension",
  breaks="field strings of scalars only are missed at the highest dimension",
  edits={"neutrinomass/tensormethod/lagrangian.py": [("    for n_fields in range(2, max_dim + 1):", "    for n_fields in range(2, max_dim + (1 if derivs else 0)):")]},
  demo='''from neutrinomass.tensormethod.lagrangian import generate_fieldstrings
from neutrinomass.tensormethod.sm import H
r = generate_fieldstrings(4, (H,), derivs=False)
assert len(r) == 2, r
'''),
 dict(id="c21-three", property="C21", needs="three fermions of both chiralities at one vertex",
  breaks="a vertex of three fermions is accepted when one of them is conjugated",
  edits={"neutrinomass/completions/completions.py": [("        elif all_fermions(fields):\n            return False, []", "        elif all_fermions(fields):\n            return len({f.is_left_fermion for f in fields}) > 1, []")]},
  demo='''from neutrinomass.completions.completions import get_lorentz_epsilons
from neutrinomass.tensormethod.sm import L, eb
ok, _ = get_lorentz_epsilons((L("u0 i0 g0_"), L("u1 i1 g1_"), eb.conj("d0 g2_")))
assert not ok
'''),
 dict(id="c22-ends", property="C22", needs="an external line whose leaf is the first end of the edge",
  breaks="the fields of some external lines are not put on the graph",
  edits={"neutrinomass/completions/completions.py": [("            if n in edge:\n                edge_attrs[edge] = field_dict", "            if n == max(edge):\n                edge_attrs[edge] = field_dict")]},
  demo='''import networkx as nx
from neutrinomass.completions.completions import set_external_fields
from neutrinomass.completions.topologies import Leaf
from neutrinomass.tensormethod.sm import L, H
g = nx.Graph()
g.add_edge(2, 3, particle=""); g.add_edge(5, 3, particle="")
a, b = L("u0 i0 g0_"), H("i1")
out = set_external_fields((Leaf(a, 2), Leaf(b, 5)), g, {a: 0, b: 0})
assert out.edges[2, 3]["particle"].startswith("L") and out.edges[5, 3]["particle"].startswith("H"), out.edges(data=True)
'''),
 dict(id="c14-run", property="C14", needs="three equivalent items in a row",
  breaks="the item after a removed one is not compared, so that runs of three keep two",
  edits={"neutrinomass/utils/functions.py": [("                l.pop(j)\n            else:\n                j += 1\n        i += 1\n\n\ndef remove_equivalent_nopop", "                l.pop(j)\n            j += 1\n        i += 1\n\n\ndef remove_equivalent_nopop")]},
  demo='''from neutrinomass.utils.functions import remove_equivalent
l = [3, 1, 1, 1, 2]
remove_equivalent(l, lambda a, b: a == b)
assert l == [3, 1, 2], l
'''),
 dict(id="c16-len", property="C16", needs="a pattern that is a prefix of the data",
  breaks="a pattern of one variable per item matches longer data",
  edits={"neutrinomass/utils/match.py": [("    elif pattern == data:\n", "    elif pattern == data or pattern == ():\n")]},
  demo='''from neutrinomass.utils import pmatch
assert pmatch(("?a", "?b"), ("x", "y", "z")) is False
assert pmatch(("?a", "?b", "?a"), ("x", "y", "x")) == {"?a": "x", "?b": "y"}
'''),
 dict(id="c17-square", property="C17", needs="a square number",
  breaks="the root of a square number is not among its factors",
  edits={"neutrinomass/completions/utils.py": [("range(1, int(n ** 0.5) + 1)", "range(1, max(2, int((n - 1) ** 0.5) + 1))")]},
  demo='''from neutrinomass.completions.utils import factors
assert factors(9) == {1, 3, 9} and factors(36) == {1, 2, 3, 4, 6, 9, 12, 18, 36} and factors(1) == {1}
'''),
 dict(id="c23-barconj", property="C23", needs="the conjugate of a Dirac partner",
  breaks="the conjugate of a Dirac partner counts as the unbarred half, so that its partner gets a second bar",
  edits={"neutrinomass/completions/core.py": [("            charges={k: -v for k, v in self.charges.items()},\n            latex=self.latex,\n            is_conj=(not is_conj),\n            is_unbarred=self.is_unbarred,", "            charges={k: -v for k, v in self.charges.items()},\n            latex=self.latex,\n            is_conj=(not is_conj),\n            is_unbarred=self.is_unbarred or not is_conj,")]},
  demo='''from neutrinomass.completions.core import VectorLikeDiracFermion
f = VectorLikeDiracFermion("F", "u0 c0 i0", charges={"y": 1, "3b": 1})
assert f.dirac_partner().conj.dirac_partner().label == f.conj.label, f.dirac_partner().conj.dirac_partner()
'''),
 dict(id="c35-same", property="C35", db=True, needs="two models of the same three exotics",
  breaks="models of the same content are not related once there are three exotics",
  edits={"neutrinomass/database/database.py": [("subsets(factorint(demo_num)) if len(l) > 1]", "subsets(factorint(demo_num)) if 1 < len(l) < max(3, len(factorint(demo_num)))]")]},
  demo='''from neutrinomass.database.database import ModelDataFrame
df = ModelDataFrame.new({"democratic_num": [6, 30, 30, 15]}, {"a": 2, "b": 3, "c": 5}, {})
assert sorted(df.related_models(1)["democratic_num"]) == [6, 15, 30]
'''),
 dict(id="c51-label", property="C51", needs="a derivative operator with exactly two structures",
  breaks="two structures of one derivative operator get the same label",
  edits={"neutrinomass/tensormethod/deriv_operators.py": [("if len(v) > 1 else k", "if len(v) > 2 else k")]},
  demo='''from neutrinomass.tensormethod.deriv_operators import label_operators
assert label_operators({"1": ["x"], "2": ["y", "z"]}) == {"1": "x", "2a": "y", "2b": "z"}
'''),
 dict(id="c47-higgs", property="C47", needs="a quartic coupling of an exotic with the Higgs",
  breaks="quartic couplings between exotic and Higgs scalars are left out",
  edits={"neutrinomass/tensormethod/lagrangian.py": [("    quartic_terms = npoint_terms(4, all_fields)", "    quartic_terms = npoint_terms(4, all_fields[len(sm_matter) :])")]},
  demo='''from neutrinomass.tensormethod.lagrangian import generate_uv_terms
from neutrinomass.completions.core import ComplexScalar
S = ComplexScalar("S", "", charges={"y": 1, "3b": 0})
labels = {"".join(sorted(f.label for f in t.fields)) for t in generate_uv_terms({S})}
assert "HHSS" in labels, labels
'''),
 dict(id="c07-more", property="C07", needs="two objects with more indices each than are to be left",
  breaks="expressions with fewer free indices than asked for are returned as well",
  edits={"neutrinomass/tensormethod/contract.py": [("            if counter == n_target_indices:", "            if counter in (n_target_indices, n_target_indices - 4):")]},
  demo='''from neutrinomass.tensormethod.contract import contract_su2
from neutrinomass.tensormethod.core import Field
a, b = Field("A", "00003", charges={"y": 0})("i0 i1 i2"), Field("B", "00003", charges={"y": 0})("i3 i4 i5")
assert all(o.dynkin == "00004" for o in contract_su2(a, b, "00004"))
'''),
 dict(id="c47-two", property="C47", needs="two exotics of one representation and different hypercharges",
  breaks="of several exotics of one representation only one interacts",
  edits={"neutrinomass/tensormethod/lagrangian.py": [("    all_fields = sm_matter + [f.field for f in fields]", "    # one field for each representation\n    reps = {f.field.dynkin: f.field for f in fields}\n    all_fields = sm_matter + list(reps.values())")]},
  demo='''from neutrinomass.tensormethod.lagrangian import generate_uv_terms
from neutrinomass.completions.core import ComplexScalar
S = ComplexScalar("S", "", charges={"y": 1, "3b": 0})
T = ComplexScalar("T", "", charges={"y": 2, "3b": 0})
labels = [{f.label for f in t.fields} for t in generate_uv_terms({S, T})]
assert any("S" in "".join(l) and "T" in "".join(l) for l in labels), labels
'''),
]
