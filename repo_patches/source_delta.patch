From 39ec2bdef85f6e355d139f7f20d477b773a60d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 01/53] fix: conjugate only the type letter of a Lorentz index,
 whatever its case

---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a6b5fef..aa12c84 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -109,8 +109,8 @@ class Index(tensor.TensorIndex):
         # conj takes you between dotted and undotted
         if self.index_type in Index.get_lorentz_index_types().values():
             if self.index_type == "Undotted":
-                return Index(label=self.label.replace("u", "d"))
-            return Index(label=self.label.replace("d", "u"))
+                return Index(label=self.label.lower().replace("u", "d", 1))
+            return Index(label=self.label.lower().replace("d", "u", 1))
 
         # conj does nothing to isospin indices (implicit epsilon)
         # conj also does nothing to generation indices
-- 
2.43.0


From bc6c892eb6d1c24c41bcdc63de04add5829fee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 02/53] fix: hash a field independently of the order of its
 charges

---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index aa12c84..27f59ad 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -458,7 +458,7 @@ class Field:
 
         # constructe hashable structures for each unhashable
         symmetry_tuple = tuple(map(tuple, self._dict["symmetry"]))
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
 
         data = tuple(values) + (symmetry_tuple,) + (charges_tuple,)
         return hash(data)
@@ -789,7 +789,7 @@ class IndexedField(tensor.Tensor, Field):
         )
 
     def __hash__(self):
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
         return hash(
             (
                 self.label,
-- 
2.43.0


From 00de38e7c78f6dd2da62831529b0be8f6a0bcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:28 +0000
Subject: [PATCH 03/53] fix: a field stripped of its derivatives equals the
 bare field

---
 neutrinomass/tensormethod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 27f59ad..13c3fa3 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -869,7 +869,7 @@ class IndexedField(tensor.Tensor, Field):
             "nf": self.nf,
             "derivs": 0,
             "charges": {k: v for k, v in self.charges.items()},
-            "stripped": self.stripped,
+            "stripped": None,
         }
 
         kwargs = {**self.stripped, **other}
-- 
2.43.0


From 3a69dbba766cebf84ae8c896ef9c7fb90833a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 04/53] fix: strip derivatives from fermions whose chirality
 they do not flip

---
 neutrinomass/tensormethod/core.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 13c3fa3..ad2558a 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -890,15 +890,18 @@ class IndexedField(tensor.Tensor, Field):
         field = self.strip_derivs()
         undotted, dotted, colour, isospin, _ = self.indices_by_type.values()
         indices = " ".join(str(i) for i in colour + isospin)
-        lorentz = undotted + dotted
-        if field.is_fermion and self.derivs % 2 == 0:
-            lorentz = lorentz[0]
-            indices = str(lorentz) + " " + indices
-        elif field.is_fermion:
-            lorentz = lorentz[0].conj
-            # add partial symbol to index name to show that it came from derivative
-            lorentz = str(lorentz) + "∂"
-            indices = str(lorentz) + " " + indices
+        if field.is_fermion:
+            same, other = undotted, dotted
+            if not field.is_left_fermion:
+                same, other = dotted, undotted
+
+            if same:
+                lorentz = str(same[0])
+            else:
+                # add partial symbol to index name to show that it came from derivative
+                lorentz = str(other[0].conj) + "∂"
+
+            indices = lorentz + " " + indices
 
         return field(indices)
 
-- 
2.43.0


From 7d33ed46dd8b49cf31a095be1e32b85a188039b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 05/53] fix: do not return the uncontracted operator beside an
 epsilon colour singlet

---
 neutrinomass/tensormethod/contract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index 7ef3183..e0a63bc 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -52,8 +52,10 @@ def colour_singlets(operators: List[Operator], overcomplete=False):
 
         if len(ups) == 3 and not downs:
             result.append(op * eps(" ".join(str(-i) for i in ups)))
+            continue
         elif len(downs) == 3 and not ups:
             result.append(op * eps(" ".join(str(-i) for i in downs)))
+            continue
         elif len(downs) == 3 and len(ups) == 3:
             result.append(
                 op
-- 
2.43.0


From b03a75475c4e4113fbd2fdd5fcc7cc1126b2476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 06/53] fix: build invariants of repeated fields without
 indices

---
 neutrinomass/tensormethod/contract.py | 2 +-
 neutrinomass/tensormethod/core.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index e0a63bc..fa725c2 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -373,7 +373,7 @@ def clean_operators(operators):
     """Delete duplicates (ignoring relabellings) and remove vanishing operators."""
     seen, out = set(), []
     for op in operators:
-        op_tens_mul = op.simplify(fill=True)
+        op_tens_mul = op.safe_simplify(fill=True)
         if not op_tens_mul:
             continue
         if not op_tens_mul in seen:
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index ad2558a..87ba000 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1045,9 +1045,9 @@ class Operator(tensor.TensMul):
 
         return simple.canon_bp()
 
-    def safe_simplify(self):
+    def safe_simplify(self, fill=False):
         try:
-            return self.simplify()
+            return self.simplify(fill=fill)
         except IndexError:
             # deal with no index case (sometimes throws an error)
             # collect fields with indices and only use canon_bp on those
@@ -1062,7 +1062,7 @@ class Operator(tensor.TensMul):
                 return self
 
             indexed_op = reduce(lambda x, y: x * y, indexed)
-            return reduce(lambda x, y: x * y, unindexed, indexed_op.simplify())
+            return reduce(lambda x, y: x * y, unindexed, indexed_op.simplify(fill=fill))
 
     def is_equivalent_to(self, other: "Operator"):
         """Returns true if operators equal up to numerical constant or free index
-- 
2.43.0


From 7be21230573273bde71f169f8ff25a8e894ad5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 07/53] fix: reload colour deltas of a stored operator

---
 neutrinomass/tensormethod/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 87ba000..7980fba 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -981,7 +981,13 @@ class Operator(tensor.TensMul):
 
         """
         fields = pickle_form["fields"]
-        epsilons = [eps(" ".join(indices)) for indices in pickle_form["epsilons"]]
+        epsilons = []
+        for indices in pickle_form["epsilons"]:
+            # pairs of colour indices belong to deltas
+            is_delta = len(indices) == 2 and Index(indices[0]).index_type == "Colour"
+            invariant = delta if is_delta else eps
+            epsilons.append(invariant(" ".join(indices)))
+
         indexed_fields = [IndexedField(**d) for d in fields]
         return cls(*indexed_fields, *epsilons)
 
-- 
2.43.0


From df7ccf1ac90c719ad7cb8fda423106eae42586d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 08/53] fix: list the partner of a Dirac fermion with zero
 hypercharge

---
 neutrinomass/tensormethod/lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index b7ea95f..5eea270 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -114,7 +114,7 @@ def clean_fields(exotics: set):
     out = []
     for f in exotics:
         out.append(f)
-        if f.is_fermion and f.y != 0:
+        if hasattr(f, "dirac_partner"):
             out.append(f.dirac_partner())
 
     eq = lambda x, y: x.field == y.field
-- 
2.43.0


From 12de9d8852953d66ae34ae16d4ac55689074762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 09/53] fix: label the partner of a conjugated Dirac fermion
 consistently

---
 neutrinomass/completions/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 04b4c37..9e8bb96 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -331,10 +331,12 @@ class VectorLikeDiracFermion(FieldType):
 
         is_unbarred = self.is_unbarred
         symb = "~"  # indicate bar with circumflex
+        dagger = "†" if self.is_conj else ""  # stays at the end of the label
+        label = self.label.replace("†", "")
         if is_unbarred:
-            label = self.label + symb
+            label = label + symb + dagger
         else:
-            label = self.label.replace(symb, "")
+            label = label.replace(symb, "") + dagger
 
         return VectorLikeDiracFermion(
             label,
-- 
2.43.0


From 0057f7a92d93dcca73409dfbb5b926331b0cef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 10/53] fix: match empty text in patterns

---
 neutrinomass/utils/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/utils/match.py b/neutrinomass/utils/match.py
index 5edaa8c..2ce8ec5 100644
--- a/neutrinomass/utils/match.py
+++ b/neutrinomass/utils/match.py
@@ -18,7 +18,7 @@ def _match_on_collection(pattern, data, frame):
 
 
 def is_pattern_var(symbol):
-    return isinstance(symbol, str) and symbol[0] == "?"
+    return isinstance(symbol, str) and symbol.startswith("?")
 
 
 # TODO write matching tests
-- 
2.43.0


From 5db1ac5b0b526622af5c927c9f848ebfc0160ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 11/53] fix: iterate to the fixed point of the given function

---
 neutrinomass/completions/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index fa1f298..0de38c4 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -32,7 +32,7 @@ def foldr(func, xs, acc=None):
 def fixedpoint(f, x):
     """Applies f o f o f ... f(x) until output is unchanged."""
     app = f(x)
-    while application != x:
+    while app != x:
         return fixedpoint(f, app)
     return x
 
-- 
2.43.0


From 124e83d1c43a0f920f12c8be7495c03b6a7b11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 12/53] fix: import Counter for multiset comparison

---
 neutrinomass/completions/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index 0de38c4..95f9077 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import re
+from collections import Counter
 from typing import List, Callable, TypeVar
 from copy import deepcopy
 
-- 
2.43.0


From 96daddb8f17ebf7c9bbad658ecebf22bd9730c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 13/53] fix: replace the longest matching key in
 multiple_replace

---
 neutrinomass/completions/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index 95f9077..6eea251 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -48,7 +48,9 @@ def factors(n):
 
 
 def multiple_replace(mapping: dict, text: str) -> str:
-    regex = re.compile("|".join(map(re.escape, mapping.keys())))
+    # longer keys first: a key may begin with another
+    keys = sorted(mapping, key=len, reverse=True)
+    regex = re.compile("|".join(map(re.escape, keys)))
     return regex.sub(lambda mo: mapping[mo.group(0)], text)
 
 
-- 
2.43.0


From 2d6c3c834e59602472bce9fef839ac68d1154011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 14/53] fix: count three or more interchangeable fields of an
 operator

---
 neutrinomass/completions/completions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d97eec2..5bda092 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -185,9 +185,10 @@ def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
     for k, v in labelled_counts.items():
         for (f1, i1), (f2, i2) in combinations(v, 2):
             if not f1.indices_by_type["Isospin"]:
-                # fields are interchangeable, replace
-                f2_idx = labelled_counts[k].index([f2, i2])
-                labelled_counts[k][f2_idx] = [f2, i1]
+                # fields are interchangeable, replace (unless done already)
+                if [f2, i2] in labelled_counts[k]:
+                    f2_idx = labelled_counts[k].index([f2, i2])
+                    labelled_counts[k][f2_idx] = [f2, i1]
                 continue
 
             iso1 = f1.indices_by_type["Isospin"][0]
-- 
2.43.0


From 8191c6dac42b410cd573a3e0a754b81716fdec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 15/53] fix: keep the LaTeX name when conjugating a Dirac
 fermion

---
 neutrinomass/completions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 9e8bb96..39881bc 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -296,6 +296,7 @@ class VectorLikeDiracFermion(FieldType):
             label=label,
             indices=" ".join(i.conj.label for i in self.indices),
             charges={k: -v for k, v in self.charges.items()},
+            latex=self.latex,
             is_conj=(not is_conj),
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
@@ -315,6 +316,7 @@ class VectorLikeDiracFermion(FieldType):
             label=label,
             indices=" ".join(i.conj.label for i in self.indices),
             charges=self.charges,
+            latex=self.latex,
             is_conj=(not is_conj),
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
-- 
2.43.0


From aeb33c25a7c42bc882b8a7a5452660d96626691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 16/53] fix: keep the conjugation flag of a real scalar exotic

---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 39881bc..0114803 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -559,7 +559,9 @@ def cons_completion_field(indexed_field: IndexedField, is_unbarred=None) -> Fiel
 
     if indexed_field.is_scalar:
         if indexed_field.is_real_sm_irrep:
-            return RealScalar(label, indices, charges=charges, latex=latex)
+            return RealScalar(
+                label, indices, charges=charges, latex=latex, is_conj=is_conj
+            )
 
         return ComplexScalar(
             label, indices, charges=charges, latex=latex, is_conj=is_conj
-- 
2.43.0


From 379755f72859493fa7874e024fbdc67a0ec2ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 17/53] fix: copy which half of a Dirac fermion a field is

---
 neutrinomass/completions/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 0114803..09b4149 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -323,6 +323,11 @@ class VectorLikeDiracFermion(FieldType):
             comm=self.comm,
         )
 
+    def __deepcopy__(self, memo):
+        copied = super().__deepcopy__(memo)
+        copied.is_unbarred = self.is_unbarred
+        return copied
+
     def dirac_partner(self):
         undotted, dotted, colour, isospin, _ = Index.indices_by_type(
             self.indices
-- 
2.43.0


From ab73327b78d471f400b6a75e6c409526c83fb45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 18/53] fix: keep the topology when copying a completion

---
 neutrinomass/completions/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 09b4149..ac7c3bf 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -433,6 +433,7 @@ class Completion:
             graph=deepcopy(self.graph, memo),
             exotics=deepcopy(self.exotics, memo),
             terms=deepcopy(self.terms, memo),
+            topology=self.topology,
         )
 
     @property
-- 
2.43.0


From d137fdc10e7ce57dcf9cba652ccb2be15a98108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 19/53] fix: copy a lowered index as a lowered index

---
 neutrinomass/tensormethod/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 7980fba..648c0a2 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -99,6 +99,9 @@ class Index(tensor.TensorIndex):
             self.label = label.label
         self.label = str(label)  # the label that was passed in
 
+    def __getnewargs__(self):
+        return (self.label,)
+
     def __neg__(self):
         is_up = self.is_up
         new_label = "-" + self.label if is_up else self.label[1:]
-- 
2.43.0


From 6326b7c4b9b4cbcff83784913661171a87839c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 20/53] fix: keep charges and flags when copying an indexed
 field

---
 neutrinomass/tensormethod/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 648c0a2..c59c13d 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -687,6 +687,20 @@ class IndexedField(tensor.Tensor, Field):
             stripped=self.stripped,
         )
 
+    def __deepcopy__(self, memo):
+        return self.__class__(
+            label=self.label,
+            indices=deepcopy(self.index_labels, memo),
+            charges=deepcopy(self.charges, memo),
+            is_conj=self.is_conj,
+            symmetry=deepcopy(self.symmetry, memo),
+            comm=self.comm,
+            latex=self.latex,
+            nf=self.nf,
+            derivs=self.derivs,
+            stripped=deepcopy(self.stripped, memo),
+        )
+
     def substitute_indices(self, *indices):
         """Substitute indices according to ``indices`` with side effect."""
         new_indices = copy(self.indices)
-- 
2.43.0


From 409573461ba79eea50b96df3787340aa83ee93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 21/53] fix: keep the tensors when copying an operator

---
 neutrinomass/tensormethod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index c59c13d..1b4a33e 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1205,7 +1205,7 @@ class Operator(tensor.TensMul):
         return f"${self.latex()}$"
 
     def __deepcopy__(self, memo):
-        return self.__class__(tensors=deepcopy(self.tensors, memo))
+        return self.__class__(*deepcopy(self.tensors, memo))
 
     @property
     def mass_dim(self):
-- 
2.43.0


From c1b984618b86a3d832c66b2d11c5855a68270e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 22/53] fix: keep every completion when grouping by field
 content

---
 neutrinomass/completions/completions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 5bda092..e964edd 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1108,7 +1108,8 @@ def collect_completions(
         g_list = list(g)
         # slow_remove_equivalent_completions(g_list)
         k = tuple(sorted(set(k)))
-        out[k] = g_list
+        # completions with the same content need not be adjacent
+        out.setdefault(k, []).extend(g_list)
 
     return out
 
-- 
2.43.0


From f63b4c6e01855e141a96297942eb35c09aeda2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 23/53] fix: keep statistics and generations when moving
 derivatives

---
 neutrinomass/completions/completions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index e964edd..aeb2cfe 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1183,8 +1183,7 @@ def operator_strip_derivs(op: Operator) -> List[Operator]:
             if field.derivs:
                 assert field.derivs == 1
                 n_derivs += 1
-                data = field.stripped
-                new_field = Field(**data, is_conj=field.is_conj)
+                new_field = field.strip_derivs()
                 indices = field.gauge_indices
                 new_fields.append((new_field, " ".join(str(i) for i in indices)))
                 # new_fields.append((new_field, indices))
-- 
2.43.0


From 68761448132288e6e506ef013c85ba71644fd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 24/53] fix: keep every operator when forcing a database

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5d2239c..d62aaae 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -287,8 +287,7 @@ class ModelDatabase:
             return
 
         self.is_forced = True
-        for k, v in self.data.items():
-            self.data = {k: [m.force() for m in v]}
+        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From fd1a8d1a1679f6a47dfe290b92e5513da4b2e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 25/53] fix: a database read from files is not ordered yet

---
 neutrinomass/database/database.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index d62aaae..5ada6d1 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -159,6 +159,7 @@ class ModelDatabase:
         self.philosophy = philosophy
         self.criterion = criterion
         self.is_forced = False
+        self.is_ordered = False
 
         assert self.philosophy in {"democratic", "stringent"}
         assert self.criterion in {"mass", "dimension"}
-- 
2.43.0


From 8c98c9b570c9f012bd301d6a3a926e49e9f95ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 26/53] fix: find the related models of single-field models

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5ada6d1..a5cd0b8 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -144,8 +144,7 @@ class ModelDataFrame(pd.DataFrame):
             prod = reduce(operator.mul, group)
             indices += list(self[self["democratic_num"] == prod].index)
 
-        indices.remove(index)
-        return self.loc[indices]
+        return self.loc[[i for i in indices if i != index]]
 
 
 class ModelDatabase:
-- 
2.43.0


From 59fa43fb28f97600976b96e3e2226dc9dcb64167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 27/53] fix: escape LaTeX names when exporting completions

---
 neutrinomass/database/export.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index a8caf6b..b11d7c0 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -22,7 +22,7 @@ def export_tensor(tensor):
             f"nf={tensor.nf}",
             f"dynkin='{tensor.dynkin}'",
             f"comm='{tensor.comm}'",
-            f"latex='{tensor.latex}'",
+            f"latex={tensor.latex!r}",
             f"is_conj={tensor.is_conj}",
         )
 
@@ -101,7 +101,9 @@ def export_terms(terms):
 
 
 def export_exotics(exotics: set):
-    return str(set([export_tensor(f) for f in exotics])).replace('"', "")
+    if not exotics:
+        return "set()"
+    return "{" + ", ".join(export_tensor(f) for f in exotics) + "}"
 
 
 def export_completion(c: Completion, lazy=True):
@@ -135,6 +137,6 @@ def export_completion(c: Completion, lazy=True):
         % (name, str(quantum_numbers), str(plain_terms), topo)
     )
     completion_string = f"Completion(operator={eff_op}, partition={part}, graph={graph}, exotics={exotics}, terms={terms}, topology='{topo}')"
-    export_string = f"""LazyCompletion(head={head}, tail="{completion_string}")"""
+    export_string = f"""LazyCompletion(head={head}, tail={completion_string!r})"""
 
     return export_string if lazy else completion_string
-- 
2.43.0


From 38ab9614943be1389332a903f4c0f384af1f44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 28/53] fix: export which half of a Dirac fermion a field is

---
 neutrinomass/database/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index b11d7c0..13a025d 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -30,10 +30,11 @@ def export_tensor(tensor):
         is_unbarred = None
         if hasattr(tensor, "is_unbarred"):
             is_unbarred = tensor.is_unbarred
-        kwargs += (f"is_unbarred={is_unbarred}",)
 
         kwargs_str = ", ".join(kwargs)
-        indexed_field = f"ExoticField(IndexedField({kwargs_str}))"
+        indexed_field = (
+            f"ExoticField(IndexedField({kwargs_str}), is_unbarred={is_unbarred})"
+        )
         return indexed_field
 
     if isinstance(tensor, Field):
-- 
2.43.0


From 604ca2785445b31c61712778627f90359ef1ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 29/53] fix: match whole index names when expanding operator
 components

---
 neutrinomass/database/closures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index de1be9f..f6eb625 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -221,8 +221,8 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
     eval_str = ""
     indices = [("_i", "_j"), ("_k", "_l"), ("_m", "_n"), ("_p", "_q")]
     for (i, j), (a, b) in zip(epsilons, indices):
-        field_string = field_string.replace(str(-i), a)
-        field_string = field_string.replace(str(-j), b)
+        field_string = field_string.replace(f"[{-i}]", f"[{a}]")
+        field_string = field_string.replace(f"[{-j}]", f"[{b}]")
         field_string += f"*eps[{a}][{b}]"
 
     loop_ranges = [1, 1, 1, 1, 1, 1, 1, 1]
-- 
2.43.0


From e44e758ed923d2fae5bf9dc2fc5b3ef9372472cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 30/53] fix: conserve charge when a lepton emits a charged
 scalar in closures

---
 neutrinomass/database/closures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index f6eb625..cfa546c 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -118,7 +118,7 @@ RULES = {
     Op(c(hp), c(ub), RST): Op(Const(yu), d, Const(loop), RST),
     Op(hp, u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
     # make hp
-    Op(c(eb), nu, RST): Op(Const(ye), hp, nu, nu, RST),
+    Op(c(eb), nu, RST): Op(Const(ye), c(hp), nu, nu, RST),
     # vev
     Op(h0, RST): Op(Const(v), RST),
     Op(c(h0), RST): Op(Const(v), RST),
-- 
2.43.0


From 80444a5e0d1e7b1a6da9fb9ab1f0070cbe8ba936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 31/53] fix: conserve charge and doublet parity when closing
 hp, u and c(d)

---
 neutrinomass/database/closures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index cfa546c..896d513 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -116,7 +116,7 @@ RULES = {
     Op(hp, d, RST): Op(Const(yu), c(ub), Const(loop), RST),
     Op(hp, ub, RST): Op(Const(yu), c(d), Const(loop), RST),
     Op(c(hp), c(ub), RST): Op(Const(yu), d, Const(loop), RST),
-    Op(hp, u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
+    Op(c(hp), u, c(d), RST): Op(Const(v), Const(g2), Const(loop), Const(loop), RST),
     # make hp
     Op(c(eb), nu, RST): Op(Const(ye), c(hp), nu, nu, RST),
     # vev
-- 
2.43.0


From 7e61d8fccc88ae291d7b7e859ea2592b504ab6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 32/53] fix: no quark mass insertions when closing left-handed
 quarks through a W

---
 neutrinomass/database/closures.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index 896d513..ab78753 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -85,9 +85,6 @@ RULES = {
         Const(g2),
         Const(loop),
         Const(loop),
-        Const(loopv2),
-        Const(yu),
-        Const(yd),
         Const(ye),
         nu,
         RST,
-- 
2.43.0


From ac95f1b377758f6f0d162ba5b2de3dff7119b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 33/53] fix: Hermitian conjugate of symbolic mixing matrices

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index a6c7faa..ce940fb 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -101,7 +101,7 @@ class UnitaryMatrix(object):
         return self.val.T
 
     def get_dagger(self):
-        return self.val.getH()
+        return self.val.H
 
 
 # Measured squared neutrino mass differences
-- 
2.43.0


From aeb66fc198b4a7fa52c3c3810486e3c520ac1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 34/53] fix: the CP phase of the CKM matrix is measured in
 radians

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index ce940fb..9599b2c 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -122,7 +122,7 @@ PMNS = UnitaryMatrix()
 THETA12_CKM = np.deg2rad(13.04)
 THETA13_CKM = np.deg2rad(0.201)
 THETA23_CKM = np.deg2rad(2.38)
-DELTA_CP_CKM = np.deg2rad(1.20)
+DELTA_CP_CKM = 1.20  # in radians
 
 CKM = UnitaryMatrix(
     c12=np.cos(THETA12_CKM),
-- 
2.43.0


From 3829cfdd569e751f417b04cc6793587f4a9a313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 35/53] fix: rename exotic fields before comparing canonical
 forms

---
 neutrinomass/completions/completions.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index aeb2cfe..f40b837 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -54,7 +54,7 @@ from alive_progress import alive_bar
 
 from collections import Counter, defaultdict
 from itertools import permutations, groupby, combinations
-from sympy.tensor.tensor import Tensor
+from sympy.tensor.tensor import Tensor, TensorHead, TensorManager
 from sympy import prime
 
 from functools import lru_cache, reduce
@@ -995,6 +995,25 @@ def sort_strings(terms: List[List[str]]):
     return set(map(lambda x: tuple(sorted(x)), data))
 
 
+def relabel_fields(term: Operator, remapping: Dict[str, str]) -> Operator:
+    """Returns `term` with its fields renamed according to `remapping`."""
+    tensors = []
+    for t in term.tensors:
+        # the label may carry marks for conjugates and partners
+        label = str(t.component).split("(")[0]
+        base = label.rstrip("†~")
+        marks = label[len(base) :]
+        new_label = remapping.get(label, remapping.get(base, base) + marks)
+        if new_label != label:
+            # same index types, symmetries and statistics
+            comm = TensorManager.comm_i2symbol(t.component.comm)
+            head = TensorHead(new_label, t.component.args[1], comm)
+            t = IndexedField(head, t.indices, charges=t.charges)
+        tensors.append(t)
+
+    return reduce(lambda x, y: x * y, tensors)
+
+
 def check_remapping_on_terms(terms1, terms2, remapping):
     """Return the remapping on the field labels in the terms that would get you from
     one to the other, i.e. return the isomorphism if one exists, otherwise
@@ -1004,9 +1023,9 @@ def check_remapping_on_terms(terms1, terms2, remapping):
     new_terms = set()
     for term in terms1:
         for k, v in remapping.items():
-            simple = term.safe_simplify()
+            # relabel before simplifying: the canonical form depends on the names
+            simple = relabel_fields(term, remapping).safe_simplify()
             s = str(safe_nocoeff(simple))
-            s = multiple_replace(remapping, s)
             # remove generation indices in comparison
             s = re.sub(r"g[0-9]+_", "g_", s)
             # remove negative signs on indices
-- 
2.43.0


From 827f371d12428b7dc1f6ed3d162934b61dc8f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 36/53] fix: compare completions with several fields of the
 same quantum numbers

---
 neutrinomass/completions/completions.py | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index f40b837..12d3cfc 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -53,7 +53,7 @@ from copy import copy, deepcopy
 from alive_progress import alive_bar
 
 from collections import Counter, defaultdict
-from itertools import permutations, groupby, combinations
+from itertools import permutations, groupby, combinations, product
 from sympy.tensor.tensor import Tensor, TensorHead, TensorManager
 from sympy import prime
 
@@ -1011,7 +1011,7 @@ def relabel_fields(term: Operator, remapping: Dict[str, str]) -> Operator:
             t = IndexedField(head, t.indices, charges=t.charges)
         tensors.append(t)
 
-    return reduce(lambda x, y: x * y, tensors)
+    return Operator(*tensors)
 
 
 def check_remapping_on_terms(terms1, terms2, remapping):
@@ -1071,17 +1071,26 @@ def compare_terms(comp1: Completion, comp2: Completion) -> Dict[str, str]:
     if len(comp1.terms) != len(comp2.terms):
         return {}
 
-    # qnumbers -> label
-    rev_map2 = {
-        qnumbers: field.label for field, qnumbers in comp2.exotic_info().items()
-    }
-    remapping = {
-        # rev_map2[qnumbers]: field.label
-        field.label: rev_map2[qnumbers]
-        for field, qnumbers in comp1.exotic_info().items()
-    }
+    # qnumbers -> labels, there may be several fields with the same numbers
+    labels1, labels2 = defaultdict(set), defaultdict(set)
+    for comp, labels in ((comp1, labels1), (comp2, labels2)):
+        for field, qnumbers in comp.exotic_info().items():
+            labels[qnumbers].add(field.label)
+
+    if any(len(labels1[k]) != len(labels2[k]) for k in labels1):
+        return {}
 
-    return check_remapping_on_terms(comp1.terms, comp2.terms, remapping)
+    # try all relabellings of fields with the same numbers
+    groups = [
+        [dict(zip(sorted(labels1[k]), p)) for p in permutations(sorted(labels2[k]))]
+        for k in labels1
+    ]
+    for choice in product(*groups):
+        remapping = {k: v for part in choice for k, v in part.items()}
+        if check_remapping_on_terms(comp1.terms, comp2.terms, remapping):
+            return remapping
+
+    return {}
 
 
 def are_equivalent_completions(comp1: Completion, comp2: Completion) -> bool:
-- 
2.43.0


From a3ad6ea10f0704e2d2c5ceb720f29163c8d0cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 37/53] fix: vanishing operators with index-free fields
 simplify to zero

---
 neutrinomass/tensormethod/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 1b4a33e..82cfc92 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1084,8 +1084,11 @@ class Operator(tensor.TensMul):
             if not indexed:
                 return self
 
-            indexed_op = reduce(lambda x, y: x * y, indexed)
-            return reduce(lambda x, y: x * y, unindexed, indexed_op.simplify(fill=fill))
+            simple = Operator(*indexed).simplify(fill=fill)
+            if simple == 0:
+                return 0
+
+            return reduce(lambda x, y: x * y, unindexed, simple)
 
     def is_equivalent_to(self, other: "Operator"):
         """Returns true if operators equal up to numerical constant or free index
-- 
2.43.0


From 2dd8e31b96455fa55fd6cd784cfacf75f571faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 38/53] fix: leave identically vanishing terms out of the full
 Lagrangian

---
 neutrinomass/tensormethod/lagrangian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index 5eea270..9e0fd79 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -192,7 +192,8 @@ def generate_uv_terms(fields: set):
 
     out = []
     for term in [*cubic_terms, *quartic_terms]:
-        if term.mass_dim <= 4:
+        # identically vanishing terms don't constrain the symmetries
+        if term.mass_dim <= 4 and term.nocoeff.safe_simplify() != 0:
             out.append(term)
 
     eq = lambda x, y: x.nocoeff.safe_simplify() == y.nocoeff.safe_simplify()
-- 
2.43.0


From 48366b9f6016600682f5478737cea3aadc883f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 39/53] fix: list mass terms once in the full Lagrangian

---
 neutrinomass/tensormethod/lagrangian.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index 9e0fd79..af3b064 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -161,9 +161,8 @@ class Lagrangian:
         return len(self.u1_symmetries())
 
     def generate_full(self):
-        interaction_terms = generate_uv_terms(self.fields)
-        exotic_mass_terms = [f.mass_term for f in self.fields]
-        return Lagrangian(self.exotics, interaction_terms + exotic_mass_terms)
+        # mass terms are added in `terms`
+        return Lagrangian(self.exotics, generate_uv_terms(self.fields))
 
 
 def term_to_row(term, exotics, exotic_indices):
-- 
2.43.0


From 3fa725b7c26a15ffe766eb3535a9c1069ead45f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 40/53] fix: LaTeX of operators with fields of longer names

---
 neutrinomass/tensormethod/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 82cfc92..c62b265 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1137,11 +1137,11 @@ class Operator(tensor.TensMul):
     def latex(self, ignore=None):
         # ordering of fields within the oeprator and style of indices
         field_ordering = ["L", "e", "Q", "u", "d", "H", "B", "W", "G"]
+        # extract first non D in field name e.g. H for DDH
+        first_non_deriv = lambda f: str(f).split("D")[-1][0]
         for field in self.indexed_fields:
-            f, fc = field, field.conj
-            if hasattr(f, "label") and not f.label in field_ordering:
-                field_ordering.append(f.label.replace("~", ""))
-                field_ordering.append(fc.label.replace("~", ""))
+            if first_non_deriv(field) not in field_ordering:
+                field_ordering.append(first_non_deriv(field))
 
         # indices i, j, ... q used for isospin
         isospin_indices = list(ascii_lowercase[8:])
@@ -1160,8 +1160,6 @@ class Operator(tensor.TensMul):
             for char in ignore:
                 style.pop(char)
 
-        # extract first non D in field name e.g. H for DDH
-        first_non_deriv = lambda f: str(f).split("D")[-1][0]
         order_func = lambda f: field_ordering.index(first_non_deriv(f))
         sorted_fields = sorted(self.indexed_fields, key=order_func)
 
-- 
2.43.0


From 00ee018ededa8ae3612dcee1243657063da7d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 41/53] fix: LaTeX of operators with contracted indices that
 are ignored

---
 neutrinomass/tensormethod/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index c62b265..7752c5b 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1173,6 +1173,10 @@ class Operator(tensor.TensMul):
 
         latex_epsilons = []
         for epsilon in self.epsilons:
+            # contractions of the indices you don't care about aren't printed
+            if Index.get_index_labels()[epsilon.indices[0].index_type] not in style:
+                continue
+
             symb = r"\epsilon"
             # tread deltas differently
             if str(epsilon)[0] == "K":
-- 
2.43.0


From 8ba46a0dbdf8ba799e3e0c60516eb62b2221b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 42/53] fix: export graphs whose edges carry labels to JSON

---
 neutrinomass/database/json_serialiser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/json_serialiser.py b/neutrinomass/database/json_serialiser.py
index 454383a..bf76c54 100644
--- a/neutrinomass/database/json_serialiser.py
+++ b/neutrinomass/database/json_serialiser.py
@@ -89,8 +89,12 @@ def export_partition(expr):
 
 def export_graph(g: nx.Graph):
     data = nx.readwrite.json_graph.node_link_data(g)
-    for link in data["links"]:
-        link["particle"] = export_tensor(link["particle"])
+    # the key depends on the version of networkx
+    links = data["links"] if "links" in data else data["edges"]
+    for link in links:
+        # graphs of completions carry the label of the exotic
+        if not isinstance(link["particle"], str):
+            link["particle"] = export_tensor(link["particle"])
 
     return data
 
-- 
2.43.0


From 28460ab75bc9b4d0c49f5f701c6bbdae343ce7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 43/53] fix: colours of one-loop Weinberg models

---
 neutrinomass/database/heavyloops.py | 56 ++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/neutrinomass/database/heavyloops.py b/neutrinomass/database/heavyloops.py
index 86bc252..0931f75 100644
--- a/neutrinomass/database/heavyloops.py
+++ b/neutrinomass/database/heavyloops.py
@@ -55,27 +55,27 @@ def tbl_2_1(i: list, a: Rational):
         ),
         (
             f"S,10,{i[0]-1},{a}",
-            f"S,01,{i[1]-1},{a-Rational(1,2)}",
+            f"S,10,{i[1]-1},{a-Rational(1,2)}",
             f"F,10,{i[2]-1},{a}",
-            f"S,01,{i[3]-1},{Rational(1,2) + a}",
+            f"S,10,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,01,{i[0]-1},{a}",
-            f"S,10,{i[1]-1},{a-Rational(1,2)}",
+            f"S,01,{i[1]-1},{a-Rational(1,2)}",
             f"F,01,{i[2]-1},{a}",
-            f"S,10,{i[3]-1},{Rational(1,2) + a}",
+            f"S,01,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,02,{i[0]-1},{a}",
-            f"S,20,{i[1]-1},{a-Rational(1,2)}",
+            f"S,02,{i[1]-1},{a-Rational(1,2)}",
             f"F,02,{i[2]-1},{a}",
-            f"S,20,{i[3]-1},{Rational(1,2) + a}",
+            f"S,02,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,20,{i[0]-1},{a}",
-            f"S,02,{i[1]-1},{a-Rational(1,2)}",
+            f"S,20,{i[1]-1},{a-Rational(1,2)}",
             f"F,20,{i[2]-1},{a}",
-            f"S,02,{i[3]-1},{Rational(1,2) + a}",
+            f"S,20,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,11,{i[0]-1},{a}",
@@ -96,27 +96,27 @@ def tbl_2_2(i: list, a: Rational):
         ),
         (
             f"F,10,{i[0]-1},{a}",
-            f"S,01,{i[1]-1},{a+Rational(1,2)}",
+            f"S,10,{i[1]-1},{a+Rational(1,2)}",
             f"S,10,{i[2]-1},{a}",
-            f"F,01,{i[3]-1},{Rational(1,2) + a}",
+            f"F,10,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,01,{i[0]-1},{a}",
-            f"S,10,{i[1]-1},{a+Rational(1,2)}",
+            f"S,01,{i[1]-1},{a+Rational(1,2)}",
             f"S,01,{i[2]-1},{a}",
-            f"F,10,{i[3]-1},{Rational(1,2) + a}",
+            f"F,01,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,02,{i[0]-1},{a}",
-            f"S,20,{i[1]-1},{a+Rational(1,2)}",
+            f"S,02,{i[1]-1},{a+Rational(1,2)}",
             f"S,02,{i[2]-1},{a}",
-            f"F,20,{i[3]-1},{Rational(1,2) + a}",
+            f"F,02,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,20,{i[0]-1},{a}",
-            f"S,02,{i[1]-1},{a+Rational(1,2)}",
+            f"S,20,{i[1]-1},{a+Rational(1,2)}",
             f"S,20,{i[2]-1},{a}",
-            f"F,02,{i[3]-1},{Rational(1,2) + a}",
+            f"F,20,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,11,{i[0]-1},{a}",
@@ -137,27 +137,27 @@ def tbl_2_3(i: list, a: Rational):
         ),
         (
             f"F,10,{i[0]-1},{a}",
-            f"F,01,{i[1]-1},{a+Rational(1,2)}",
+            f"F,10,{i[1]-1},{a+Rational(1,2)}",
             f"S,10,{i[2]-1},{a}",
-            f"F,01,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,10,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,01,{i[0]-1},{a}",
-            f"F,10,{i[1]-1},{a+Rational(1,2)}",
+            f"F,01,{i[1]-1},{a+Rational(1,2)}",
             f"S,01,{i[2]-1},{a}",
-            f"F,10,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,01,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,02,{i[0]-1},{a}",
-            f"F,20,{i[1]-1},{a+Rational(1,2)}",
+            f"F,02,{i[1]-1},{a+Rational(1,2)}",
             f"S,02,{i[2]-1},{a}",
-            f"F,20,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,02,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,20,{i[0]-1},{a}",
-            f"F,02,{i[1]-1},{a+Rational(1,2)}",
+            f"F,20,{i[1]-1},{a+Rational(1,2)}",
             f"S,20,{i[2]-1},{a}",
-            f"F,02,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,20,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,11,{i[0]-1},{a}",
@@ -178,22 +178,22 @@ def tbl_3_1(i: list, a: Rational):
         (
             f"S,10,{i[0]-1},{a}",
             f"S,10,{i[1]-1},{1+a}",
-            f"F,01,{i[2]-1},{Rational(1,2) + a}",
+            f"F,10,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,01,{i[0]-1},{a}",
             f"S,01,{i[1]-1},{1+a}",
-            f"F,10,{i[2]-1},{Rational(1,2) + a}",
+            f"F,01,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,02,{i[0]-1},{a}",
             f"S,02,{i[1]-1},{1+a}",
-            f"F,20,{i[2]-1},{Rational(1,2) + a}",
+            f"F,02,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,20,{i[0]-1},{a}",
             f"S,20,{i[1]-1},{1+a}",
-            f"F,02,{i[2]-1},{Rational(1,2) + a}",
+            f"F,20,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,11,{i[0]-1},{a}",
-- 
2.43.0


From 13e0fbecae4a045fb343d167971ef5b79601cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 44/53] fix: statistics of exotic fermions in tensor heads

---
 neutrinomass/completions/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index ac7c3bf..bb32f93 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -188,6 +188,10 @@ class RealScalar(FieldType):
 
 
 class MajoranaFermion(FieldType):
+    def __new__(cls, label, indices, **kwargs):
+        # the statistics also belong to the tensor head
+        return super().__new__(cls, label, indices, **{**kwargs, "comm": FERMI})
+
     def __init__(
         self, label, indices, charges=None, latex=None, is_conj=False, **kwargs
     ):
@@ -252,6 +256,10 @@ class VectorLikeDiracFermion(FieldType):
 
     """
 
+    def __new__(cls, label, indices, **kwargs):
+        # the statistics also belong to the tensor head
+        return super().__new__(cls, label, indices, **{**kwargs, "comm": FERMI})
+
     def __init__(
         self,
         label,
-- 
2.43.0


From 4a22701c37e83d8447720e9d37f29be69a577059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 45/53] fix: choose the derivative placement with the most
 structures

---
 neutrinomass/tensormethod/deriv_operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/deriv_operators.py b/neutrinomass/tensormethod/deriv_operators.py
index e250ea6..e71420d 100644
--- a/neutrinomass/tensormethod/deriv_operators.py
+++ b/neutrinomass/tensormethod/deriv_operators.py
@@ -81,7 +81,7 @@ def remove_unwanted_deriv_structures(fieldstrings: List[Field]) -> List[Field]:
             if field.derivs and field.lorentz_irrep not in ((1, 1), (0, 1), (1, 0)):
                 break
 
-            if field.derivs == 2:
+            if field.derivs > 1:
                 break
 
         else:
@@ -97,6 +97,7 @@ def keep_longest_invariants(fieldstrings: List[Field]) -> List[Operator]:
     for fieldstring in fieldstrings:
         invs = invariants(*fieldstring)
         if len(invs) > longest_len:
+            longest_len = len(invs)
             longest = invs
 
     if longest is None:
-- 
2.43.0


From 4636835be64e8259642e79e9cb175d2fe2fa49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 46/53] fix: one symbol for exotics of one representation only

---
 neutrinomass/completions/completions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 12d3cfc..8967dc3 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -508,13 +508,14 @@ def exotic_field_and_term(
         symbols_to_use = symbols["boson"]
 
     fs = sorted([f.field for f in fields], key=lambda x: x.label_with_dagger)
-    fs = tuple(fs)
-    if fs in field_dict.keys():
-        symbol = field_dict[fs]
+    # the same fields can be contracted into different representations
+    key = (tuple(fs), get_dynkin(exotic_indices))
+    if key in field_dict.keys():
+        symbol = field_dict[key]
     else:
         symbol = symbols_to_use.pop(0)
         # field_dict mutated here!
-        field_dict[fs] = symbol
+        field_dict[key] = symbol
 
     # for Dirac and Majorana fermions, always keep plain symbol left handed
     to_conj = False
-- 
2.43.0


From 32c65dcd97c74bf27bad32aec115ca4922f803a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 47/53] fix: Lorentz contractions of three spinor indices

---
 neutrinomass/completions/completions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 8967dc3..b303d58 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -376,7 +376,7 @@ def get_lorentz_epsilons(fields: Tuple[IndexedField]) -> Tuple[bool, List[Tensor
     undotted, dotted, _, _, _, = prod.indices_by_type.values()
 
     # Reject vector contraction
-    if len(undotted) == 1 and len(dotted) == 1:
+    if len(undotted) % 2 == 1 and len(dotted) % 2 == 1:
         return False, []
 
     epsilons = []
@@ -387,7 +387,7 @@ def get_lorentz_epsilons(fields: Tuple[IndexedField]) -> Tuple[bool, List[Tensor
 
         # pair up all even indices; if odd, leave last index
         if len(indices) % 2 != 0:
-            indices.pop(-1)
+            indices = indices[:-1]
 
         for i, j in chunks(indices, 2):
             epsilons.append(eps(f"-{i} -{j}"))
-- 
2.43.0


From 1e8bde02a1a2acc0663c0bed98cffa74fb99dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 48/53] fix: dispatch of completions and vanishing derivative
 operators

---
 neutrinomass/completions/completions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index b303d58..27d8750 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -911,7 +911,7 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
             return proc_term
 
         if proc_term.safe_simplify() == 0:
-            return f"Vanishing coupling at {maybe_term} after derivative processing."
+            return f"Vanishing coupling at {prod} after derivative processing."
 
     # make sure the term is a singlet
     check_singlet(proc_term)
@@ -1295,18 +1295,18 @@ def deriv_operator_completions(
 
     comps = []
     for combo in deriv_combos:
-        if combo.operator.simplify() == 0:
+        if combo.operator.safe_simplify() == 0:
             continue
         comps += list(operator_completions(combo, verbose=verbose))
 
     return comps
 
 
-def completions(*args, **kwargs):
+def completions(operator, *args, **kwargs):
     """General dispatch function for completions"""
     if "D" in operator.name:
-        return deriv_operator_completions(*args, **kwargs)
-    return operator_completions(*args, **kwargs)
+        return deriv_operator_completions(operator, *args, **kwargs)
+    return operator_completions(operator, *args, **kwargs)
 
 
 def collect_models(comps):
-- 
2.43.0


From 66c0b5f52d227bab4162d04fa242bc7cc6798c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 49/53] fix: refuse completions whose last coupling vanishes

---
 neutrinomass/completions/completions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 27d8750..ea1bf16 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -901,8 +901,11 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
     if n_derivs == 0:
         proc_term = prod
 
-        if isinstance(proc_term, str):
-            return proc_term
+        # only terms with doubled up fields can vanish, as in
+        # `exotic_field_and_term`
+        set_fields = set([f.label for f in fields])
+        if len(set_fields) < len(fields) and prod.safe_simplify() == 0:
+            return f"Vanishing coupling at {prod}"
 
     else:
         proc_term = process_derivative_term(prod)
-- 
2.43.0


From edc4d381941a7d856238383c341c5ade0539351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 50/53] fix: keep every internal line of repeated exotics

---
 neutrinomass/completions/completions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index ea1bf16..d8e3118 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -771,7 +771,7 @@ def replace_and_mutate(
     gauge_epsilons: list,
     lorentz_epsilons: list,
     terms: list,
-    edge_dict: Dict[FieldType, Tuple[int, int]],
+    edge_dict: Dict[Tuple[int, int], FieldType],
     field_dict: Dict[tuple, str],
     graph: nx.Graph,
 ) -> Leaf:
@@ -814,7 +814,7 @@ def replace_and_mutate(
 
     # update edge_dict
     exotic_edge = get_connecting_edge(graph, nodes)
-    edge_dict[exotic_field] = exotic_edge
+    edge_dict[exotic_edge] = exotic_field
 
     return Leaf(exotic_field, exotic_edge[0])
 
@@ -941,10 +941,10 @@ def partition_completion(partition) -> Union[Completion, FailedCompletion]:
         return FailedCompletion(args)
 
     explicit_op = reduce(lambda a, b: a * b, lorentz_epsilons, op.operator)
-    exotics = set(f for f in edge_dict.keys())
+    exotics = set(f for f in edge_dict.values())
     eff_operator = EffectiveOperator(op.name, explicit_op)
 
-    new_edge_attrs = {v: {"particle": k.label} for k, v in edge_dict.items()}
+    new_edge_attrs = {k: {"particle": v.label} for k, v in edge_dict.items()}
     nx.set_edge_attributes(graph, new_edge_attrs)
 
     return Completion(
-- 
2.43.0


From b29bc3d3bfc4c7e0c12a7dc876799bfb65cada49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 51/53] fix: field strings from a list of fields

---
 neutrinomass/tensormethod/lagrangian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index af3b064..c1e7456 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -42,6 +42,7 @@ def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None
     db.charges["l"] = 0
     H.charges["l"] = 0
 
+    fields = tuple(fields)
     conjs = tuple([f.conj for f in fields])
     if derivs:
         T = Field("D", "11000", charges={"y": 0, "3b": 0, "l": 0})
-- 
2.43.0


From 381080d8199ddde22278b568666019ae3a35213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 52/53] fix: listing field strings leaves the standard model
 fields as they are

---
 neutrinomass/tensormethod/lagrangian.py | 27 +++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index c1e7456..2596c1b 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -6,6 +6,7 @@ finding.
 """
 
 from itertools import combinations_with_replacement
+from copy import copy
 from alive_progress import alive_bar
 from sympy import Matrix
 from sympy.tensor.tensor import tensorhead
@@ -34,15 +35,22 @@ def make_coupling(symbol: str, indices: str, sym=None):
     return tensorhead(symbol, [Index(i) for i in indices_list], sym)
 
 
+def with_lepton_number(field: Field) -> Field:
+    """Returns a copy of an SM field that carries lepton number, other fields as
+    they are.
+
+    """
+    for sm_field, l in [(L, 1), (eb, -1), (Q, 0), (ub, 0), (db, 0), (H, 0)]:
+        if field is sm_field:
+            field = copy(field)
+            field.charges = {**field.charges, "l": l}
+            return field
+
+    return field
+
+
 def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None):
-    L.charges["l"] = 1
-    eb.charges["l"] = -1
-    Q.charges["l"] = 0
-    ub.charges["l"] = 0
-    db.charges["l"] = 0
-    H.charges["l"] = 0
-
-    fields = tuple(fields)
+    fields = tuple(with_lepton_number(f) for f in fields)
     conjs = tuple([f.conj for f in fields])
     if derivs:
         T = Field("D", "11000", charges={"y": 0, "3b": 0, "l": 0})
@@ -65,9 +73,6 @@ def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None
                 terms += [singlets[0]]
             bar()
 
-    # for f in [L, eb, Q, ub, db, H]:
-    #     del f.charges["l"]
-
     return terms
 
 
-- 
2.43.0


From f5683276a3dc8bb598d0129c7bb9760250b7a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 53/53] fix: importing the SMEFT module leaves the standard
 model fields as they are

---
 neutrinomass/tensormethod/smeft.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/neutrinomass/tensormethod/smeft.py b/neutrinomass/tensormethod/smeft.py
index 4d3949b..3277a07 100644
--- a/neutrinomass/tensormethod/smeft.py
+++ b/neutrinomass/tensormethod/smeft.py
@@ -2,6 +2,7 @@
 
 """Functions to generate ΔL = 2 SMEFT operators"""
 
+from copy import copy
 from typing import List
 from itertools import combinations_with_replacement
 
@@ -11,13 +12,10 @@ from neutrinomass.tensormethod.core import Field, Operator, Prod, decompose_prod
 # from neutrinomass.tensormethod.contract import construct_operators
 
 
-# add lepton number
-L.charges["L"] = 1
-Q.charges["L"] = 0
-H.charges["L"] = 0
-ub.charges["L"] = 0
-db.charges["L"] = 0
-eb.charges["L"] = -1
+# add lepton number, to copies: the fields themselves are used elsewhere
+L, Q, H, eb, ub, db = [copy(f) for f in (L, Q, H, eb, ub, db)]
+for field, lepton_number in [(L, 1), (Q, 0), (H, 0), (ub, 0), (db, 0), (eb, -1)]:
+    field.charges = {**field.charges, "L": lepton_number}
 
 SM = [L, Q, H, eb, ub, db]
 FIELDS = SM + [f.conj for f in SM]
-- 
2.43.0

