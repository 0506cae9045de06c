From e4bdfcdfec34a29a7dfb03ecea0bc007ae731102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 01/57] fix: equal fields hash equally whatever the order of
 their charges

---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a6b5fef..58772c6 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -458,7 +458,7 @@ class Field:
 
         # constructe hashable structures for each unhashable
         symmetry_tuple = tuple(map(tuple, self._dict["symmetry"]))
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
 
         data = tuple(values) + (symmetry_tuple,) + (charges_tuple,)
         return hash(data)
@@ -789,7 +789,7 @@ class IndexedField(tensor.Tensor, Field):
         )
 
     def __hash__(self):
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
         return hash(
             (
                 self.label,
-- 
2.43.0


From a6b19e16984d0c232d7f52f7506e4affe97aed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 02/57] fix: conjugating a vector-like fermion keeps its latex
 form

---
 neutrinomass/completions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 04b4c37..f8402c4 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -296,6 +296,7 @@ class VectorLikeDiracFermion(FieldType):
             label=label,
             indices=" ".join(i.conj.label for i in self.indices),
             charges={k: -v for k, v in self.charges.items()},
+            latex=self.latex,
             is_conj=(not is_conj),
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
@@ -315,6 +316,7 @@ class VectorLikeDiracFermion(FieldType):
             label=label,
             indices=" ".join(i.conj.label for i in self.indices),
             charges=self.charges,
+            latex=self.latex,
             is_conj=(not is_conj),
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
-- 
2.43.0


From ea79aa5643ece51d16c37e06fa3fc6483a505341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 03/57] fix: contracting three raised or three lowered colour
 indices leaves no free ones

---
 neutrinomass/tensormethod/contract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index 7ef3183..e0a63bc 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -52,8 +52,10 @@ def colour_singlets(operators: List[Operator], overcomplete=False):
 
         if len(ups) == 3 and not downs:
             result.append(op * eps(" ".join(str(-i) for i in ups)))
+            continue
         elif len(downs) == 3 and not ups:
             result.append(op * eps(" ".join(str(-i) for i in downs)))
+            continue
         elif len(downs) == 3 and len(ups) == 3:
             result.append(
                 op
-- 
2.43.0


From f367a6ffff4c812eda90c7fe529d7adf200d1eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 04/57] fix: filling free indices does not reuse the name of a
 contracted index

---
 neutrinomass/tensormethod/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 58772c6..72fc1b3 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1070,14 +1070,21 @@ class Operator(tensor.TensMul):
         return self.nocoeff == other.nocoeff
 
     def fill_free_indices(self):
+        # names of contracted indices can't be given to free ones
+        free_names = {i.name for i in self.free_indices}
+        taken = {i.name for t in self.tensors for i in t.get_indices()} - free_names
+
         store = defaultdict(int)
         replacements = []
         for index_type, idxs in self.indices_by_type.items():
             for i in idxs:
-                n = store[Index.get_index_labels()[index_type]]
-                new_index = Index.cons_index(index_type, n, i.is_up)
+                label = Index.get_index_labels()[index_type]
+                while f"{label}{store[label]}" in taken:
+                    store[label] += 1
+
+                new_index = Index.cons_index(index_type, store[label], i.is_up)
 
-                store[Index.get_index_labels()[index_type]] += 1
+                store[label] += 1
                 replacements.append((i, new_index))
 
         tensors = [t.fun_eval(*replacements) for t in self.tensors]
-- 
2.43.0


From b00b81b7e6a0f595d616421617105ce55ac9ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 05/57] fix: exotic fields carry the statistics and index
 symmetries of their representation

---
 neutrinomass/completions/core.py  | 8 ++++++--
 neutrinomass/tensormethod/core.py | 8 ++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index f8402c4..b5095d8 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -24,8 +24,12 @@ from neutrinomass.tensormethod.lagrangian import Lagrangian
 class FieldType(IndexedField):
     """Base class for exotic fields."""
 
-    def __new__(cls, *args, **kwargs):
-        return super(FieldType, cls).__new__(cls, *args, **kwargs)
+    def __new__(cls, label, indices, *args, **kwargs):
+        # statistics and index symmetry follow from the indices
+        undotted, dotted, *_ = map(int, get_dynkin(indices))
+        kwargs["comm"] = FERMI if (undotted + dotted) % 2 else BOSE
+        kwargs["symmetry"] = None
+        return super(FieldType, cls).__new__(cls, label, indices, **kwargs)
 
     def lower_su2(self, skip=[]):
         undotted, dotted, _, isospin, _ = self.indices_by_type.values()
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 72fc1b3..cafe122 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -603,10 +603,10 @@ class IndexedField(tensor.Tensor, Field):
         index_types = [i.tensor_index_type for i in tensor_indices]
 
         if symmetry is None:
-            n_gauge_indices = (
-                len(indices) if GENERATION not in index_types else len(indices) - 1
-            )
-            symmetry = [[1] * n_gauge_indices] if indices else []
+            # symmetric in neighbouring indices of the same type and height
+            key = lambda i: (i.index_type, i.is_up)
+            gauge_indices = [i for i in tensor_indices if i.index_type != "Generation"]
+            symmetry = [[1] * len(list(g)) for _, g in groupby(gauge_indices, key=key)]
 
         if isinstance(label, tensor.TensorHead):
             tensor_head = label
-- 
2.43.0


From 37a4c44d8b7461a838d36a4961163abc437d6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 06/57] fix: simplifying operators with fields without indices

---
 neutrinomass/tensormethod/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index cafe122..c7bed9e 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1058,8 +1058,14 @@ class Operator(tensor.TensMul):
             if not indexed:
                 return self
 
-            indexed_op = reduce(lambda x, y: x * y, indexed)
-            return reduce(lambda x, y: x * y, unindexed, indexed_op.simplify())
+            # nothing to simplify in a single tensor
+            indexed_op = indexed[0]
+            if len(indexed) > 1:
+                indexed_op = Operator(*indexed).simplify()
+                if indexed_op == 0:
+                    return 0
+
+            return reduce(lambda x, y: x * y, unindexed, indexed_op)
 
     def is_equivalent_to(self, other: "Operator"):
         """Returns true if operators equal up to numerical constant or free index
-- 
2.43.0


From 91ec12d2ec6c7680fce2396719ca81b167261e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 07/57] fix: conjugate fields keep their index symmetry on the
 right indices

---
 neutrinomass/tensormethod/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index c7bed9e..bb83d5d 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -498,6 +498,16 @@ class Field:
         ]
         return irreps
 
+    @property
+    def conj_symmetry(self):
+        """Index symmetry of the conjugate field: the default one follows the conjugate
+        representation.
+
+        """
+        if self.symmetry == [[1] * i for i in self.dynkin_ints if i]:
+            return None
+        return self.symmetry
+
     @property
     def conj(self):
         dynkin = self.lorentz_irrep[::-1] + self.colour_irrep[::-1] + self.isospin_irrep
@@ -506,7 +516,7 @@ class Field:
             dynkin="".join(str(d) for d in dynkin),
             charges={k: -v for k, v in self.charges.items()},
             is_conj=(not self.is_conj),
-            symmetry=self.symmetry,
+            symmetry=self.conj_symmetry,
             history=self.history,
             multiplicity=self.multiplicity,
             comm=self.comm,
@@ -729,7 +739,7 @@ class IndexedField(tensor.Tensor, Field):
             indices=" ".join(i.conj.label for i in self.indices),
             charges={k: -v for k, v in self.charges.items()},
             is_conj=(not is_conj),
-            symmetry=self.symmetry,
+            symmetry=self.conj_symmetry,
             latex=self.latex,
             comm=self.comm,
             nf=self.nf,
-- 
2.43.0


From a8d2ec068d687690a873b2bfd2ed6b8fe5913b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 08/57] fix: cleaning lists of operators with fields without
 indices

---
 neutrinomass/tensormethod/contract.py | 2 +-
 neutrinomass/tensormethod/core.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index e0a63bc..fa725c2 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -373,7 +373,7 @@ def clean_operators(operators):
     """Delete duplicates (ignoring relabellings) and remove vanishing operators."""
     seen, out = set(), []
     for op in operators:
-        op_tens_mul = op.simplify(fill=True)
+        op_tens_mul = op.safe_simplify(fill=True)
         if not op_tens_mul:
             continue
         if not op_tens_mul in seen:
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index bb83d5d..a15d050 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1052,9 +1052,9 @@ class Operator(tensor.TensMul):
 
         return simple.canon_bp()
 
-    def safe_simplify(self):
+    def safe_simplify(self, fill=False):
         try:
-            return self.simplify()
+            return self.simplify(fill=fill)
         except IndexError:
             # deal with no index case (sometimes throws an error)
             # collect fields with indices and only use canon_bp on those
@@ -1071,7 +1071,7 @@ class Operator(tensor.TensMul):
             # nothing to simplify in a single tensor
             indexed_op = indexed[0]
             if len(indexed) > 1:
-                indexed_op = Operator(*indexed).simplify()
+                indexed_op = Operator(*indexed).simplify(fill=fill)
                 if indexed_op == 0:
                     return 0
 
-- 
2.43.0


From 5a577ab8b33e9962016b0b732c6df8699a0ccdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 09/57] fix: operators contracted with colour deltas can be
 rebuilt from their storable form

---
 neutrinomass/tensormethod/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a15d050..b7aac21 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -988,7 +988,12 @@ class Operator(tensor.TensMul):
 
         """
         fields = pickle_form["fields"]
-        epsilons = [eps(" ".join(indices)) for indices in pickle_form["epsilons"]]
+        # two colour indices can only come from a delta
+        is_delta = lambda idxs: len(idxs) == 2 and Index(idxs[0]).index_type == "Colour"
+        epsilons = [
+            delta(" ".join(indices)) if is_delta(indices) else eps(" ".join(indices))
+            for indices in pickle_form["epsilons"]
+        ]
         indexed_fields = [IndexedField(**d) for d in fields]
         return cls(*indexed_fields, *epsilons)
 
-- 
2.43.0


From eefc18302d1da1910d1da1bb55465cf1aa214d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 10/57] fix: copied and pickled indices keep their height

---
 neutrinomass/tensormethod/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index b7aac21..f91e907 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -99,6 +99,10 @@ class Index(tensor.TensorIndex):
             self.label = label.label
         self.label = str(label)  # the label that was passed in
 
+    def __getnewargs__(self):
+        # copies and pickles must keep lowered indices lowered
+        return (self.label,)
+
     def __neg__(self):
         is_up = self.is_up
         new_label = "-" + self.label if is_up else self.label[1:]
-- 
2.43.0


From 68cf51d795c5170039a5ed6cacf26e87b0f51693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 11/57] fix: index symmetry of a field with indices follows
 their order

---
 neutrinomass/tensormethod/core.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index f91e907..ee0297c 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -617,10 +617,7 @@ class IndexedField(tensor.Tensor, Field):
         index_types = [i.tensor_index_type for i in tensor_indices]
 
         if symmetry is None:
-            # symmetric in neighbouring indices of the same type and height
-            key = lambda i: (i.index_type, i.is_up)
-            gauge_indices = [i for i in tensor_indices if i.index_type != "Generation"]
-            symmetry = [[1] * len(list(g)) for _, g in groupby(gauge_indices, key=key)]
+            symmetry = default_symmetry(tensor_indices)
 
         if isinstance(label, tensor.TensorHead):
             tensor_head = label
@@ -680,6 +677,9 @@ class IndexedField(tensor.Tensor, Field):
             stripped=stripped,
         )
 
+        if symmetry is None:
+            self.symmetry = default_symmetry(self.indices)
+
         # self.comm = FERMI if self.is_fermion else BOSE
         self.index_labels = indices
 
@@ -690,7 +690,7 @@ class IndexedField(tensor.Tensor, Field):
             dynkin=self.dynkin,
             charges=self.charges,
             is_conj=self.is_conj,
-            symmetry=self.symmetry,
+            symmetry=self.conj_symmetry,
             comm=self.comm,
             latex=self.latex,
             nf=self.nf,
@@ -698,6 +698,13 @@ class IndexedField(tensor.Tensor, Field):
             stripped=self.stripped,
         )
 
+    @property
+    def conj_symmetry(self):
+        """The default index symmetry follows the order of the indices."""
+        if self.symmetry == default_symmetry(self.indices):
+            return None
+        return self.symmetry
+
     def substitute_indices(self, *indices):
         """Substitute indices according to ``indices`` with side effect."""
         new_indices = copy(self.indices)
@@ -1266,6 +1273,13 @@ def get_dynkin(indices: Union[str, Iterable[Index]]):
     return "".join(str(x) for x in flat_dynkin)
 
 
+def default_symmetry(indices: Iterable[Index]):
+    """Symmetric in neighbouring indices of the same type and height."""
+    key = lambda i: (i.index_type, i.is_up)
+    gauge_indices = [i for i in indices if i.index_type != "Generation"]
+    return [[1] * len(list(g)) for _, g in groupby(gauge_indices, key=key)]
+
+
 # @lru_cache(maxsize=None)
 def decompose_product(*fields) -> List[Field]:
     """Decompose product of Fields.
-- 
2.43.0


From 1b6ca23125d8e536d0286ff5a805c4f6f09c985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 12/57] fix: filling free indices keeps the charges of fields

---
 neutrinomass/tensormethod/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index ee0297c..c4dd6f2 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1119,7 +1119,13 @@ class Operator(tensor.TensMul):
                 store[label] += 1
                 replacements.append((i, new_index))
 
-        tensors = [t.fun_eval(*replacements) for t in self.tensors]
+        # fields rebuilt by fun_eval would lose their charges
+        tensors = [
+            t.substituted_indices(*replacements)
+            if isinstance(t, IndexedField)
+            else t.fun_eval(*replacements)
+            for t in self.tensors
+        ]
         prod = normalise_operator_input(*tensors)
         return Operator(*prod)
 
-- 
2.43.0


From 36cd73dbae3ab6c91b76b84f6eb7a1b8690fc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 13/57] fix: moving derivatives keeps the statistics and
 generations of the field

---
 neutrinomass/completions/completions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d97eec2..532c61d 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1182,7 +1182,9 @@ def operator_strip_derivs(op: Operator) -> List[Operator]:
                 assert field.derivs == 1
                 n_derivs += 1
                 data = field.stripped
-                new_field = Field(**data, is_conj=field.is_conj)
+                new_field = Field(
+                    **data, is_conj=field.is_conj, comm=field.comm, nf=field.nf
+                )
                 indices = field.gauge_indices
                 new_fields.append((new_field, " ".join(str(i) for i in indices)))
                 # new_fields.append((new_field, indices))
-- 
2.43.0


From ce2f1e7d64ad3a9f50f91929017314d151b729e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 14/57] fix: removing derivatives from conjugate and
 higher-spin derivative fields gives back the field

---
 neutrinomass/tensormethod/core.py | 36 +++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index c4dd6f2..c4057ea 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -512,6 +512,24 @@ class Field:
             return None
         return self.symmetry
 
+    @property
+    def conj_stripped(self):
+        """Data of the underlying field for the conjugate of a derivative field."""
+        if self.stripped is None:
+            return None
+
+        u, d, c_up, c_down, i = self.stripped["dynkin"]
+        field = Field(**self.stripped)
+        symmetry = field.conj_symmetry
+        if symmetry is None:
+            symmetry = [[1] * int(n) for n in (d, u, c_down, c_up, i) if int(n)]
+        return {
+            **self.stripped,
+            "dynkin": "".join([d, u, c_down, c_up, i]),
+            "symmetry": symmetry,
+            "charges": {k: -v for k, v in self.stripped["charges"].items()},
+        }
+
     @property
     def conj(self):
         dynkin = self.lorentz_irrep[::-1] + self.colour_irrep[::-1] + self.isospin_irrep
@@ -527,7 +545,7 @@ class Field:
             latex=self.latex,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=self.conj_stripped,
         )
 
     def walked(self) -> Prod:
@@ -755,7 +773,7 @@ class IndexedField(tensor.Tensor, Field):
             comm=self.comm,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=self.conj_stripped,
         )
 
     @property
@@ -890,7 +908,7 @@ class IndexedField(tensor.Tensor, Field):
             "nf": self.nf,
             "derivs": 0,
             "charges": {k: v for k, v in self.charges.items()},
-            "stripped": self.stripped,
+            "stripped": None,
         }
 
         kwargs = {**self.stripped, **other}
@@ -911,14 +929,14 @@ class IndexedField(tensor.Tensor, Field):
         field = self.strip_derivs()
         undotted, dotted, colour, isospin, _ = self.indices_by_type.values()
         indices = " ".join(str(i) for i in colour + isospin)
-        lorentz = undotted + dotted
-        if field.is_fermion and self.derivs % 2 == 0:
-            lorentz = lorentz[0]
-            indices = str(lorentz) + " " + indices
+        own, other = undotted, dotted
+        if not field.is_left_fermion:
+            own, other = dotted, undotted
+        if field.is_fermion and own:
+            indices = str(own[0]) + " " + indices
         elif field.is_fermion:
-            lorentz = lorentz[0].conj
             # add partial symbol to index name to show that it came from derivative
-            lorentz = str(lorentz) + "∂"
+            lorentz = str(other[0].conj) + "∂"
             indices = str(lorentz) + " " + indices
 
         return field(indices)
-- 
2.43.0


From ee3f6f05ea5f2857ccfc5029b66148c223a598e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 15/57] fix: fields with the same indices compare equal however
 the indices were given

---
 neutrinomass/tensormethod/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index c4057ea..27e8f63 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -699,6 +699,9 @@ class IndexedField(tensor.Tensor, Field):
             self.symmetry = default_symmetry(self.indices)
 
         # self.comm = FERMI if self.is_fermion else BOSE
+        # keep one form, so that fields with the same indices compare equal
+        if not isinstance(indices, str):
+            indices = " ".join(str(i) for i in indices)
         self.index_labels = indices
 
     @property
-- 
2.43.0


From 5c5a3015482a7aa4c930e009a21482b84d13f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 16/57] fix: a conjugated real scalar stays conjugated when
 converted

---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index b5095d8..8b9f356 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -561,7 +561,9 @@ def cons_completion_field(indexed_field: IndexedField, is_unbarred=None) -> Fiel
 
     if indexed_field.is_scalar:
         if indexed_field.is_real_sm_irrep:
-            return RealScalar(label, indices, charges=charges, latex=latex)
+            return RealScalar(
+                label, indices, charges=charges, latex=latex, is_conj=is_conj
+            )
 
         return ComplexScalar(
             label, indices, charges=charges, latex=latex, is_conj=is_conj
-- 
2.43.0


From 4c48e8b1a3ed54ded47fc403ce1098bd5a8b9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 17/57] fix: fresh indices never repeat the indices of loaded
 operators

---
 neutrinomass/tensormethod/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 27e8f63..6569428 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -90,6 +90,12 @@ class Index(tensor.TensorIndex):
             label = label[1:] + "_"
 
         tensor_type = cls.classify_index(label)
+
+        # names of the form of fresh indices must not be generated again
+        if label[-1] == "_" and label[1:-1].isdecimal():
+            used = tensor_type._autogenerated
+            used += [None] * (int(label[1:-1]) + 1 - len(used))
+
         return super(Index, cls).__new__(
             cls, name=label, tensortype=tensor_type, is_up=is_up
         )
@@ -175,8 +181,8 @@ class Index(tensor.TensorIndex):
         tensor module.
 
         """
-        idx = cls(tensor.TensorIndex(True, cls.get_tensor_index_types()[type_]))
-        label = idx.label.replace("i", type_)
+        idx = tensor.TensorIndex(True, cls.get_tensor_index_types()[type_])
+        label = str(idx).replace("i", type_)
         return cls(label)
 
     @classmethod
-- 
2.43.0


From bf722c7df34f6fb0c4be56fab986f4eeadb95e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 18/57] fix: exotics of different irreps made from the same
 fields get different symbols

---
 neutrinomass/completions/completions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 532c61d..1e3913a 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -507,7 +507,8 @@ def exotic_field_and_term(
         symbols_to_use = symbols["boson"]
 
     fs = sorted([f.field for f in fields], key=lambda x: x.label_with_dagger)
-    fs = tuple(fs)
+    # the same fields may be contracted into different irreps
+    fs = (tuple(fs), get_dynkin(exotic_indices))
     if fs in field_dict.keys():
         symbol = field_dict[fs]
     else:
-- 
2.43.0


From 98bfbad281570ad0dfda829a77622ce802ba656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 19/57] fix: the last vertex of a completion is checked for
 vanishing couplings too

---
 neutrinomass/completions/completions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 1e3913a..a643a4c 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -898,10 +898,12 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
     n_derivs = sum(deriv_structure)
 
     if n_derivs == 0:
-        proc_term = prod
+        # as for the other terms, only those with doubled up fields can vanish
+        set_fields = set([f.label for f in prod.fields])
+        if len(set_fields) < len(prod.fields) and prod.safe_simplify() == 0:
+            return f"Vanishing coupling at {prod}"
 
-        if isinstance(proc_term, str):
-            return proc_term
+        proc_term = prod
 
     else:
         proc_term = process_derivative_term(prod)
@@ -910,7 +912,7 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
             return proc_term
 
         if proc_term.safe_simplify() == 0:
-            return f"Vanishing coupling at {maybe_term} after derivative processing."
+            return f"Vanishing coupling at {prod} after derivative processing."
 
     # make sure the term is a singlet
     check_singlet(proc_term)
-- 
2.43.0


From 6f5e9ed87bb3d3090e78f04f891d9aee8ee9b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 20/57] fix: partitions of operators with three equal fields
 without isospin

---
 neutrinomass/completions/completions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index a643a4c..9c32c05 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -183,20 +183,20 @@ def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
 
     labelled_counts = {k: [[f, i] for i, f in enumerate(v)] for k, v in counts.items()}
     for k, v in labelled_counts.items():
-        for (f1, i1), (f2, i2) in combinations(v, 2):
+        # entries are updated in place, so that they always hold the current label
+        for first, second in combinations(v, 2):
+            f1, f2 = first[0], second[0]
             if not f1.indices_by_type["Isospin"]:
                 # fields are interchangeable, replace
-                f2_idx = labelled_counts[k].index([f2, i2])
-                labelled_counts[k][f2_idx] = [f2, i1]
+                second[1] = first[1]
                 continue
 
             iso1 = f1.indices_by_type["Isospin"][0]
             iso2 = f2.indices_by_type["Isospin"][0]
             if [-iso1, -iso2] in idxs or [-iso2, -iso1] in idxs:
                 # combination of indices match an epsilon-index pair. In this
-                # case, need to replace i2 with i1
-                f2_idx = labelled_counts[k].index([f2, i2])
-                labelled_counts[k][f2_idx] = [f2, i1]
+                # case, need to replace the label of f2 with that of f1
+                second[1] = first[1]
             else:
                 continue
 
-- 
2.43.0


From 0cc3a0958ba6fbcf6cecc39d4c78ae662fe036e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 21/57] fix: removing the derivatives of a field keeps its
 generation index

---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 6569428..8ada608 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -936,8 +936,8 @@ class IndexedField(tensor.Tensor, Field):
             return self
 
         field = self.strip_derivs()
-        undotted, dotted, colour, isospin, _ = self.indices_by_type.values()
-        indices = " ".join(str(i) for i in colour + isospin)
+        undotted, dotted, colour, isospin, generation = self.indices_by_type.values()
+        indices = " ".join(str(i) for i in colour + isospin + generation)
         own, other = undotted, dotted
         if not field.is_left_fermion:
             own, other = dotted, undotted
-- 
2.43.0


From d36111edb2e6b3a98ea63ab1f653c913a39d3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 22/57] fix: removing isomorphic partitions takes the colour
 contraction into account

---
 neutrinomass/completions/completions.py | 48 ++++++++++++++-----------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 9c32c05..f8d54f3 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -164,15 +164,29 @@ def set_external_fields(
     return g
 
 
+def are_interchangeable(
+    f1: IndexedField, f2: IndexedField, idxs: List[List[Index]]
+) -> bool:
+    """Check whether exchanging the colour and isospin indices of the fields leaves
+    the contracted indices of the operator as they are.
+
+    """
+    swap = {}
+    for i, j in zip(f1.gauge_indices, f2.gauge_indices):
+        if i.index_type in ("Colour", "Isospin"):
+            swap[str(-i)], swap[str(-j)] = str(-j), str(-i)
+
+    idxs = [[str(i) for i in pair] for pair in idxs]
+    swapped = [[swap.get(i, i) for i in pair] for pair in idxs]
+    return sorted(map(sorted, swapped)) == sorted(map(sorted, idxs))
+
+
 def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
     """Return a dictionary mapping indexed fields to an integer labelling distinct
     fields to help with isomorphism filtering.
 
-    TODO Need to rewrite this to include colour indices! Need to then move
-    position of call to include operator with colour structure!
-
     """
-    # idxs are the pairs of contracted isospin indices
+    # idxs are the sets of contracted indices
     counts = defaultdict(list)
     idxs = []
     for f in op.tensors:
@@ -185,20 +199,9 @@ def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
     for k, v in labelled_counts.items():
         # entries are updated in place, so that they always hold the current label
         for first, second in combinations(v, 2):
-            f1, f2 = first[0], second[0]
-            if not f1.indices_by_type["Isospin"]:
-                # fields are interchangeable, replace
-                second[1] = first[1]
-                continue
-
-            iso1 = f1.indices_by_type["Isospin"][0]
-            iso2 = f2.indices_by_type["Isospin"][0]
-            if [-iso1, -iso2] in idxs or [-iso2, -iso1] in idxs:
-                # combination of indices match an epsilon-index pair. In this
-                # case, need to replace the label of f2 with that of f1
+            if are_interchangeable(first[0], second[0], idxs):
+                # need to replace the label of the second with that of the first
                 second[1] = first[1]
-            else:
-                continue
 
     flat = reduce(lambda x, y: x + y, labelled_counts.values())
     return dict(flat)
@@ -234,14 +237,15 @@ def partitions(operator: EffectiveOperator, verbose=False) -> List[dict]:
             print(f"Furnishing topology {counter}...")
             counter += 1
 
-        # return counters as well for isomorphism filtering
-        fields_and_counters = indexed_fields_with_counters(operator.operator)
-        fields = [f for f, i in fields_and_counters.items()]
+        fields = list(indexed_fields_with_counters(operator.operator))
         perms = distribute_fields(fields, topology_data["partition"])
         for op in colour_ops:
             # col_out = []
             epsilons = op.operator.epsilons
 
+            # return counters as well for isomorphism filtering
+            fields_and_counters = indexed_fields_with_counters(op.operator)
+
             for perm in perms:
                 g = topology_data["graph"]
                 g = set_external_fields(perm, g, fields_and_counters)
@@ -270,6 +274,10 @@ def partitions(operator: EffectiveOperator, verbose=False) -> List[dict]:
 
 def are_equivalent_partitions(a, b):
     """Checks for partition equivalence by checking if the graphs are isomorphic."""
+    # the labels on the graph are those of one contraction of the operator
+    if a["epsilons"] != b["epsilons"]:
+        return False
+
     ga = a["graph"]
     gb = b["graph"]
 
-- 
2.43.0


From 97bc7ed3b108db434ace2ca1d3a434263f5abcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:29 +0000
Subject: [PATCH 23/57] fix: every line of a completion's diagram is labelled
 when one exotic is on several

---
 neutrinomass/completions/completions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index f8d54f3..d8d353c 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -778,7 +778,7 @@ def replace_and_mutate(
     gauge_epsilons: list,
     lorentz_epsilons: list,
     terms: list,
-    edge_dict: Dict[FieldType, Tuple[int, int]],
+    edge_dict: Dict[Tuple[int, int], FieldType],
     field_dict: Dict[tuple, str],
     graph: nx.Graph,
 ) -> Leaf:
@@ -821,7 +821,7 @@ def replace_and_mutate(
 
     # update edge_dict
     exotic_edge = get_connecting_edge(graph, nodes)
-    edge_dict[exotic_field] = exotic_edge
+    edge_dict[exotic_edge] = exotic_field
 
     return Leaf(exotic_field, exotic_edge[0])
 
@@ -947,10 +947,10 @@ def partition_completion(partition) -> Union[Completion, FailedCompletion]:
         return FailedCompletion(args)
 
     explicit_op = reduce(lambda a, b: a * b, lorentz_epsilons, op.operator)
-    exotics = set(f for f in edge_dict.keys())
+    exotics = set(f for f in edge_dict.values())
     eff_operator = EffectiveOperator(op.name, explicit_op)
 
-    new_edge_attrs = {v: {"particle": k.label} for k, v in edge_dict.items()}
+    new_edge_attrs = {k: {"particle": v.label} for k, v in edge_dict.items()}
     nx.set_edge_attributes(graph, new_edge_attrs)
 
     return Completion(
-- 
2.43.0


From cbac3825c25f86cd84a86d03728be80868c588b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 24/57] fix: Dirac partners of fermions without hypercharge are
 fields of the Lagrangian

---
 neutrinomass/tensormethod/lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index b7ea95f..5eea270 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -114,7 +114,7 @@ def clean_fields(exotics: set):
     out = []
     for f in exotics:
         out.append(f)
-        if f.is_fermion and f.y != 0:
+        if hasattr(f, "dirac_partner"):
             out.append(f.dirac_partner())
 
     eq = lambda x, y: x.field == y.field
-- 
2.43.0


From f61ab5e29fe313c5d9e0d2d5dd37e35ed53afefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 25/57] fix: the full Lagrangian contains no term that vanishes
 identically

---
 neutrinomass/tensormethod/lagrangian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index 5eea270..8fed387 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -192,13 +192,14 @@ def generate_uv_terms(fields: set):
 
     out = []
     for term in [*cubic_terms, *quartic_terms]:
-        if term.mass_dim <= 4:
+        # identically vanishing terms simplify to zero
+        if term.mass_dim <= 4 and term.safe_simplify() != 0:
             out.append(term)
 
     eq = lambda x, y: x.nocoeff.safe_simplify() == y.nocoeff.safe_simplify()
     remove_equivalent(out, eq_func=eq)
     # only keep terms that contain exotic fields
-    return [i for i in out if i != 0 and contains(i, [f.field for f in fields])]
+    return [i for i in out if contains(i, [f.field for f in fields])]
 
 
 def contains(term: Operator, fields: List[Field]):
-- 
2.43.0


From d85b7b2ac70acce09867e1ab87b350ce941dd6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 26/57] fix: collecting completions loses none of them

---
 neutrinomass/completions/completions.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d8d353c..5079639 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1113,12 +1113,10 @@ def collect_completions(
     if key is None:
         key = lambda x: x.exotic_info()
 
-    func = lambda c: tuple(sorted(key(c).values()))
-    for k, g in groupby(completions, key=func):
-        g_list = list(g)
-        # slow_remove_equivalent_completions(g_list)
-        k = tuple(sorted(set(k)))
-        out[k] = g_list
+    for comp in completions:
+        # completions with the same fields need not be adjacent
+        k = tuple(sorted(set(key(comp).values())))
+        out.setdefault(k, []).append(comp)
 
     return out
 
-- 
2.43.0


From 1ea1b2ac8e14fd3801ec482a837984f1d11f8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 27/57] fix: the general entry point for completions knows its
 operator

---
 neutrinomass/completions/completions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 5079639..d314d84 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1283,11 +1283,11 @@ def deriv_operator_completions(
     return comps
 
 
-def completions(*args, **kwargs):
+def completions(operator, *args, **kwargs):
     """General dispatch function for completions"""
     if "D" in operator.name:
-        return deriv_operator_completions(*args, **kwargs)
-    return operator_completions(*args, **kwargs)
+        return deriv_operator_completions(operator, *args, **kwargs)
+    return operator_completions(operator, *args, **kwargs)
 
 
 def collect_models(comps):
-- 
2.43.0


From f136e4da2f2925802be303f9515f7f2c9daca3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 28/57] fix: completions are compared after relabelling their
 fields

---
 neutrinomass/completions/completions.py | 35 ++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d314d84..20e8be1 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -26,7 +26,6 @@ from neutrinomass.completions.utils import (
     flatten,
     chunks,
     factors,
-    multiple_replace,
     allowed_lor_dyn,
 )
 from neutrinomass.utils.functions import remove_equivalent, remove_equivalent_nopop
@@ -1005,6 +1004,19 @@ def sort_strings(terms: List[List[str]]):
     return set(map(lambda x: tuple(sorted(x)), data))
 
 
+def relabel_fields(term: Operator, remapping: Dict[str, str]) -> Operator:
+    """Returns a copy of the term with its fields relabelled."""
+    remapping = {k.rstrip("†~"): v.rstrip("†~") for k, v in remapping.items()}
+    fields = []
+    form = term.pickle_form()
+    for field in form["fields"]:
+        label = field["label"].rstrip("†~")
+        suffix = field["label"][len(label) :]
+        fields.append({**field, "label": remapping.get(label, label) + suffix})
+
+    return Operator.from_pickle_form({**form, "fields": fields})
+
+
 def check_remapping_on_terms(terms1, terms2, remapping):
     """Return the remapping on the field labels in the terms that would get you from
     one to the other, i.e. return the isomorphism if one exists, otherwise
@@ -1013,22 +1025,21 @@ def check_remapping_on_terms(terms1, terms2, remapping):
     """
     new_terms = set()
     for term in terms1:
-        for k, v in remapping.items():
-            simple = term.safe_simplify()
-            s = str(safe_nocoeff(simple))
-            s = multiple_replace(remapping, s)
-            # remove generation indices in comparison
-            s = re.sub(r"g[0-9]+_", "g_", s)
-            # remove negative signs on indices
-            s = re.sub(r"-", "", s)
-            ss = tuple(sorted(s.split("*")))
-            new_terms.add(ss)
+        # relabel first, since the simplified form depends on the labels
+        simple = relabel_fields(term, remapping).safe_simplify()
+        s = str(safe_nocoeff(simple))
+        # remove generation indices in comparison
+        s = re.sub(r"g[0-9]+_", "g_", s)
+        # remove negative signs on indices
+        s = re.sub(r"-", "", s)
+        ss = tuple(sorted(s.split("*")))
+        new_terms.add(ss)
 
     new_terms = sort_strings(new_terms)
 
     comp2_strs = []
     for term in terms2:
-        simple = term.safe_simplify()
+        simple = relabel_fields(term, {}).safe_simplify()
         s = str(safe_nocoeff(simple))
         comp2_strs.append(s)
 
-- 
2.43.0


From 0783c627839ad11661878c1b6fae8ba0c9524880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 29/57] fix: the label of a conjugated indexed SM field is that
 of the field

---
 neutrinomass/utils/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/utils/functions.py b/neutrinomass/utils/functions.py
index 9c9d8ea..191d46f 100644
--- a/neutrinomass/utils/functions.py
+++ b/neutrinomass/utils/functions.py
@@ -98,6 +98,8 @@ def dropped_vals(l: list, vals: set):
 
 def stringify_qns(field):
     """Returns a string representation of a field."""
+    # the label of a conjugated indexed field carries a dagger
+    field = getattr(field, "field", field)
     if field.label not in {"L", "Q", "ub", "db", "eb", "H"}:
         lor = "S" if field.is_scalar else "F"
         _, _, cup, cdown, i = field.dynkin
-- 
2.43.0


From 6a69e1b2d97ad538c167e7db3b50d389b52bda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 30/57] fix: operators are expanded whatever their index names
 and other contractions

---
 neutrinomass/database/closures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index de1be9f..b5e07b1 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -213,7 +213,7 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
 
             fields.append(label)
 
-        else:
+        elif all(i.tensor_index_type == ISOSPIN for i in expr.indices):
             epsilons.append(expr.indices)
             n_indices += 2
 
@@ -221,8 +221,9 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
     eval_str = ""
     indices = [("_i", "_j"), ("_k", "_l"), ("_m", "_n"), ("_p", "_q")]
     for (i, j), (a, b) in zip(epsilons, indices):
-        field_string = field_string.replace(str(-i), a)
-        field_string = field_string.replace(str(-j), b)
+        # brackets so that "i1" is not found in "i10"
+        field_string = field_string.replace(f"[{-i}]", f"[{a}]")
+        field_string = field_string.replace(f"[{-j}]", f"[{b}]")
         field_string += f"*eps[{a}][{b}]"
 
     loop_ranges = [1, 1, 1, 1, 1, 1, 1, 1]
-- 
2.43.0


From 2f484427bac851d13b08053728bcdb649811ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 31/57] fix: closure rules conserve electric charge

---
 neutrinomass/database/closures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index b5e07b1..78c82ba 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -116,9 +116,11 @@ RULES = {
     Op(hp, d, RST): Op(Const(yu), c(ub), Const(loop), RST),
     Op(hp, ub, RST): Op(Const(yu), c(d), Const(loop), RST),
     Op(c(hp), c(ub), RST): Op(Const(yu), d, Const(loop), RST),
-    Op(hp, u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
+    Op(c(hp), u, c(d), RST): Op(
+        Const(v), Const(g2), Const(loop), Const(loop), RST
+    ),
     # make hp
-    Op(c(eb), nu, RST): Op(Const(ye), hp, nu, nu, RST),
+    Op(c(eb), nu, RST): Op(Const(ye), c(hp), nu, nu, RST),
     # vev
     Op(h0, RST): Op(Const(v), RST),
     Op(c(h0), RST): Op(Const(v), RST),
-- 
2.43.0


From add64bbd89a7aac02cde2e94dfa77a423f31aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 32/57] fix: exported text keeps barred fermions and LaTeX
 backslashes

---
 neutrinomass/database/export.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index a8caf6b..d87edb2 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -22,7 +22,7 @@ def export_tensor(tensor):
             f"nf={tensor.nf}",
             f"dynkin='{tensor.dynkin}'",
             f"comm='{tensor.comm}'",
-            f"latex='{tensor.latex}'",
+            f"latex={tensor.latex!r}",
             f"is_conj={tensor.is_conj}",
         )
 
@@ -30,10 +30,11 @@ def export_tensor(tensor):
         is_unbarred = None
         if hasattr(tensor, "is_unbarred"):
             is_unbarred = tensor.is_unbarred
-        kwargs += (f"is_unbarred={is_unbarred}",)
 
         kwargs_str = ", ".join(kwargs)
-        indexed_field = f"ExoticField(IndexedField({kwargs_str}))"
+        indexed_field = (
+            f"ExoticField(IndexedField({kwargs_str}), is_unbarred={is_unbarred})"
+        )
         return indexed_field
 
     if isinstance(tensor, Field):
@@ -101,7 +102,8 @@ def export_terms(terms):
 
 
 def export_exotics(exotics: set):
-    return str(set([export_tensor(f) for f in exotics])).replace('"', "")
+    guts = ", ".join(export_tensor(f) for f in exotics)
+    return f"set([{guts}])"
 
 
 def export_completion(c: Completion, lazy=True):
@@ -135,6 +137,6 @@ def export_completion(c: Completion, lazy=True):
         % (name, str(quantum_numbers), str(plain_terms), topo)
     )
     completion_string = f"Completion(operator={eff_op}, partition={part}, graph={graph}, exotics={exotics}, terms={terms}, topology='{topo}')"
-    export_string = f"""LazyCompletion(head={head}, tail="{completion_string}")"""
+    export_string = f"""LazyCompletion(head={head}, tail={completion_string!r})"""
 
     return export_string if lazy else completion_string
-- 
2.43.0


From 633126c7c36deb9af58d59068b9b0e5baa069a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 33/57] fix: JSON export of completions works with the
 installed networkx

---
 neutrinomass/database/json_serialiser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/json_serialiser.py b/neutrinomass/database/json_serialiser.py
index 454383a..5f433de 100644
--- a/neutrinomass/database/json_serialiser.py
+++ b/neutrinomass/database/json_serialiser.py
@@ -89,8 +89,11 @@ def export_partition(expr):
 
 def export_graph(g: nx.Graph):
     data = nx.readwrite.json_graph.node_link_data(g)
-    for link in data["links"]:
-        link["particle"] = export_tensor(link["particle"])
+    # networkx 3.4 renamed "links" to "edges"
+    for link in data["links"] if "links" in data else data["edges"]:
+        # lines of a completion are labelled by the name of the field
+        if not isinstance(link["particle"], str):
+            link["particle"] = export_tensor(link["particle"])
 
     return data
 
-- 
2.43.0


From 066c89948fa0c1e1f8f5d7488a774c409357c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 34/57] fix: filtering an unordered database orders it first

---
 neutrinomass/database/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5d2239c..8b2276a 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -159,6 +159,8 @@ class ModelDatabase:
         self.philosophy = philosophy
         self.criterion = criterion
         self.is_forced = False
+        # ordering also provides the scales needed for filtering
+        self.is_ordered = False
 
         assert self.philosophy in {"democratic", "stringent"}
         assert self.criterion in {"mass", "dimension"}
@@ -174,7 +176,6 @@ class ModelDatabase:
 
         else:
             self.path = None
-            self.is_ordered = True
             self.data = data
 
         # initialise prime dictionary
-- 
2.43.0


From 39e6c6d85df92fdb6fcf0bbddbd4dce80ec2b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 35/57] fix: forcing a database keeps every operator

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 8b2276a..9e1a6d5 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -288,8 +288,7 @@ class ModelDatabase:
             return
 
         self.is_forced = True
-        for k, v in self.data.items():
-            self.data = {k: [m.force() for m in v]}
+        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From a1006f4cad5a491922887ac0e8fa27341f94b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 36/57] fix: models of one operator in several files are all
 loaded

---
 neutrinomass/database/database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 9e1a6d5..f21d268 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -170,8 +170,10 @@ class ModelDatabase:
 
             # print("Initialising database...")
             filenames = glob(os.path.join(self.path, "*.dat"))
-            mvdb_data = [dict(read_completions(f)) for f in filenames]
-            mv_dict = {k: v for d in mvdb_data for k, v in d.items()}
+            mv_dict = {}
+            for f in filenames:
+                for k, v in read_completions(f).items():
+                    mv_dict.setdefault(k, []).extend(v)
             self.data = mv_dict
 
         else:
-- 
2.43.0


From b3a694b22aacbc0d5006446289472d2cab59dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 37/57] fix: related models of a model with a single exotic

---
 neutrinomass/database/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index f21d268..a2678b1 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -144,7 +144,8 @@ class ModelDataFrame(pd.DataFrame):
             prod = reduce(operator.mul, group)
             indices += list(self[self["democratic_num"] == prod].index)
 
-        indices.remove(index)
+        # not among them if it has a single exotic
+        indices = [i for i in indices if i != index]
         return self.loc[indices]
 
 
-- 
2.43.0


From f76458267e535380cab47b6060931ca8a6e81ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 38/57] fix: matching a pattern with an empty string

---
 neutrinomass/utils/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/utils/match.py b/neutrinomass/utils/match.py
index 5edaa8c..0ecf48b 100644
--- a/neutrinomass/utils/match.py
+++ b/neutrinomass/utils/match.py
@@ -18,7 +18,7 @@ def _match_on_collection(pattern, data, frame):
 
 
 def is_pattern_var(symbol):
-    return isinstance(symbol, str) and symbol[0] == "?"
+    return isinstance(symbol, str) and symbol[:1] == "?"
 
 
 # TODO write matching tests
-- 
2.43.0


From d6faea61a233fa749cee53f5e535ba4d588cbbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 39/57] fix: mass dimension of fields includes their
 derivatives

---
 neutrinomass/completions/core.py  | 1 -
 neutrinomass/tensormethod/core.py | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 8b9f356..acd61d7 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -375,7 +375,6 @@ class EffectiveOperator:
     @property
     def mass_dimension(self):
         d = sum(f.mass_dim for f in self.fields)
-        d += sum(f.derivs for f in self.fields)
         d_int = int(d)
         assert d == d_int
         return d_int
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 8ada608..216e028 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -611,9 +611,9 @@ class Field:
     @property
     def mass_dim(self):
         if self.is_fermion:
-            return 1.5
+            return 1.5 + self.derivs
         if self.is_scalar or self.is_vector:
-            return 1
+            return 1 + self.derivs
 
         raise Exception(
             f"Unknown mass dimension for lorentz irrep {self.lorentz_irrep}"
-- 
2.43.0


From 456b100498e1617d578e482be95cbac9cc7a755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 40/57] fix: LaTeX of operators with any field labels and
 ignored indices

---
 neutrinomass/tensormethod/core.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 216e028..22298d6 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1180,11 +1180,11 @@ class Operator(tensor.TensMul):
     def latex(self, ignore=None):
         # ordering of fields within the oeprator and style of indices
         field_ordering = ["L", "e", "Q", "u", "d", "H", "B", "W", "G"]
+        # extract first non D in field name e.g. H for DDH
+        first_non_deriv = lambda f: str(f).split("D")[-1][0]
         for field in self.indexed_fields:
-            f, fc = field, field.conj
-            if hasattr(f, "label") and not f.label in field_ordering:
-                field_ordering.append(f.label.replace("~", ""))
-                field_ordering.append(fc.label.replace("~", ""))
+            if not first_non_deriv(field) in field_ordering:
+                field_ordering.append(first_non_deriv(field))
 
         # indices i, j, ... q used for isospin
         isospin_indices = list(ascii_lowercase[8:])
@@ -1201,10 +1201,8 @@ class Operator(tensor.TensMul):
         # remove styles you don't care about
         if ignore is not None:
             for char in ignore:
-                style.pop(char)
+                style.pop(char, None)
 
-        # extract first non D in field name e.g. H for DDH
-        first_non_deriv = lambda f: str(f).split("D")[-1][0]
         order_func = lambda f: field_ordering.index(first_non_deriv(f))
         sorted_fields = sorted(self.indexed_fields, key=order_func)
 
@@ -1218,6 +1216,10 @@ class Operator(tensor.TensMul):
 
         latex_epsilons = []
         for epsilon in self.epsilons:
+            # the indices of its fields are not shown
+            if Index.get_index_labels()[epsilon.indices[0].index_type] not in style:
+                continue
+
             symb = r"\epsilon"
             # tread deltas differently
             if str(epsilon)[0] == "K":
-- 
2.43.0


From 8ade621ffb5447ec9350056fa4e926e442bc8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 41/57] fix: constructing operators does not depend on previous
 calls

---
 neutrinomass/tensormethod/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index fa725c2..f327caa 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -219,7 +219,7 @@ def term_lorentz_singlet(term: Operator) -> List[Operator]:
     return contract_su2(left=fst, right=prod, out=0, ignore=["i"])
 
 
-def construct_operators(expr_tree: Prod, _stack=[], ignore=[]) -> List[Operator]:
+def construct_operators(expr_tree: Prod, _stack=None, ignore=[]) -> List[Operator]:
     """Constructs Operator objects from product tree. There will be more than one
     since there will be many ways to contract the indices at each step.
 
@@ -227,6 +227,7 @@ def construct_operators(expr_tree: Prod, _stack=[], ignore=[]) -> List[Operator]
     # Algorithm logic: unload tree into a stack and read off elements, calling
     # contract on them and building up the operators.
 
+    _stack = [] if _stack is None else _stack
     while isinstance(expr_tree, Prod):
         irrep, left, right = expr_tree
         _stack.append(irrep)
-- 
2.43.0


From 0dc07c935d1b8055fa4f0c22b64b4f3c55e367d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 42/57] fix: field strings do not change the charges of the SM
 fields

---
 neutrinomass/tensormethod/lagrangian.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index 8fed387..9aabc15 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -5,6 +5,7 @@ finding.
 
 """
 
+from copy import copy
 from itertools import combinations_with_replacement
 from alive_progress import alive_bar
 from sympy import Matrix
@@ -34,13 +35,20 @@ def make_coupling(symbol: str, indices: str, sym=None):
     return tensorhead(symbol, [Index(i) for i in indices_list], sym)
 
 
+def with_lepton_number(field: Field) -> Field:
+    """Returns a copy of an SM matter field with lepton number among its charges."""
+    number = {"L": 1, "eb": -1, "Q": 0, "ub": 0, "db": 0, "H": 0}.get(field.label)
+    if number is None or "l" in field.charges:
+        return field
+
+    out = copy(field)
+    out.charges = {**field.charges, "l": -number if field.is_conj else number}
+    return out
+
+
 def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None):
-    L.charges["l"] = 1
-    eb.charges["l"] = -1
-    Q.charges["l"] = 0
-    ub.charges["l"] = 0
-    db.charges["l"] = 0
-    H.charges["l"] = 0
+    # the fields themselves are shared and stay as they are
+    fields = tuple(with_lepton_number(f) for f in fields)
 
     conjs = tuple([f.conj for f in fields])
     if derivs:
@@ -64,9 +72,6 @@ def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None
                 terms += [singlets[0]]
             bar()
 
-    # for f in [L, eb, Q, ub, db, H]:
-    #     del f.charges["l"]
-
     return terms
 
 
-- 
2.43.0


From d609d6ae68980bdb28c78e664cd4c559efe25a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 43/57] fix: importing smeft does not change the charges of the
 SM fields

---
 neutrinomass/tensormethod/smeft.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/neutrinomass/tensormethod/smeft.py b/neutrinomass/tensormethod/smeft.py
index 4d3949b..d10841a 100644
--- a/neutrinomass/tensormethod/smeft.py
+++ b/neutrinomass/tensormethod/smeft.py
@@ -2,22 +2,29 @@
 
 """Functions to generate ΔL = 2 SMEFT operators"""
 
+from copy import copy
 from typing import List
 from itertools import combinations_with_replacement
 
-from neutrinomass.tensormethod.sm import L, Q, H, eb, ub, db
+from neutrinomass.tensormethod import sm
 from neutrinomass.tensormethod.core import Field, Operator, Prod, decompose_product
 
 # from neutrinomass.tensormethod.contract import construct_operators
 
 
-# add lepton number
-L.charges["L"] = 1
-Q.charges["L"] = 0
-H.charges["L"] = 0
-ub.charges["L"] = 0
-db.charges["L"] = 0
-eb.charges["L"] = -1
+def add_lepton_number(field: Field, number: int) -> Field:
+    """Returns a copy of the (shared) SM field with lepton number."""
+    out = copy(field)
+    out.charges = {**field.charges, "L": number}
+    return out
+
+
+L = add_lepton_number(sm.L, 1)
+Q = add_lepton_number(sm.Q, 0)
+H = add_lepton_number(sm.H, 0)
+ub = add_lepton_number(sm.ub, 0)
+db = add_lepton_number(sm.db, 0)
+eb = add_lepton_number(sm.eb, -1)
 
 SM = [L, Q, H, eb, ub, db]
 FIELDS = SM + [f.conj for f in SM]
-- 
2.43.0


From 10444277982cc11daad26df35d273ec767d97e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 44/57] fix: completing a partition does not change its graph

---
 neutrinomass/completions/completions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 20e8be1..9179ecf 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -934,7 +934,7 @@ def partition_completion(partition) -> Union[Completion, FailedCompletion]:
     """Return the completion object associated with a partition."""
     part = partition["partition"]
     gauge_epsilons = partition["epsilons"]
-    graph = partition["graph"]
+    graph = partition["graph"].copy()
     op = partition["operator"]
     topo = partition["topology"]
 
-- 
2.43.0


From 0a71047814ca7d6f7037a882cf5ad877185c543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 45/57] fix: colour is conserved along the loops of the
 one-loop models

---
 neutrinomass/database/heavyloops.py | 56 ++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/neutrinomass/database/heavyloops.py b/neutrinomass/database/heavyloops.py
index 86bc252..0931f75 100644
--- a/neutrinomass/database/heavyloops.py
+++ b/neutrinomass/database/heavyloops.py
@@ -55,27 +55,27 @@ def tbl_2_1(i: list, a: Rational):
         ),
         (
             f"S,10,{i[0]-1},{a}",
-            f"S,01,{i[1]-1},{a-Rational(1,2)}",
+            f"S,10,{i[1]-1},{a-Rational(1,2)}",
             f"F,10,{i[2]-1},{a}",
-            f"S,01,{i[3]-1},{Rational(1,2) + a}",
+            f"S,10,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,01,{i[0]-1},{a}",
-            f"S,10,{i[1]-1},{a-Rational(1,2)}",
+            f"S,01,{i[1]-1},{a-Rational(1,2)}",
             f"F,01,{i[2]-1},{a}",
-            f"S,10,{i[3]-1},{Rational(1,2) + a}",
+            f"S,01,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,02,{i[0]-1},{a}",
-            f"S,20,{i[1]-1},{a-Rational(1,2)}",
+            f"S,02,{i[1]-1},{a-Rational(1,2)}",
             f"F,02,{i[2]-1},{a}",
-            f"S,20,{i[3]-1},{Rational(1,2) + a}",
+            f"S,02,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,20,{i[0]-1},{a}",
-            f"S,02,{i[1]-1},{a-Rational(1,2)}",
+            f"S,20,{i[1]-1},{a-Rational(1,2)}",
             f"F,20,{i[2]-1},{a}",
-            f"S,02,{i[3]-1},{Rational(1,2) + a}",
+            f"S,20,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,11,{i[0]-1},{a}",
@@ -96,27 +96,27 @@ def tbl_2_2(i: list, a: Rational):
         ),
         (
             f"F,10,{i[0]-1},{a}",
-            f"S,01,{i[1]-1},{a+Rational(1,2)}",
+            f"S,10,{i[1]-1},{a+Rational(1,2)}",
             f"S,10,{i[2]-1},{a}",
-            f"F,01,{i[3]-1},{Rational(1,2) + a}",
+            f"F,10,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,01,{i[0]-1},{a}",
-            f"S,10,{i[1]-1},{a+Rational(1,2)}",
+            f"S,01,{i[1]-1},{a+Rational(1,2)}",
             f"S,01,{i[2]-1},{a}",
-            f"F,10,{i[3]-1},{Rational(1,2) + a}",
+            f"F,01,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,02,{i[0]-1},{a}",
-            f"S,20,{i[1]-1},{a+Rational(1,2)}",
+            f"S,02,{i[1]-1},{a+Rational(1,2)}",
             f"S,02,{i[2]-1},{a}",
-            f"F,20,{i[3]-1},{Rational(1,2) + a}",
+            f"F,02,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,20,{i[0]-1},{a}",
-            f"S,02,{i[1]-1},{a+Rational(1,2)}",
+            f"S,20,{i[1]-1},{a+Rational(1,2)}",
             f"S,20,{i[2]-1},{a}",
-            f"F,02,{i[3]-1},{Rational(1,2) + a}",
+            f"F,20,{i[3]-1},{Rational(1,2) + a}",
         ),
         (
             f"F,11,{i[0]-1},{a}",
@@ -137,27 +137,27 @@ def tbl_2_3(i: list, a: Rational):
         ),
         (
             f"F,10,{i[0]-1},{a}",
-            f"F,01,{i[1]-1},{a+Rational(1,2)}",
+            f"F,10,{i[1]-1},{a+Rational(1,2)}",
             f"S,10,{i[2]-1},{a}",
-            f"F,01,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,10,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,01,{i[0]-1},{a}",
-            f"F,10,{i[1]-1},{a+Rational(1,2)}",
+            f"F,01,{i[1]-1},{a+Rational(1,2)}",
             f"S,01,{i[2]-1},{a}",
-            f"F,10,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,01,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,02,{i[0]-1},{a}",
-            f"F,20,{i[1]-1},{a+Rational(1,2)}",
+            f"F,02,{i[1]-1},{a+Rational(1,2)}",
             f"S,02,{i[2]-1},{a}",
-            f"F,20,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,02,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,20,{i[0]-1},{a}",
-            f"F,02,{i[1]-1},{a+Rational(1,2)}",
+            f"F,20,{i[1]-1},{a+Rational(1,2)}",
             f"S,20,{i[2]-1},{a}",
-            f"F,02,{i[3]-1},{-Rational(1,2) + a}",
+            f"F,20,{i[3]-1},{-Rational(1,2) + a}",
         ),
         (
             f"F,11,{i[0]-1},{a}",
@@ -178,22 +178,22 @@ def tbl_3_1(i: list, a: Rational):
         (
             f"S,10,{i[0]-1},{a}",
             f"S,10,{i[1]-1},{1+a}",
-            f"F,01,{i[2]-1},{Rational(1,2) + a}",
+            f"F,10,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,01,{i[0]-1},{a}",
             f"S,01,{i[1]-1},{1+a}",
-            f"F,10,{i[2]-1},{Rational(1,2) + a}",
+            f"F,01,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,02,{i[0]-1},{a}",
             f"S,02,{i[1]-1},{1+a}",
-            f"F,20,{i[2]-1},{Rational(1,2) + a}",
+            f"F,02,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,20,{i[0]-1},{a}",
             f"S,20,{i[1]-1},{1+a}",
-            f"F,02,{i[2]-1},{Rational(1,2) + a}",
+            f"F,20,{i[2]-1},{Rational(1,2) + a}",
         ),
         (
             f"S,11,{i[0]-1},{a}",
-- 
2.43.0


From 9f8f8b64bbccbe8c86b7e276b80ffd22f3c092d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 46/57] fix: CP phase of the CKM matrix is in radians

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index a6c7faa..264faf8 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -122,7 +122,7 @@ PMNS = UnitaryMatrix()
 THETA12_CKM = np.deg2rad(13.04)
 THETA13_CKM = np.deg2rad(0.201)
 THETA23_CKM = np.deg2rad(2.38)
-DELTA_CP_CKM = np.deg2rad(1.20)
+DELTA_CP_CKM = 1.20
 
 CKM = UnitaryMatrix(
     c12=np.cos(THETA12_CKM),
-- 
2.43.0


From 90904cd85f508f2de5b9bd0f02fa89f71c303732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:38 +0000
Subject: [PATCH 47/57] fix: dagger of a symbolic mixing matrix

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index 264faf8..ff73bdd 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -101,7 +101,7 @@ class UnitaryMatrix(object):
         return self.val.T
 
     def get_dagger(self):
-        return self.val.getH()
+        return self.val.H
 
 
 # Measured squared neutrino mass differences
-- 
2.43.0


From 85e4a39d1451370e7cc554a7cc38ae8583517ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 48/57] fix: an epsilon contracted with another one is part of
 the vertex

---
 neutrinomass/completions/completions.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 9179ecf..76e2286 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -441,15 +441,19 @@ def separate_gauge_epsilons(
 
     prod_fields = reduce(lambda x, y: x * y, fields)
     free_indices = prod_fields.get_free_indices()
-    contracted_epsilons, spectator_epsilons = [], []
+    contracted_epsilons = []
 
     # contracted epsilons are those all of whose indices are contracted on the
-    # set of fields passed in. Spectator epsilons are all of the others
-    for epsilon in epsilons:
-        if is_contracted_epsilon(epsilon, free_indices):
-            contracted_epsilons.append(epsilon)
-        else:
-            spectator_epsilons.append(epsilon)
+    # set of fields passed in. Spectator epsilons are all of the others. An
+    # epsilon can also be contracted with the index left over from another one
+    spectator_epsilons = list(epsilons)
+    n_spectators = None
+    while n_spectators != len(spectator_epsilons):
+        n_spectators = len(spectator_epsilons)
+        for epsilon in list(spectator_epsilons):
+            if is_contracted_epsilon(epsilon, free_indices):
+                contracted_epsilons.append(epsilon)
+                spectator_epsilons.remove(epsilon)
 
     return spectator_epsilons, contracted_epsilons
 
-- 
2.43.0


From 8390c24060bc4c5b55f12a0e99ed213afdf38a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 49/57] fix: copies of operators, fields with indices and
 completions

---
 neutrinomass/completions/core.py  | 15 ++++-----------
 neutrinomass/tensormethod/core.py | 20 +++++++++++++++++++-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index acd61d7..b8fbdeb 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -74,17 +74,6 @@ class FieldType(IndexedField):
         }
         return hash(tuple(dict_.items()))
 
-    def __deepcopy__(self, memo):
-        return self.__class__(
-            label=self.label,
-            indices=deepcopy(self.indices, memo),
-            charges=deepcopy(self.charges, memo),
-            latex=self.latex,
-            is_conj=self.is_conj,
-            symmetry=deepcopy(self.symmetry, memo),
-            comm=self.comm,
-        )
-
 
 class ComplexScalar(FieldType):
     def __init__(
@@ -286,6 +275,9 @@ class VectorLikeDiracFermion(FieldType):
         assert self.is_fermion
         self.is_unbarred = is_unbarred
 
+    def __getstate__(self):
+        return {"is_unbarred": self.is_unbarred}
+
     @property
     def conj(self):
         """Returns a copy of self but conjugated"""
@@ -429,6 +421,7 @@ class Completion:
             graph=deepcopy(self.graph, memo),
             exotics=deepcopy(self.exotics, memo),
             terms=deepcopy(self.terms, memo),
+            topology=self.topology,
         )
 
     @property
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 22298d6..19784f2 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -630,6 +630,10 @@ class Field:
         return list(dyn_array_2 - dyn_array_1)
 
 
+def _rebuild_field(cls, data: dict) -> "IndexedField":
+    return cls(**data)
+
+
 class IndexedField(tensor.Tensor, Field):
     def __new__(cls, label: str, indices: str, symmetry=None, comm=0, **kwargs):
         if isinstance(indices, str):
@@ -819,6 +823,10 @@ class IndexedField(tensor.Tensor, Field):
             "stripped": self.stripped,
         }
 
+    def __reduce_ex__(self, protocol):
+        # sympy would copy the label and the indices and nothing else
+        return _rebuild_field, (self.__class__, self._dict), self.__getstate__()
+
     @property
     def pmatch_data(self):
         """A simple representation of the field for use with pattern matching.
@@ -1253,7 +1261,17 @@ class Operator(tensor.TensMul):
         return f"${self.latex()}$"
 
     def __deepcopy__(self, memo):
-        return self.__class__(tensors=deepcopy(self.tensors, memo))
+        # the invariant tensors don't change, and share their index types
+        return self.__class__(
+            *[
+                deepcopy(t, memo) if isinstance(t, IndexedField) else t
+                for t in self.tensors
+            ]
+        )
+
+    def __getnewargs__(self):
+        # the arguments of the product are not the fields it was made from
+        return tuple(self.tensors)
 
     @property
     def mass_dim(self):
-- 
2.43.0


From f65cf51f2abc88ed91f9fd6a7a52f5a065974f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 50/57] fix: equality and hashes of effective operators and
 completions

---
 neutrinomass/completions/core.py  | 10 ++++++++--
 neutrinomass/tensormethod/core.py |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index b8fbdeb..8da5fe5 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -384,8 +384,13 @@ class EffectiveOperator:
 
         return {"n_scalars": n_scalars, "n_fermions": n_fermions}
 
+    def __eq__(self, other):
+        if not isinstance(other, EffectiveOperator):
+            return False
+        return self.name == other.name and self.operator == other.operator
+
     def __hash__(self):
-        return hash((self.name, self.operator.simplify()))
+        return hash((self.name, self.operator.safe_simplify()))
 
 
 class FailedCompletion:
@@ -412,7 +417,8 @@ class Completion:
         )
 
     def __hash__(self):
-        return hash((self.operator, self.exotic_info(), self.partition))
+        info = frozenset(self.exotic_info().items())
+        return hash((self.operator, info, self.partition))
 
     def __deepcopy__(self, memo):
         return self.__class__(
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 19784f2..ab7aada 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -710,9 +710,9 @@ class IndexedField(tensor.Tensor, Field):
 
         # self.comm = FERMI if self.is_fermion else BOSE
         # keep one form, so that fields with the same indices compare equal
-        if not isinstance(indices, str):
-            indices = " ".join(str(i) for i in indices)
-        self.index_labels = indices
+        if isinstance(indices, str):
+            indices = indices.split()
+        self.index_labels = " ".join(str(i) for i in indices)
 
     @property
     def field(self):
-- 
2.43.0


From 8c21ed0926be6fa0a1e863fb071471c8224f1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 51/57] fix: label of the Dirac partner of a conjugated fermion

---
 neutrinomass/completions/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 8da5fe5..393acb9 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -330,7 +330,9 @@ class VectorLikeDiracFermion(FieldType):
         is_unbarred = self.is_unbarred
         symb = "~"  # indicate bar with circumflex
         if is_unbarred:
-            label = self.label + symb
+            # the dagger stays at the end of the label
+            dagger = "†" if self.is_conj else ""
+            label = self.label.replace("†", "") + symb + dagger
         else:
             label = self.label.replace(symb, "")
 
-- 
2.43.0


From 3489e29d7e8e220fc3bfcece66ec43b28630f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 52/57] fix: rows of the table of operators

Operators left out of the catalogue (1''', D1, D11, D19) were given the loops and
scale of the row before; the rows of 27d, 32e, 32f, 59c and D15 showed another
operator than the one estimated, and D13c had no row.
---
 neutrinomass/database/operators.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/neutrinomass/database/operators.py b/neutrinomass/database/operators.py
index 49e4de2..25ea9be 100644
--- a/neutrinomass/database/operators.py
+++ b/neutrinomass/database/operators.py
@@ -172,7 +172,7 @@ def print_paper_table():
     ] = r"$\mathcal{O}_{3a} \cdot \tilde{Q}^i \bar{d}^\dagger H^j \cdot \epsilon_{ij}$"
     operator_latex[
         "27d"
-    ] = r"$\mathcal{O}_{3b} \cdot \tilde{Q}^i \bar{d}^\dagger H^j \cdot \epsilon_{ij}$"
+    ] = r"$L^{i} L^{j} Q^{k} \tilde{Q}^{l} \bar{d} \bar{d}^{\dagger} H^{m} H^{n}  \cdot  \epsilon_{i l} \epsilon_{j m} \epsilon_{k n}$"
     operator_latex[
         "28a"
     ] = r"$L^{i} L^{j} Q^{k} \tilde{Q}^{l} \bar{u}^{\dagger} \bar{d} H^{m} \tilde{H}^{n}  \cdot  \epsilon_{i l} \epsilon_{j n} \epsilon_{k m}$"
@@ -245,8 +245,8 @@ def print_paper_table():
     operator_latex[
         "32d"
     ] = r"$\mathcal{O}_{4b} \cdot \tilde{Q}^i \bar{u}^\dagger \tilde{H}^j \cdot \epsilon_{ij}$"
-    operator_latex["32e"] = r"$\mathcal{O}_{12a} \cdot H^i \tilde{H}^j$"
-    operator_latex["32f"] = r"$\mathcal{O}_{12b} \cdot H^i \tilde{H}^j$"
+    operator_latex["32e"] = r"$\mathcal{O}_{12a} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
+    operator_latex["32f"] = r"$\mathcal{O}_{12b} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
     operator_latex[
         "33"
     ] = r"$\mathcal{O}_1 \cdot \bar{e} \bar{e} \bar{e}^{\dagger} \bar{e}^{\dagger}$"
@@ -456,7 +456,7 @@ def print_paper_table():
     ] = r"$\mathcal{O}_{19} \cdot H^i \tilde{H}^j \cdot \epsilon_{ij}$"
     operator_latex[
         "59c"
-    ] = r"$\mathcal{O}_{8} \cdot Q^i \bar{d} \tilde{H}^j \cdot \epsilon_{ij}$"
+    ] = r"$L^{i} \bar{e}^{\dagger} Q^{j} \bar{u}^{\dagger} \bar{d} \bar{d} H^{k} \tilde{H}^{l}  \cdot  \epsilon_{i l} \epsilon_{j k}$"
     operator_latex[
         "60a"
     ] = r"$L^{i} \bar{e}^{\dagger} \tilde{Q}^{j} \bar{u}^{\dagger} \bar{u}^{\dagger} \bar{d} H^{k} \tilde{H}^{l}  \cdot  \epsilon_{i l} \epsilon_{j k}$"
@@ -687,6 +687,9 @@ def print_paper_table():
     operator_latex[
         "D13b"
     ] = r"$(DL)^{i} L^{j} \tilde{Q}^{k} (D{\bar{u}^{\dagger}}) H^{l}  \cdot  \epsilon_{i k} \epsilon_{j l}$"
+    operator_latex[
+        "D13c"
+    ] = r"$(DL)^{i} L^{j} \tilde{Q}^{k} (D{\bar{u}^{\dagger}}) H^{l}  \cdot  \epsilon_{i l} \epsilon_{j k}$"
     operator_latex[
         "D14a"
     ] = r"$L^{i} {\bar{e}^{\dagger}} Q^{j} \bar{d} (DH)^{k} H^{l}  \cdot  \epsilon_{i k} \epsilon_{j l}$"
@@ -698,7 +701,7 @@ def print_paper_table():
     ] = r"$L^{i} {\bar{e}^{\dagger}} Q^{j} \bar{d} (DH)^{k} H^{l}  \cdot  \epsilon_{i j} \epsilon_{k l}$"
     operator_latex[
         "D15"
-    ] = r"$(DL)^{i} {\bar{e}^{\dagger}} (D \bar{u}^{\dagger}) \bar{d} H^{j}  \cdot  \epsilon_{i j}$"
+    ] = r"$L^{i} (D{\bar{e}^{\dagger}}) (D{\bar{u}^{\dagger}}) \bar{d} H^{j}  \cdot  \epsilon_{i j}$"
     operator_latex[
         "D16a"
     ] = r"$L^{i} {\bar{e}^{\dagger}} \tilde{Q}^{j} {\bar{u}^{\dagger}} (DH)^{k} H^{l}  \cdot  \epsilon_{i k} \epsilon_{j l}$"
@@ -764,11 +767,12 @@ def print_paper_table():
     for label, latex in operator_latex.items():
 
         if label in EFF_OPERATORS:
-            op = EFF_OPERATORS[label]
+            loops, scale = table_data(EFF_OPERATORS[label])
         elif label in DERIV_EFF_OPERATORS:
-            op = DERIV_EFF_OPERATORS[label]
-
-        loops, scale = table_data(op)
+            loops, scale = table_data(DERIV_EFF_OPERATORS[label])
+        else:
+            # no estimates for operators left out of the catalogue
+            loops, scale = "", ""
 
         if label not in op_labels:
             models, filtered = "", ""
-- 
2.43.0


From c7a2dbaf00728ed6c3072f509a8417e765b191af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 53/57] fix: recognition of one-loop models when building the
 tables

Charges were compared by prefix (hypercharge 1 with 1/2), fields with several
possible baryon numbers stopped the script, and models in which a field and its
conjugate run in the loop were never recognised.
---
 neutrinomass/database/pickler | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/neutrinomass/database/pickler b/neutrinomass/database/pickler
index 9949254..435ca1d 100755
--- a/neutrinomass/database/pickler
+++ b/neutrinomass/database/pickler
@@ -5,6 +5,7 @@ import argparse
 
 import pickle
 from collections import defaultdict
+from functools import reduce
 
 from neutrinomass.database.database import ModelDatabase
 from neutrinomass.database.utils import loop_data
@@ -77,27 +78,23 @@ def data_dict(db):
 
 
 def field_options(db, field):
-    """Returns exotic field string that possibly is associated with `field`, i.e.
-    includes baryon number
+    """Returns exotic field strings that possibly are associated with `field`, i.e.
+    includes baryon number, by baryon number
 
     """
-    return [k for k in db.exotic_prime_dict if k.startswith(field)]
+    opts = [k for k in db.exotic_prime_dict if k.startswith(field + ",")]
+    return {opt.split(",")[-1]: opt for opt in opts}
 
 
 def one_loop_democratic_nums(db, models):
     model_nums = []
     for model in models:
         opts = [field_options(db, f) for f in model]
-        if [] in opts:
-            continue
-
-        # it seems all opts are of length one, so just take first
-        model_num = 1
-        for opt in opts:
-            assert len(opt) == 1
-            model_num *= db.exotic_prime_dict[opt[0]]
-
-        model_nums.append(model_num)
+        # the same baryon number flows through all fields in the loop
+        for charge in set.intersection(*[set(opt) for opt in opts]):
+            # a field and its conjugate are one field in the model
+            primes = {db.exotic_prime_dict[opt[charge]] for opt in opts}
+            model_nums.append(reduce(lambda x, y: x * y, primes))
 
     return model_nums
 
-- 
2.43.0


From 1db04c8a00acdec42679ef1a8d8c5c06107fbd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 54/57] fix: list of unnumbered operators imports a Hilbert
 series that does not exist

---
 neutrinomass/tensormethod/latexoperators    | 4 ++--
 neutrinomass/tensormethod/operatorxcheck.py | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/latexoperators b/neutrinomass/tensormethod/latexoperators
index 697f7d0..6efe38f 100755
--- a/neutrinomass/tensormethod/latexoperators
+++ b/neutrinomass/tensormethod/latexoperators
@@ -2,14 +2,14 @@
 
 import os
 
-from neutrinomass.tensormethod.parse_hs import H6_NF3
+from neutrinomass.tensormethod.hs import H6
 from neutrinomass.tensormethod.parse_hs import H7_LNV_NF3
 from neutrinomass.tensormethod.parse_hs import H9_LNV_NF3
 from neutrinomass.tensormethod.parse_hs import H11_LNV_NF3
 from neutrinomass.tensormethod.operatorxcheck import list_invariants
 
 dimension = 6
-hs = H6_NF3
+hs = list(H6)
 
 rows = []
 for inv in list_invariants(hs):
diff --git a/neutrinomass/tensormethod/operatorxcheck.py b/neutrinomass/tensormethod/operatorxcheck.py
index ae29117..e8daf48 100644
--- a/neutrinomass/tensormethod/operatorxcheck.py
+++ b/neutrinomass/tensormethod/operatorxcheck.py
@@ -3,7 +3,6 @@
 """Script to check that no operators are missing from the numbered list."""
 
 from neutrinomass.tensormethod.parse_hs import parse
-from neutrinomass.tensormethod.parse_hs import H6_NF3
 from neutrinomass.tensormethod.parse_hs import H7_LNV_NF3
 from neutrinomass.tensormethod.parse_hs import H9_LNV_NF3
 from neutrinomass.tensormethod.parse_hs import H11_LNV_NF3
-- 
2.43.0


From c43e82271caa43548d77bed0582fe696ba0336d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 55/57] fix: lines that are neither scalar nor fermion are
 refused

---
 neutrinomass/completions/tikzfeynman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/tikzfeynman.py b/neutrinomass/completions/tikzfeynman.py
index 38eb294..09db873 100644
--- a/neutrinomass/completions/tikzfeynman.py
+++ b/neutrinomass/completions/tikzfeynman.py
@@ -80,7 +80,7 @@ def tikz_type(particle: IndexedField) -> str:
     if particle.is_fermion and not particle.is_conj:
         return "fermion"
 
-    return ValueError(f"Incomplete cases for {particle}.")
+    raise ValueError(f"Incomplete cases for {particle}.")
 
 
 def proc_body(g: nx.Graph) -> str:
-- 
2.43.0


From dbbf82135af3556dcad2d01d9669d949644dfbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 56/57] fix: case and letters in the names of indices

---
 neutrinomass/tensormethod/core.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index ab7aada..2dea8bf 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -103,7 +103,8 @@ class Index(tensor.TensorIndex):
     def __init__(self, label, *args, **kwargs):
         if isinstance(label, Index):
             self.label = label.label
-        self.label = str(label)  # the label that was passed in
+        # the label that was passed in, up to case
+        self.label = str(label).lower()
 
     def __getnewargs__(self):
         # copies and pickles must keep lowered indices lowered
@@ -118,9 +119,10 @@ class Index(tensor.TensorIndex):
     def conj(self):
         # conj takes you between dotted and undotted
         if self.index_type in Index.get_lorentz_index_types().values():
+            # only the letter for the type, names may go on with any others
             if self.index_type == "Undotted":
-                return Index(label=self.label.replace("u", "d"))
-            return Index(label=self.label.replace("d", "u"))
+                return Index(label=self.label.replace("u", "d", 1))
+            return Index(label=self.label.replace("d", "u", 1))
 
         # conj does nothing to isospin indices (implicit epsilon)
         # conj also does nothing to generation indices
@@ -336,7 +338,7 @@ class Field:
 
         # make sure names of indices are correct (to avoid user confusion)
         assert_consistent_indices(
-            [i for i in indices.split() if i[0] != "g"],  # ignore generation indices
+            [i for i in indices.lower().split() if i[0] != "g"],  # ignore generation indices
             index_types,
             (su3_up, su3_down),
         )
@@ -712,7 +714,7 @@ class IndexedField(tensor.Tensor, Field):
         # keep one form, so that fields with the same indices compare equal
         if isinstance(indices, str):
             indices = indices.split()
-        self.index_labels = " ".join(str(i) for i in indices)
+        self.index_labels = " ".join(str(i).lower() for i in indices)
 
     @property
     def field(self):
-- 
2.43.0


From a3c12156a44a0bd0401314cea37f3b9f83a8bf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 57/57] fix: an operator on the right of a product keeps its
 fields

---
 neutrinomass/tensormethod/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 2dea8bf..99bfa1d 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1417,7 +1417,10 @@ def normalise_operator_input(*args):
     """
     new_product = []
     for fac in args:
-        if isinstance(fac, tensor.TensMul):
+        if isinstance(fac, Operator):
+            # the args of an operator are plain tensors, not fields
+            new_product += fac.tensors
+        elif isinstance(fac, tensor.TensMul):
             new_product += list(fac.args)
         else:
             new_product.append(fac)
-- 
2.43.0

