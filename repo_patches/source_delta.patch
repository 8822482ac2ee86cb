From e85e19dc2e5aa97666c976fd7be3ba863b5d0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 01/54] fix: flatten arcsin partials for inputs of rank two and
 above

---
 omtools/comps/arcsincomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..354ee55 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,8 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name, in_name] = (
+            1.0 / np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 64e3549e630207c9ff5d27f3ff0ebf088c8ec715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 02/54] fix: flatten the whole sech partial for inputs of rank
 two and above

---
 omtools/comps/sechcomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..2cc2a8a 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,9 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (
+            -1.0 * np.tanh(inputs[in_name]) *
+            (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From dc4d04db0c3fbf177b0df3ff73dfb0d1da1856a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 03/54] fix: do not overwrite an array coefficient while
 computing partials

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..66bba58 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -76,10 +76,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 17b5ac4fe3cb052330a976b0bbd5d28bb35b4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 04/54] fix: apply every entry of an array exponent, not only
 the first

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 2 +-
 omtools/core/variable.py                                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 66bba58..86f861f 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,7 +64,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
                 print(in_name)
                 print(inputs[in_name])
                 exit()
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..d589024 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -701,7 +701,7 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-- 
2.43.0


From f0af9d5d064b2af906afec8f5335e48eae7536b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 05/54] fix: raise an exception on division by zero, do not
 exit the interpreter

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 86f861f..0e85afa 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -65,9 +65,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
             if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+                raise ZeroDivisionError(
+                    "Input " + in_name + " is zero and its power is negative")
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From ba8dffbab95ba1c4a125ceabe79f1e57b07a5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 06/54] fix: allow division by an array of constants

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index d589024..f77d65e 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -647,7 +647,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From 485601ddbdcca225de2384dc75c892c0b8ea0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 07/54] fix: index expressions whose default value does not
 have their shape

---
 omtools/core/variable.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index f77d65e..7e684ad 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -143,9 +143,15 @@ class Variable():
         self,
         key: Union[int, slice, Tuple[slice]],
     ):
+        # expressions that do not carry a value of their own shape start
+        # from the default value
+        self_val = self.val
+        if np.shape(self_val) != tuple(self.shape):
+            self_val = np.ones(self.shape)
+
         if self._getitem_called == False:
             self._getitem_called = True
-            self._decomp = Variable(shape=self.shape, val=self.val[key])
+            self._decomp = Variable(shape=self.shape, val=self_val)
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
 
@@ -196,7 +202,7 @@ class Variable():
                              self.__repr__())
 
         # Create and store expression to return
-        val = self.val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
+        val = self_val[tuple([slice(s[0], s[1], s[2]) for s in list(key)])]
         expr = Variable(shape=val.shape, val=val)
         self._decomp.indexed_exprs[key] = expr
         expr.add_dependency_node(self._decomp)
@@ -207,7 +213,7 @@ class Variable():
         self._decomp.build = lambda: DecomposeComp(
             in_name=self.name,
             expr=self._decomp,
-            val=self.val,
+            val=self_val,
         )
         return expr
 
-- 
2.43.0


From 250e4aa44130ac8d1643838fa31f82a0f6863a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 08/54] fix: accept a negative stop when reading a slice, as
 assignment does

---
 omtools/core/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 7e684ad..914c9ed 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -190,7 +190,10 @@ class Variable():
             return self._decomp.indexed_exprs[key]
 
         # Get flat indices from key to define corresponding component
-        slices = [slice_to_list(s[0], s[1], s[2]) for s in list(key)]
+        slices = [
+            slice_to_list(s[0], s[1], s[2], size=self.shape[i])
+            for i, s in enumerate(list(key))
+        ]
         src_indices = np.ravel_multi_index(
             tuple(np.array(np.meshgrid(*slices, indexing='ij'))),
             self.shape,
-- 
2.43.0


From d2cfe7b79b54d2cde49b06546a7bb2e3dbe06f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 09/54] fix: average over more than one axis

---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From 8b55773a0396ca5e44918e44b24c31cd61e4d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 10/54] fix: keep the default value of a scalar input that is
 expanded

---
 omtools/comps/scalar_expansion_comp.py | 4 +++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..6c8846d 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,15 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', types=np.ndarray)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
+        val = self.options['val']
 
-        self.add_input(in_name)
+        self.add_input(in_name, shape=(1, ), val=val)
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From 0ee9943f852923dcfa207835b3152aa960e073c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 11/54] fix: give a matmat product the same shape in the
 expression and in the component

---
 omtools/comps/matmat_comp.py | 5 ++++-
 omtools/std/matmat.py        | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..f7de4f0 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -24,6 +24,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('in_names', types=list)
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
         self.options.declare('in_vals', types=list)
 
     def setup(self):
@@ -35,7 +36,9 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        if self.options['out_shape'] is not None:
+            output_shape = self.options['out_shape']
+        elif in_shapes[1][1] != 1:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
         else:
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..b1b75d9 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -32,18 +32,20 @@ def matmat(mat1, mat2):
         out.build = lambda: MatMatComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
+            out_shape=out.shape,
             in_shapes=[mat1.shape, mat2.shape],
             in_vals=[mat1.val, mat2.val],
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
         out.build = lambda: MatMatComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
+            out_shape=out.shape,
             in_shapes=[mat1.shape, mat2_shape],
             in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
         )
-- 
2.43.0


From 72ad6f2858ccacba15f57682ccd98f0d8598cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 12/54] fix: reject an expansion that would permute the axes of
 its operand

---
 omtools/std/expand.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..3543473 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -18,6 +18,9 @@ def expand(expr: Variable, shape: tuple, indices=None):
 
     if indices is not None:
         in_indices, out_indices = indices.split('->')
+        kept = ''.join(index for index in out_indices if index in in_indices)
+        if kept != in_indices:
+            raise ValueError(indices, " does not keep the order of the axes")
         expand_indices = []
         for i in range(len(out_indices)):
             index = out_indices[i]
-- 
2.43.0


From e916096718d0b6859b3efc701e92a6316b7b0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 13/54] fix: multiply a matrix by a vector that is an
 intermediate expression

---
 omtools/std/matmat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index b1b75d9..42c0c47 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -42,12 +42,17 @@ def matmat(mat1, mat2):
 
         mat2_shape = (mat2.shape[0], 1)
 
+        # expressions may not carry a value of their own shape
+        mat2_val = mat2.val
+        if np.size(mat2_val) != mat2.shape[0]:
+            mat2_val = np.ones(mat2_shape)
+
         out.build = lambda: MatMatComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             out_shape=out.shape,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_vals=[mat1.val, np.reshape(mat2_val, mat2_shape)],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From b1aba25847c1469c8dad1e688e3f00247214e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 14/54] fix: reject operands and exponents that no component
 can represent

---
 omtools/core/variable.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 914c9ed..71e457d 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,6 +20,15 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def check_operand(other):
+    """
+    Reject objects that no arithmetic component can represent
+    """
+    if not isinstance(other, (Variable, numbers.Number, np.ndarray)):
+        raise TypeError(
+            repr(other) + " is not a Variable object, number or array")
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -44,24 +53,28 @@ class Variable():
         """
         Represent addition between two expressions
         """
+        check_operand(other)
         return ElementwiseAddition(self, other)
 
     def __sub__(self, other):
         """
         Represent subtraction between two expressions
         """
+        check_operand(other)
         return ElementwiseSubtraction(self, other)
 
     def __mul__(self, other):
         """
         Represent multiplication between two expressions
         """
+        check_operand(other)
         return ElementwiseMultiplication(self, other)
 
     def __truediv__(self, other):
         """
         Represent division between two expressions
         """
+        check_operand(other)
         return ElementwiseDivision(self, other)
 
     def __pow__(self, other):
@@ -700,7 +713,7 @@ class ElementwisePower(Variable):
                 powers=expr2,
                 in_vals=[expr1.val],
             )
-        if isinstance(expr2, np.ndarray):
+        elif isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
             self.shape = expr1.shape
@@ -717,7 +730,8 @@ class ElementwisePower(Variable):
         else:
             # TODO: constant array exponent
             # TODO: stock component where exponent is not a constant
-            return NotImplemented
+            raise TypeError("Exponent must be a number or an array, not " +
+                            repr(expr2))
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From 55b35b5f2d8205391656bb0561a4d489ead7e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 15/54] fix: connect an expression that is registered after it
 is assigned to elements of an output

---
 omtools/core/explicit_output.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..c370e61 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, List[int]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -142,12 +142,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr.name in [e.name for e in self._tgt_indices.keys()]:
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -156,11 +156,16 @@ class ExplicitOutput(Output):
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # expressions may be given another name after this assignment
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            expr_indices={
+                e.name: indices
+                for e, indices in self._tgt_indices.items()
+            },
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={e.name: val
+                  for e, val in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From 8921613c01dd1d8920f7623c1f6f372d29969d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 16/54] fix: if_else derivatives, and branches that are not
 scalars

---
 omtools/std/if_else.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..e95518b 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,10 +17,16 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        self.add_input(condition.name,
+                       shape=condition.shape,
+                       val=condition.val)
+        self.add_input(expr_true.name,
+                       shape=expr_true.shape,
+                       val=expr_true.val)
+        self.add_input(expr_false.name,
+                       shape=expr_false.shape,
+                       val=expr_false.val)
+        self.add_output(out_name, shape=expr_true.shape)
 
         self.declare_partials(
             of=out_name,
@@ -47,10 +53,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_false = self.options['expr_false']
 
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
+            partials[out_name, expr_false.name] = 1
             partials[out_name, expr_true.name] = 0
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
+            partials[out_name, expr_true.name] = 1
             partials[out_name, expr_false.name] = 0
 
 
@@ -65,6 +71,7 @@ def if_else(
         )
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From b323ea4bb3e025fe67fa79f17e51baab8d45cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 17/54] fix: allow the same expression as more than one operand
 of an operation

---
 omtools/core/variable.py           | 12 +++++++++
 omtools/std/average.py             |  3 +++
 omtools/std/cross.py               |  2 ++
 omtools/std/dot.py                 |  2 ++
 omtools/std/if_else.py             |  6 +++++
 omtools/std/inner.py               |  2 ++
 omtools/std/matmat.py              |  2 ++
 omtools/std/max.py                 |  3 +++
 omtools/std/min.py                 |  3 +++
 omtools/std/outer.py               |  2 ++
 omtools/std/sum.py                 |  3 +++
 omtools/utils/distinct_operands.py | 39 ++++++++++++++++++++++++++++++
 12 files changed, 79 insertions(+)
 create mode 100644 omtools/utils/distinct_operands.py

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 71e457d..6b9a85c 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -428,6 +428,9 @@ class ElementwiseAddition(Variable):
     addition
     """
     def initialize(self, expr1, expr2):
+        if isinstance(expr1, Variable) and isinstance(expr2, Variable):
+            from omtools.utils.distinct_operands import distinct_operands
+            expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -491,6 +494,9 @@ class ElementwiseSubtraction(Variable):
     subtraction
     """
     def initialize(self, expr1, expr2):
+        if isinstance(expr1, Variable) and isinstance(expr2, Variable):
+            from omtools.utils.distinct_operands import distinct_operands
+            expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -558,6 +564,9 @@ class ElementwiseMultiplication(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        if isinstance(expr1, Variable) and isinstance(expr2, Variable):
+            from omtools.utils.distinct_operands import distinct_operands
+            expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
@@ -627,6 +636,9 @@ class ElementwiseDivision(Variable):
     multiplication
     """
     def initialize(self, expr1, expr2):
+        if isinstance(expr1, Variable) and isinstance(expr2, Variable):
+            from omtools.utils.distinct_operands import distinct_operands
+            expr1, expr2 = distinct_operands(expr1, expr2)
         if isinstance(expr1, Variable):
             self.shape = expr1.shape
             self.add_dependency_node(expr1)
diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..a157a96 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -1,6 +1,7 @@
 from omtools.comps.single_tensor_average_comp import SingleTensorAverageComp
 from omtools.comps.multiple_tensor_average_comp import MultipleTensorAverageComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +27,8 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    operands = distinct_operands(*operands)
+    for expr in operands:
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..b922bde 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -1,5 +1,6 @@
 from omtools.comps.cross_product_comp import CrossProductComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 
 def cross(in1, in2, axis: int):
@@ -22,6 +23,7 @@ def cross(in1, in2, axis: int):
     if not (isinstance(in1, Variable) and isinstance(in2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
     out = Variable()
+    in1, in2 = distinct_operands(in1, in2)
     out.add_dependency_node(in1)
     out.add_dependency_node(in2)
 
diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bd5f73e..bb27d61 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_dot_product_comp import TensorDotProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +27,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
     if not (isinstance(expr1, Variable) and isinstance(expr2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
     out = Variable()
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
 
diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index e95518b..0903cec 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -1,4 +1,5 @@
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 # from omtools.comps.conditional_component import ConditionalComponent
 from openmdao.api import ExplicitComponent
 import numpy as np
@@ -72,6 +73,11 @@ def if_else(
 
     out = Variable()
     out.shape = expr_true.shape
+    condition, expr_true, expr_false = distinct_operands(
+        condition,
+        expr_true,
+        expr_false,
+    )
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..ae6008a 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_inner_product_comp import TensorInnerProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -27,6 +28,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         raise TypeError(expr2, " is not an Variable object")
 
     out = Variable()
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
 
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 42c0c47..d96136d 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,5 +1,6 @@
 from omtools.comps.matmat_comp import MatMatComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -22,6 +23,7 @@ def matmat(mat1, mat2):
     if not (isinstance(mat1, Variable) and isinstance(mat2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
     out = Variable()
+    mat1, mat2 = distinct_operands(mat1, mat2)
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
 
diff --git a/omtools/std/max.py b/omtools/std/max.py
index 0438e98..aea1d71 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -3,6 +3,7 @@ from omtools.comps.elementwise_max_comp import ElementwiseMaxComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 import numpy as np
 
@@ -29,6 +30,8 @@ def max(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    exprs = distinct_operands(*exprs)
+    for expr in exprs:
         out.add_dependency_node(expr)
 
     if len(exprs) == 1 and axis != None:
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 9f43b0a..0c74b09 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -3,6 +3,7 @@ from omtools.comps.elementwise_min_comp import ElementwiseMinComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 import numpy as np
 
@@ -29,6 +30,8 @@ def min(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    exprs = distinct_operands(*exprs)
+    for expr in exprs:
         out.add_dependency_node(expr)
 
     if len(exprs) == 1 and axis != None:
diff --git a/omtools/std/outer.py b/omtools/std/outer.py
index ebbed1f..cc54d7a 100644
--- a/omtools/std/outer.py
+++ b/omtools/std/outer.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_outer_product_comp import TensorOuterProductComp
 from omtools.comps.vector_outer_product_comp import VectorOuterProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -24,6 +25,7 @@ def outer(expr1: Variable, expr2: Variable):
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
     out = Variable()
+    expr1, expr2 = distinct_operands(expr1, expr2)
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
 
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..c980753 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -1,6 +1,7 @@
 from omtools.comps.single_tensor_sum_comp import SingleTensorSumComp
 from omtools.comps.multiple_tensor_sum_comp import MultipleTensorSumComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -24,6 +25,8 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    summands = distinct_operands(*summands)
+    for expr in summands:
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/utils/distinct_operands.py b/omtools/utils/distinct_operands.py
new file mode 100644
index 0000000..048a146
--- /dev/null
+++ b/omtools/utils/distinct_operands.py
@@ -0,0 +1,39 @@
+from typing import List
+
+from omtools.core.variable import Variable
+from omtools.comps.pass_through_comp import PassThroughComp
+
+
+def _copy(expr: Variable) -> Variable:
+    out = Variable()
+    out.shape = expr.shape
+    out.val = expr.val
+    out.add_dependency_node(expr)
+    out.build = lambda: PassThroughComp(expr=expr, name=out.name)
+    return out
+
+
+def distinct_operands(*exprs: Variable) -> List[Variable]:
+    """
+    Replace the second and later occurrences of the same operand by
+    copies, because a component cannot have two inputs with the same
+    name.
+
+    Parameters
+    ----------
+    exprs: Variable
+        Operands of one operation
+
+    Returns
+    -------
+    List[Variable]
+        Operands with different names
+    """
+    names = set()
+    operands = []
+    for expr in exprs:
+        if expr.name in names:
+            expr = _copy(expr)
+        names.add(expr.name)
+        operands.append(expr)
+    return operands
-- 
2.43.0


From e255e1e4cfba9b78fc10830fe304f65fca36c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 18/54] fix: cross product along a negative axis

---
 omtools/std/cross.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index b922bde..63b885c 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -36,6 +36,10 @@ def cross(in1, in2, axis: int):
         raise Exception(
             "The specified axis must correspond to the value of 3 in shape")
 
+    # count a negative axis from the last axis
+    if axis < 0:
+        axis += len(in1.shape)
+
     out.build = lambda: CrossProductComp(
         shape=in1.shape,
         in1_name=in1.name,
-- 
2.43.0


From 3e61120af71f604d402487062a176cedd9bff962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 19/54] fix: einsum derivatives with respect to operands that
 follow a repeated operand

---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..e9bcd9c 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -348,7 +348,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
-- 
2.43.0


From bd9f905bf30c7909b042f83e0714000c3b512bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 20/54] fix: select the nonzero entries of sparse einsum
 derivatives

---
 omtools/comps/einsum_comp_sparse_derivs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index e9bcd9c..30bddfb 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,9 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry per input
+                self.partial_indices_list.append(None)
+                self.flattened_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
@@ -381,7 +384,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[
+                    tuple(partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From b8caff8cd8a4959fbcbdb4f39b39b3b0169337c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 21/54] fix: remove indirect dependencies in descending order
 of their indices

---
 omtools/core/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..d81faed 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -21,8 +21,8 @@ def remove_indirect_dependencies(node: Variable):
             index = node.get_dependency_index(grandchild)
             if index is not None:
                 remove.append(index)
-    # remove duplicate indices
-    remove = list(set(remove))
+    # remove duplicate indices; indices must be removed from last to first
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From b17d40fff8175e330e7310ca16861bd0ad00abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 22/54] fix: delete unused expressions from the record of nodes

---
 omtools/core/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..690c004 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
             if len(node.dependents) == 0:
                 keys.append(name)
         for name in keys:
-            del node[name]
+            del self.nodes[name]
 
         # Compute branch costs and sort branches to get desired sparsity
         # pattern in system jacobian
-- 
2.43.0


From f2df78667a3f9111ceb9ce4b9f9ebef2e12435f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 23/54] fix: allow classes that inherit setup

---
 omtools/comps/implicit_component.py | 3 ++-
 omtools/core/group.py               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..5f7fe29 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -125,7 +125,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 690c004..d4d2632 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -124,7 +124,8 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
-- 
2.43.0


From e304aea98b0aea8a893a6780a23313c62ce3ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 24/54] fix: build the model again when setup is called again,
 and once when setup of a base class is called

---
 omtools/comps/implicit_component.py | 25 ++++++++++++++++++++++---
 omtools/core/group.py               | 29 +++++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 5f7fe29..8a40c3a 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,7 +37,21 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
-        func(self)
+        # setup of a base class, called by setup of a derived class
+        if self._setup_running:
+            func(self)
+            return
+
+        # OpenMDAO calls setup again, define residuals again
+        if self._problem_built:
+            self._reset_problem()
+
+        self._setup_running = True
+        try:
+            func(self)
+        finally:
+            self._setup_running = False
+        self._problem_built = True
         # setup internal problem
         g = self.group
 
@@ -153,14 +167,19 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self._setup_running = False
+        self._reset_problem()
+        self.maxiter = 100
+        self.n2 = n2
+
+    def _reset_problem(self):
+        self._problem_built = False
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
-        self.n2 = n2
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/core/group.py b/omtools/core/group.py
index d4d2632..7d33d58 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,8 +35,27 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # setup of a base class, called by setup of a derived class; the
+        # graph is complete when setup of the derived class returns
+        if self._setup_running:
+            func(self)
+            return
+
+        if self._graph_built:
+            # components were added before OpenMDAO calls setup
+            if self._built_before_setup:
+                return
+            # OpenMDAO calls setup again, define expressions again
+            self._reset_graph()
+
         # The user-defined Group.setup() method
-        func(self)
+        self._setup_running = True
+        try:
+            func(self)
+        finally:
+            self._setup_running = False
+        self._graph_built = True
+        self._built_before_setup = self._static_mode
 
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
@@ -152,10 +171,16 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
     """
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
-        self.nodes: dict = {}
         self.input_vals: dict = {}
         self.sorted_builders = []
         self.reverse_branch_sorting: bool = False
+        self._setup_running: bool = False
+        self._built_before_setup: bool = False
+        self._reset_graph()
+
+    def _reset_graph(self):
+        self._graph_built: bool = False
+        self.nodes: dict = {}
         self._root = Variable()
         self._most_recently_added_subsystem: Subsystem = None
         self.res_out_map: Dict[str, str] = dict()
-- 
2.43.0


From 6c2f9f0da904047635ff1182aef832cbe24865a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 25/54] fix: start an implicit output from its own initial
 value

---
 omtools/comps/implicit_component.py | 7 ++-----
 omtools/core/implicit_output.py     | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 8a40c3a..e304399 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -76,7 +76,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=self.group.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
@@ -119,10 +119,7 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                if len(self.group.out_vals) == 0:
-                    self.prob[out_name] = 1
-                else:
-                    self.prob[out_name] = self.group.out_vals[out_name]
+                self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
                     self.prob[in_expr.name] = in_expr.val
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..35f55d5 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -154,6 +154,7 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
+        self.group.out_vals[self.name] = self.val
         self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
-- 
2.43.0


From e9e01374df6b61c835d86a8f492c8d1ae6ad63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 26/54] fix: allow residuals of an implicit component to share
 inputs

---
 omtools/comps/implicit_component.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index e304399..cc8125d 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -59,6 +59,7 @@ def _post_setup(func: Callable) -> Callable:
 
         # Collect residual expressions and their corresponding inputs
         # and outputs
+        input_names = set()
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
@@ -82,11 +83,14 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        # residuals may share inputs
+                        if in_expr.name not in input_names:
+                            input_names.add(in_expr.name)
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
-- 
2.43.0


From 6c55f86cd733d733ea004a5986f8be3439def5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 27/54] fix: allow more than one output of an implicit
 component, with and without brackets

---
 omtools/comps/implicit_component.py | 3 ++-
 omtools/core/implicit_output.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index cc8125d..0458e67 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -227,7 +227,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if self.group.brackets_map is not None and \
+                        out_name in self.group.brackets_map[0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 35f55d5..de6a5f2 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -155,7 +155,8 @@ class ImplicitOutput(Output):
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
         self.group.out_vals[self.name] = self.val
-        self.group.brackets_map = (dict(), dict())
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From 08da622414010dc4dbbbe2c7488f8ed641fda332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 28/54] fix: honor maxiter in the bracketed search

---
 omtools/comps/implicit_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 0458e67..7b01df1 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -170,7 +170,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
         self._setup_running = False
         self._reset_problem()
-        self.maxiter = 100
+        self.maxiter = maxiter
         self.n2 = n2
 
     def _reset_problem(self):
-- 
2.43.0


From ef59b4f3e7eed62d4d1d350261b0c2bd6b3f1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 29/54] fix: include coupling between implicit outputs in
 derivatives and linear solves

---
 omtools/comps/implicit_component.py | 42 ++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 7b01df1..abad238 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -116,6 +116,12 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+
+        # residuals wrt outputs of other residuals
+        for of_name in self.all_outputs:
+            for wrt_name in self.all_outputs:
+                if of_name != wrt_name:
+                    self.declare_partials(of=of_name, wrt=wrt_name)
         self.prob.setup()
 
         # set initial values for inputs and output
@@ -275,16 +281,32 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 for in_expr in self.all_inputs[out_name]:
                     jacobian[out_name, in_expr.name] = jac[res_name,
                                                            in_expr.name]
-                jacobian[out_name, out_name] = jac[res_name, out_name]
+                for wrt_name in out_names:
+                    jacobian[out_name, wrt_name] = jac[res_name, wrt_name]
 
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                    self.derivs[out_name, wrt_name] = jac[res_name, wrt_name]
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        out_names = list(self.all_inputs.keys())
+
+        # residuals wrt outputs
+        mtx = np.block([[
+            self.derivs[out_name, wrt_name] for wrt_name in out_names
+        ] for out_name in out_names])
+
+        if mode == 'fwd':
+            lhs, rhs = d_outputs, d_residuals
+        else:
+            lhs, rhs = d_residuals, d_outputs
+            mtx = mtx.T
+
+        sol = np.linalg.solve(
+            mtx,
+            np.concatenate([rhs[name].flatten() for name in out_names]),
+        )
+
+        start = 0
+        for name in out_names:
+            stop = start + lhs[name].size
+            lhs[name] = sol[start:stop].reshape(lhs[name].shape)
+            start = stop
-- 
2.43.0


From b02b7dea58ff40ef73a87154dc296bf55480872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 30/54] fix: linearize an implicit component at the current
 values

---
 omtools/comps/implicit_component.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index abad238..dff02f6 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -263,6 +263,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
 
     def linearize(self, inputs, outputs, jacobian):
         self._set_values(inputs, outputs)
+        self.prob.run_model()
         in_exprs = set()
         for inputs in self.all_inputs.values():
             in_exprs = in_exprs.union(inputs)
-- 
2.43.0


From 8b0136b8a0f1ece78e5cc6805c53da7a006bc34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 31/54] fix: visit every node once when edges are added and
 costs are computed

---
 omtools/core/variable.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 6b9a85c..5dbf166 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -145,6 +145,7 @@ class Variable():
         self.build = None
         self.times_visited = 0
         self._dag_cost = 1
+        self._dag_cost_computed = False
         self.initialize(*args, **kwargs)
         self._getitem_called = False
         self._decomp = None
@@ -235,8 +236,11 @@ class Variable():
 
     def add_fwd_edges(self):
         for dependency in self.dependencies:
+            # traverse a node only once, no matter how many paths lead to it
+            visited = len(dependency.dependents) > 0
             dependency.add_dependent_node(self)
-            dependency.add_fwd_edges()
+            if not visited:
+                dependency.add_fwd_edges()
 
     def add_dependent_node(self, dependent):
         self.dependents.append(dependent)
@@ -358,8 +362,11 @@ class Variable():
         int
            Cost of traversing DAG starting with ``self``
         """
-        for dependency in self.dependencies:
-            self._dag_cost += dependency.compute_dag_cost()
+        # traverse a node only once, no matter how many paths lead to it
+        if not self._dag_cost_computed:
+            self._dag_cost_computed = True
+            for dependency in self.dependencies:
+                self._dag_cost += dependency.compute_dag_cost()
         return self._dag_cost
 
     def sort_dependency_branches(self, reverse_branch_sorting=False):
-- 
2.43.0


From a011903a6b05343b57b0d7e33022e6e40713b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 32/54] fix: replace every use of an output in its own
 definition

---
 omtools/utils/replace_output_leaf_nodes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omtools/utils/replace_output_leaf_nodes.py b/omtools/utils/replace_output_leaf_nodes.py
index 73dc4ef..9258174 100644
--- a/omtools/utils/replace_output_leaf_nodes.py
+++ b/omtools/utils/replace_output_leaf_nodes.py
@@ -7,14 +7,20 @@ def replace_output_leaf_nodes(
     root: Output,
     node: Variable,
     leaf: Input,
+    visited: set = None,
 ):
     """
     Replace ``Output`` objects that are used before they are defined
     with ``Input`` objects with same data.
     """
-    for dependency in node.dependencies:
+    if visited is None:
+        visited = set()
+    visited.add(node)
+    # dependencies change while they are traversed
+    for dependency in list(node.dependencies):
         if dependency is root:
             # replace dependency reference with Input node
             node.remove_dependency_node(dependency)
             node.add_dependency_node(leaf)
-        replace_output_leaf_nodes(root, dependency, leaf)
+        elif dependency not in visited:
+            replace_output_leaf_nodes(root, dependency, leaf, visited)
-- 
2.43.0


From 1f97b07cfc6ed38a4d1c8f89c0b3be43eefe4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 33/54] fix: visit every node once when inputs of a residual
 are collected

---
 omtools/utils/collect_input_exprs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 799860b..1fc593b 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -8,15 +8,19 @@ def collect_input_exprs(
     inputs: list,
     root: Variable,
     expr: Variable,
+    visited: set = None,
 ) -> List[Variable]:
     """
     Collect input nodes so that the resulting ``ImplicitComponent`` has
     access to inputs outside of itself.
     """
+    if visited is None:
+        visited = set()
+    visited.add(expr)
     for dependency in expr.dependencies:
-        if dependency.name != root.name:
+        if dependency.name != root.name and dependency not in visited:
             if isinstance(dependency, Input) == True and len(
                     dependency.dependencies) == 0:
                 inputs.append(dependency)
-            inputs = collect_input_exprs(inputs, root, dependency)
+            inputs = collect_input_exprs(inputs, root, dependency, visited)
     return inputs
-- 
2.43.0


From 3b6f352a27a0506c2d3355661e67c72b1cfb50ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 34/54] fix: accept extents computed by numpy in inner and dot
 products

---
 omtools/std/dot.py   | 2 +-
 omtools/std/inner.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bb27d61..8860bf1 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -41,7 +41,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
     else:
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ae6008a..fed0005 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -36,7 +36,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
 
-- 
2.43.0


From 891588038a2a9ec04eac0aa7047b70372b804070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 35/54] fix: start a cyclic definition from the initial value
 of its output

---
 omtools/comps/pass_through_comp.py | 3 ++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..b6e9503 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('out_val', default=1.)
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,7 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        self.add_output(out_name, shape=shape, val=self.options['out_val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index c370e61..1388a3a 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -81,6 +81,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            out_val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From 7533639c4a2af4a87892fe35009f7da8d8053629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 36/54] fix: declare partials of every implicit output with
 respect to every input

---
 omtools/comps/implicit_component.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index dff02f6..505ac5e 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -117,6 +117,16 @@ def _post_setup(func: Callable) -> Callable:
                 else:
                     self.prob.model.add_design_var(out_name)
 
+        # every output depends on the inputs of the other residuals
+        # through the coupling, OpenMDAO would take undeclared partials
+        # for independence
+        for of_name in self.all_outputs:
+            for wrt_name in input_names - {
+                    in_expr.name
+                    for in_expr in self.all_inputs[of_name]
+            }:
+                self.declare_partials(of=of_name, wrt=wrt_name)
+
         # residuals wrt outputs of other residuals
         for of_name in self.all_outputs:
             for wrt_name in self.all_outputs:
-- 
2.43.0


From c760d0e0e816777757199c403c9cd3334c4b1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 37/54] fix: allow residuals to share expressions that use
 implicit outputs

---
 omtools/comps/implicit_component.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 505ac5e..50d97d3 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -60,11 +60,16 @@ def _post_setup(func: Callable) -> Callable:
         # Collect residual expressions and their corresponding inputs
         # and outputs
         input_names = set()
+        output_names = set(g.res_out_map.values())
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
-                # inputs for this residual only
-                in_exprs = set(collect_input_exprs([], res_expr, res_expr))
+                # inputs for this residual only; an expression that
+                # residuals share depends on all of their outputs
+                in_exprs = set(
+                    in_expr
+                    for in_expr in collect_input_exprs([], res_expr, res_expr)
+                    if in_expr.name not in output_names)
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
 
-- 
2.43.0


From 124bc7954336efd6704a55bad4e05b5a6c2f7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 38/54] fix: let the vector of a matrix-vector product keep its
 declared shape

---
 omtools/std/matmat.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index d96136d..026d605 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,8 +1,8 @@
 from omtools.comps.matmat_comp import MatMatComp
+from omtools.comps.matvec_comp import MatVecComp
 from omtools.core.variable import Variable
 from omtools.utils.distinct_operands import distinct_operands
 from typing import List
-import numpy as np
 
 
 def matmat(mat1, mat2):
@@ -42,19 +42,12 @@ def matmat(mat1, mat2):
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
         out.shape = (mat1.shape[0], )
 
-        mat2_shape = (mat2.shape[0], 1)
-
-        # expressions may not carry a value of their own shape
-        mat2_val = mat2.val
-        if np.size(mat2_val) != mat2.shape[0]:
-            mat2_val = np.ones(mat2_shape)
-
-        out.build = lambda: MatMatComp(
+        # the vector keeps its shape
+        out.build = lambda: MatVecComp(
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
-            out_shape=out.shape,
-            in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, np.reshape(mat2_val, mat2_shape)],
+            in_shapes=[mat1.shape, mat2.shape],
+            in_vals=[mat1.val, mat2.val],
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From 67714bc0c7550766112939ada4e2a67045813a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 39/54] fix: reject operands of unequal shape in sums and
 averages

---
 omtools/std/average.py | 3 +++
 omtools/std/sum.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index a157a96..fc16563 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -27,6 +27,9 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+        if expr.shape != operands[0].shape:
+            raise ValueError("Shapes of operands " + repr(operands[0].shape) +
+                             " and " + repr(expr.shape) + " do not match")
     operands = distinct_operands(*operands)
     for expr in operands:
         out.add_dependency_node(expr)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index c980753..5fc9c83 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -25,6 +25,9 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+        if expr.shape != summands[0].shape:
+            raise ValueError("Shapes of operands " + repr(summands[0].shape) +
+                             " and " + repr(expr.shape) + " do not match")
     summands = distinct_operands(*summands)
     for expr in summands:
         out.add_dependency_node(expr)
-- 
2.43.0


From 3b46ee587f4a4a5b4ef1ee8c5aceee538125de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 40/54] fix: reject inner products that contract unequal
 extents

---
 omtools/std/inner.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index fed0005..4d2aced 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -33,6 +33,10 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     out.add_dependency_node(expr2)
 
     if len(expr1.shape) == 1 and len(expr2.shape) == 1:
+        if expr1.shape != expr2.shape:
+            raise ValueError("Cannot contract: " + repr(expr1.shape) +
+                             " with " + repr(expr2.shape))
+
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
@@ -41,6 +45,11 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         )
 
     else:
+        if [expr1.shape[i] for i in np.atleast_1d(axes[0])
+            ] != [expr2.shape[i] for i in np.atleast_1d(axes[1])]:
+            raise ValueError("Cannot contract: " + repr(expr1.shape) +
+                             " with " + repr(expr2.shape) + " along axes " +
+                             repr(axes))
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
-- 
2.43.0


From bf664dc1c6ec40a1306f85312ead1113c0f067c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 41/54] fix: reject a first operand of a matrix product that is
 not a matrix

---
 omtools/std/matmat.py | 3 +++
 omtools/std/matvec.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 026d605..3f8554f 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -27,6 +27,9 @@ def matmat(mat1, mat2):
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
 
+    if len(mat1.shape) != 2:
+        raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
+
     if mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 2:
         # Compute the output shape if both inputs are matrices
         out.shape = (mat1.shape[0], mat2.shape[1])
diff --git a/omtools/std/matvec.py b/omtools/std/matvec.py
index 0ab6651..bf23126 100644
--- a/omtools/std/matvec.py
+++ b/omtools/std/matvec.py
@@ -24,6 +24,9 @@ def matvec(mat1, vec1):
     out.add_dependency_node(mat1)
     out.add_dependency_node(vec1)
 
+    if len(mat1.shape) != 2:
+        raise Exception("Cannot multiply: ", mat1.shape, "by", vec1.shape)
+
     if mat1.shape[1] == vec1.shape[0] and len(vec1.shape) == 1:
 
         out.shape = (mat1.shape[0], )
-- 
2.43.0


From 8e8c3bd5b38c0d827e856adad38084ff9919931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 42/54] fix: reject operands that do not match the subscripts
 of einsum

---
 omtools/utils/einsum_utils.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 2fba882..51bc0db 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -7,6 +7,23 @@ def compute_einsum_shape(
 ):
     out_shape = []
 
+    # every letter stands for one extent
+    if len(operation_aslist) != len(in_shapes) + 1:
+        raise ValueError("Number of operands does not match subscripts")
+    extents = dict()
+    for tensor_rep, in_shape in zip(operation_aslist[:-1], in_shapes):
+        if len(tensor_rep) != len(in_shape):
+            raise ValueError("Subscripts " + tensor_rep +
+                             " do not match shape " + repr(in_shape))
+        for char, extent in zip(tensor_rep, in_shape):
+            if extents.setdefault(char, extent) != extent:
+                raise ValueError("Extents for subscript " + char +
+                                 " do not match")
+    for char in operation_aslist[-1]:
+        if char not in extents or operation_aslist[-1].count(char) > 1:
+            raise ValueError("Invalid subscripts for output: " +
+                             operation_aslist[-1])
+
     if operation_aslist[-1] == '' :
         out_shape = (1, )
 
-- 
2.43.0


From 2f86d21da9deb7dfef0916db34749a4d4c69fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 43/54] fix: reject reshaping into a shape of another size

---
 omtools/std/reshape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/reshape.py b/omtools/std/reshape.py
index 9d73f88..621945f 100644
--- a/omtools/std/reshape.py
+++ b/omtools/std/reshape.py
@@ -1,5 +1,6 @@
 from omtools.comps.reshape_comp import ReshapeComp
 from omtools.core.variable import Variable
+import numpy as np
 
 
 def reshape(expr: Variable, new_shape: tuple):
@@ -16,6 +17,9 @@ def reshape(expr: Variable, new_shape: tuple):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if np.prod(new_shape) != np.prod(expr.shape):
+        raise ValueError("Cannot reshape " + repr(expr.shape) + " into " +
+                         repr(new_shape))
     out = Variable()
     out.shape = new_shape
     out.add_dependency_node(expr)
-- 
2.43.0


From f6ad0587f556eceb19ed9934428b6c7a8f9e7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 44/54] fix: reject rotation axes that do not exist

---
 omtools/std/rotmat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/std/rotmat.py b/omtools/std/rotmat.py
index fb37ffb..8e617da 100644
--- a/omtools/std/rotmat.py
+++ b/omtools/std/rotmat.py
@@ -18,6 +18,8 @@ def rotmat(expr: Variable, axis: str):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if axis not in ('x', 'y', 'z'):
+        raise ValueError("Axis must be 'x', 'y' or 'z', not " + repr(axis))
     out = Variable()
     out.add_dependency_node(expr)
 
-- 
2.43.0


From 74ebf40db1066da6294b244d26c1cc8f6dc5b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 45/54] fix: reject index assignment to an output that is
 already defined

---
 omtools/core/explicit_output.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 1388a3a..a1cb93a 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -91,6 +91,11 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError(
+                "Variable for output " + self.name +
+                ", which forms a cycle to be computed iteratively, is already defined"
+            )
         self.add_dependency_node(expr)
         tgt_indices = []
 
-- 
2.43.0


From c40848eb02e41f625350abd22b69c132b90004a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 46/54] fix: reject constants that do not fit the shape of the
 expression

---
 omtools/core/variable.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 5dbf166..0c24d43 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,13 +20,17 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
-def check_operand(other):
+def check_operand(expr, other):
     """
-    Reject objects that no arithmetic component can represent
+    Reject objects that no arithmetic component can represent together
+    with ``expr``
     """
     if not isinstance(other, (Variable, numbers.Number, np.ndarray)):
         raise TypeError(
             repr(other) + " is not a Variable object, number or array")
+    # a constant takes the shape of the expression
+    if isinstance(other, np.ndarray) and other.shape != expr.shape:
+        np.broadcast_to(other, expr.shape)
 
 
 class Variable():
@@ -53,28 +57,28 @@ class Variable():
         """
         Represent addition between two expressions
         """
-        check_operand(other)
+        check_operand(self, other)
         return ElementwiseAddition(self, other)
 
     def __sub__(self, other):
         """
         Represent subtraction between two expressions
         """
-        check_operand(other)
+        check_operand(self, other)
         return ElementwiseSubtraction(self, other)
 
     def __mul__(self, other):
         """
         Represent multiplication between two expressions
         """
-        check_operand(other)
+        check_operand(self, other)
         return ElementwiseMultiplication(self, other)
 
     def __truediv__(self, other):
         """
         Represent division between two expressions
         """
-        check_operand(other)
+        check_operand(self, other)
         return ElementwiseDivision(self, other)
 
     def __pow__(self, other):
-- 
2.43.0


From b9823ed950a099dffe1462ac2461671f450449e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 47/54] fix: reject implicit outputs without a residual

---
 omtools/comps/implicit_component.py | 4 ++++
 omtools/core/group.py               | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 50d97d3..0f5b5a3 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -55,6 +55,10 @@ def _post_setup(func: Callable) -> Callable:
         # setup internal problem
         g = self.group
 
+        for out in g.implicit_outputs:
+            if out.defined == False:
+                raise ValueError("Residual not defined for " + repr(out))
+
         _remove_nonresiduals(g._root)
 
         # Collect residual expressions and their corresponding inputs
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 7d33d58..3ea5f8b 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -186,6 +186,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self.implicit_outputs = []
 
     def initialize(self, *args, **kwargs):
         """
@@ -336,6 +337,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
             shape=shape,
             val=val,
         )
+        self.implicit_outputs.append(im)
         # self._root.add_dependency_node(im)
         return im
 
-- 
2.43.0


From 2ad2433e043b77aa909ea3e4c6eae31c1e4e1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 48/54] fix: give expressions the same names when a model is
 set up again

---
 omtools/core/group.py    | 25 ++++++++++++++++++++++++-
 omtools/core/variable.py | 23 ++++++++++++++++++++---
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 3ea5f8b..59cfefa 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -51,7 +51,8 @@ def _post_setup(func: Callable) -> Callable:
         # The user-defined Group.setup() method
         self._setup_running = True
         try:
-            func(self)
+            with self._repeat_names():
+                func(self)
         finally:
             self._setup_running = False
         self._graph_built = True
@@ -188,6 +189,28 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.out_vals = dict()
         self.implicit_outputs = []
 
+    @contextmanager
+    def _repeat_names(self):
+        """
+        Generate the same names whenever the model is set up. OpenMDAO
+        keeps what it finds out about a subsystem from one setup to the
+        next, by the names of the variables of the subsystem.
+        """
+        if self._problem_meta is None:
+            # not called by OpenMDAO, setup of the parent is running
+            yield
+            return
+        model = self._problem_meta['model_ref']()
+        if not hasattr(model, '_omtools_names'):
+            model._omtools_names = dict()
+        names = model._omtools_names.setdefault(self.pathname, [])
+        running = Variable._names, Variable._num_reused
+        Variable._names, Variable._num_reused = names, 0
+        try:
+            yield
+        finally:
+            Variable._names, Variable._num_reused = running
+
     def initialize(self, *args, **kwargs):
         """
         User defined method to set options
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 0c24d43..001567f 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -44,9 +44,27 @@ class Variable():
     the ``Variable`` object represents.
     """
 
-    # A counter for all Variable objects created so far
+    # A counter for all names generated so far
     _count = -1
 
+    # Names generated when the model was set up before, and the number
+    # of those that are in use again
+    _names = None
+    _num_reused = 0
+
+    @staticmethod
+    def _gen_name():
+        names = Variable._names
+        if names is not None and Variable._num_reused < len(names):
+            name = names[Variable._num_reused]
+        else:
+            Variable._count += 1
+            name = gen_hex_name(Variable._count)
+            if names is not None:
+                names.append(name)
+        Variable._num_reused += 1
+        return name
+
     def __pos__(self):
         return self
 
@@ -137,8 +155,7 @@ class Variable():
                 self.units = v
 
     def __init__(self, *args, **kwargs):
-        Variable._count += 1
-        _id = gen_hex_name(Variable._count)
+        _id = Variable._gen_name()
         self._id = _id
         self.name = _id
         self.shape = (1, )
-- 
2.43.0


From 8ee2eac23ad7a58c55a8cd56b9f90624f52a70fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 49/54] fix: keep what is defined outside of setup when setup
 is called again

---
 omtools/core/group.py | 63 ++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 59cfefa..a7fe8e5 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -45,8 +45,15 @@ def _post_setup(func: Callable) -> Callable:
             # components were added before OpenMDAO calls setup
             if self._built_before_setup:
                 return
-            # OpenMDAO calls setup again, define expressions again
+            # OpenMDAO calls setup again; expressions that were defined
+            # outside of setup are not defined again
+            if self._defined_before_setup:
+                self._add_components()
+                return
+            # define expressions again
             self._reset_graph()
+        elif len(self.nodes) > 0 or len(self._root.dependencies) > 0:
+            self._defined_before_setup = True
 
         # The user-defined Group.setup() method
         self._setup_running = True
@@ -97,6 +104,7 @@ def _post_setup(func: Callable) -> Callable:
         self.sorted_expressions = topological_sort(self._root)
 
         # Now that expressions are sorted, construct components
+        self._components = []
         for expr in reversed(self.sorted_expressions):
             # Check if outputs are defined
             if isinstance(expr, Output):
@@ -108,37 +116,17 @@ def _post_setup(func: Callable) -> Callable:
             # Input objects and root Variable object do not have
             # a build method defined.
             if expr.build is not None:
-                sys = expr.build()
-                pfx = 'comp_'
-                promotes = ['*']
-                promotes_inputs = None
-                promotes_outputs = None
-                if isinstance(sys, OMGroup):
-                    pfx = ''
-                    promotes = expr.promotes
-                    promotes_inputs = expr.promotes_inputs
-                    promotes_outputs = expr.promotes_outputs
-                OMGroup.add_subsystem(
-                    self,
-                    pfx + expr.name,
-                    sys,
-                    promotes=promotes,
-                    promotes_inputs=promotes_inputs,
-                    promotes_outputs=promotes_outputs,
-                )
+                self._components.append((expr, expr.build()))
 
             # Set initial values for inputs
             # if isinstance(expr, Input):
             #     self.set_input_defaults(expr.name, val=expr.val)
 
-            # Set design variables
-            if isinstance(expr, Indep):
-                if expr.dv == True:
-                    self.add_design_var(expr.name)
-
             # Cut down on memory consumption
             del expr
 
+        self._add_components()
+
     return _sort_expressions_and_build_components
 
 
@@ -177,6 +165,8 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.reverse_branch_sorting: bool = False
         self._setup_running: bool = False
         self._built_before_setup: bool = False
+        self._defined_before_setup: bool = False
+        self._components = []
         self._reset_graph()
 
     def _reset_graph(self):
@@ -189,6 +179,31 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.out_vals = dict()
         self.implicit_outputs = []
 
+    def _add_components(self):
+        for expr, sys in self._components:
+            pfx = 'comp_'
+            promotes = ['*']
+            promotes_inputs = None
+            promotes_outputs = None
+            if isinstance(sys, OMGroup):
+                pfx = ''
+                promotes = expr.promotes
+                promotes_inputs = expr.promotes_inputs
+                promotes_outputs = expr.promotes_outputs
+            OMGroup.add_subsystem(
+                self,
+                pfx + expr.name,
+                sys,
+                promotes=promotes,
+                promotes_inputs=promotes_inputs,
+                promotes_outputs=promotes_outputs,
+            )
+
+            # Set design variables
+            if isinstance(expr, Indep):
+                if expr.dv == True:
+                    self.add_design_var(expr.name)
+
     @contextmanager
     def _repeat_names(self):
         """
-- 
2.43.0


From 72437a32be9292fad4aa743b9b925ef4072e3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 50/54] fix: accept option types given as a list or a set

---
 omtools/utils/options_dictionary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index b3e938c..e35d987 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -224,6 +224,9 @@ class OptionsDictionary(object):
                                      "is not one of {}.".format(value, name, values))
             # If only types is declared
             elif types is not None:
+                # isinstance takes no list or set of types
+                if isinstance(types, (set, list)):
+                    types = tuple(types)
                 if not isinstance(value, types):
                     vtype = type(value)
                     if isinstance(value, string_types):
-- 
2.43.0


From 6dd2c5c217885a0ba251f6a54456713a653db6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 51/54] fix: allow coefficients that are arrays of rank two and
 above

---
 omtools/comps/linearcombination_comp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index 5b2fa39..005f909 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -48,6 +48,8 @@ class LinearCombinationComp(ExplicitComponent):
         self.add_output(out_name, shape=shape)
         for in_name, coeff, val in zip(in_names, coeffs, in_vals):
             self.add_input(in_name, shape=shape, val=val)
+            if isinstance(coeff, np.ndarray):
+                coeff = np.broadcast_to(coeff, shape).flatten()
             self.declare_partials(out_name,
                                   in_name,
                                   val=coeff,
-- 
2.43.0


From 831624e60b727e84704bd30903c126fc96e033de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 52/54] fix: do not overwrite an array coefficient of a linear
 power combination

---
 omtools/comps/linearpowercombination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index b7842d9..358a4a5 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -100,7 +100,7 @@ class LinearPowerCombinationComp(ExplicitComponent):
             deriv = np.zeros(self.options['shape'])
 
             for iterm in range(powers.shape[0]):
-                term = coeffs[iterm]
+                term = coeffs[iterm] * np.ones(self.options['shape'])
                 for ivar, in_name2 in enumerate(in_names):
                     power = powers[iterm, ivar]
 
-- 
2.43.0


From 35366275c395173e06dcd44e15395cb339a16f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 53/54] fix: derivatives of zeroth powers at zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 3 ++-
 omtools/comps/linearpowercombination.py                  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 0e85afa..37e9d91 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -82,7 +82,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # the derivative of a zeroth power is zero, at zero too
+                    b = power - (power != 0)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
diff --git a/omtools/comps/linearpowercombination.py b/omtools/comps/linearpowercombination.py
index 358a4a5..ca9fc63 100644
--- a/omtools/comps/linearpowercombination.py
+++ b/omtools/comps/linearpowercombination.py
@@ -108,7 +108,8 @@ class LinearPowerCombinationComp(ExplicitComponent):
                     b = power
                     if in_name == in_name2:
                         a = power
-                        b = power - 1.
+                        # the derivative of a zeroth power is zero, at zero too
+                        b = power - (power != 0)
 
                     term *= a * inputs[in_name2]**b
 
-- 
2.43.0


From e3b78beb1b8abe6fe865b80ee18b0f921db1fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 54/54] fix: take inputs of and after internal subsystems as
 inputs of an implicit component

---
 omtools/comps/implicit_component.py  | 62 +++++++++++++++++-----------
 omtools/utils/collect_input_exprs.py |  3 +-
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 0f5b5a3..9aec9c6 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -89,22 +89,6 @@ def _post_setup(func: Callable) -> Callable:
                     val=self.group.out_vals[out_name],
                 )
 
-                # add inputs, declare partials (out wrt in)
-                for in_expr in in_exprs:
-                    if in_expr.name != out_name:
-                        # residuals may share inputs
-                        if in_expr.name not in input_names:
-                            input_names.add(in_expr.name)
-                            self.add_input(
-                                in_expr.name,
-                                shape=in_expr.shape,
-                                val=in_expr.val,
-                            )
-                        self.declare_partials(
-                            of=out_name,
-                            wrt=in_expr.name,
-                        )
-
                 # residual wrt output
                 self.declare_partials(
                     of=out_name,
@@ -112,20 +96,51 @@ def _post_setup(func: Callable) -> Callable:
                 )
 
                 # set response and design variables to compute derivatives
-                # treat inputs and output as inputs to internal model
+                # treat output as input to internal model
                 # treat residual as output of internal model
                 self.prob.model.add_constraint(res_expr.name)
-                for in_expr in in_exprs:
-                    in_name = in_expr.name
-                    if in_name in self.prob.model._design_vars or in_name in self.prob.model._static_design_vars:
-                        pass
-                    else:
-                        self.prob.model.add_design_var(in_name)
                 if out_name in self.prob.model._design_vars or out_name in self.prob.model._static_design_vars:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
 
+        self.prob.setup()
+
+        # inputs that internal subsystems take from outside; what they
+        # compute is not an input of the component
+        external = {
+            meta['prom_name']: meta
+            for name, meta in self.prob.model.get_io_metadata(
+                'input', ['shape', 'val']).items()
+            if self.prob.model.get_source(name).startswith('_auto_ivc.')
+        }
+        declared = set().union(*self.all_inputs.values())
+        names = output_names.union(in_expr.name for in_expr in declared)
+        undeclared = [
+            Input(name, shape=meta['shape'], val=meta['val'])
+            for name, meta in external.items()
+            if name not in names and '.' not in name
+        ]
+
+        # add inputs, declare partials (out wrt in)
+        for out_name, in_exprs in self.all_inputs.items():
+            in_exprs = self.all_inputs[out_name] = set(
+                in_expr for in_expr in in_exprs
+                if in_expr.name in external).union(undeclared)
+            for in_expr in in_exprs:
+                # residuals may share inputs
+                if in_expr.name not in input_names:
+                    input_names.add(in_expr.name)
+                    self.add_input(
+                        in_expr.name,
+                        shape=in_expr.shape,
+                        val=in_expr.val,
+                    )
+                self.declare_partials(
+                    of=out_name,
+                    wrt=in_expr.name,
+                )
+
         # every output depends on the inputs of the other residuals
         # through the coupling, OpenMDAO would take undeclared partials
         # for independence
@@ -141,7 +156,6 @@ def _post_setup(func: Callable) -> Callable:
             for wrt_name in self.all_outputs:
                 if of_name != wrt_name:
                     self.declare_partials(of=of_name, wrt=wrt_name)
-        self.prob.setup()
 
         # set initial values for inputs and output
         for res_expr in self.group._root.dependencies:
diff --git a/omtools/utils/collect_input_exprs.py b/omtools/utils/collect_input_exprs.py
index 1fc593b..c5c5221 100644
--- a/omtools/utils/collect_input_exprs.py
+++ b/omtools/utils/collect_input_exprs.py
@@ -19,8 +19,7 @@ def collect_input_exprs(
     visited.add(expr)
     for dependency in expr.dependencies:
         if dependency.name != root.name and dependency not in visited:
-            if isinstance(dependency, Input) == True and len(
-                    dependency.dependencies) == 0:
+            if isinstance(dependency, Input) == True:
                 inputs.append(dependency)
             inputs = collect_input_exprs(inputs, root, dependency, visited)
     return inputs
-- 
2.43.0

