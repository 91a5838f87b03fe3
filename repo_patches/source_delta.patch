From fc6b37f82cea96a4a2f0f4b8cd427150f6050d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 01/57] fix: Transpose.decrement_group leaves fields in layout1
 when no communication is needed

---
 dedalus/core/distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..b017e3a 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -921,7 +921,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
-- 
2.43.0


From fa58a9d78d6e1127538e4485f77c3ccd95137ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 02/57] fix: AlltoallvTranspose takes the chunk shape passed by
 the planner and distributes whole chunks

---
 dedalus/core/transposes.pyx | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..5d1a70b 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -254,6 +254,8 @@ cdef class AlltoallvTranspose:
     ----------
     global_shape : ndarray of np.int32
         Global array shape
+    chunk_shape : ndarray of np.int32
+        Chunk shape (blocks hold whole numbers of chunks)
     dtype : data type
         Data type
     axis : int
@@ -284,10 +286,10 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +298,12 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
-        # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        # Blocks (whole numbers of chunks, matching the layout distribution)
+        chunk_shape = np.array(chunk_shape, dtype=np.int32)
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        B1 = C1 * -(-(-(-global_shape[axis] // C1)) // pycomm.size)
+        B2 = C2 * -(-(-(-global_shape[axis+1] // C2)) // pycomm.size)
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
@@ -315,11 +320,11 @@ cdef class AlltoallvTranspose:
         self.CL_reduced_shape = np.array([N0, N1, local_col_count, N3], dtype=np.int32)
         self.RL_reduced_shape = np.array([N0, local_row_count, N2, N3], dtype=np.int32)
         # Alltoallv displacements
-        self.CL_displs = (N0 * local_col_count * N3) * row_starts
-        self.RL_displs = (N0 * local_row_count * N3) * col_starts
+        self.CL_displs = ((N0 * local_col_count * N3) * row_starts).astype(np.int32)
+        self.RL_displs = ((N0 * local_row_count * N3) * col_starts).astype(np.int32)
         # Alltoallv counts
-        self.CL_counts = (N0 * local_col_count * N3) * row_counts
-        self.RL_counts = (N0 * local_row_count * N3) * col_counts
+        self.CL_counts = ((N0 * local_col_count * N3) * row_counts).astype(np.int32)
+        self.RL_counts = ((N0 * local_row_count * N3) * col_counts).astype(np.int32)
         # Buffers
         CL_size = N0 * N1 * local_col_count * N3
         RL_size = N0 * local_row_count * N2 * N3
-- 
2.43.0


From e78976521defb3d4d7e33a88c1dcb73caef91fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 03/57] fix: CoordinateSystem equality compares all coordinates

---
 dedalus/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 39ffa2c..1e3818f 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -24,7 +24,7 @@ class CoordinateSystem:
                 for i, coord in enumerate(self.coords):
                     if coord != other.coords[i]:
                         return False
-                    return True
+                return True
         return False
 
     def __hash__(self):
-- 
2.43.0


From 1721884b4e361ddef89355a8cf682b1af253e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 04/57] fix: Product.expand uses new_operands

---
 dedalus/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 64daa53..4f2a6f2 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -324,7 +324,7 @@ class Product(Future):
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-            return sum(self.new_operand(*args) for args in arg_sets)
+            return sum(self.new_operands(*args) for args in arg_sets)
         else:
             return self
 
-- 
2.43.0


From 113aa776c988d80cfee46bbab69c245984b1ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 05/57] fix: DotProduct rejects contraction indices equal to
 the rank

---
 dedalus/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 4f2a6f2..558aeac 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -624,7 +624,7 @@ class DotProduct(Product, FutureField):
         arg1_rank = len(arg1.tensorsig)
         indices = list(indices)
         for i,(index,rank) in enumerate(zip(indices,(arg0_rank,arg1_rank))):
-            if index > rank or index < -rank:
+            if index >= rank or index < -rank:
                 raise ValueError("index %i out of range for field with rank %i" %(index,rank))
             if index < 0:
                 index += rank
-- 
2.43.0


From 298671e9f49cd087edb86805844178bd659f5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 06/57] fix: Operand defines __rmatmul__

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..f802ddd 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -117,7 +117,7 @@ class Operand:
         from .arithmetic import DotProduct
         return DotProduct(self, other)
 
-    def __rmathmul__(self, other):
+    def __rmatmul__(self, other):
         # Call: other @ self
         from .arithmetic import DotProduct
         return DotProduct(other, self)
-- 
2.43.0


From c25995aef2338c2ef9c116218ebaa3b2415cf7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 07/57] fix: LinearOperator.replace passes old and new in order

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..714c8aa 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -694,7 +694,7 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
-- 
2.43.0


From b74e9d11aa9bb3f475e67a0d1841ba868f69d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 08/57] fix: vector component operators select the component
 along the right tensor index

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 714c8aa..04bed0f 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3354,7 +3354,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3378,7 +3378,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From e25d43bfcff6bcbc7726d8e0100c911c3a2b0930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 09/57] fix: Lock unpacks layouts when locking the output

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 04bed0f..c7884b8 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -817,7 +817,7 @@ class Lock(FutureLockedField, LinearOperator):
         """Perform operation."""
         arg0 = self.args[0]
         out.preset_layout(arg0.layout)
-        out.lock_to_layouts(self.layouts)
+        out.lock_to_layouts(*self.layouts)
         np.copyto(out.data, arg0.data)
 
     def new_operand(self, operand, **kw):
-- 
2.43.0


From a7634c66b8f72775e3c2e5390922f84777427ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 10/57] fix: TransposeComponents uses normalized indices for
 the axis order

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index c7884b8..27d7336 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1927,8 +1927,8 @@ class TransposeComponents(LinearOperator, metaclass=MultiClass):
         self.input_basis = self.domain.get_basis(self.coordsys)
         # Store new axis order
         new_axis_order = np.arange(len(self.tensorsig) + self.dist.dim)
-        new_axis_order[indices[0]] = indices[1]
-        new_axis_order[indices[1]] = indices[0]
+        new_axis_order[i0] = i1
+        new_axis_order[i1] = i0
         self.new_axis_order = tuple(new_axis_order)
 
     def new_operand(self, operand, **kw):
-- 
2.43.0


From 93d98bf6fed0b5cc64388a7d8947a30ee08285d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 11/57] fix: Radial/Angular/AzimuthalComponent use the
 normalized index

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 27d7336..c3de59e 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2245,6 +2245,7 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -2270,6 +2271,7 @@ class AngularComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         if isinstance(self.coordsys, coords.PolarCoordinates):
             self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
@@ -2301,6 +2303,7 @@ class AzimuthalComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         if not isinstance(self.coordsys, coords.PolarCoordinates):
             raise ValueError("Can only take the AzimuthalComponent of a PolarCoordinate vector")
         tensorsig = operand.tensorsig
-- 
2.43.0


From bb22cd47d01a77caa6fa1324df27ae34206eb853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 12/57] fix: subproblem gather/scatter uses the current field
 data views

---
 dedalus/core/subsystems.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..380c2a3 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -319,7 +319,6 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
     def _input_field_views(self, fields):
         views = []
         for field, buffer_data in zip(fields, self._input_views):
@@ -328,7 +327,6 @@ class Subproblem:
                 views.append((buffer_view, field_view))
         return tuple(views)
 
-    @CachedMethod
     def _output_field_views(self, fields):
         views = []
         for field, buffer_data in zip(fields, self._output_views):
-- 
2.43.0


From fa4268fccd99f8299bb03f49f83045a73fd22352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 13/57] fix: cosine and halfcomplex transforms zero truncated
 modes when only the mean is retained

---
 dedalus/core/transforms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..e377c78 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -610,7 +610,7 @@ class FFTWHalfComplexFFT(FFTWBase, RealFourierTransform):
         np.multiply(cdata_posfreq_cos, (1 / 2), temp_posfreq_cos)
         np.multiply(cdata_posfreq_msin, (1 / 2), temp_posfreq_msin)
         # Zero k > Kmax data
-        temp[axslice(axis, Kmax+1, -Kmax)] = 0
+        temp[axslice(axis, Kmax+1, self.N-Kmax)] = 0
 
     def forward(self, gdata, cdata, axis):
         """Apply forward transform along specified axis."""
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From 4f6f8bbc577c50df91c19077bc19883d2cd4b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 14/57] fix: Product.expand leaves numeric factors unchanged

---
 dedalus/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 558aeac..bbf71bf 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -320,7 +320,7 @@ class Product(Future):
         """Expand expression over specified variables."""
         if self.has(*vars):
             # Expand arguments
-            args = [arg.expand(*vars) for arg in self.args]
+            args = [arg.expand(*vars) if isinstance(arg, Operand) else arg for arg in self.args]
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-- 
2.43.0


From bf32b6bf36204ff6471c636dd394e8ac1cd82796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 15/57] fix: evaluator string tasks parse in the problem
 namespace

---
 dedalus/core/future.py  | 11 +++++++----
 dedalus/core/solvers.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/future.py b/dedalus/core/future.py
index 58f9cd9..9ffc1f0 100644
--- a/dedalus/core/future.py
+++ b/dedalus/core/future.py
@@ -267,20 +267,23 @@ class FutureField(Future):
     @staticmethod
     def parse(string, namespace, dist):
         """Build FutureField from a string expression."""
-        expression = eval(string, namespace)
+        expression = eval(string, dict(namespace))
         return FutureField.cast(expression, dist)
 
     @staticmethod
     def cast(arg, dist):
         """Cast an object to a FutureField."""
-        from .operators import FieldCopy
+        from .operators import Copy
         # Cast to Operand (checks dist)
-        arg = Operand.cast(arg, dist)
+        if isinstance(arg, Operand):
+            arg = Operand.cast(arg, dist, arg.tensorsig, arg.dtype)
+        else:
+            arg = Operand.cast(arg, dist, tuple(), dist.dtype)
         # Cast to FutureField
         if isinstance(arg, FutureField):
             return arg
         else:
-            return FieldCopy(arg)
+            return Copy(arg)
 
 
 class FutureLockedField(Future):
diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..3c9af14 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -119,7 +119,7 @@ class SolverBase:
         self.subproblems = subsystems.build_subproblems(self, self.subsystems)
         self.subproblems_by_group = {sp.group: sp for sp in self.subproblems}
         # Build evaluator
-        namespace = {}
+        namespace = problem.namespace
         self.evaluator = Evaluator(self.dist, namespace)
 
     def build_matrices(self, subproblems=None, matrices=None):
-- 
2.43.0


From 497279c211fb51bd771709eb9a3c3d485d0e79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 16/57] fix: matsolver override message formats the option name

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 3c9af14..0f20f7c 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -112,7 +112,7 @@ class SolverBase:
         # Process option overrides from matsolver
         for key, value in matsolver.config.items():
             if getattr(self, key, None) is not value:
-                logger.info("matsolver overriding solver option '%i' with '%s'" %(key, value))
+                logger.info("matsolver overriding solver option '%s' with '%s'" %(key, value))
                 setattr(self, key, value)
         # Setup subsystems and subproblems without building matrices
         self.subsystems = subsystems.build_subsystems(self)
-- 
2.43.0


From 592df3fdef52a00be9a083e2e991532c7743e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 17/57] fix: radial transform factors broadcast along the
 radial axis when other axes follow

---
 dedalus/core/basis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..17a0686 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2173,8 +2173,8 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
         return Jacobi.transforms[self.radius_library](grid_size, self.Nmax+1, a, b, a0, b0)
 
     @CachedMethod
-    def radial_transform_factor(self, scale, data_axis, dk):
-        r = reshape_vector(self._radius_grid(scale), dim=data_axis, axis=data_axis-1)
+    def radial_transform_factor(self, scale, data_axis, data_dim, dk):
+        r = reshape_vector(self._radius_grid(scale), dim=data_dim, axis=data_axis)
         return (self.dR/r)**dk
 
     def forward_transform_radius(self, field, axis, gdata, cdata):
@@ -2182,7 +2182,7 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
         grid_size = gdata.shape[data_axis]
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, -self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, -self.k)
         # Expand gdata if mmax=0 and dtype=float for spin recombination
         if self.mmax == 0 and self.dtype == np.float64:
             m_axis = len(field.tensorsig) + axis - 1
@@ -2221,7 +2221,7 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
         self.backward_spin_recombination(field.tensorsig, axis, temp, gdata)
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, self.k)
         if self.mmax == 0 and self.dtype == np.float64:
             gdata_orig[:] = gdata[axslice(m_axis, 0, 1)]
 
@@ -3790,8 +3790,8 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         return Q0[0,0]
 
     @CachedMethod
-    def radial_transform_factor(self, scale, data_axis, dk):
-        r = reshape_vector(self._radius_grid(scale), dim=data_axis, axis=data_axis-1)
+    def radial_transform_factor(self, scale, data_axis, data_dim, dk):
+        r = reshape_vector(self._radius_grid(scale), dim=data_dim, axis=data_axis)
         return (self.dR/r)**dk
 
     @CachedMethod
@@ -3816,7 +3816,7 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         grid_size = gdata.shape[data_axis]
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, -self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, -self.k)
         # Apply recombinations
         self.forward_regularity_recombination(field.tensorsig, axis, gdata, ell_maps=self.ell_maps(field.dist))
         temp = np.copy(gdata)
@@ -3841,7 +3841,7 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         self.backward_regularity_recombination(field.tensorsig, axis, gdata, self.ell_maps(field.dist))
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, self.k)
+            gdata *= self.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, self.k)
 
     @CachedMethod
     def operator_matrix(self, op, l, regtotal, size=None):
@@ -4477,7 +4477,7 @@ class ShellBasis(Spherical3DBasis, metaclass=CachedClass):
         grid_size = gdata.shape[data_axis]
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, -self.k)
+            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, -self.k)
         # Apply regularity recombination using 3D ell map
         radial_basis.forward_regularity_recombination(field.tensorsig, axis, gdata, ell_maps=self.ell_maps(field.dist))
         # Perform radial transforms component-by-component
@@ -4505,7 +4505,7 @@ class ShellBasis(Spherical3DBasis, metaclass=CachedClass):
         radial_basis.backward_regularity_recombination(field.tensorsig, axis, gdata, ell_maps=self.ell_maps(field.dist))
         # Multiply by radial factor
         if self.k > 0:
-            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, self.k)
+            gdata *= radial_basis.radial_transform_factor(field.scales[axis], data_axis, gdata.ndim, self.k)
 
     def build_ncc_matrix(self, product, subproblem, ncc_cutoff, max_ncc_terms):
         axis = product.dist.last_axis(self)
-- 
2.43.0


From 403873d55db06755a522079966c3488f2d7bc662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 18/57] fix: ConvertConstant to multidimensional bases requires
 the last axis to be local

---
 dedalus/core/operators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index c3de59e..6f0ca8d 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1699,9 +1699,10 @@ class ConvertConstant(Convert):
             last_is_local = arg0.layout.local[last_axis]
             return last_is_coeff or last_is_local
         else:
-            # Require last axis in coeff space
+            # Require last axis in coeff space and local
             last_is_coeff = not arg0.layout.grid_space[self.last_axis]
-            return last_is_coeff
+            last_is_local = arg0.layout.local[last_axis]
+            return last_is_coeff and last_is_local
 
     def enforce_conditions(self):
         """Require arguments to be in a proper layout."""
@@ -1712,8 +1713,9 @@ class ConvertConstant(Convert):
             if arg0.layout.grid_space[last_axis]:
                 arg0.require_local(last_axis)
         else:
-            # Require last axis in coeff space
+            # Require last axis in coeff space and local
             arg0.require_coeff_space(self.last_axis)
+            arg0.require_local(self.last_axis)
 
 
 @alias("trace")
-- 
2.43.0


From b93dd71c511e7abc3be44479ce58dc597a815604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 19/57] fix: colatitude interpolation does not overwrite its
 operand

---
 dedalus/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 17a0686..b88686a 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5719,7 +5719,7 @@ class InterpolateColatitude(FutureLockedField, operators.Interpolate):
         # Forward spin recombination
         arg_temp = np.zeros_like(arg.data)
         out_temp = np.zeros_like(out.data)
-        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data, arg_temp)
+        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data.copy(), arg_temp)
         # Loop over spin components
         S = basis.spin_weights(arg.tensorsig)
         for i, s in np.ndenumerate(S):
-- 
2.43.0


From c0cb9f9ece61ec411c4b75f6d1555fd3d962e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 20/57] fix: coefficient-space output scales use the
 wavenumbers of their own axis

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..1b953b7 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -553,7 +553,7 @@ class H5FileHandlerBase(Handler):
                         data = basis.global_grids(self.dist, scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From a55c016b2baa01538561ef3711f1a04d3f0e8961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 21/57] fix: file handler append mode accepts folders without
 numbered sets

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 1b953b7..ff71394 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -416,7 +416,7 @@ class H5FileHandlerBase(Handler):
                         m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
                         if m:
                             set_nums.append(int(m.groups()[0]))
-                    max_set = max(set_nums)
+                    max_set = max(set_nums, default=0)
                     joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
                     p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
                     if os.path.exists(str(joined_file)):
-- 
2.43.0


From baffe137b758ab16046c979838c67933f8906703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 22/57] fix: setting global data of tensor fields keeps
 component axes

---
 dedalus/core/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index f802ddd..0336416 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -622,8 +622,9 @@ class Field(Current):
         return copy
 
     def set_global_data(self, global_data):
+        component_elements = tuple(np.arange(cs.dim) for cs in self.tensorsig)
         elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        self.set_local_data(global_data[np.ix_(*component_elements, *elements)])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From b5096e0e43c053e76ccb449dd6effe0ecf284bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 23/57] fix: scales inferred from a grid shape reproduce that
 shape despite roundoff

---
 dedalus/core/field.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 0336416..b9705bc 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -732,6 +732,13 @@ class Field(Current):
     # def mode_mask(self):
     #     return reduce()
 
+    def _scales_from_grid_shape(self, grid_shape):
+        """Compute scales producing a specified global grid shape."""
+        unit_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+        scales = np.array(grid_shape) / unit_shape
+        # Avoid roundoff pushing grid sizes past the specified shape
+        return np.where(np.ceil(scales * unit_shape) > grid_shape, np.nextafter(scales, 0), scales)
+
     def load_from_hdf5(self, file, index, task=None, func=None):
         """Load grid data from an hdf5 file. Task corresponds to field name by default."""
         if task is None:
@@ -767,7 +774,7 @@ class Field(Current):
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        scales = self._scales_from_grid_shape(global_data.shape[-dim:])
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
@@ -960,8 +967,7 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            scales = self._scales_from_grid_shape(shape)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From 7d26dfedf70897848744ff83348a32b99211a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 24/57] fix: Average and TimeDerivative define new_operand

---
 dedalus/core/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 6f0ca8d..e7de298 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1020,6 +1020,11 @@ class TimeDerivative(LinearOperator):
     def base(self):
         return TimeDerivative
 
+    def new_operand(self, operand, **kw):
+        if operand == 0:
+            return 0
+        return TimeDerivative(operand, **kw)
+
     def _expand_linop(self, operand, vars):
         """Expand over linear operator."""
         # Halt expansion when hitting another time derivative
@@ -1283,6 +1288,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
-- 
2.43.0


From 357b8bce865bd938f7127ca0f29b66611a5d0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 25/57] fix: Copy, Lock, and component operators return zero
 for zero operands

---
 dedalus/core/operators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index e7de298..7079c63 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -821,6 +821,8 @@ class Lock(FutureLockedField, LinearOperator):
         np.copyto(out.data, arg0.data)
 
     def new_operand(self, operand, **kw):
+        if operand == 0:
+            return 0
         return Lock(operand, *self.layouts, **kw)
 
 
@@ -1519,6 +1521,8 @@ class Copy(LinearOperator):
         return self.operand.matrix_coupling(*vars)
 
     def new_operand(self, operand, **kw):
+        if operand == 0:
+            return 0
         return Copy(operand, **kw)
 
     def check_conditions(self):
@@ -3308,6 +3312,12 @@ class CartCompBase(LinearOperator, metaclass=MultiClass):
 
     name = 'Comp'
 
+    @classmethod
+    def _preprocess_args(cls, operand, index, comp, out=None):
+        if operand == 0:
+            raise SkipDispatchException(output=0)
+        return [operand, index, comp], {'out': out}
+
     @classmethod
     def _check_args(cls, operand, index, comp, out=None):
         # Dispatch by coordinate system
-- 
2.43.0


From 9c0b86bfaea56feb7912ba7df103dec730339d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 26/57] fix: build_EVP uses the IVP variables as default
 backgrounds

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..ac9c5d1 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -421,7 +421,7 @@ class InitialValueProblem(ProblemBase):
             evp_eqn = EVP.add_equation((M + L - dF, 0))
             evp_eqn['valid_modes'][:] = eqn['valid_modes']
         # Add backgrounds to EVP namespace
-        for var in backgrounds:
+        for var in (variables if backgrounds is None else backgrounds):
             EVP.local_namespace[var.name] = var
         return EVP
 
-- 
2.43.0


From 2c3b22bd24cadcda068d23e12e54e02795a9d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 27/57] fix: Add keeps all arguments when given more than two

---
 dedalus/core/arithmetic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index bbf71bf..e3874af 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -117,12 +117,11 @@ class Add(Future, metaclass=MultiClass):
         return Add
 
     def reinitialize(self, **kw):
-        arg0 = self.args[0].reinitialize(**kw)
-        arg1 = self.args[1].reinitialize(**kw)
-        return self.new_operands(arg0, arg1, **kw)
+        args = [arg.reinitialize(**kw) for arg in self.args]
+        return self.new_operands(*args, **kw)
 
-    def new_operands(self, arg0, arg1, **kw):
-        return Add(arg0, arg1, **kw)
+    def new_operands(self, *args, **kw):
+        return Add(*args, **kw)
 
     def split(self, *vars):
         """Split into expressions containing and not containing specified operands/operators."""
@@ -245,10 +244,12 @@ class AddFields(Add, FutureField):
 
     def operate(self, out):
         """Perform operation."""
-        arg0, arg1 = self.args
+        arg0, arg1, *others = self.args
         # Set output layout
         out.preset_layout(arg0.layout)
         np.add(arg0.data, arg1.data, out=out.data)
+        for arg in others:
+            np.add(out.data, arg.data, out=out.data)
 
 
 # used for einsum string manipulation
-- 
2.43.0


From 725c9a5e5f39e4202d076b8d35066ab6cbed7021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 28/57] fix: Multiply with more than two factors does not
 overwrite the third

---
 dedalus/core/arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index e3874af..7f8df32 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -761,6 +761,9 @@ class Multiply(Product, metaclass=MultiClass):
         # Return zero for any zero arguments
         elif any(arg == 0 for arg in args):
             raise SkipDispatchException(output=0)
+        # Nest products of more than two arguments
+        elif len(args) > 2:
+            raise SkipDispatchException(output=Multiply(Multiply(*args[:-1]), args[-1]))
         # Cast all args to Field, if any present
         elif any(isinstance(arg, (Field, FutureField)) for arg in args):
             dist = unify_attributes(args, 'dist', require=False)
-- 
2.43.0


From adbe414a9ff687a5a18722e89f6c8a65504280a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 29/57] fix: powers and grid functions accept numbers as new
 operands

---
 dedalus/core/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 7079c63..8d28f57 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -385,6 +385,8 @@ class PowerFieldConstant(Power, FutureField):
             np.power(arg0.data, arg1, out.data)
 
     def new_operands(self, arg0, arg1, **kw):
+        if isinstance(arg0, Number):
+            return arg0 ** arg1
         return Power(arg0, arg1)
 
     def reinitialize(self, **kw):
@@ -585,6 +587,8 @@ class UnaryGridFunction(NonlinearOperator, FutureField):
         return self.new_operand(arg)
 
     def new_operand(self, arg):
+        if isinstance(arg, Number):
+            return self.func(arg)
         return UnaryGridFunction(self.func, arg, deriv=self.deriv)
 
     def reinitialize(self, **kw):
-- 
2.43.0


From ae23074ba39992c871f99f20a7d9512522a8ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 30/57] fix: the time derivative of a number is zero

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 8d28f57..3646440 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1027,7 +1027,7 @@ class TimeDerivative(LinearOperator):
         return TimeDerivative
 
     def new_operand(self, operand, **kw):
-        if operand == 0:
+        if isinstance(operand, Number):
             return 0
         return TimeDerivative(operand, **kw)
 
-- 
2.43.0


From e696cbfb626931ce3a8bfd5fed0ce6fbcb206e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 31/57] fix: azimuthal averages can be rebuilt with zero
 operands

---
 dedalus/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index b88686a..16b2d43 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5211,7 +5211,7 @@ class AzimuthalAverage(metaclass=MultiClass):
         return input_basis.clone_with(shape=tuple(shape))
 
     def new_operand(self, operand, **kw):
-        return AzimuthalAverage(operand, self.coord, **kw)
+        return operators.Average(operand, self.coord, **kw)
 
 
 class PolarAzimuthalAverage(AzimuthalAverage, operators.Average, operators.PolarMOperator):
-- 
2.43.0


From b821dea807ed4089189f726610c1938fd903b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 32/57] fix: GeneralFunction can be rebuilt with new arguments

---
 dedalus/core/operators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 3646440..302a6c9 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -487,6 +487,13 @@ class GeneralFunction(NonlinearOperator, FutureField):
         self.tensorsig = tensorsig
         self.dtype = dtype
 
+    def new_operands(self, *args, **kw):
+        return GeneralFunction(self.dist, self.domain, self.tensorsig, self.dtype, self.layout, self.func, args=args, kw=self.kw)
+
+    def reinitialize(self, **kw):
+        args = [arg.reinitialize(**kw) if isinstance(arg, Operand) else arg for arg in self.args]
+        return self.new_operands(*args)
+
     def check_conditions(self):
         # Fields must be in proper layout
         for i in self._field_arg_indices:
-- 
2.43.0


From bf1244c1a1b79d74aad4062f8f2aadae53530aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 33/57] fix: nonlinear operators skip arguments that are not
 operands in order checks

---
 dedalus/core/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 302a6c9..8da6557 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -288,7 +288,8 @@ class NonlinearOperator(Future):
             raise NotImplementedError("Subclasses must implement.")
         else:
             for arg in self.args:
-                arg.require_first_order(*ops, **kw)
+                if isinstance(arg, Operand):
+                    arg.require_first_order(*ops, **kw)
 
     def separability(self, *vars):
         """Determine separable dimensions of expression as a linear operator on specified variables."""
-- 
2.43.0


From 915bfe3c3c615b09b1977da69a55d93b4d9b75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 34/57] fix: ball matrices depend on ell when the radius is
 coupled

---
 dedalus/core/basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 16b2d43..2de6822 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4629,6 +4629,13 @@ class BallBasis(Spherical3DBasis, metaclass=CachedClass):
                                     self.backward_transform_radius]
         self.surface = self.S2_basis(radius=radius)
 
+    def matrix_dependence(self, matrix_coupling):
+        matrix_dependence = super().matrix_dependence(matrix_coupling)
+        # Radial truncation depends on ell
+        if matrix_coupling[2]:
+            matrix_dependence[1] = True
+        return matrix_dependence
+
     def __eq__(self, other):
         if isinstance(other, BallBasis):
             if self.coordsys == other.coordsys:
-- 
2.43.0


From 82200ad0d855c01ba6c25f799fe4aa0007f4c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 35/57] fix: Jacobi conversion matrices fit bases of different
 sizes

---
 dedalus/core/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 2de6822..8576ae6 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -672,11 +672,11 @@ class ConvertJacobi(operators.Convert, operators.SpectralOperator1D):
     @staticmethod
     @CachedMethod
     def _full_matrix(input_basis, output_basis):
-        N = input_basis.size
+        N_in, N_out = input_basis.size, output_basis.size
         a0, b0 = input_basis.a, input_basis.b
         a1, b1 = output_basis.a, output_basis.b
-        matrix = jacobi.conversion_matrix(N, a0, b0, a1, b1)
-        return matrix.tocsr()
+        matrix = jacobi.conversion_matrix(max(N_in, N_out), a0, b0, a1, b1)
+        return matrix.tocsr()[:N_out, :N_in]
 
 
 class ConvertConstantJacobi(operators.ConvertConstant, operators.SpectralOperator1D):
-- 
2.43.0


From deb54b40122f12254756387d0e2b17ba3e5a53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 36/57] fix: BVP solves keep modes outside the solved
 subproblems

---
 dedalus/core/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 0f20f7c..321dccc 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -397,7 +397,7 @@ class LinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.state:
-            field.preset_layout('c')
+            field.change_layout('c')
         # Solve system for each subproblem
         for sp in subproblems:
             # Gather RHS
@@ -478,7 +478,7 @@ class NonlinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.perturbations:
-            field.preset_layout('c')
+            field.change_layout('c')
         # Solve system for each subproblem, updating perturbations
         for sp in self.subproblems:
             # Gather RHS
-- 
2.43.0


From 67bdebd1d7aa928ff0644676a73d522ca2a5badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 37/57] fix: IVPs refuse time derivatives of coefficients

---
 dedalus/core/problems.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index ac9c5d1..65de8d4 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -328,8 +328,13 @@ class InitialValueProblem(ProblemBase):
         M, L = eqn['LHS'].split(operators.TimeDerivative)
         F = eqn['RHS']
         # Drop time derivatives
+        def drop_time_derivative(operand):
+            # Time derivatives in coefficients cannot be represented
+            if not operand.has(*vars):
+                raise UnsupportedEquationError("IVP LHS time derivatives must act on problem variables.")
+            return operand
         if M:
-            M = M.replace(operators.TimeDerivative, lambda x: x)
+            M = M.replace(operators.TimeDerivative, drop_time_derivative)
         # Reinitialize and prep NCCs
         if M:
             M = M.reinitialize(ncc=True, ncc_vars=vars)
-- 
2.43.0


From 80941d072e4cd509ea42634c9971eefa6c56471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 38/57] fix: run statistics are available only after warmup has
 finished

---
 dedalus/core/solvers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 321dccc..a76eb33 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -755,13 +755,14 @@ class InitialValueSolver(SolverBase):
     def log_stats(self, format=".4g"):
         """Log timing statistics with specified string formatting (optional)."""
         self.run_time_end = self.wall_time
-        start_time = self.start_time_end
+        # Setup lasts until the first iteration, if any
+        start_time = getattr(self, 'start_time_end', self.run_time_end)
         logger.info(f"Final iteration: {self.iteration}")
         logger.info(f"Final sim time: {self.sim_time}")
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
-        if self.profile:
-            self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.iteration > self.initial_iteration + self.warmup_iterations:
+            if self.profile:
+                self.dump_profiles(self.run_profiler, "runtime")
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From 7f364699ca4a75a627af1e28f4c5530603b66637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 39/57] fix: dense eigenvalue solves also set
 right_eigenvectors

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index a76eb33..480d4e1 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -220,7 +220,7 @@ class EigenvalueSolver(SolverBase):
                 self.modified_left_eigenvectors /= np.conj(norms)
         else:
             self.eigenvalues, pre_eigenvectors = eig_output
-            self.eigenvectors = sp.pre_right @ pre_eigenvectors
+            self.right_eigenvectors = self.eigenvectors = sp.pre_right @ pre_eigenvectors
 
     def solve_sparse(self, subproblem, N, target, rebuild_matrices=False, left=False, normalize_left=True, raise_on_mismatch=True, v0=None, **kw):
         """
-- 
2.43.0


From 3c9ca0ffdf9b4ddd429f58aa3dd5579da9d7b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 40/57] fix: solve_upper_sparse accepts fresh matrices and
 returns its result

---
 dedalus/tools/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index ab9caf8..b12a54b 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -211,7 +211,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
     # Check matrix
     if not isinstance(matrix, sparse.csr_matrix):
         raise ValueError("Matrix must be in CSR format.")
-    if not matrix._has_canonical_format: # avoid property hook (without underscore)
+    if not matrix.has_canonical_format:
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
@@ -230,6 +230,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
             raise ValueError("Matrix shape mismatch.")
     # Call cython routine
     cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    return out
 
 
 def csr_matvec(A_csr, x_vec, out_vec):
-- 
2.43.0


From ab484a71e3a0fecb7d7ee3324b1336a8d16d5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 41/57] fix: sparse kernels refuse outputs that cannot be
 viewed in place

---
 dedalus/tools/linalg.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/tools/linalg.pyx b/dedalus/tools/linalg.pyx
index 9ef2b7e..9b7d716 100644
--- a/dedalus/tools/linalg.pyx
+++ b/dedalus/tools/linalg.pyx
@@ -25,6 +25,9 @@ def solve_upper_csr(
     const int axis,
     const int num_threads):
     """Solve upper triangular CSR matrix along specified axis of an array."""
+    # Reshaping a non-contiguous array would return a copy and drop the results
+    if not array.flags.c_contiguous:
+        raise ValueError("Array is not C-contiguous")
     cdef int ndim = array.ndim
     cdef int N1 = 1
     cdef int N2 = 1
@@ -195,6 +198,9 @@ def apply_csr(
     const int axis,
     const int num_threads):
     """Apply CSR matrix to array along specified axis."""
+    # Reshaping a non-contiguous output would return a copy and drop the results
+    if not out.flags.c_contiguous:
+        raise ValueError("Output array is not C-contiguous")
     # Special-case based on dimension
     # This avoids overhead from reshaping small arrays
     cdef int ndim = array.ndim
-- 
2.43.0


From 2f46678bf404783009d286999db25722db570fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 42/57] fix: linear BVP solves build matrices collectively

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 480d4e1..5d1fc5f 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -387,7 +387,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Building gathers NCC data across all processes, including those without subproblems to build
+        if self.dist.comm.allreduce(bool(sp_to_build), op=MPI.LOR):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
-- 
2.43.0


From e947be06889e8729c0336447521cc49a4ce30a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 43/57] fix: NCC evaluation changes layouts on every process

---
 dedalus/core/arithmetic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 7f8df32..c039bd1 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -398,10 +398,13 @@ class Product(Future):
         op = self.operand.evaluate()
         out = self.get_out()
         out['c'] = 0
+        # Change layouts on all processes, including those without subsystems
+        op_data = op['c']
+        out_data = out['c']
         for subproblem, ncc_matrix in self._ncc_matrices.items():
             for subsystem in subproblem.subsystems:
-                op_ss = op['c'][subsystem.field_slices(op)]
-                out_ss = out['c'][subsystem.field_slices(out)]
+                op_ss = op_data[subsystem.field_slices(op)]
+                out_ss = out_data[subsystem.field_slices(out)]
                 out_ss[:] = (ncc_matrix @ op_ss.ravel()).reshape(out_ss.shape)
         return out
 
-- 
2.43.0


From 493cf6fc376e40111ecf1ef325b48e3c0c090cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 44/57] fix: SPQR_solve finds its library when solving

---
 dedalus/libraries/matsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index f301d4f..d0b2925 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -201,9 +201,10 @@ class SPQR_solve(SparseSolver):
     def __init__(self, matrix, solver=None):
         import sparseqr
         self.matrix = matrix.copy()
+        self.sparseqr_solve = sparseqr.solve
 
     def solve(self, vector):
-        return sparseqr.solve(self.matrix, vector)
+        return self.sparseqr_solve(self.matrix, vector)
 
 
 @add_solver
-- 
2.43.0


From 9aafec0806828ea34f6397e70718b8d8bf33bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 45/57] fix: Chebyshev CFL spacings use the axis of the basis

---
 dedalus/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 8576ae6..4908d1d 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6099,7 +6099,7 @@ class CartesianAdvectiveCFL(operators.AdvectiveCFL):
                 N = basis.grid_shape((dealias,))[0]
             if isinstance(basis, Jacobi) and basis.a == -1/2 and basis.b == -1/2:
                 #Special case for ChebyshevT (a=b=-1/2)
-                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[i]
+                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[self.dist.get_basis_axis(basis)]
                 i = np.arange(N)[local_elements].reshape(axis_spacing.shape)
                 theta = np.pi * (i + 1/2) / N
                 axis_spacing[:] = dealias * basis.COV.stretch * np.sin(theta) * np.pi / N
-- 
2.43.0


From 1f51882493c1f570b2549e1bad09a19b819a5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 46/57] fix: CFL operators leave the cached grid spacings of
 their bases alone

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 4908d1d..99193ea 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6143,7 +6143,7 @@ class PolarAdvectiveCFL(operators.AdvectiveCFL):
         #Assumes velocity is a 2-length vector over polar coordinates
         basis   = self.input_basis
         dealias = basis.dealias
-        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.mmax == 0:
             azimuth_spacing[:] = np.inf
         elif isinstance(basis, DiskBasis):
@@ -6171,7 +6171,7 @@ class S2AdvectiveCFL(operators.AdvectiveCFL):
         dealias = basis.dealias
         if r is None:
             r = basis.radius
-        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.Lmax == 0:
             s2_spacing[:] = np.inf
         else:
-- 
2.43.0


From bc13b6569b73bb0d15488a9807353a9d667d8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 47/57] fix: curvilinear bases of different resolution are not
 equal

---
 dedalus/core/basis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 99193ea..860154d 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1896,7 +1896,7 @@ class PolarBasis(SpinBasis):
             if self.dtype == other.dtype:
                 if self.coordsys == other.coordsys:
                     if self.grid_params == other.grid_params:
-                        if self.k == other.k:
+                        if self.shape == other.shape and self.k == other.k:
                             return True
         return False
 
@@ -3708,7 +3708,7 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         if isinstance(other, ShellRadialBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
+                    if self.shape == other.shape and self.k == other.k:
                         return True
         return False
 
@@ -3941,7 +3941,7 @@ class BallRadialBasis(RegularityBasis, metaclass=CachedClass):
         if isinstance(other, BallRadialBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
+                    if self.shape == other.shape and self.k == other.k:
                         return True
         return False
 
@@ -4416,7 +4416,7 @@ class ShellBasis(Spherical3DBasis, metaclass=CachedClass):
         if isinstance(other, ShellBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
+                    if self.shape == other.shape and self.k == other.k:
                         return True
         return False
 
@@ -4640,7 +4640,7 @@ class BallBasis(Spherical3DBasis, metaclass=CachedClass):
         if isinstance(other, BallBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
+                    if self.shape == other.shape and self.k == other.k:
                         return True
         return False
 
-- 
2.43.0


From 6c2528dd7ae03d5608f340b78c7ec09ae57de69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 48/57] fix: resolved call keys never equal direct call keys of
 a cached function

---
 dedalus/tools/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 6bccbf9..37d80f1 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -71,7 +71,8 @@ class CachedFunction:
         except KeyError:
             pass
         # Then try full resolved call
-        resolved_call = serialize_call(args, kw, self.argnames, self.defaults)
+        # (never equal to a direct call key, which holds a tuple of keywords)
+        resolved_call = (serialize_call(args, kw, self.argnames, self.defaults), None)
         try:
             result = self.cache[resolved_call]
             # Add direct call key to avoid resolving it in subsequent calls
-- 
2.43.0


From 85529a7f20b07b8442beec83170e44834fb683ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:31 +0000
Subject: [PATCH 49/57] fix: cached instances stay referenced between lookup
 and return

---
 dedalus/tools/cache.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 37d80f1..81bd873 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -130,11 +130,12 @@ class CachedClass(type):
         if call.kwargs:
             raise ValueError("Required keyword arguments not supported.")
         full_args = cls._preprocess_cache_args(*call.args[1:])
+        # Bind to local variable so weakref persists until return
+        instance = cls._instance_cache.get(full_args)
         # Instantiate for new call
-        if full_args not in cls._instance_cache:
-            # Bind to local variable so weakref persists until return
+        if instance is None:
             cls._instance_cache[full_args] = instance = super().__call__(*full_args)
-        return cls._instance_cache[full_args]
+        return instance
 
     def _preprocess_args(cls, *args, **kw):
         """Process arguments and keywords prior to checking cache."""
-- 
2.43.0


From 610a07a37e33c2a480f87b32dc456bcb6f5e99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 50/57] fix: spin recombination matrices leave the cached
 factors alone

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 860154d..f475d9d 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1576,13 +1576,13 @@ class SpinRecombinationBasis:
 
     def spin_recombination_matrix(self, tensorsig, n_upstream):
         # Combine factors, replacing None placeholders
-        factors = self.spin_recombination_factors(tensorsig)
+        # Create new list to avoid modifying cached list
+        factors = list(self.spin_recombination_factors(tensorsig))
         for i, cs in enumerate(tensorsig):
             if factors[i] is None:
                 factors[i] = np.identity(cs.dim)
         # Add space for upstream groups
         if n_upstream > 1:
-            # Create new list to avoid modifying cached list
             factors = factors + [np.identity(n_upstream)]
         matrix = kron(*factors)
         # Expand for cos and msin parts
-- 
2.43.0


From 8a832a22e6401729a7828e93020d7ca24eaa6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 51/57] fix: ball and shell CFL operators leave the cached
 sphere spacings alone

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index f475d9d..df71b3c 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6197,9 +6197,9 @@ class Spherical3DAdvectiveCFL(operators.AdvectiveCFL):
         basis   = self.input_basis
         dealias = basis.dealias
         if isinstance(basis, BallBasis):
-            spacings = S2AdvectiveCFL.cfl_spacing(self, r=basis.radial_basis.radius)
+            spacings = list(S2AdvectiveCFL.cfl_spacing(self, r=basis.radial_basis.radius))
         elif isinstance(basis, ShellBasis):
-            spacings = S2AdvectiveCFL.cfl_spacing(self, r=1)
+            spacings = list(S2AdvectiveCFL.cfl_spacing(self, r=1))
             spacings[0] = spacings[0] * basis.local_grid_radius(self.dist, dealias[2]) #get proper radial scaling for shell
         spacings.append(basis.local_grid_spacing(self.dist, 2, scales=dealias) * dealias[2])
         return spacings
-- 
2.43.0


From 0e01f84d3d262c6b522c1dcf2abd8f07e12f74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:55 +0000
Subject: [PATCH 52/57] fix: virtual file handlers account for tasks added
 after the first write

---
 dedalus/core/evaluator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index ff71394..98a66d9 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -14,7 +14,6 @@ from math import prod
 from .future import FutureField, FutureLockedField
 from .field import Field, LockedField
 from .operators import Copy
-from ..tools.cache import CachedAttribute
 from ..tools.general import OrderedSet
 from ..tools.general import oscillate
 from ..tools.parallel import Sync
@@ -736,7 +735,7 @@ class H5VirtualFileHandler(H5FileHandlerBase):
         file_name = f"{self.name}_s{self.set_num}_p{rank}.h5"
         return self.current_path.joinpath(file_name)
 
-    @CachedAttribute
+    @property
     def empty(self):
         return not any(task['local_size'] for task in self.tasks)
 
-- 
2.43.0


From c0863f2e773c9e9df4abcb0effd1a332aea0f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:48 +0000
Subject: [PATCH 53/57] fix: L2 norms of vector and tensor fields use existing
 operators

---
 dedalus/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index b9705bc..3f43cd1 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -857,9 +857,9 @@ class Field(Current):
         if rank == 0:
             self_inner_product = np.conj(self) * self
         elif rank == 1:
-            self_inner_product = arithmetic.dot(np.conj(self), self)
+            self_inner_product = arithmetic.DotProduct(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.Trace(arithmetic.DotProduct(operators.TransposeComponents(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From d92fdc5ea9dfdaf884ac80cbfdfe55e2dd2cdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:48 +0000
Subject: [PATCH 54/57] fix: annulus and disk radial weights use the quadrature
 of their grids

---
 dedalus/core/basis.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index df71b3c..7e58cba 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2142,15 +2142,13 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
 
     def global_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
-        N = int(np.ceil(scale * self.shape[1]))
-        z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
+        weights = self._radius_weights(scale)
         return reshape_vector(weights.astype(np.float64), dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def local_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
         local_elements = dist.grid_layout.local_elements(self.domain(dist), scales=scale)[dist.get_basis_axis(self)+1]
-        N = int(np.ceil(scale * self.shape[1]))
-        z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
+        weights = self._radius_weights(scale)
         return reshape_vector(weights.astype(np.float64)[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     @CachedAttribute
@@ -2420,14 +2418,14 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
     def global_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
         N = int(np.ceil(scale * self.shape[1]))
-        z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
+        z, weights = dedalus_sphere.zernike.quadrature(2,N,k=self.alpha)
         return reshape_vector(weights.astype(np.float64), dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def local_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
         local_elements = dist.grid_layout.local_elements(self.domain(dist), scales=scale)[dist.get_basis_axis(self)+1]
         N = int(np.ceil(scale * self.shape[1]))
-        z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
+        z, weights = dedalus_sphere.zernike.quadrature(2,N,k=self.alpha)
         return reshape_vector(weights.astype(np.float64)[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     @CachedAttribute
-- 
2.43.0


From 851a5c5004b82222ea401470c61a93fe99989302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:48 +0000
Subject: [PATCH 55/57] fix: tuple tools import numpy

---
 dedalus/libraries/dedalus_sphere/tuple_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/libraries/dedalus_sphere/tuple_tools.py b/dedalus/libraries/dedalus_sphere/tuple_tools.py
index 44460f2..39671a1 100644
--- a/dedalus/libraries/dedalus_sphere/tuple_tools.py
+++ b/dedalus/libraries/dedalus_sphere/tuple_tools.py
@@ -1,4 +1,6 @@
 
+import numpy as np
+
 # tuple helper functions
 dual    =             lambda t: tuple(-e for e in t)
 apply   = lambda p:   lambda t: tuple(t[int(i)] for i in p)
-- 
2.43.0


From e2577a8e4329cad16ceb6e4280f0d8f082d5c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 56/57] fix: size of the azimuthal factor in skew matrices

SpinSkew sized the block of cos/msin pairs by the axis of the coefficient
shape without skipping the tensor axes, so that real-valued problems with
an axis before the azimuth built matrices of the wrong shape.
---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 8da6557..be47bd6 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2169,7 +2169,7 @@ class SpinSkew(Skew):
             factors[self.index] = 1j * factors[self.index]
         else:
             azimuth_index = len(self.tensorsig) + self.azimuth_axis
-            id_m = sparse.identity(shape[self.azimuth_axis]//2, format='csr')
+            id_m = sparse.identity(shape[azimuth_index]//2, format='csr')
             mul_1j = np.array([[0, -1], [1, 0]])
             factors[azimuth_index] = sparse.kron(id_m, mul_1j)
         return reduce(sparse.kron, factors, 1).tocsr()
-- 
2.43.0


From d688ec5139ba6bd3f80a17ba9e3a8a7dc8e47b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:25 +0000
Subject: [PATCH 57/57] fix: curl over a plane and a line in that order

DirectProductCurl read the dimension of the components from attributes
they do not have when the two-dimensional coordinate system comes first.
---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index be47bd6..f357ef1 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3799,7 +3799,7 @@ class DirectProductCurl(Curl):
             az = 0
             uz, uh = comps
             cz, ch = coordsys.coordsystems
-        elif comps[0].dim == 2 and comps[1].dim == 1:
+        elif comps[0].tensorsig[index].dim == 2 and comps[1].tensorsig[index].dim == 1:
             az = 2
             uh, uz = comps
             ch, cz = coordsys.coordsystems
-- 
2.43.0

