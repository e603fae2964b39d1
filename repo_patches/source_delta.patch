From ed77f7313b576953fa25662b86da28e1761b240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 01/37] fix: infinity norms of arrays with an empty local part

---
 pylops_mpi/DistributedArray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 431ddb6..448ba94 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -523,12 +523,12 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array).astype(np.float64), axis=axis, initial=0.),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From 636b7c38020b2e4918e3f86262f55b92da8f169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 02/37] fix: fractional-order norm of arrays with negative
 elements

---
 pylops_mpi/DistributedArray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 448ba94..1909d05 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -533,7 +533,7 @@ class DistributedArray:
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
         else:
-            recv_buf = self._allreduce_subcomm(np.sum(np.abs(np.float_power(local_array, ord)), axis=axis))
+            recv_buf = self._allreduce_subcomm(np.sum(np.float_power(np.abs(local_array), ord), axis=axis))
             recv_buf = np.power(recv_buf, 1. / ord)
         return recv_buf
 
-- 
2.43.0


From 00b7f9f93fcf9bf6a862f06f3ba32615125a434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 03/37] fix: norm along the axis of a broadcast array

---
 pylops_mpi/DistributedArray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 1909d05..e175078 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -562,7 +562,7 @@ class DistributedArray:
             Axis along which vector norm needs to be computed. Defaults to ``-1``
         """
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, axis=self.axis) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
         if axis == -1:
             # Flatten the local arrays and calculate norm
-- 
2.43.0


From b73ecb3c24ffaa2265f64c88aa3e311770023ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 04/37] fix: zeros_like keeps the mask

---
 pylops_mpi/DistributedArray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index e175078..508d69f 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -545,6 +545,7 @@ class DistributedArray:
                                partition=self.partition,
                                axis=self.axis,
                                local_shapes=self.local_shapes,
+                               mask=self.mask,
                                engine=self.engine,
                                dtype=self.dtype)
         arr[:] = 0.
-- 
2.43.0


From 8f6ee0435b66d6aec99925dd3515a1ebe100eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 05/37] fix: reject too many ghost cells on all ranks before
 communicating

---
 pylops_mpi/DistributedArray.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 508d69f..11d5d80 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -627,6 +627,17 @@ class DistributedArray:
         arr[:] = x
         return arr
 
+    def _check_ghost_cells(self, cells):
+        """Check on every rank that each rank holds the cells to be sent to its neighbour
+        """
+        for rank, (ncells, local_shape) in enumerate(zip(cells, self.local_shapes)):
+            if ncells > local_shape[self.axis]:
+                raise ValueError(f"Local Shape at rank={rank} along axis={self.axis} "
+                                 f"should be > {ncells}: dim({self.axis}) "
+                                 f"{local_shape[self.axis]} < {ncells}; "
+                                 f"to achieve this use NUM_PROCESSES <= "
+                                 f"{max(1, self.global_shape[self.axis] // ncells)}")
+
     def add_ghost_cells(self, cells_front: Optional[int] = None,
                         cells_back: Optional[int] = None):
         """Add ghost cells to the DistributedArray along the axis
@@ -650,31 +661,21 @@ class DistributedArray:
         ghosted_array = self.local_array.copy()
         if cells_front is not None:
             total_cells_front = self.base_comm.allgather(cells_front) + [0]
+            self._check_ghost_cells(total_cells_front[1:-1] + [0])
             # Read cells_front which needs to be sent to rank + 1(cells_front for rank + 1)
             cells_front = total_cells_front[self.rank + 1]
             if self.rank != 0:
                 ghosted_array = np.concatenate([self.base_comm.recv(source=self.rank - 1, tag=1), ghosted_array],
                                                axis=self.axis)
             if self.rank != self.size - 1:
-                if cells_front > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_front}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_front}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_front)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(-cells_front, 0), axis=self.axis),
                                     dest=self.rank + 1, tag=1)
         if cells_back is not None:
             total_cells_back = self.base_comm.allgather(cells_back) + [0]
+            self._check_ghost_cells([0] + total_cells_back[:-2])
             # Read cells_back which needs to be sent to rank - 1(cells_back for rank - 1)
             cells_back = total_cells_back[self.rank - 1]
             if self.rank != 0:
-                if cells_back > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_back}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_back}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_back)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),
                                     dest=self.rank - 1, tag=0)
             if self.rank != self.size - 1:
-- 
2.43.0


From 3a889fa11ba715b9e8c2449dccbac44f7eadfeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 06/37] fix: reject misaligned local shapes on all ranks

---
 pylops_mpi/DistributedArray.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 11d5d80..9dd7294 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -360,14 +360,18 @@ class DistributedArray:
                 raise ValueError(f"Length of local shapes is not equal to number of processes; "
                                  f"{len(local_shapes)} != {self.size}")
             # Check if local shape == global shape
-            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] and local_shapes[self.rank] != self.global_shape:
-                raise ValueError(f"Local shape is not equal to global shape at rank = {self.rank};"
-                                 f"{local_shapes[self.rank]} != {self.global_shape}")
+            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
+                for rank, local_shape in enumerate(local_shapes):
+                    if local_shape != self.global_shape:
+                        raise ValueError(f"Local shape is not equal to global shape at rank = {rank};"
+                                         f"{local_shape} != {self.global_shape}")
             elif self.partition is Partition.SCATTER:
                 local_shape = local_shapes[self.rank]
-                # Check if local shape sum up to global shape and other dimensions align with global shape
-                if self._allreduce(local_shape[self.axis]) != self.global_shape[self.axis] or \
-                        not np.array_equal(np.delete(local_shape, self.axis), np.delete(self.global_shape, self.axis)):
+                # Check if other dimensions align with global shape (at all ranks) and local shapes sum up to global shape
+                aligned = len(local_shape) == self.ndim and local_shape[self.axis] >= 0 and \
+                    np.array_equal(np.delete(local_shape, self.axis), np.delete(self.global_shape, self.axis))
+                if not self._allreduce(bool(aligned), op=MPI.LAND) or \
+                        self._allreduce(local_shape[self.axis]) != self.global_shape[self.axis]:
                     raise ValueError(f"Local shapes don't align with the global shape;"
                                      f"{local_shapes} != {self.global_shape}")
 
-- 
2.43.0


From 7358d32ef533a4cdbcc7ceacc49d09900ed2b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 07/37] fix: reject operands with different layouts on all
 ranks

---
 pylops_mpi/DistributedArray.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 9dd7294..32885b2 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -380,7 +380,14 @@ class DistributedArray:
         """
         if self.partition != dist_array.partition:
             raise ValueError("Partition of both the arrays must be same")
-        if self.local_shape != dist_array.local_shape:
+        if self.global_shape != dist_array.global_shape:
+            raise ValueError(f"Global Array Shape Mismatch - "
+                             f"{self.global_shape} != {dist_array.global_shape}")
+        mismatch = self.local_shape != dist_array.local_shape
+        if self.partition is Partition.SCATTER:
+            # raise at all ranks if the local shapes differ at any of them
+            mismatch = self._allreduce(mismatch, op=MPI.LOR)
+        if mismatch:
             raise ValueError(f"Local Array Shape Mismatch - "
                              f"{self.local_shape} != {dist_array.local_shape}")
 
-- 
2.43.0


From d63571fbb5adb7b557a538aeb26a6d15304f19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 08/37] fix: reject one-slice Fredholm kernels on all ranks

---
 pylops_mpi/signalprocessing/Fredholm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3b8a9ef..53dce6e 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -87,7 +87,7 @@ class MPIFredholm1(MPILinearOperator):
         self.nz = nz
         self.nsl, self.nx, self.ny = G.shape
         self.nsls = base_comm.allgather(self.nsl)
-        if base_comm.Get_rank() == 0 and 1 in self.nsls:
+        if 1 in self.nsls:
             raise NotImplementedError(f'All ranks must have at least 2 or more '
                                       f'elements in the first dimension: '
                                       f'local split is instead {self.nsls}...')
-- 
2.43.0


From 9fc4c5a8848a7a9e9c9397384a729a08e8a08217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 09/37] fix: adjoint of the forward second derivative with one
 row on the last rank

---
 pylops_mpi/basicoperators/SecondDerivative.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 6c4fb96..6f53a36 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -138,10 +138,10 @@ class MPISecondDerivative(MPILinearOperator):
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
         y[:] = 0
-        if self.rank == self.size - 1:
-            y[:-2] += x[:-2]
-        else:
-            y[:] += x[:]
+        # the last two rows of the global array do not contribute
+        nrows = x.global_shape[0] - 2 - sum(shape[0] for shape in x.local_shapes[:self.rank])
+        nrows = max(0, nrows)
+        y[:nrows] += x[:nrows]
 
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_forward = ghosted_x[:-2]
-- 
2.43.0


From 415906d5b9208d92646fa3b81537846d3e535ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 10/37] fix: adjoint of the forward first derivative with no
 row on the last rank

---
 pylops_mpi/basicoperators/FirstDerivative.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 5adbe28..51539c0 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -156,10 +156,10 @@ class MPIFirstDerivative(MPILinearOperator):
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
-        if self.rank == self.size - 1:
-            y[:-1] -= x[:-1]
-        else:
-            y[:] -= x[:]
+        # the last row of the global array does not contribute
+        nrows = x.global_shape[0] - 1 - sum(shape[0] for shape in x.local_shapes[:self.rank])
+        nrows = max(0, nrows)
+        y[:nrows] -= x[:nrows]
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_forward = ghosted_x[:-1]
         if self.rank == 0:
-- 
2.43.0


From 1618db68c3b0393fad9fd5c0453eee9573034479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 11/37] fix: derivatives of unsafe-broadcast arrays

---
 pylops_mpi/basicoperators/FirstDerivative.py  | 4 ++--
 pylops_mpi/basicoperators/SecondDerivative.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 51539c0..d6ab8fe 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -128,13 +128,13 @@ class MPIFirstDerivative(MPILinearOperator):
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
-        if x.partition is Partition.BROADCAST:
+        if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
-        if x.partition is Partition.BROADCAST:
+        if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
         return self._hrmatvec(x)
 
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 6f53a36..ae2b7ec 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -111,13 +111,13 @@ class MPISecondDerivative(MPILinearOperator):
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
-        if x.partition is Partition.BROADCAST:
+        if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
-        if x.partition is Partition.BROADCAST:
+        if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
         return self._hrmatvec(x)
 
-- 
2.43.0


From 02e29fc2cd64d1fec69ef6b9b00aae320bd57ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 12/37] fix: reject derivatives with too few rows for the edge
 stencil on all ranks

---
 pylops_mpi/basicoperators/FirstDerivative.py  | 10 ++++++++++
 pylops_mpi/basicoperators/SecondDerivative.py | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index d6ab8fe..5134702 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -126,16 +126,26 @@ class MPIFirstDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered', or 'backward'"
             )
 
+    def _check_edge(self) -> None:
+        # the one-sided stencils at the edges need two (three if order=5) rows on the first and last ranks
+        nrows = 3 if self.order == 5 else 2
+        if self.edge and self.kind == "centered" and self.dims[0] // self.size < nrows:
+            raise ValueError(f"edge=True requires at least {nrows} rows on the first and last ranks: "
+                             f"dim(0) {self.dims[0]}; to achieve this use NUM_PROCESSES <= "
+                             f"{max(1, self.dims[0] // nrows)}")
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
+        self._check_edge()
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
+        self._check_edge()
         return self._hrmatvec(x)
 
     @reshaped
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index ae2b7ec..4fb3d40 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -109,16 +109,26 @@ class MPISecondDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered' or 'backward'"
             )
 
+    def _check_edge(self) -> None:
+        # the one-sided stencils at the edges need three rows on the first and last ranks
+        nrows = 3
+        if self.edge and self.kind == "centered" and self.dims[0] // self.size < nrows:
+            raise ValueError(f"edge=True requires at least {nrows} rows on the first and last ranks: "
+                             f"dim(0) {self.dims[0]}; to achieve this use NUM_PROCESSES <= "
+                             f"{max(1, self.dims[0] // nrows)}")
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
+        self._check_edge()
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             x = DistributedArray.to_dist(x=x.local_array)
+        self._check_edge()
         return self._hrmatvec(x)
 
     @reshaped
-- 
2.43.0


From c899332557d63991679adfe22a33074caf7c0cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 13/37] fix: reject stacks of multi-dimensional arrays in
 MPIStackedLinearOperator.dot

---
 pylops_mpi/StackedLinearOperator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 2133954..0c37e03 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -137,8 +137,7 @@ class MPIStackedLinearOperator(ABC):
                 ndims = np.unique([dis.ndim for dis in x.distarrays])
                 if len(ndims) == 1 and ndims[0] == 1:
                     return self.matvec(x)
-            else:
-                raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
+            raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
 
     def adjoint(self):
         """Adjoint MPIStackedLinearOperator
-- 
2.43.0


From 54f6c599612b9e7f9997a5d18180ea5f96a58511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 14/37] fix: power of stacked operators

---
 pylops_mpi/StackedLinearOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 0c37e03..d06fb8d 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -365,7 +365,7 @@ class _PowerLinearOperator(MPIStackedLinearOperator):
     def _power(self, fun: Callable, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res)[:]
+            res = fun(res)
         return res
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
-- 
2.43.0


From a4bfe69bc2978630cbcfb678de1dd7d5d19b9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 15/37] fix: damping of the initial CGLS gradient and cost

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index db7349a..cf250f5 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -337,7 +337,7 @@ class CGLS(Solver):
 
         x = x0.copy()
         self.s = self.y - self.Op.matvec(x)
-        damped_x = x * damp
+        damped_x = x * self.damp
         r = self.Op.rmatvec(self.s) - damped_x
         self.rank = x.rank
         self.c = r.copy()
@@ -348,7 +348,7 @@ class CGLS(Solver):
         self.cost = []
         self.cost1 = []
         self.cost.append(float(self.s.norm()))
-        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + damp * np.abs(x.dot(x.conj())))))
+        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
         self.iiter = 0
 
         # print setup
-- 
2.43.0


From d669df9ba62469328188213e2ed962c06a8e82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 16/37] fix: r1norm returned by CGLS is the norm of the
 residual

---
 pylops_mpi/optimization/cls_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index cf250f5..34a1884 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -454,7 +454,7 @@ class CGLS(Solver):
         self.telapsed = self.tend - self.tstart
         # reason for termination
         self.istop = 1 if self.kold < self.tol else 2
-        self.r1norm = self.kold
+        self.r1norm = self.cost[self.iiter]
         self.r2norm = self.cost1[self.iiter]
         if show and self.rank == 0:
             self._print_finalize(nbar=65)
-- 
2.43.0


From de16ea1d6e013c183e30c6c0a867118b16daac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 17/37] fix: sums and products of arrays with different types

---
 pylops_mpi/DistributedArray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 32885b2..a36caa9 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -452,7 +452,7 @@ class DistributedArray:
         self._check_mask(dist_array)
         SumArray = DistributedArray(global_shape=self.global_shape,
                                     base_comm=self.base_comm,
-                                    dtype=self.dtype,
+                                    dtype=np.result_type(self.dtype, dist_array.dtype),
                                     partition=self.partition,
                                     local_shapes=self.local_shapes,
                                     mask=self.mask,
@@ -476,9 +476,10 @@ class DistributedArray:
             self._check_partition_shape(dist_array)
             self._check_mask(dist_array)
 
+        factor = dist_array.dtype if isinstance(dist_array, DistributedArray) else dist_array
         ProductArray = DistributedArray(global_shape=self.global_shape,
                                         base_comm=self.base_comm,
-                                        dtype=self.dtype,
+                                        dtype=np.result_type(self.dtype, factor),
                                         partition=self.partition,
                                         local_shapes=self.local_shapes,
                                         mask=self.mask,
-- 
2.43.0


From b821d805b0c7bebd5895689e2790377bc4fe27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 18/37] fix: reject in-place sums that do not fit the type of
 the array

---
 pylops_mpi/DistributedArray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index a36caa9..05b9d4c 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -466,6 +466,9 @@ class DistributedArray:
         """
         self._check_partition_shape(dist_array)
         self._check_mask(dist_array)
+        if not np.can_cast(np.result_type(self.dtype, dist_array.dtype), self.dtype, casting="same_kind"):
+            raise TypeError(f"Cannot add in-place array of type {dist_array.dtype} "
+                            f"to array of type {self.dtype}")
         self[:] = self.local_array + dist_array.local_array
         return self
 
-- 
2.43.0


From cf5d2870771811ff9838055f2c7342e409f58a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 19/37] fix: sums and products of stacked arrays with different
 types

---
 pylops_mpi/DistributedArray.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 05b9d4c..dbe598a 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -788,9 +788,8 @@ class StackedDistributedArray:
 
         """
         self._check_stacked_size(stacked_array)
-        SumArray = self.copy()
-        for iarr in range(self.narrays):
-            SumArray[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
+        SumArray = StackedDistributedArray([self[iarr] + stacked_array[iarr]
+                                            for iarr in range(self.narrays)])
         return SumArray
 
     def iadd(self, stacked_array):
@@ -798,7 +797,7 @@ class StackedDistributedArray:
         """
         self._check_stacked_size(stacked_array)
         for iarr in range(self.narrays):
-            self[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
+            self[iarr].iadd(stacked_array[iarr])
         return self
 
     def multiply(self, stacked_array):
@@ -806,16 +805,14 @@ class StackedDistributedArray:
         """
         if isinstance(stacked_array, StackedDistributedArray):
             self._check_stacked_size(stacked_array)
-        ProductArray = self.copy()
-
         if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array[iarr])[:]
+            ProductArray = StackedDistributedArray([self[iarr] * stacked_array[iarr]
+                                                    for iarr in range(self.narrays)])
         else:
             # multiply with scalar
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array)[:]
+            ProductArray = StackedDistributedArray([self[iarr] * stacked_array
+                                                    for iarr in range(self.narrays)])
         return ProductArray
 
     def dot(self, stacked_array):
-- 
2.43.0


From b240cf7e48fac376db5087ee3df876219d2f4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 20/37] fix: sums, scalings and powers of operators with
 different types

---
 pylops_mpi/LinearOperator.py        | 8 ++++----
 pylops_mpi/StackedLinearOperator.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index a7bc9be..c808827 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -310,13 +310,13 @@ class _ScaledLinearOperator(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
         if y is not None:
-            y[:] *= self.args[1]
+            y = y * self.args[1]
         return y
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].rmatvec(x)
         if y is not None:
-            y[:] *= np.conj(self.args[1])
+            y = y * np.conj(self.args[1])
         return y
 
     def _adjoint(self) -> MPILinearOperator:
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -370,7 +370,7 @@ class _PowerLinearOperator(MPILinearOperator):
     def _power(self, fun: Callable, x: DistributedArray) -> DistributedArray:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res).local_array
+            res = fun(res)
         return res
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index d06fb8d..6e0e696 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -330,7 +330,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
-- 
2.43.0


From 86f745509af3ae86e74e45c654349f693c39959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 21/37] fix: type of stacks of operators whose type differs
 between ranks

---
 pylops_mpi/basicoperators/BlockDiag.py | 2 +-
 pylops_mpi/basicoperators/VStack.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 2851110..fad9ebd 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -115,7 +115,7 @@ class MPIBlockDiag(MPILinearOperator):
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         self.mmops = np.insert(np.cumsum(mops), 0, 0)
         shape = (base_comm.allreduce(self.nops), base_comm.allreduce(self.mops))
-        dtype = _get_dtype(ops) if dtype is None else np.dtype(dtype)
+        dtype = np.result_type(*base_comm.allgather(_get_dtype(ops))) if dtype is None else np.dtype(dtype)
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     @reshaped(forward=True, stacking=True)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index f869a9a..3d7205e 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -113,7 +113,7 @@ class MPIVStack(MPILinearOperator):
         self.mops = int(mops[0])
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         shape = (base_comm.allreduce(self.nops), self.mops)
-        dtype = _get_dtype(self.ops) if dtype is None else np.dtype(dtype)
+        dtype = np.result_type(*base_comm.allgather(_get_dtype(self.ops))) if dtype is None else np.dtype(dtype)
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
-- 
2.43.0


From 2b95550a6e6e79676596410f331f7ef24fdbeeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 22/37] fix: rejected in-place sum of stacked arrays leaves all
 of its arrays unchanged

---
 pylops_mpi/DistributedArray.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index dbe598a..8726b2b 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -397,6 +397,15 @@ class DistributedArray:
         if not np.array_equal(self.mask, dist_array.mask):
             raise ValueError("Mask of both the arrays must be same")
 
+    def _check_iadd(self, dist_array):
+        """Check that the Array can be added in-place
+        """
+        self._check_partition_shape(dist_array)
+        self._check_mask(dist_array)
+        if not np.can_cast(np.result_type(self.dtype, dist_array.dtype), self.dtype, casting="same_kind"):
+            raise TypeError(f"Cannot add in-place array of type {dist_array.dtype} "
+                            f"to array of type {self.dtype}")
+
     def _allreduce(self, send_buf, recv_buf=None, op: MPI.Op = MPI.SUM):
         """MPI Allreduce operation
         """
@@ -464,11 +473,7 @@ class DistributedArray:
     def iadd(self, dist_array):
         """Distributed In-place Addition of arrays
         """
-        self._check_partition_shape(dist_array)
-        self._check_mask(dist_array)
-        if not np.can_cast(np.result_type(self.dtype, dist_array.dtype), self.dtype, casting="same_kind"):
-            raise TypeError(f"Cannot add in-place array of type {dist_array.dtype} "
-                            f"to array of type {self.dtype}")
+        self._check_iadd(dist_array)
         self[:] = self.local_array + dist_array.local_array
         return self
 
@@ -796,6 +801,8 @@ class StackedDistributedArray:
         """Stacked Distributed In-Place Addition of arrays
         """
         self._check_stacked_size(stacked_array)
+        for iarr in range(self.narrays):
+            self[iarr]._check_iadd(stacked_array[iarr])
         for iarr in range(self.narrays):
             self[iarr].iadd(stacked_array[iarr])
         return self
-- 
2.43.0


From 93658892b328cd228feaafff8aefd653b4759005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 23/37] fix: masked arrays share one communicator per mask
 instead of leaking one each

---
 pylops_mpi/DistributedArray.py | 35 +++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 8726b2b..711a974 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -57,6 +57,39 @@ def local_split(global_shape: Tuple, base_comm: MPI.Comm,
     return tuple(local_shape)
 
 
+# Key of the communicator attribute storing its sub-communicators
+_sub_comms_keyval = MPI.Comm.Create_keyval()
+
+
+def subcomm_split(mask: List[Integral], base_comm: MPI.Comm):
+    """To get the sub-communicator of the ranks with the same mask
+
+    The sub-communicators are created once for each mask and stored as an
+    attribute of the base communicator, as MPI can provide only a limited
+    number of communicators.
+
+    Parameters
+    ----------
+    mask : :obj:`list`
+        Mask defining subsets of ranks.
+    base_comm : :obj:`MPI.Comm`
+        Base MPI Communicator.
+
+    Returns
+    -------
+    sub_comm : :obj:`MPI.Comm`
+        Sub-communicator of the ranks with the same mask.
+    """
+    sub_comms = base_comm.Get_attr(_sub_comms_keyval)
+    if sub_comms is None:
+        sub_comms = {}
+        base_comm.Set_attr(_sub_comms_keyval, sub_comms)
+    key = tuple(mask)
+    if key not in sub_comms:
+        sub_comms[key] = base_comm.Split(color=mask[base_comm.rank], key=base_comm.rank)
+    return sub_comms[key]
+
+
 class DistributedArray:
     r"""Distributed Numpy Arrays
 
@@ -117,7 +150,7 @@ class DistributedArray:
         self._partition = partition
         self._axis = axis
         self._mask = mask
-        self._sub_comm = base_comm if mask is None else base_comm.Split(color=mask[base_comm.rank], key=base_comm.rank)
+        self._sub_comm = base_comm if mask is None else subcomm_split(mask, base_comm)
 
         local_shapes = local_shapes if local_shapes is None else [_value_or_sized_to_tuple(local_shape) for local_shape in local_shapes]
         self._check_local_shapes(local_shapes)
-- 
2.43.0


From 5294cc184111ea01a2f9aa861b0f5f12b3fb1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 24/37] fix: reject masks of the wrong length on all ranks

---
 pylops_mpi/DistributedArray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 711a974..f4f6a25 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -144,6 +144,9 @@ class DistributedArray:
         if partition not in Partition:
             raise ValueError(f"Should be either {Partition.BROADCAST}, "
                              f"{Partition.UNSAFE_BROADCAST} or {Partition.SCATTER}")
+        if mask is not None and len(mask) != base_comm.Get_size():
+            raise ValueError(f"Length of mask is not equal to number of processes; "
+                             f"{len(mask)} != {base_comm.Get_size()}")
         self.dtype = dtype
         self._global_shape = _value_or_sized_to_tuple(global_shape)
         self._base_comm = base_comm
-- 
2.43.0


From 4933212779722cfa9dfe4424ee8f45a2e9d48bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 25/37] fix: derived arrays and reductions stay on the
 communicator of the array

---
 pylops_mpi/DistributedArray.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index f4f6a25..c778b7f 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -544,9 +544,9 @@ class DistributedArray:
         self._check_mask(dist_array)
 
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
-        y = DistributedArray.to_dist(x=dist_array.local_array) \
+        y = DistributedArray.to_dist(x=dist_array.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array
         # Flatten the local arrays and calculate dot product
         return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))
@@ -619,7 +619,7 @@ class DistributedArray:
             Axis along which vector norm needs to be computed. Defaults to ``-1``
         """
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array, axis=self.axis) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm, axis=self.axis) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
         if axis == -1:
             # Flatten the local arrays and calculate norm
@@ -673,6 +673,7 @@ class DistributedArray:
         """
         local_shapes = [(np.prod(local_shape, axis=-1), ) for local_shape in self.local_shapes]
         arr = DistributedArray(global_shape=np.prod(self.global_shape),
+                               base_comm=self.base_comm,
                                local_shapes=local_shapes,
                                mask=self.mask,
                                partition=self.partition,
@@ -830,7 +831,8 @@ class StackedDistributedArray:
         """
         self._check_stacked_size(stacked_array)
         SumArray = StackedDistributedArray([self[iarr] + stacked_array[iarr]
-                                            for iarr in range(self.narrays)])
+                                            for iarr in range(self.narrays)],
+                                           base_comm=self.base_comm)
         return SumArray
 
     def iadd(self, stacked_array):
@@ -851,11 +853,13 @@ class StackedDistributedArray:
         if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
             ProductArray = StackedDistributedArray([self[iarr] * stacked_array[iarr]
-                                                    for iarr in range(self.narrays)])
+                                                    for iarr in range(self.narrays)],
+                                                   base_comm=self.base_comm)
         else:
             # multiply with scalar
             ProductArray = StackedDistributedArray([self[iarr] * stacked_array
-                                                    for iarr in range(self.narrays)])
+                                                    for iarr in range(self.narrays)],
+                                                   base_comm=self.base_comm)
         return ProductArray
 
     def dot(self, stacked_array):
@@ -896,13 +900,15 @@ class StackedDistributedArray:
     def conj(self):
         """Distributed conj() method
         """
-        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays])
+        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays],
+                                            base_comm=self.base_comm)
         return ConjArray
 
     def copy(self):
         """Creates a copy of the DistributedArray
         """
-        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays])
+        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays],
+                                      base_comm=self.base_comm)
         return arr
 
     def __repr__(self):
-- 
2.43.0


From 2ea764ffb52c854a98e09b9009560373aef217b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 26/37] fix: adjoint, transpose, conjugate, sum, product and
 scaled operators stay on the communicator of their operators

---
 pylops_mpi/LinearOperator.py        | 12 ++++++------
 pylops_mpi/StackedLinearOperator.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index c808827..b09cdda 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -240,7 +240,7 @@ class _AdjointLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.A.rmatvec(x)
@@ -256,7 +256,7 @@ class _TransposedLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
@@ -281,7 +281,7 @@ class _ProductLinearOperator(MPILinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -305,7 +305,7 @@ class _ScaledLinearOperator(MPILinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -388,7 +388,7 @@ class _ConjLinearOperator(MPILinearOperator):
         if not isinstance(A, MPILinearOperator):
             raise TypeError('A must be a MPILinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 6e0e696..d13bfab 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -229,7 +229,7 @@ class _AdjointStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         return self.A.rmatvec(x)
@@ -245,7 +245,7 @@ class _TransposedStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
@@ -275,7 +275,7 @@ class _ProductStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -299,7 +299,7 @@ class _ScaledStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         y = self.args[0].matvec(x)
@@ -330,7 +330,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
@@ -383,7 +383,7 @@ class _ConjLinearOperator(MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator):
             raise TypeError('A must be a MPIStackedLinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
-- 
2.43.0


From 3ec261c5d9f21ab728aeff8b2d8beedd076e2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 27/37] fix: outputs of operators stay on the communicator of
 the operator

---
 pylops_mpi/basicoperators/BlockDiag.py        |  6 ++++--
 pylops_mpi/basicoperators/FirstDerivative.py  | 12 ++++++++++--
 pylops_mpi/basicoperators/SecondDerivative.py | 13 ++++++++++---
 pylops_mpi/basicoperators/VStack.py           |  4 +++-
 pylops_mpi/signalprocessing/Fredholm1.py      |  2 ++
 pylops_mpi/utils/decorators.py                |  1 +
 6 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index fad9ebd..e61afb5 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -122,6 +122,7 @@ class MPIBlockDiag(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+                             base_comm=self.base_comm,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -134,6 +135,7 @@ class MPIBlockDiag(MPILinearOperator):
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
+                             base_comm=self.base_comm,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -178,10 +180,10 @@ class MPIStackedBlockDiag(MPIStackedLinearOperator):
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.matvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, base_comm=self.base_comm)
 
     def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.rmatvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 5134702..2bcb7ba 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -137,14 +137,14 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         self._check_edge()
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         self._check_edge()
         return self._hrmatvec(x)
 
@@ -152,6 +152,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=1)
         y_forward = ghosted_x[1:] - ghosted_x[:-1]
@@ -164,6 +165,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         # the last row of the global array does not contribute
@@ -182,6 +184,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_backward = ghosted_x[1:] - ghosted_x[:-1]
@@ -194,6 +197,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=1)
@@ -212,6 +216,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = 0.5 * (ghosted_x[2:] - ghosted_x[:-2])
@@ -232,6 +237,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
 
@@ -260,6 +266,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2, cells_back=2)
         y_centered = (
@@ -287,6 +294,7 @@ class MPIFirstDerivative(MPILinearOperator):
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=4)
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 4fb3d40..a946810 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -120,14 +120,14 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         self._check_edge()
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         self._check_edge()
         return self._hrmatvec(x)
 
@@ -135,6 +135,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_forward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -146,7 +147,9 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
+        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
+                             axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         # the last two rows of the global array do not contribute
         nrows = x.global_shape[0] - 2 - sum(shape[0] for shape in x.local_shapes[:self.rank])
@@ -173,6 +176,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2)
         y_backward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -185,6 +189,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
@@ -212,6 +217,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -232,6 +238,7 @@ class MPISecondDerivative(MPILinearOperator):
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+                             base_comm=x.base_comm,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index 3d7205e..8364a07 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -122,6 +122,7 @@ class MPIVStack(MPILinearOperator):
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+                             base_comm=self.base_comm,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -133,6 +134,7 @@ class MPIVStack(MPILinearOperator):
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+                             base_comm=self.base_comm,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -184,7 +186,7 @@ class MPIStackedVStack(MPIStackedLinearOperator):
         y1 = []
         for oper in self.ops:
             y1.append(oper.matvec(x))
-        y = StackedDistributedArray(y1)
+        y = StackedDistributedArray(y1, base_comm=self.base_comm)
         return y
 
     def _rmatvec(self, x: StackedDistributedArray) -> DistributedArray:
diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 53dce6e..7048c50 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -112,6 +112,7 @@ class MPIFredholm1(MPILinearOperator):
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
+                             base_comm=self.base_comm,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dims).squeeze()
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
@@ -134,6 +135,7 @@ class MPIFredholm1(MPILinearOperator):
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+                             base_comm=self.base_comm,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dimsd).squeeze()
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
diff --git a/pylops_mpi/utils/decorators.py b/pylops_mpi/utils/decorators.py
index 457b559..b4a869d 100644
--- a/pylops_mpi/utils/decorators.py
+++ b/pylops_mpi/utils/decorators.py
@@ -54,6 +54,7 @@ def reshaped(
                 local_shapes = None
                 global_shape = getattr(self, "dims")
             arr = DistributedArray(global_shape=global_shape,
+                                   base_comm=x.base_comm,
                                    local_shapes=local_shapes, axis=0,
                                    engine=x.engine, dtype=x.dtype)
             arr_local_shapes = np.asarray(arr.base_comm.allgather(np.prod(arr.local_shape)))
-- 
2.43.0


From 3378badd80e6d00b1b5dec62de11e2dc4dc4d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 28/37] fix: operators inside gradient, Laplacian and MDC stay
 on their communicator

---
 pylops_mpi/basicoperators/Gradient.py  |  5 +++--
 pylops_mpi/basicoperators/Laplacian.py |  8 ++++++--
 pylops_mpi/waveeqprocessing/MDC.py     | 12 ++++++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/basicoperators/Gradient.py b/pylops_mpi/basicoperators/Gradient.py
index 89fd5af..ef52750 100644
--- a/pylops_mpi/basicoperators/Gradient.py
+++ b/pylops_mpi/basicoperators/Gradient.py
@@ -103,6 +103,7 @@ class MPIGradient(MPIStackedLinearOperator):
         grad_ops = []
         Op1 = MPIFirstDerivative(dims=self.dims, sampling=self.sampling[0],
                                  kind=self.kind, edge=self.edge,
+                                 base_comm=self.base_comm,
                                  dtype=self.dtype)
         grad_ops.append(Op1)
         for iax in range(1, ndims):
@@ -114,6 +115,6 @@ class MPIGradient(MPIStackedLinearOperator):
                     edge=self.edge,
                     kind=self.kind,
                     dtype=self.dtype)
-            ])
+            ], base_comm=self.base_comm)
             grad_ops.append(diag)
-        return MPIStackedVStack(ops=grad_ops)
+        return MPIStackedVStack(ops=grad_ops, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/Laplacian.py b/pylops_mpi/basicoperators/Laplacian.py
index 7cc482e..f04cb7d 100644
--- a/pylops_mpi/basicoperators/Laplacian.py
+++ b/pylops_mpi/basicoperators/Laplacian.py
@@ -101,6 +101,7 @@ class MPILaplacian(MPILinearOperator):
                                                          sampling=self.sampling[0],
                                                          kind=self.kind,
                                                          edge=self.edge,
+                                                         base_comm=self.base_comm,
                                                          dtype=self.dtype)
         else:
             l2op = self.weights[0] * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
@@ -108,17 +109,20 @@ class MPILaplacian(MPILinearOperator):
                                                                         sampling=self.sampling[0],
                                                                         kind=self.kind,
                                                                         edge=self.edge,
-                                                                        dtype=self.dtype)])
+                                                                        dtype=self.dtype)],
+                                                   base_comm=self.base_comm)
         for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):
             if ax == 0:
                 l2op += weight * MPISecondDerivative(dims=self.dims,
                                                      sampling=samp,
                                                      edge=self.edge,
+                                                     base_comm=self.base_comm,
                                                      dtype=self.dtype)
             else:
                 l2op += weight * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
                                                                     axis=ax,
                                                                     sampling=samp,
                                                                     edge=self.edge,
-                                                                    dtype=self.dtype)])
+                                                                    dtype=self.dtype)],
+                                               base_comm=self.base_comm)
         return l2op
diff --git a/pylops_mpi/waveeqprocessing/MDC.py b/pylops_mpi/waveeqprocessing/MDC.py
index 18980bf..a21fdef 100644
--- a/pylops_mpi/waveeqprocessing/MDC.py
+++ b/pylops_mpi/waveeqprocessing/MDC.py
@@ -53,15 +53,19 @@ def _MDC(G, nt, nv, nfmax, dt=1., dr=1., twosided=True,
         logging.warning('nfmax set equal to ceil[(nt+1)/2=%d]' % nfmax)
 
     Fop = MPILinearOperator(_FFT(dims=(nt, nr, nv), axis=0, real=True,
-                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT))
+                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT),
+                          base_comm=base_comm)
     F1op = MPILinearOperator(_FFT(dims=(nt, ns, nv), axis=0, real=True,
-                                  ifftshift_before=False, dtype=rdtype, **args_FFT1))
+                                  ifftshift_before=False, dtype=rdtype, **args_FFT1),
+                           base_comm=base_comm)
 
     # create Identity operator to extract only relevant frequencies
     Iop = MPILinearOperator(_Identity(N=nfmax * nr * nv, M=nfft * nr * nv,
-                                      inplace=True, dtype=dtype, **args_Identity))
+                                      inplace=True, dtype=dtype, **args_Identity),
+                          base_comm=base_comm)
     I1op = MPILinearOperator(_Identity(N=nfmax * ns * nv, M=nfft * ns * nv,
-                                       inplace=True, dtype=dtype, **args_Identity1))
+                                       inplace=True, dtype=dtype, **args_Identity1),
+                           base_comm=base_comm)
     F1opH = F1op.H
     I1opH = I1op.H
 
-- 
2.43.0


From e6cdb86ee154d89143c9e3d3694fb3750e0f6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 29/37] fix: Fredholm kernels with one row or one column

---
 pylops_mpi/signalprocessing/Fredholm1.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 7048c50..45077b2 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -114,15 +114,13 @@ class MPIFredholm1(MPILinearOperator):
         y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
                              base_comm=self.base_comm,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dims).squeeze()
+        x = x.local_array.reshape(self.dims)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             y1 = ncp.matmul(self.G, x)
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype)
             for isl in range(self.nsls[self.rank]):
                 y1[isl] = ncp.dot(self.G[isl], x[isl])
         # gather results
@@ -137,12 +135,10 @@ class MPIFredholm1(MPILinearOperator):
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
                              base_comm=self.base_comm,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dimsd).squeeze()
+        x = x.local_array.reshape(self.dimsd)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             if hasattr(self, "GT"):
                 y1 = ncp.matmul(self.GT, x)
             else:
@@ -152,7 +148,7 @@ class MPIFredholm1(MPILinearOperator):
                     .conj()
                 )
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype)
             if hasattr(self, "GT"):
                 for isl in range(self.nsls[self.rank]):
                     y1[isl] = ncp.dot(self.GT[isl], x[isl])
-- 
2.43.0


From d3ff398a01f8e927421bc378821960513194bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 30/37] fix: difference of stacked operators

---
 pylops_mpi/StackedLinearOperator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index d13bfab..e04a821 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -325,7 +325,13 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
     def __init__(self, A: MPIStackedLinearOperator, B: MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator) or not isinstance(B, MPIStackedLinearOperator):
             raise ValueError('both operands have to be a MPIStackedLinearOperator')
-        if type(A) != type(B):  # noqa: E721
+        # scaled (and negated) operators are of the type of the operator that is scaled
+        A1, B1 = A, B
+        while isinstance(A1, _ScaledStackedLinearOperator):
+            A1 = A1.args[0]
+        while isinstance(B1, _ScaledStackedLinearOperator):
+            B1 = B1.args[0]
+        if type(A1) != type(B1):  # noqa: E721
             raise ValueError(f'both operands have to be of same type, {A} != {B}')
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
-- 
2.43.0


From cf2c8f83317580933872ec199008fb44781c1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 31/37] fix: show of solvers with stacked models of unequal
 components

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index 34a1884..ad1d417 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -98,7 +98,7 @@ class CG(Solver):
 
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
@@ -354,7 +354,7 @@ class CGLS(Solver):
         # print setup
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
-- 
2.43.0


From afd85e1250ad65bc296958eed2f4080b8b6d73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 32/37] fix: message of operators applied to multi-dimensional
 arrays

---
 pylops_mpi/LinearOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index b09cdda..2dd9655 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -146,7 +146,7 @@ class MPILinearOperator:
                 return self.matvec(x)
             else:
                 raise ValueError('expected 1-d DistributedArray, got %r'
-                                 % x.global_shape)
+                                 % (x.global_shape,))
 
     def adjoint(self):
         """Adjoint MPI LinearOperator
-- 
2.43.0


From c73ec3f18a4c18b65aa6d2c24975d32a42497afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 33/37] fix: derivatives of broadcast arrays scatter whole rows

---
 pylops_mpi/basicoperators/FirstDerivative.py  | 4 ++--
 pylops_mpi/basicoperators/SecondDerivative.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 2bcb7ba..ca7ef03 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -137,14 +137,14 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
+            x = DistributedArray.to_dist(x=x.local_array.reshape(self.dims), base_comm=x.base_comm).ravel()
         self._check_edge()
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
+            x = DistributedArray.to_dist(x=x.local_array.reshape(self.dims), base_comm=x.base_comm).ravel()
         self._check_edge()
         return self._hrmatvec(x)
 
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index a946810..38e40f3 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -120,14 +120,14 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
+            x = DistributedArray.to_dist(x=x.local_array.reshape(self.dims), base_comm=x.base_comm).ravel()
         self._check_edge()
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
-            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
+            x = DistributedArray.to_dist(x=x.local_array.reshape(self.dims), base_comm=x.base_comm).ravel()
         self._check_edge()
         return self._hrmatvec(x)
 
-- 
2.43.0


From 408c1cae0161280bb4bd290b8c9cdfb74db53791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 34/37] fix: differences of arrays of unsigned and mixed
 integer types

x - y was computed as x + (-y), with the negation done in the type of y:
float - uint8 (and int16 - int8 at the smallest integer) gave wrong values.
---
 pylops_mpi/DistributedArray.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index c778b7f..b76d66f 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -479,10 +479,24 @@ class DistributedArray:
         return self.iadd(x)
 
     def __sub__(self, x):
-        return self.__add__(-x)
+        # not the sum with -x, as the type of x may not represent -x
+        self._check_partition_shape(x)
+        self._check_mask(x)
+        DiffArray = DistributedArray(global_shape=self.global_shape,
+                                     base_comm=self.base_comm,
+                                     dtype=np.result_type(self.dtype, x.dtype),
+                                     partition=self.partition,
+                                     local_shapes=self.local_shapes,
+                                     mask=self.mask,
+                                     engine=self.engine,
+                                     axis=self.axis)
+        DiffArray[:] = self.local_array - x.local_array
+        return DiffArray
 
     def __isub__(self, x):
-        return self.__iadd__(-x)
+        self._check_iadd(x)
+        self[:] = self.local_array - x.local_array
+        return self
 
     def __mul__(self, x):
         return self.multiply(x)
@@ -814,10 +828,20 @@ class StackedDistributedArray:
         return self.iadd(x)
 
     def __sub__(self, x):
-        return self.__add__(-x)
+        self._check_stacked_size(x)
+        DiffArray = StackedDistributedArray([self[iarr] - x[iarr]
+                                             for iarr in range(self.narrays)],
+                                            base_comm=self.base_comm)
+        return DiffArray
 
     def __isub__(self, x):
-        return self.__iadd__(-x)
+        self._check_stacked_size(x)
+        for iarr in range(self.narrays):
+            self[iarr]._check_iadd(x[iarr])
+        diffs = [self[iarr].local_array - x[iarr].local_array for iarr in range(self.narrays)]
+        for iarr in range(self.narrays):
+            self[iarr][:] = diffs[iarr]
+        return self
 
     def __mul__(self, x):
         return self.multiply(x)
-- 
2.43.0


From 5fd99d7c1843fc97dcf6917ff125c151671119c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 35/37] fix: norms of integer arrays holding the smallest
 integer of their type

---
 pylops_mpi/DistributedArray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index b76d66f..a73ffa9 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -580,6 +580,9 @@ class DistributedArray:
         """
         # Compute along any axis
         ord = 2 if ord is None else ord
+        if not np.issubdtype(local_array.dtype, np.inexact):
+            # the absolute value of an integer may not be representable in its type
+            local_array = local_array.astype(np.float64)
         if local_array.ndim == 1:
             recv_buf = np.empty(shape=1, dtype=np.float64)
         else:
-- 
2.43.0


From 093ad0d1120c260adc5a7541d33c1a910258c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 36/37] fix: map of owning ranks of boolean arrays in
 plot_distributed_array

---
 pylops_mpi/plotting/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/plotting/plotting.py b/pylops_mpi/plotting/plotting.py
index 215166b..909db03 100644
--- a/pylops_mpi/plotting/plotting.py
+++ b/pylops_mpi/plotting/plotting.py
@@ -26,7 +26,7 @@ def plot_distributed_array(arr: DistributedArray) -> None:
                                   base_comm=arr.base_comm,
                                   partition=arr.partition, axis=arr.axis,
                                   local_shapes=arr.local_shapes,
-                                  dtype=arr.dtype)
+                                  dtype=int)
     dist_array[:] = np.full(shape=dist_array.local_shape, fill_value=arr.rank)
     full_dist_arr = dist_array.asarray()
     full_arr = arr.asarray()
-- 
2.43.0


From 89dd387833284da4c61cdcd3eeab4cac3eee267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 37/37] fix: infinity norms propagate NaN from every rank

---
 pylops_mpi/DistributedArray.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index a73ffa9..1b1454c 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -583,28 +583,19 @@ class DistributedArray:
         if not np.issubdtype(local_array.dtype, np.inexact):
             # the absolute value of an integer may not be representable in its type
             local_array = local_array.astype(np.float64)
-        if local_array.ndim == 1:
-            recv_buf = np.empty(shape=1, dtype=np.float64)
-        else:
-            global_shape = list(self.global_shape)
-            global_shape[axis] = 1
-            recv_buf = np.empty(shape=global_shape, dtype=np.float64)
         if ord in ['fro', 'nuc']:
             raise ValueError(f"norm-{ord} not possible for vectors")
         elif ord == 0:
             # Count non-zero then sum reduction
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
-            # Calculate max followed by max reduction
+            # Calculate max followed by max reduction (MPI.MAX does not propagate NaN)
             recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array).astype(np.float64), axis=axis, initial=0.),
-                                               recv_buf, op=MPI.MAX)
-            recv_buf = np.squeeze(recv_buf, axis=axis)
+                                               op=np.maximum)
         elif ord == -np.inf:
-            # Calculate min followed by min reduction
+            # Calculate min followed by min reduction (MPI.MIN does not propagate NaN)
             recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
-                                               recv_buf, op=MPI.MIN)
-            recv_buf = np.squeeze(recv_buf, axis=axis)
-
+                                               op=np.minimum)
         else:
             recv_buf = self._allreduce_subcomm(np.sum(np.float_power(np.abs(local_array), ord), axis=axis))
             recv_buf = np.power(recv_buf, 1. / ord)
-- 
2.43.0

