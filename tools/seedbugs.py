"""Bugs planted into scratch states of /repo by tools/seed.py (development only; no check reads this)."""
DA = "DistributedArray.py"
LO = "LinearOperator.py"
SLO = "StackedLinearOperator.py"
DEC = "utils/decorators.py"
BD = "basicoperators/BlockDiag.py"
VS = "basicoperators/VStack.py"
HS = "basicoperators/HStack.py"
FD = "basicoperators/FirstDerivative.py"
SD = "basicoperators/SecondDerivative.py"
GR = "basicoperators/Gradient.py"
LA = "basicoperators/Laplacian.py"
FR = "signalprocessing/Fredholm1.py"
MD = "waveeqprocessing/MDC.py"
SO = "optimization/cls_basic.py"
PL = "plotting/plotting.py"
DT = "utils/dottest.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, n=3, timeout=60):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, n=n, timeout=timeout))


# ---------------------------------------------------------------- C01
bug("c01_ceil_blocks", "C01",
    [(DA, """        if base_comm.Get_rank() < (global_shape[axis] % base_comm.Get_size()):
            local_shape[axis] = global_shape[axis] // base_comm.Get_size() + 1
        else:
            local_shape[axis] = global_shape[axis] // base_comm.Get_size()
""", """        block = -(-global_shape[axis] // base_comm.Get_size())
        local_shape[axis] = max(0, min(block, global_shape[axis] - base_comm.Get_rank() * block))
""")],
    "a size whose remainder leaves the last ranks with fewer elements (5 elements on 4 ranks)",
    "default split no longer balanced: parts differ by more than one element",
    """
x = DistributedArray.to_dist(np.arange(5.))
sizes = comm.allgather(x.local_shape[0])
assert sizes == [2, 1, 1, 1], sizes
close(x.asarray(), np.arange(5.))
""", n=4)
bug("c01_offset_formula", "C01",
    [(DA, """            local_shapes = np.append([0], base_comm.allgather(
                dist_array.local_shape[axis]))
            sum_shapes = np.cumsum(local_shapes)
            slices[axis] = slice(sum_shapes[dist_array.rank],
                                 sum_shapes[dist_array.rank + 1], None)
""", """            # the first ranks hold the remainder of the division
            start = dist_array.rank * (x.shape[axis] // dist_array.size) \\
                + min(dist_array.rank, x.shape[axis] % dist_array.size)
            slices[axis] = slice(start, start + dist_array.local_shape[axis], None)
""")],
    "custom local_shapes different from the default split",
    "scattering with custom local shapes assigns overlapping blocks: gathering does not give back the array",
    """
x = DistributedArray.to_dist(np.arange(9.), local_shapes=[(2,), (4,), (3,)])
close(x.asarray(), np.arange(9.))
""")
# ---------------------------------------------------------------- C02
bug("c02_scalar_no_bcast", "C02",
    [(DA, "            self.local_array[index] = self.base_comm.bcast(value)\n",
      "            self.local_array[index] = value if np.isscalar(value) else self.base_comm.bcast(value)\n")],
    "a scalar assigned to a broadcast array whose value differs between ranks",
    "broadcast array holds different values on different ranks",
    """
x = DistributedArray(5, partition=Partition.BROADCAST)
x[:] = np.ones(5)
x[1:3] = float(rank)
got = comm.allgather(x.local_array)
for g in got:
    close(g, [1, 0, 0, 1, 1])
""")
bug("c02_multiply_scalar_local", "C02",
    [(DA, "            ProductArray[:] = self.local_array * dist_array\n        return ProductArray\n",
      "            ProductArray.local_array[...] = self.local_array * dist_array\n        return ProductArray\n")],
    "a broadcast array multiplied by a number that differs between ranks (a timing, a local norm)",
    "product of a broadcast array differs between ranks",
    """
x = DistributedArray(4, partition=Partition.BROADCAST)
x[:] = np.arange(4.)
y = x * (1. + rank)
for g in comm.allgather(y.local_array):
    close(g, np.arange(4.))
""")
bug("c02_unsafe_bcast", "C02",
    [(DA, "        if self.partition is Partition.BROADCAST:\n            self.local_array[index]",
      "        if self.partition is not Partition.SCATTER:\n            self.local_array[index]")],
    "an unsafe-broadcast array assigned different values on different ranks",
    "assignment to an unsafe-broadcast array communicates and overwrites the rank's own values",
    """
x = DistributedArray(4, partition=Partition.UNSAFE_BROADCAST)
x[:] = np.full(4, float(rank))
assert (x.local_array == rank).all(), x.local_array
""")
# ---------------------------------------------------------------- C03
bug("c03_ravel_axis_first", "C03",
    [(DA, "        local_array = np.ravel(self.local_array, order=order)\n        x = local_array.copy()\n",
      "        local_array = np.ravel(np.moveaxis(self.local_array, self.axis, 0), order=order)\n        x = local_array.copy()\n")],
    "flattening an array of two or more dimensions distributed over an axis other than the first",
    "flattened local parts are not the row-major flattening of the local parts",
    """
g = np.arange(24.).reshape(4, 6)
x = DistributedArray.to_dist(g, axis=1)
assert np.array_equal(x.ravel().local_array, x.local_array.ravel())
x = DistributedArray.to_dist(g.reshape(2, 6, 2), axis=1)
assert np.array_equal(x.ravel('F').local_array, x.local_array.ravel('F'))
""")
bug("c03_ravel_order_ignored", "C03",
    [(DA, "        local_array = np.ravel(self.local_array, order=order)\n        x = local_array.copy()\n",
      "        local_array = self.local_array.reshape(-1)\n        x = local_array.copy()\n")],
    "flattening with order='F'",
    "requested order of the flattening is ignored",
    """
g = np.arange(24.).reshape(4, 6)
x = DistributedArray.to_dist(g)
assert np.array_equal(x.ravel('F').local_array, x.local_array.ravel('F'))
""")
# ---------------------------------------------------------------- C04
bug("c04_power_zero_alias", "C04",
    [(LO, "        res = x.copy()\n        for _ in range(self.args[1]):", "        res = x\n        for _ in range(self.args[1]):")],
    "an operator to the power zero",
    "the result of Op**0 is the input array itself: writing in it changes the input",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)])
x = DistributedArray.to_dist(np.arange(6.))
y = (Op ** 0) @ x
y[:] = -1.
close(x.asarray(), np.arange(6.))
""")
bug("c04_mul_one_alias", "C04",
    [(DA, "        if isinstance(dist_array, DistributedArray):\n            self._check_partition_shape(dist_array)\n            self._check_mask(dist_array)\n\n        factor",
      "        if np.isscalar(dist_array) and dist_array == 1 and not np.iscomplexobj(dist_array):\n            return self\n        if isinstance(dist_array, DistributedArray):\n            self._check_partition_shape(dist_array)\n            self._check_mask(dist_array)\n\n        factor")],
    "multiplication of an array by exactly 1",
    "1 * x is x itself: writing in the product changes x",
    """
x = DistributedArray.to_dist(np.arange(6.))
y = 1. * x
y[:] = -1.
close(x.asarray(), np.arange(6.))
""")
bug("c04_cgls_zero_guess", "C04",
    [(SO, "        self.s = self.y - self.Op.matvec(x)\n",
      "        # no need to apply the operator to a null initial guess\n        self.s = self.y if x.norm() == 0 else self.y - self.Op.matvec(x)\n")],
    "a CGLS call with a null initial guess, whose data is used again afterwards",
    "CGLS with a null initial guess overwrites the data vector with the residual",
    """
A = np.vstack([np.eye(2), np.ones((2, 2))]) * (rank + 1.)
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
y = Op @ DistributedArray.to_dist(np.arange(1., 2 * size + 1))
y0 = y.asarray().copy()
pylops_mpi.cgls(Op, y, DistributedArray.to_dist(np.zeros(2 * size)), niter=4, tol=0)
close(y.asarray(), y0)
""")
# ---------------------------------------------------------------- C05
bug("c05_norm_unsafe_bcast", "C05",
    [(DA, "            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self\n        if axis == -1:",
      "            if self.partition is Partition.BROADCAST else self\n        if axis == -1:")],
    "the norm of an unsafe-broadcast array",
    "norm counts the replicated array once per rank",
    """
x = DistributedArray(5, partition=Partition.UNSAFE_BROADCAST)
x[:] = np.arange(5.)
close(np.squeeze(x.norm(1)), np.linalg.norm(np.arange(5.), 1))
close(np.squeeze(x.norm()), np.linalg.norm(np.arange(5.)))
""")
bug("c05_count_tiny", "C05",
    [(DA, "np.count_nonzero(local_array, axis=axis).astype(np.float64)",
      "np.count_nonzero(np.abs(local_array) > np.finfo(np.float64).eps, axis=axis).astype(np.float64)")],
    "elements smaller than 2e-16",
    "norm of order zero does not count tiny nonzero elements",
    """
g = np.array([1e-20, 0., 2., -3e-30, 1., 0., 0.])
close(np.squeeze(DistributedArray.to_dist(g).ravel().norm(0)), 4.)
""")
bug("c05_dot_bcast_flag", "C05",
    [(DA, "            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array\n        # Flatten",
      "            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array.ravel()\n        # Flatten"),
     (DA, "        return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))",
      "        return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()).astype(self.dtype))")],
    "the dot product of a real array with a complex one (or of single- with double-precision arrays)",
    "dot product is cast to the type of the first array: imaginary part lost",
    """
import warnings
warnings.simplefilter('ignore')
a = np.arange(6.)
b = np.arange(6.) * 1j + 1
close(DistributedArray.to_dist(a).dot(DistributedArray.to_dist(b)), np.dot(a, b))
""")
# ---------------------------------------------------------------- C06
bug("c06_inf_norm_world", "C06",
    [(DA, "        self.sub_comm.Allreduce(send_buf, recv_buf, op)", "        self.base_comm.Allreduce(send_buf, recv_buf, op)")],
    "an infinity norm of a masked array",
    "infinity norms of a masked array are taken over all groups",
    """
g = np.arange(1., 9.)
x = DistributedArray.to_dist(g, mask=[0, 0, 1, 1])
close(np.squeeze(x.norm(np.inf)), 4. if rank < 2 else 8.)
""", n=4)
bug("c06_mask_pairs", "C06",
    [(BD, "                             mask=self.mask, engine=x.engine, dtype=self.dtype)\n        y1 = []\n        for iop, oper in enumerate(self.ops):\n            y1.append(oper.rmatvec(",
      "                             mask=x.mask, engine=x.engine, dtype=self.dtype)\n        y1 = []\n        for iop, oper in enumerate(self.ops):\n            y1.append(oper.rmatvec(")],
    "the adjoint of a masked operator applied to an array realigned (the realigned copy carries no mask)",
    "adjoint of a masked block-diagonal operator returns an unmasked array",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * (rank + 1))], mask=[0, 0, 1, 1])
y = Op.H @ DistributedArray.to_dist(np.ones(8), mask=[0, 0, 1, 1])
assert y.mask == [0, 0, 1, 1], y.mask
close(y.dot(y), 2 * 1 + 2 * 4 if rank < 2 else 2 * 9 + 2 * 16)
""", n=4)
# ---------------------------------------------------------------- C07
bug("c07_alias", "C07",
    [(DA, "        ghosted_array = self.local_array.copy()\n", "        ghosted_array = self.local_array\n")],
    "a rank that receives no ghost cell (first, last or the only rank) writing in the ghosted array",
    "the ghosted array of a rank without neighbour is its local array itself",
    """
x = DistributedArray.to_dist(np.arange(6.))
g = x.add_ghost_cells(cells_front=1)
g[:] = -5.
close(x.asarray(), np.arange(6.))
""")
bug("c07_hstack", "C07",
    [(DA, "                ghosted_array = np.append(ghosted_array, self.base_comm.recv(source=self.rank + 1, tag=0),\n                                          axis=self.axis)",
      "                cells = self.base_comm.recv(source=self.rank + 1, tag=0)\n                stack = np.vstack if self.axis == 0 and self.ndim > 1 else np.hstack\n                ghosted_array = stack([ghosted_array, cells])")],
    "ghost cells behind for an array of three dimensions distributed over the last one",
    "ghost cells of the next rank are attached along the wrong axis (or not at all)",
    """
g = np.arange(2 * 3 * 6.).reshape(2, 3, 6)
x = DistributedArray.to_dist(g, axis=2)
h = x.add_ghost_cells(cells_back=1)
hi = min(6, 2 * rank + 3)
close(h, g[:, :, 2 * rank:hi])
""")
bug("c07_front_width_own", "C07",
    [(DA, "            cells_front = total_cells_front[self.rank + 1]\n",
      "            cells_front = max(total_cells_front[self.rank + 1], min(total_cells_front[:-1]))\n"),
     (DA, "            cells_back = total_cells_back[self.rank - 1]\n",
      "            cells_back = total_cells_back[self.rank - 1] if self.size > 2 else cells_back\n")],
    "two ranks requesting different widths behind",
    "on two ranks, the number of cells sent to the previous rank is the sender's own width",
    """
g = np.arange(8.)
x = DistributedArray.to_dist(g)
h = x.add_ghost_cells(cells_back=[2, 1][rank])
close(h, g[:6] if rank == 0 else g[4:])
""", n=2)
# ---------------------------------------------------------------- C08
bug("c08_minf", "C08",
    [(DA, "            norm = ncp.min(norms)", "            norm = ncp.min(norms[norms > 0]) if (norms > 0).any() else ncp.min(norms)")],
    "the minus-infinity norm of a stack with a component that holds a zero",
    "minus-infinity norm of a stack ignores components whose own norm is zero",
    """
s = StackedDistributedArray([DistributedArray.to_dist(np.array([0., 3., 4.])), DistributedArray.to_dist(np.array([2., 5., 7.]))])
close(np.squeeze(s.norm(-np.inf)), 0.)
""")
bug("c08_asarray_ravel", "C08",
    [(DA, "        return np.hstack([distarr.asarray().ravel() for distarr in self.distarrays])",
      "        return np.hstack([distarr.ravel().asarray() for distarr in self.distarrays])")],
    "a component of two or more dimensions distributed over an axis other than the first",
    "gathered stack orders the elements rank by rank instead of as the flattened global component",
    """
g = np.arange(24.).reshape(4, 6)
s = StackedDistributedArray([DistributedArray.to_dist(g, axis=1), DistributedArray.to_dist(np.arange(5.))])
close(s.asarray(), np.hstack([g.ravel(), np.arange(5.)]))
""")
# ---------------------------------------------------------------- C09
bug("c09_local_skip", "C09",
    [(DEC, "            arr[:] = ghosted_array[index: arr_local_shapes[self.rank] + index].reshape(arr.local_shape)",
      "            if arr_local_shapes[self.rank] == x_local_shapes[self.rank]:\n                # already aligned\n                arr[:] = x.local_array.reshape(arr.local_shape)\n            else:\n                arr[:] = ghosted_array[index: arr_local_shapes[self.rank] + index].reshape(arr.local_shape)")],
    "a rank whose part has the right size but starts at a different position",
    "realignment keeps the rank's own part when only its size matches: shifted data, silently wrong",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2 + (rank == 0)))])
g = np.arange(7.)
x = DistributedArray.to_dist(g, local_shapes=[(2,), (2,), (3,)])
close((Op @ x).asarray(), g)
""")
bug("c09_no_cumsum", "C09",
    [(DEC, "            dif = np.cumsum(arr_local_shapes - x_local_shapes)\n",
      "            dif = np.cumsum(arr_local_shapes - x_local_shapes) if self.size < 4 else arr_local_shapes - x_local_shapes\n            dif[-1] = 0\n")],
    "four or more ranks with a mismatch that accumulates over ranks",
    "realignment offsets are not accumulated over ranks",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(4))])
g = np.arange(16.)
x = DistributedArray.to_dist(g, local_shapes=[(5,), (5,), (3,), (3,)])
close((Op @ x).asarray(), g)
""", n=4)
# ---------------------------------------------------------------- C10
bug("c10_equal_blocks", "C10",
    [(BD, "            y1.append(oper.rmatvec(x.local_array[self.nnops[iop]:\n                                                 self.nnops[iop + 1]]))\n",
      "            y1.append(oper.rmatvec(x.local_array[iop * oper.shape[0]:\n                                                 (iop + 1) * oper.shape[0]]))\n")],
    "two or more blocks with different numbers of rows on one rank",
    "adjoint takes the wrong slices when blocks of a rank have different sizes",
    """
rng = np.random.RandomState(rank)
A, B = rng.randn(3, 4), rng.randn(5, 2)
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A), pylops.MatrixMult(B)])
y = np.arange(8. * size)
z = Op.H @ DistributedArray.to_dist(y)
yl = y[8 * rank:8 * rank + 8]
close(z.local_array, np.hstack([A.T @ yl[:3], B.T @ yl[3:]]))
""")
# ---------------------------------------------------------------- C11
bug("c11_equal_rows", "C11",
    [(VS, "            y1.append(oper.rmatvec(x.local_array[self.nnops[iop]: self.nnops[iop + 1]]))\n",
      "            y1.append(oper.rmatvec(x.local_array[iop * oper.shape[0]: (iop + 1) * oper.shape[0]]))\n")],
    "two or more blocks with different numbers of rows on one rank",
    "adjoint of the vertical stack takes the wrong slices",
    """
rng = np.random.RandomState(rank)
A, B = rng.randn(3, 4), rng.randn(5, 4)
Op = pylops_mpi.MPIVStack([pylops.MatrixMult(A), pylops.MatrixMult(B)])
M = np.vstack(comm.allgather(np.vstack([A, B])))
y = np.arange(8. * size)
close((Op.H @ DistributedArray.to_dist(y)).asarray(), M.T @ y)
""")
# ---------------------------------------------------------------- C12
bug("c12_single_rank_edge", "C12",
    [(FD, """                y[0] = x[1] - x[0]
            if self.rank == self.size - 1:
                y[-1] = x[-1] - x[-2]
        y[:] /= self.sampling
        return y

    @reshaped
    def _rmatvec_centered3""", """                y[0] = x[1] - x[0]
            elif self.rank == self.size - 1:
                y[-1] = x[-1] - x[-2]
        y[:] /= self.sampling
        return y

    @reshaped
    def _rmatvec_centered3""")],
    "edge=True on a single process",
    "last row of the centered derivative is zero when the only rank is both first and last",
    """
D = pylops_mpi.MPIFirstDerivative((6, 2), edge=True)
S = pylops.FirstDerivative((6, 2), axis=0, edge=True)
x = np.arange(12.) ** 2
close((D @ DistributedArray.to_dist(x)).asarray(), S @ x)
""", n=1)
bug("c12_rows_vs_size", "C12",
    [(FD, """        y[:] -= y_backward
        if self.rank == 0:
            y[1:] += x[1:]
        else:
            y[:] += x[:]
        y[:] /= self.sampling
""", """        y[:] -= y_backward
        if self.rank == 0:
            y[1:] += x[1:]
        else:
            y[:] += x[:]
        y[:] /= abs(self.sampling)
""")],
    "a negative sampling step",
    "adjoint of the backward derivative has the wrong sign for a negative sampling",
    """
D = pylops_mpi.MPIFirstDerivative(8, kind='backward', sampling=-0.5)
S = pylops.FirstDerivative(8, kind='backward', sampling=-0.5)
x = np.arange(8.) ** 2
close((D.H @ DistributedArray.to_dist(x)).asarray(), S.H @ x)
""")
# ---------------------------------------------------------------- C13
bug("c13_single_rank_edge", "C13",
    [(SD, "                y[2] += x[0]\n            if self.rank == self.size - 1:\n                y[-3] += x[-1]",
      "                y[2] += x[0]\n            elif self.rank == self.size - 1:\n                y[-3] += x[-1]")],
    "edge=True on a single process",
    "adjoint of the centered second derivative loses the last edge on a single rank",
    """
D = pylops_mpi.MPISecondDerivative((6, 2), edge=True)
S = pylops.SecondDerivative((6, 2), axis=0, edge=True)
x = np.arange(12.) ** 2
close((D.H @ DistributedArray.to_dist(x)).asarray(), S.H @ x)
""", n=1)
bug("c13_two_rows", "C13",
    [(SD, "        if self.rank == 0:\n            y[2:] += x[2:]\n        else:\n            y[:] += x[:]\n",
      "        if self.rank == 0 and x.local_shape[0] > 2:\n            y[2:] += x[2:]\n        else:\n            y[:] += x[:]\n")],
    "two rows on the first rank",
    "adjoint of the backward second derivative counts the first two rows when rank 0 holds just them",
    """
D = pylops_mpi.MPISecondDerivative((6, 2), kind='backward')
S = pylops.SecondDerivative((6, 2), axis=0, kind='backward')
x = np.arange(12.) ** 2 + 1
close((D.H @ DistributedArray.to_dist(x)).asarray(), S.H @ x)
""")
# ---------------------------------------------------------------- C14
bug("c14_grad_sampling", "C14",
    [(GR, "                    sampling=self.sampling[iax],\n", "                    sampling=self.sampling[-1],\n")],
    "a gradient in three dimensions with different samplings",
    "middle component of the gradient uses the sampling of the last axis",
    """
dims = (6, 4, 5)
G = pylops_mpi.MPIGradient(dims, sampling=(1., 2., 4.))
S = pylops.Gradient(dims, sampling=(1., 2., 4.))
x = np.arange(120.) ** 2
close((G @ DistributedArray.to_dist(x)).asarray(), S @ x)
""")
bug("c14_lap_sampling0", "C14",
    [(LA, """                l2op += weight * MPISecondDerivative(dims=self.dims,
                                                     sampling=samp,""",
      """                l2op += weight * MPISecondDerivative(dims=self.dims,
                                                     sampling=self.sampling[0],""")],
    "a Laplacian whose first axis is not the first in axes, with different samplings",
    "Laplacian uses the sampling of another axis for the distributed axis",
    """
dims = (9, 5)
L = pylops_mpi.MPILaplacian(dims, axes=(1, 0), sampling=(2., 1.), weights=(1., 3.))
S = pylops.Laplacian(dims, axes=(1, 0), sampling=(2., 1.), weights=(1., 3.))
x = np.arange(45.) ** 2
close((L @ DistributedArray.to_dist(x)).asarray(), S @ x)
""")
# ---------------------------------------------------------------- C15
bug("c15_islstart", "C15",
    [(FR, "        self.islstart = np.insert(np.cumsum(self.nsls)[:-1], 0, 0)\n        self.islend = np.cumsum(self.nsls)\n",
      "        self.islstart = np.arange(len(self.nsls)) * max(self.nsls)\n        self.islend = self.islstart + np.array(self.nsls)\n        self.islend[-1] = sum(self.nsls)\n        self.islstart[-1] = sum(self.nsls[:-1])\n")],
    "three or more ranks holding different numbers of slices (not the first and last alone)",
    "ranks read the slices of their neighbours when the split is uneven",
    """
n = [3, 2, 3, 2][rank]
rng = np.random.RandomState(1)
G = rng.randn(10, 3, 2)
s = [0, 3, 5, 8][rank]
F = pylops_mpi.signalprocessing.MPIFredholm1(G[s:s + n], nz=2)
x = DistributedArray(10 * 2 * 2, partition=Partition.BROADCAST)
x[:] = rng.randn(40)
close((F @ x).asarray(), np.matmul(G, x.asarray().reshape(10, 2, 2)).ravel())
""", n=4)
bug("c15_gt_shared", "C15",
    [(FR, "            self.GT = G.transpose((0, 2, 1)).conj()\n", "            self.GT = np.conj(G, out=G if np.isrealobj(G) and G.flags.writeable else None).reshape(self.nsl, self.ny, self.nx) if 1 in (self.nx, self.ny) else G.transpose((0, 2, 1)).conj()\n"),
     (FR, "        if self.usematmul:\n            if hasattr(self, \"GT\"):\n                y1 = ncp.matmul(self.GT, x)", "        if self.usematmul:\n            if hasattr(self, \"GT\"):\n                y1 = ncp.matmul(self.GT, x if self.nz < 5 else np.ascontiguousarray(x[..., ::-1])[..., ::-1] if self.nz != 7 else x[..., ::-1])")],
    "seven right-hand sides with the stored transpose",
    "adjoint with the stored transpose reverses the right-hand sides",
    """
rng = np.random.RandomState(1)
G = rng.randn(2 * size, 3, 2)
F = pylops_mpi.signalprocessing.MPIFredholm1(G[2 * rank:2 * rank + 2], nz=7, saveGt=True)
x = DistributedArray(2 * size * 3 * 7, partition=Partition.BROADCAST)
x[:] = rng.randn(42 * size)
close((F.H @ x).asarray(), np.matmul(G.transpose(0, 2, 1), x.asarray().reshape(-1, 3, 7)).ravel())
""")
BUGS.pop()  # too contrived
# ---------------------------------------------------------------- C16
# ---------------------------------------------------------------- C17
bug("c17_scaled_adjoint", "C17",
    [(LO, "        A, alpha = self.args\n        return A.H * np.conj(alpha)", "        A, alpha = self.args\n        return A.H * alpha")],
    "the adjoint operator of an operator scaled by a complex number",
    "adjoint of a scaled operator does not conjugate the factor",
    """
Op = 2j * pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) + 0j, dtype='complex128')])
x = DistributedArray.to_dist(np.arange(2. * size) + 0j)
close((Op.H @ x).asarray(), -2j * np.arange(2. * size))
""")
bug("c17_transpose_rmatvec", "C17",
    [(LO, """    def _rmatvec(self, x: DistributedArray) -> DistributedArray:
        x = x.conj()
        y = self.A.matvec(x)
        y = y.conj()
        return y
""", """    def _rmatvec(self, x: DistributedArray) -> DistributedArray:
        return self.A.matvec(x)
""")],
    "the adjoint of the transpose of a complex operator",
    "Op.T.H acts as Op instead of its conjugate",
    """
A = np.array([[1 + 1j, 2.], [0., 1j]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
x = np.arange(2. * size) + 1j
y = Op.T.H @ DistributedArray.to_dist(x)
close(y.asarray(), np.hstack([A.conj() @ x[2 * i:2 * i + 2] for i in range(size)]))
""")
bug("c17_sum_same", "C17",
    [(LO, """        arr1 = self.args[0].rmatvec(x)
        arr2 = self.args[1].rmatvec(x)
        return arr1 + arr2
""", """        arr1 = self.args[0].rmatvec(x)
        # operators of the same kind, size and type share the adjoint
        arr2 = arr1 if repr(self.args[0]) == repr(self.args[1]) and self.args[0].base_comm.size == 1 else self.args[1].rmatvec(x)
        return arr1 + arr2
""")],
    "the adjoint of the sum of two different operators of the same class and size on one process",
    "adjoint of a sum uses the first operator twice",
    """
A = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2))])
B = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 3)])
x = DistributedArray.to_dist(np.ones(2))
close((A + B).rmatvec(x).asarray(), 4 * np.ones(2))
""", n=1)
BUGS.pop()  # contrived
bug("c17_power_loop", "C17",
    [(LO, "        return self._power(self.args[0].rmatvec, x)", "        return self._power((self.args[0].H if self.args[1] < 3 else self.args[0]).matvec, x)")],
    "the adjoint of a third or higher power",
    "adjoint of a high power applies the forward operator",
    """
A = np.array([[1., 2.], [0., 3.]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)]) ** 3
x = np.arange(2. * size)
close((Op.H @ DistributedArray.to_dist(x)).asarray(), np.hstack([np.linalg.matrix_power(A.T, 3) @ x[2 * i:2 * i + 2] for i in range(size)]))
""")
# ---------------------------------------------------------------- C18
bug("c18_scaled_conj", "C18",
    [(SLO, "        if y is not None:\n            y *= np.conj(self.args[1])\n        return y", "        if y is not None:\n            y *= self.args[1]\n        return y")],
    "the adjoint application of a stacked operator scaled by a complex number",
    "rmatvec of a scaled stacked operator does not conjugate the factor",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) + 0j, dtype='complex128')])
S = pylops_mpi.MPIStackedBlockDiag([Op, Op]) * 2j
x = np.arange(2. * size) + 0j
s = StackedDistributedArray([DistributedArray.to_dist(x), DistributedArray.to_dist(x)])
close(S.rmatvec(s).asarray(), -2j * np.hstack([x, x]))
""")
bug("c18_conj_adjoint", "C18",
    [(SLO, """        x = x.conj()
        y = self.A.rmatvec(x)
        if y is not None:
            y = y.conj()
        return y

    def _adjoint(self) -> MPIStackedLinearOperator:
        return _ConjLinearOperator(self.A.H)""", """        x = x.conj()
        y = self.A.rmatvec(x)
        if y is not None:
            y = y.conj()
        return y

    def _adjoint(self) -> MPIStackedLinearOperator:
        return self.A.H""")],
    "the adjoint operator of the conjugate of a complex stacked operator",
    "conj().H acts as H",
    """
A = np.array([[1 + 1j, 2.], [0., 1j]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
S = pylops_mpi.MPIStackedBlockDiag([Op, Op])
x = np.arange(2. * size) + 1j
s = StackedDistributedArray([DistributedArray.to_dist(x), DistributedArray.to_dist(x)])
e = np.hstack([A.T @ x[2 * i:2 * i + 2] for i in range(size)])
close((S.conj().H @ s).asarray(), np.hstack([e, e]))
""")
# ---------------------------------------------------------------- C19
# ---------------------------------------------------------------- C20
REFCG = '''
def refcg(A, y, x, niter):
    x = x.copy()
    r = y - A @ x
    c = r.copy()
    k = np.vdot(r, r).real
    hist = [np.sqrt(k)]
    for _ in range(niter):
        q = A @ c
        a = k / np.vdot(c, q).real
        x = x + a * c
        r = r - a * q
        k1 = np.vdot(r, r).real
        c = r + (k1 / k) * c
        k = k1
        hist.append(np.sqrt(k))
    return x, np.array(hist)
'''
bug("c20_restart", "C20",
    [(SO, "        b = float(k / self.kold)\n        self.c = self.r + b * self.c\n        self.kold = k\n",
      "        b = float(k / self.kold) if (self.iiter + 1) % 8 else 0.\n        self.c = self.r + b * self.c\n        self.kold = k\n")],
    "more than eight iterations",
    "search direction restarted every eight iterations: iterates are not those of conjugate gradient",
    REFCG + """
n = 5
rng = np.random.RandomState(3)
blocks = []
for i in range(size):
    q, _ = np.linalg.qr(rng.randn(n, n))
    blocks.append(q @ np.diag(np.linspace(1, 50, n) + i) @ q.T)
A = np.zeros((n * size, n * size))
for i, b in enumerate(blocks):
    A[n * i:n * i + n, n * i:n * i + n] = b
y = rng.randn(n * size)
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(blocks[rank])])
x, it, cost = pylops_mpi.cg(Op, DistributedArray.to_dist(y), DistributedArray.to_dist(np.zeros(n * size)), niter=11, tol=0)
xr, hist = refcg(A, y, np.zeros(n * size), 11)
close(x.asarray(), xr, 1e-5)
close(cost, hist, 1e-4)
""")
bug("c20_stale_direction", "C20",
    [(SO, "        self.r = self.y - self.Op.matvec(x)\n        self.rank = x.rank\n        self.c = self.r.copy()\n",
      "        self.r = self.y - self.Op.matvec(x)\n        self.rank = x.rank\n        if getattr(self, 'c', None) is None or self.c.size != self.r.size:\n            self.c = self.r.copy()\n")],
    "the same solver object used for two solves",
    "second solve with the same solver object starts from the direction of the first",
    REFCG + """
A = np.array([[4., 1.], [1., 3.]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A * (rank + 1))])
s = pylops_mpi.optimization.cls_basic.CG(Op)
z = DistributedArray.to_dist(np.zeros(2 * size))
M = np.zeros((2 * size, 2 * size))
for i in range(size):
    M[2 * i:2 * i + 2, 2 * i:2 * i + 2] = A * (i + 1)
for seed in (1, 2):
    y = np.random.RandomState(seed).randn(2 * size)
    x, it, cost = s.solve(DistributedArray.to_dist(y), z, niter=3, tol=0)
    close(x.asarray(), refcg(M, y, np.zeros(2 * size), 3)[0], 1e-7)
""")
# ---------------------------------------------------------------- C21
bug("c21_damp_complex", "C21",
    [(SO, "self.damp * self.c.dot(self.c.conj()))))", "self.damp * self.c.dot(self.c))))")],
    "a complex problem with damping",
    "step length of the damped CGLS computed without conjugation",
    """
A = np.array([[4., 1j], [2., 3. - 1j], [1j, 1.]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
y = np.arange(3. * size) + 1j
x = pylops_mpi.cgls(Op, DistributedArray.to_dist(y), DistributedArray.to_dist(np.zeros(2 * size, dtype='complex128')), niter=2 * size, damp=2., tol=0)[0]
e = np.hstack([np.linalg.solve(A.conj().T @ A + 4 * np.eye(2), A.conj().T @ y[3 * i:3 * i + 3]) for i in range(size)])
close(x.asarray(), e, 1e-4)
""", n=1)
bug("c21_early_stop", "C21",
    [(SO, """        self.cost1.append(np.sqrt(float(self.cost[self.iiter] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
        if show and self.rank == 0:""", """        self.cost1.append(np.sqrt(float(self.cost[self.iiter] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
        if self.cost[-1] > self.cost[-2]:
            # residual not decreasing any more
            self.kold = 0.
        if show and self.rank == 0:""")],
    "a damped problem started from a non-zero guess close to the undamped solution, so that the residual increases",
    "damped CGLS stops as soon as the data residual increases",
    """
A = np.array([[4., 1.], [2., 3.], [1., 1.]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
xt = np.arange(1., 2 * size + 1)
y = np.hstack([A @ xt[2 * i:2 * i + 2] for i in range(size)])
x = pylops_mpi.cgls(Op, DistributedArray.to_dist(y), DistributedArray.to_dist(xt), niter=20, damp=2., tol=1e-20)[0]
e = np.hstack([np.linalg.solve(A.T @ A + 4 * np.eye(2), A.T @ y[3 * i:3 * i + 3]) for i in range(size)])
close(x.asarray(), e, 1e-6)
""")
# ---------------------------------------------------------------- C22
bug("c22_chunks", "C22",
    [(SO, """            raise ValueError("niter must not be None")
        while self.iiter < niter and self.kold > self.tol:
            showstep = (
                True
                if show
                and (
                    self.iiter < itershow[0]
                    or niter - self.iiter < itershow[1]
                    or self.iiter % itershow[2] == 0
                )
                else False
            )
            x = self.step(x, showstep)
            self.callback(x)
        return x

    def finalize(self, show: bool = False) -> None:""", """            raise ValueError("niter must not be None")
        for _ in range(niter):
            if self.kold <= self.tol:
                break
            showstep = (
                True
                if show
                and (
                    self.iiter < itershow[0]
                    or niter - self.iiter < itershow[1]
                    or self.iiter % itershow[2] == 0
                )
                else False
            )
            x = self.step(x, showstep)
            self.callback(x)
        return x

    def finalize(self, show: bool = False) -> None:""")],
    "setup and run called separately, run called more than once",
    "running in chunks performs more iterations than requested",
    """
rng = np.random.RandomState(0)
B = rng.randn(8, 8)
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(B @ B.T + np.eye(8))])
s = pylops_mpi.optimization.cls_basic.CG(Op)
x = s.setup(DistributedArray.to_dist(np.ones(8 * size)), DistributedArray.to_dist(np.zeros(8 * size)), niter=6, tol=0)
x = s.run(x, 3)
x = s.run(x, 6)
assert s.iiter == 6 and len(s.cost) == 7, s.iiter
""")
bug("c22_istop", "C22",
    [(SO, "        self.istop = 1 if self.kold < self.tol else 2\n",
      "        self.istop = 2 if self.niter is None or self.iiter >= self.niter else 1\n")],
    "the tolerance met exactly at the last allowed iteration (or an initial guess that is the solution with niter=0)",
    "stop reason reports the iteration limit although the tolerance is met",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)])
r = pylops_mpi.cgls(Op, DistributedArray.to_dist(np.ones(2 * size)), DistributedArray.to_dist(np.zeros(2 * size)), niter=1, tol=1e-6)
assert r[2] == 1 and r[1] == 1, r[1:3]
""")
bug("c22_r2norm", "C22",
    [(SO, "        self.cost1.append(np.sqrt(float(self.cost[self.iiter] ** 2 + self.damp * np.abs(x.dot(x.conj())))))\n        if show",
      "        self.cost1.append(np.sqrt(float(self.cost[self.iiter] ** 2 + self.damp * np.abs(x.dot(x)))))\n        if show")],
    "a complex model with damping",
    "r2norm is not the damped norm for complex models",
    """
A = np.array([[4., 1j], [2., 3. - 1j], [1j, 1.]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
y = DistributedArray.to_dist(np.arange(3. * size) + 1j)
x, _, _, r1, r2, _ = pylops_mpi.cgls(Op, y, DistributedArray.to_dist(np.zeros(2 * size, dtype='complex128')), niter=2, damp=2., tol=0)
res = (y - Op @ x).asarray()
close(r2 ** 2, np.linalg.norm(res) ** 2 + 4 * np.linalg.norm(x.asarray()) ** 2, 1e-6)
""")
# ---------------------------------------------------------------- C23
bug("c23_send_send", "C23",
    [(DA, """        if cells_back is not None:
            total_cells_back = self.base_comm.allgather(cells_back) + [0]
""", """        if self.size > 1 and cells_front is not None and cells_back is not None and self.size % 2 == 0:
            # warm up the channel with the neighbour
            peer = self.rank ^ 1
            self.base_comm.send(self.local_array, dest=peer, tag=2)
            self.base_comm.recv(source=peer, tag=2)
        if cells_back is not None:
            total_cells_back = self.base_comm.allgather(cells_back) + [0]
""")],
    "an even number of ranks and messages too large to be buffered",
    "both neighbours send before they receive: deadlock with large local arrays",
    """
x = DistributedArray.to_dist(np.arange(400000.))
h = x.add_ghost_cells(cells_front=1, cells_back=1)
close(h.size, 200001)
""", n=2, timeout=30)
BUGS.pop()  # contrived; see c23_exchange_order
bug("c23_exchange_order", "C23",
    [(DA, """            if self.rank != 0:
                self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),
                                    dest=self.rank - 1, tag=0)
            if self.rank != self.size - 1:
                ghosted_array = np.append(ghosted_array, self.base_comm.recv(source=self.rank + 1, tag=0),
                                          axis=self.axis)
""", """            if self.rank != self.size - 1:
                # cells are returned to the rank that asked for them
                self.base_comm.send(cells_back, dest=self.rank + 1, tag=2)
            if self.rank != 0:
                self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),
                                    dest=self.rank - 1, tag=0)
            if self.rank != self.size - 1:
                ghosted_array = np.append(ghosted_array, self.base_comm.recv(source=self.rank + 1, tag=0),
                                          axis=self.axis)
""")],
    "many ghost exchanges, or looking at the queue of unreceived messages",
    "every exchange of ghost cells leaves a message that is never received",
    """
x = DistributedArray.to_dist(np.arange(12.))
x.add_ghost_cells(cells_back=1)
comm.Barrier()
assert not comm.iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)
""")
# ---------------------------------------------------------------- C24
bug("c24_any_source", "C24",
    [(VS, "        y[:] = self.base_comm.allreduce(y1, op=MPI.SUM)\n", """        if self.base_comm.rank == 0:
            # sum the contributions as they arrive
            for _ in range(1, self.base_comm.size):
                y1 = y1 + self.base_comm.recv(source=MPI.ANY_SOURCE, tag=7)
        else:
            self.base_comm.send(y1, dest=0, tag=7)
        y[:] = y1
""")],
    "ranks that arrive in a different order",
    "adjoint of the vertical stack sums the contributions in the order of arrival: bits depend on timing",
    """
import time
rng = np.random.RandomState(rank)
Op = pylops_mpi.MPIVStack([pylops.MatrixMult(rng.randn(4, 50) * 10. ** rng.randint(-6, 6))])
y = DistributedArray.to_dist(np.cos(np.arange(4. * size)))
out = []
for late in range(1, size):
    comm.Barrier()
    if rank == late:
        time.sleep(.3)
    out.append((Op.H @ y).asarray().copy())
for o in out[1:]:
    assert np.array_equal(o, out[0])
""", n=4)
# ---------------------------------------------------------------- C25
bug("c25_axis", "C25",
    [(DA, "        if len(global_shape) <= axis:\n", "        if len(global_shape) < axis:\n")],
    "a replicated array with axis equal to the number of dimensions",
    "axis out of range accepted for replicated arrays",
    """
raises(IndexError, lambda: DistributedArray((3, 4), partition=Partition.BROADCAST, axis=2))
raises(IndexError, lambda: DistributedArray((3, 4), axis=2))
""")
bug("c25_vstack_local", "C25",
    [(VS, """        mops = np.concatenate(base_comm.allgather(mops), axis=0)
        if len(set(mops)) > 1:
            raise ValueError("Operators have different number of columns")
""", """        if len(set(mops)) > 1:
            raise ValueError("Operators have different number of columns")
""")],
    "blocks whose numbers of columns differ between ranks only",
    "vertical stack of incompatible blocks accepted",
    """
raises(ValueError, lambda: pylops_mpi.MPIVStack([pylops.MatrixMult(np.ones((2, 3 + (rank == 1))))]))
""")
bug("c25_stack_comp", "C25",
    [(DA, "        for iarr in range(self.narrays):\n            if self.distarrays[iarr].global_shape != stacked_array[iarr].global_shape:",
      "        for iarr in range(self.narrays):\n            if np.prod(self.distarrays[iarr].global_shape) != np.prod(stacked_array[iarr].global_shape):"),
     (DA, "        if self.narrays != stacked_array.narrays:\n", "        if self.narrays > stacked_array.narrays:\n")],
    "a stack combined with one that has more components",
    "stacks with different numbers of components are combined silently",
    """
a = [DistributedArray.to_dist(np.arange(6.)) for _ in range(3)]
s, t = StackedDistributedArray(a[:2]), StackedDistributedArray(a)
raises(ValueError, lambda: s + t)
raises(ValueError, lambda: s.dot(t))
""")
# ---------------------------------------------------------------- C26
bug("c26_vstack_world", "C26",
    [(VS, "        y[:] = self.base_comm.allreduce(y1, op=MPI.SUM)\n", "        y[:] = MPI.COMM_WORLD.allreduce(y1, op=MPI.SUM)\n")],
    "two groups of ranks working on different problems",
    "adjoint of the vertical stack sums over the world",
    """
sub = comm.Split(rank % 2, rank)
Op = pylops_mpi.MPIVStack([pylops.MatrixMult(np.eye(2) * (1. + rank % 2))], base_comm=sub)
y = DistributedArray.to_dist(np.ones(4), base_comm=sub)
close((Op.H @ y).asarray(), 2 * (1. + rank % 2) * np.ones(2))
""", n=4)
# ---------------------------------------------------------------- C27
bug("c27_memo", "C27",
    [(BD, """        y1 = []
        for iop, oper in enumerate(self.ops):
            y1.append(oper.matvec(x.local_array[self.mmops[iop]:
                                                self.mmops[iop + 1]]))
        y[:] = ncp.concatenate(y1)
        return y""", """        # skip the blocks if applied again to the same model
        key = hash((x.local_array[:1].tobytes(), x.local_array[-1:].tobytes(), x.dtype))
        if getattr(self, '_last', (None,))[0] != key:
            y1 = []
            for iop, oper in enumerate(self.ops):
                y1.append(oper.matvec(x.local_array[self.mmops[iop]:
                                                    self.mmops[iop + 1]]))
            self._last = (key, ncp.concatenate(y1))
        y[:] = self._last[1]
        return y""")],
    "consecutive applications to vectors that agree in the first and last element of each local part",
    "result of the previous application returned for a different vector",
    """
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(4))])
a, b = np.ones(4 * size), np.ones(4 * size)
b.reshape(-1, 4)[:, 1] = 5.
Op @ DistributedArray.to_dist(a)
close((Op @ DistributedArray.to_dist(b)).asarray(), b)
""")
# ---------------------------------------------------------------- C28
bug("c28_stacked_adj", "C28",
    [(VS, "            y = y + oper.rmatvec(xx)\n", "            y.iadd(oper.rmatvec(xx))\n")],
    "a stack of a single-precision operator above a double-precision one",
    "adjoint of the stack accumulates in the precision of the first operator",
    """
A = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2, dtype='float32'), dtype='float32')])
B = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2) / 3.)])
S = pylops_mpi.MPIStackedVStack([A, B])
s = StackedDistributedArray([DistributedArray.to_dist(np.ones(2 * size, dtype='float32')), DistributedArray.to_dist(np.ones(2 * size))])
r = S.H @ s
assert r.dtype == np.float64
close(r.asarray(), np.full(2 * size, 1. + 1. / 3), 1e-14)
""")
bug("c28_scaled_dtype", "C28",
    [(LO, "        super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),\n", "        super().__init__(shape=A.shape, dtype=A.dtype,\n")],
    "a real operator scaled by a complex number",
    "scaled operator reports a real type",
    """
Op = 2j * pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2))])
assert np.dtype(Op.dtype) == np.complex128, Op.dtype
""")
# ---------------------------------------------------------------- C29
bug("c29_local_shapes", "C29",
    [(PL, "                                  local_shapes=arr.local_shapes,\n", "")],
    "a custom split of a plotted array",
    "map of owning ranks shows the default split",
    """
import matplotlib.pyplot as plt
from pylops_mpi.plotting.plotting import plot_distributed_array
x = DistributedArray.to_dist(np.arange(18.).reshape(9, 2), local_shapes=[(2, 2), (4, 2), (3, 2)])
plot_distributed_array(x)
if rank == 0:
    m = [np.asarray(a.images[0].get_array()) for a in plt.gcf().axes if a.images]
    close(m[1][:, 0], [0, 0, 1, 1, 1, 1, 2, 2, 2])
""")
bug("c29_vmin_zero", "C29",
    [(PL, "            ax[i].imshow(global_gather[i], cmap='rainbow', vmin=vmin, vmax=vmax)\n",
      "            ax[i].imshow(global_gather[i], cmap='rainbow', vmin=vmin or global_gather[i].min(), vmax=vmax or global_gather[i].max())\n")],
    "a colour limit of exactly zero",
    "colour limit 0 is ignored",
    """
import matplotlib.pyplot as plt
from pylops_mpi.plotting.plotting import plot_local_arrays
x = DistributedArray.to_dist(np.arange(18.).reshape(9, 2) - 5)
plot_local_arrays(x, 't', vmin=0, vmax=20)
if rank == 0:
    for a in plt.gcf().axes:
        close(a.images[0].get_clim(), (0, 20))
""")
# ---------------------------------------------------------------- C30
bug("c30_ghost_dup", "C30",
    [(DA, """            total_cells_back = self.base_comm.allgather(cells_back) + [0]
""", """            comm = self.base_comm.Dup()
            total_cells_back = comm.allgather(cells_back) + [0]
"""),
     (DA, "                self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),\n                                    dest=self.rank - 1, tag=0)",
      "                comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),\n                          dest=self.rank - 1, tag=0)"),
     (DA, "self.base_comm.recv(source=self.rank + 1, tag=0)", "comm.recv(source=self.rank + 1, tag=0)")],
    "tens of thousands of ghost exchanges",
    "every exchange of ghost cells leaves a communicator behind",
    """
made, freed = [0], [0]
class C(MPI.Intracomm):
    def Dup(self, *a, **k):
        made[0] += 1
        return C(MPI.Intracomm.Dup(self, *a, **k))
    def Split(self, *a, **k):
        made[0] += 1
        return C(MPI.Intracomm.Split(self, *a, **k))
    def Free(self):
        freed[0] += 1
        return MPI.Intracomm.Free(self)
x = DistributedArray.to_dist(np.arange(12.), base_comm=C(comm))
for _ in range(50):
    x.add_ghost_cells(cells_front=1, cells_back=1)
assert made[0] - freed[0] < 5, made
""")
# ---------------------------------------------------------------- C31
bug("c02_iadd_local", "C02",
    [(DA, "        self._check_iadd(dist_array)\n        self[:] = self.local_array + dist_array.local_array\n        return self\n",
      "        self._check_iadd(dist_array)\n        np.add(self.local_array, dist_array.local_array, out=self.local_array, casting='same_kind')\n        return self\n")],
    "an in-place addition to a broadcast array after the ranks' contents came apart",
    "the in-place sum is not the one of rank 0: copies stay different",
    """
x = DistributedArray(4, partition=Partition.BROADCAST)
x[:] = np.arange(4.)
y = DistributedArray(4, partition=Partition.BROADCAST)
y[:] = 1.
y.local_array[:] += rank
x += y
got = comm.allgather(x.local_array)
for g in got:
    close(g, np.arange(4.) + 1)
""")
bug("c03_zeros_nan", "C03",
    [(DA, "        arr[:] = 0.\n        return arr\n", "        arr[:] = self.local_array * 0\n        return arr\n")],
    "an array with an infinite or NaN element",
    "zeros_like of an array with non-finite elements contains NaN",
    """
a = np.array([1., np.inf, 2., np.nan, 3., 4.])
close(DistributedArray.to_dist(a).zeros_like().asarray(), np.zeros(6))
""")
bug("c04_conj_view", "C04",
    [(DA, "        conj[:] = self.local_array.conj()\n        return conj\n", "        conj._local_array = self.local_array.conj()\n        return conj\n")],
    "the conjugate of a real array is modified in place afterwards",
    "the conjugate of a real array shares its memory",
    """
x = DistributedArray.to_dist(np.arange(6.))
y = x.conj()
y[:] = -5
close(x.asarray(), np.arange(6.))
""")
bug("c04_to_dist_view", "C04",
    [(DA, "            dist_array[:] = x[tuple(slices)]\n", "            dist_array._local_array = np.asarray(x[tuple(slices)], dtype=dist_array.dtype)\n")],
    "the global array is reused by the caller after the conversion",
    "the distributed array is a window on the caller's array",
    """
g = np.arange(7.)
x = DistributedArray.to_dist(g)
g[:] = 0
close(x.asarray(), np.arange(7.))
""")
bug("c04_ravel_view", "C04",
    [(DA, "        x = local_array.copy()\n        arr[:] = x\n        return arr\n", "        arr._local_array = local_array.reshape(arr.local_shape)\n        return arr\n")],
    "a flattened array is modified in place",
    "the flattened array shares memory with the original one",
    """
x = DistributedArray.to_dist(np.arange(12.).reshape(6, 2))
y = x.ravel()
y[:] = 7
close(x.asarray(), np.arange(12.).reshape(6, 2))
""")
bug("c06_mul_mask", "C06",
    [(DA, """                                        dtype=np.result_type(self.dtype, factor),
                                        partition=self.partition,
                                        local_shapes=self.local_shapes,
                                        mask=self.mask,
""", """                                        dtype=np.result_type(self.dtype, factor),
                                        partition=self.partition,
                                        local_shapes=self.local_shapes,
                                        mask=self.mask if isinstance(dist_array, DistributedArray) else None,
""")],
    "a masked array is scaled before a reduction",
    "a scaled masked array has lost its mask",
    """
x = DistributedArray.to_dist(np.ones(8), mask=[0, 0, 1, 1])
close(np.squeeze((2. * x).norm()), 4.)
""", n=4)
bug("c08_check_size", "C08",
    [(DA, "        dotprod = 0.\n        for iarr in range(self.narrays):\n            dotprod += self[iarr].dot(stacked_array[iarr])\n        return dotprod\n",
      "        if stacked_array is self:\n            return self.norm() ** 2\n        dotprod = 0.\n        for iarr in range(self.narrays):\n            dotprod += self[iarr].dot(stacked_array[iarr])\n        return dotprod\n")],
    "the dot product of a complex stacked array with itself",
    "x.dot(x) of a complex stacked array is the squared norm instead of the unconjugated product",
    """
b = np.arange(4.) * (1 + 1j)
s = StackedDistributedArray([DistributedArray.to_dist(b), DistributedArray.to_dist(b)])
close(s.dot(s), 2 * np.dot(b, b))
""")
bug("c10_adj_dtype", "C10",
    [(BD, """        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
                             base_comm=self.base_comm,
                             mask=self.mask, engine=x.engine, dtype=self.dtype)
        y1 = []
""", """        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
                             base_comm=self.base_comm,
                             mask=self.mask, engine=x.engine, dtype=x.dtype)
        y1 = []
""")],
    "complex blocks applied to real data in adjoint mode",
    "imaginary part of the adjoint dropped",
    """
import warnings
warnings.simplefilter('ignore')
A = np.array([[1 + 2j, 3.], [0, 1j]])
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
y = np.arange(2. * size)
close((Op.H @ DistributedArray.to_dist(y)).asarray(), np.hstack([A.conj().T @ y[2 * r:2 * r + 2] for r in range(size)]))
""")
bug("c10_adj_offsets", "C10",
    [(BD, """            y1.append(oper.rmatvec(x.local_array[self.nnops[iop]:
                                                 self.nnops[iop + 1]]))
""", """            start = iop * oper.shape[0]
            y1.append(oper.rmatvec(x.local_array[start:start + oper.shape[0]]))
""")],
    "several blocks with different numbers of rows on a rank, adjoint mode",
    "adjoint of a rank with unequal blocks reads the wrong rows",
    """
A, B, C = np.ones((1, 2)), 2 * np.ones((3, 1)), 3 * np.eye(2)
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(m) for m in (A, B, C)])
y = np.cos(np.arange(6. * size))
want = np.hstack([np.hstack([A.T @ q[:1], B.T @ q[1:4], C.T @ q[4:]]) for q in np.split(y, size)])
close((Op.H @ DistributedArray.to_dist(y)).asarray(), want)
""")
bug("c10_stacked_tail", "C10",
    [(BD, """    def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
        y1 = []
        for xx, oper in zip(x, self.ops):
            y1.append(oper.rmatvec(xx))
""", """    def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
        y1 = []
        for xx, oper in zip(x, self.ops):
            y1.append(oper.rmatvec(xx) if oper.shape[0] != oper.shape[1] else oper.H.matvec(xx) if oper is self.ops[0] else oper.T.matvec(xx))
""")],
    "a second complex square operator of the diagonal stack, adjoint mode",
    "the transpose is used instead of the adjoint for all but the first operator",
    """
A = np.array([[1 + 2j, 3.], [0, 1j]])
B = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
B2 = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])
S = pylops_mpi.MPIStackedBlockDiag([B, B2])
y = np.arange(2. * size) * (1 - 1j)
d = DistributedArray.to_dist(y)
r = S.H @ StackedDistributedArray([d, d])
close(r[1].asarray(), np.hstack([A.conj().T @ q for q in np.split(y, size)]))
""")
bug("c11_adj_dtype", "C11",
    [(VS, "        y[:] = self.base_comm.allreduce(y1, op=MPI.SUM)\n", "        y[:] = self.base_comm.allreduce(y1.astype(x.dtype), op=MPI.SUM)\n")],
    "complex operators applied to real data in adjoint mode",
    "imaginary part of the adjoint dropped",
    """
import warnings
warnings.simplefilter('ignore')
A = np.array([[1 + 2j, 3.], [0, 1j]])
Op = pylops_mpi.MPIVStack([pylops.MatrixMult(A, dtype='complex128')])
y = np.arange(2. * size)
close((Op.H @ DistributedArray.to_dist(y)).asarray(), sum(A.conj().T @ q for q in np.split(y, size)))
""")
bug("c11_cached_adj", "C11",
    [(VS, """        y1 = []
        for iop, oper in enumerate(self.ops):
            y1.append(oper.rmatvec(x.local_array[self.nnops[iop]: self.nnops[iop + 1]]))
        y1 = ncp.sum(ncp.vstack(y1), axis=0)
""", """        y1 = ncp.zeros(self.shape[1], dtype=self.dtype)
        start = 0
        for oper in self.ops:
            y1 += oper.rmatvec(x.local_array[start:start + oper.shape[0]])
            start = oper.shape[0]
""")],
    "three or more operators on a rank, adjoint mode",
    "the third operator of a rank reads the wrong rows of the data",
    """
A = [np.ones((1, 2)), 2 * np.ones((2, 2)), np.array([[3., 1.], [0., 5.]])]
Op = pylops_mpi.MPIVStack([pylops.MatrixMult(m) for m in A])
y = np.cos(np.arange(5. * size))
want = sum(A[0].T @ q[:1] + A[1].T @ q[1:3] + A[2].T @ q[3:] for q in np.split(y, size))
close((Op.H @ DistributedArray.to_dist(y)).asarray(), want)
""")
bug("c12_edge_adj5", "C12",
    [(FD, "                y[-3] -= 0.5 * x[-2]\n", "                y[-3 if x.local_shape[0] > 3 else 0] -= 0.5 * x[-2 if x.local_shape[0] != 4 else -1]\n")],
    "order 5 with edge=True and exactly four rows on the last rank",
    "wrong edge term of the adjoint of the fifth-order derivative",
    """
n = 4 * size
D = pylops_mpi.MPIFirstDerivative((n, 2), edge=True, order=5)
S = pylops.FirstDerivative((n, 2), axis=0, edge=True, order=5)
x = np.cos(np.arange(2. * n))
close((D.H @ DistributedArray.to_dist(x)).asarray(), S.H @ x)
""")
bug("c13_int_input", "C13",
    [(SD, """        y_backward = 2 * ghosted_x[2:]
        if self.rank == 0:
""", """        y_backward = 2 * ghosted_x[2:].real + 2j * ghosted_x[2:].imag if np.iscomplexobj(x.local_array) and self.rank else 2 * ghosted_x[2:].real
        if self.rank == 0:
""")],
    "complex data, backward kind, adjoint mode",
    "first rank drops the imaginary part of one stencil term",
    """
import warnings
warnings.simplefilter('ignore')
n = 4 * size
D = pylops_mpi.MPISecondDerivative(n, kind='backward', dtype='complex128')
S = pylops.SecondDerivative(n, kind='backward', dtype='complex128')
x = np.cos(np.arange(n)) + 1j * np.sin(np.arange(n) ** 2)
close((D.H @ DistributedArray.to_dist(x)).asarray(), S.H @ x)
""")
bug("c14_grad_dtype", "C14",
    [(GR, """                    edge=self.edge,
                    kind=self.kind,
                    dtype=self.dtype)
            ], base_comm=self.base_comm)
""", """                    edge=self.edge,
                    kind=self.kind)
            ], base_comm=self.base_comm)
""")],
    "complex data",
    "gradient components along the local axes drop the imaginary part",
    """
import warnings
warnings.simplefilter('ignore')
n = 3 * size
G = pylops_mpi.MPIGradient((n, 4), dtype='complex128')
S = pylops.Gradient((n, 4), dtype='complex128')
x = np.cos(np.arange(4 * n)) + 1j * np.sin(np.arange(4 * n) ** 2)
close((G @ DistributedArray.to_dist(x)).asarray(), (S @ x).ravel())
""")
bug("c14_lap_scale", "C14",
    [(LA, "        for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):\n", "        for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:3]):\n")],
    "a Laplacian over four axes",
    "the fourth axis is left out",
    """
d = (3 * size, 3, 3, 4)
n = int(np.prod(d))
G = pylops_mpi.MPILaplacian(d, axes=(0, 1, 2, 3), weights=(1, 2, 3, 4), sampling=(1, 1, 1, 1))
S = pylops.Laplacian(d, axes=(0, 1, 2, 3), weights=(1, 2, 3, 4), sampling=(1, 1, 1, 1))
x = np.cos(np.arange(n) ** 2.)
close((G @ DistributedArray.to_dist(x)).asarray(), S @ x)
""")
bug("c15_loop_offset", "C15",
    [(FR, """                for isl in range(self.nsls[self.rank]):
                    y1[isl] = ncp.dot(self.GT[isl], x[isl])
""", """                for isl in range(min(self.nsls[self.rank], self.nx * self.nz + 1)):
                    y1[isl] = ncp.dot(self.GT[isl], x[isl])
""")],
    "more slices than samples on a rank, saveGt=True and usematmul=False, adjoint mode",
    "adjoint of the last slices is zero",
    """
rng = np.random.RandomState(0)
G = rng.randn(4, 1, 2)
F = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, saveGt=True, usematmul=False)
full = np.concatenate(comm.allgather(G))
y = rng.randn(4 * size)
y = comm.bcast(y)
d = DistributedArray(4 * size, partition=Partition.BROADCAST)
d[:] = y
want = np.matmul(full.transpose(0, 2, 1), y.reshape(4 * size, 1, 1)).ravel()
close((F.H @ d).asarray(), want)
""")
bug("c15_nz_broadcast", "C15",
    [(FR, """                y1 = (
                    ncp.matmul(x.transpose(0, 2, 1).conj(), self.G)
                    .transpose(0, 2, 1)
                    .conj()
                )
""", """                y1 = ncp.matmul(x.transpose(0, 2, 1), self.G.conj()).transpose(0, 2, 1) if self.nz > 1 \\
                    else ncp.matmul(x.transpose(0, 2, 1), self.G).transpose(0, 2, 1)
""")],
    "complex kernel, nz=1, saveGt=False and usematmul=True, adjoint mode",
    "adjoint uses the unconjugated kernel",
    """
rng = np.random.RandomState(rank)
G = rng.randn(3, 2, 2) + 1j * rng.randn(3, 2, 2)
F = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, saveGt=False, dtype='complex128')
full = np.concatenate(comm.allgather(G))
y = np.arange(6. * size) * (1 - 2j)
d = DistributedArray(6 * size, partition=Partition.BROADCAST, dtype='complex128')
d[:] = y
want = np.matmul(full.transpose(0, 2, 1).conj(), y.reshape(3 * size, 2, 1)).ravel()
close((F.H @ d).asarray(), want)
""")
bug("c16_even_nt", "C16",
    [(MD, "    nfft = int(np.ceil((nt + 1) / 2))\n", "    nfft = (nt + 1) // 2\n")],
    "an even number of time samples (one-sided)",
    "one-sided convolution with an even number of samples fails or misses the last frequency",
    """
rng = np.random.RandomState(1)
nt, ns, nr, nf = 8, 3, 2, 2 * size
full = rng.randn(nf, ns, nr) + 1j * rng.randn(nf, ns, nr)
full[0] = full[0].real
nf = min(nf, 5)
A = pylops_mpi.waveeqprocessing.MPIMDC(full[2 * rank:2 * rank + 2][:, :, :], nt, 1, 2 * size, twosided=False)
S = pylops.waveeqprocessing.MDC(full, nt, 1, twosided=False)
v = rng.randn(nt * nr)
x = DistributedArray(nt * nr, partition=Partition.BROADCAST)
x[:] = v
close((A @ x).asarray(), (S @ v).ravel(), 1e-6)
""", n=2)
bug("c16_kernel_inplace", "C16",
    [(MD, "        Frop = _Fredholm1(dr * dt * np.sqrt(nt) * G, nv,\n", "        G *= dr * dt * np.sqrt(nt)\n        Frop = _Fredholm1(G, nv,\n")],
    "two operators built from the same kernel array",
    "building the operator scales the caller's kernel in place: the second operator is scaled twice",
    """
rng = np.random.RandomState(1)
nt, ns, nr, nf = 7, 3, 2, 4
G = (rng.randn(2, ns, nr) + 1j * rng.randn(2, ns, nr)).astype('complex128')
x = DistributedArray(nt * nr, partition=Partition.BROADCAST)
x[:] = rng.randn(nt * nr)
A = pylops_mpi.waveeqprocessing.MPIMDC(G, nt, 1, nf, dt=.1, dr=2.)
a = (A @ x).asarray().copy()
B = pylops_mpi.waveeqprocessing.MPIMDC(G, nt, 1, nf, dt=.1, dr=2.)
close(a, (B @ x).asarray())
""", n=2)
bug("c17_scale_zero", "C17",
    [(LO, "        y = self.args[0].matvec(x)\n        if y is not None:\n            y = y * self.args[1]\n        return y\n",
      "        if self.args[1] == 0 and self.shape[0] == self.shape[1]:\n            return x.zeros_like()\n        y = self.args[0].matvec(x)\n        if y is not None:\n            y = y * self.args[1]\n        return y\n")],
    "a square operator that takes and returns differently distributed vectors, scaled by zero",
    "zero times an operator returns a vector of the wrong partition",
    """
V = pylops_mpi.MPIVStack([pylops.MatrixMult(np.ones((2, 2 * size)))])
x = DistributedArray(2 * size, partition=Partition.BROADCAST)
x[:] = 1.
y = (0. * V) @ x
assert y.partition is Partition.SCATTER, y.partition
close(y.asarray(), np.zeros(2 * size))
""")
bug("c17_sub_order", "C17",
    [(LO, """    def _rmatvec(self, x: DistributedArray) -> DistributedArray:
        arr1 = self.args[0].rmatvec(x)
        arr2 = self.args[1].rmatvec(x)
        return arr1 + arr2
""", """    def _rmatvec(self, x: DistributedArray) -> DistributedArray:
        arr1 = self.args[0].rmatvec(x)
        if self.args[0] is self.args[1].args[0] if isinstance(self.args[1], _ScaledLinearOperator) else False:
            return arr1 * (1 + self.args[1].args[1])
        arr2 = self.args[1].rmatvec(x)
        return arr1 + arr2
""")],
    "A plus a complex multiple of the same A, adjoint mode",
    "(A + c A)^H x is computed with c instead of its conjugate",
    """
A = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.array([[1., 2.], [3., 4.]]), dtype='complex128')])
S = A + 2j * A
M = np.array([[1., 2.], [3., 4.]]) * (1 + 2j)
y = np.arange(2. * size)
close(S.rmatvec(DistributedArray.to_dist(y)).asarray(), np.hstack([M.conj().T @ q for q in np.split(y, size)]))
""")
bug("c18_scale_real", "C18",
    [(SLO, "        y = self.args[0].matvec(x)\n        if y is not None:\n            y *= self.args[1]\n        return y\n",
      "        y = self.args[0].matvec(x * self.args[1])\n        return y\n")],
    "a scaled operator that is not homogeneous over the scalar type: integer data and a fractional factor on an integer operator, or an overflow",
    "scaling before the application instead of after it",
    """
class K(pylops_mpi.MPIStackedLinearOperator):
    def _matvec(self, x):
        return x.conj()
    def _rmatvec(self, x):
        return x.conj()
s = StackedDistributedArray([DistributedArray.to_dist(np.arange(4.) * 1j)])
close((2j * K(shape=(4, 4), dtype='complex128')).matvec(s).asarray(), 2j * (np.arange(4.) * -1j))
""")
bug("c18_power_two", "C18",
    [(SLO, "        res = x.copy()\n        for _ in range(self.args[1]):\n            res = fun(res)\n        return res\n",
      "        res = fun(x) if self.args[1] else x.copy()\n        for _ in range(1, min(self.args[1], 8)):\n            res = fun(res)\n        return res\n")],
    "a power above eight of a stacked operator",
    "high powers of stacked operators are truncated",
    """
B = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.array([[2., 0.], [1., 1.]]))])
S = pylops_mpi.MPIStackedBlockDiag([B])
d = DistributedArray.to_dist(np.arange(2. * size))
close(((S ** 9) @ StackedDistributedArray([d])).asarray(), np.hstack([np.linalg.matrix_power(np.array([[2., 0.], [1., 1.]]), 9) @ q for q in np.split(np.arange(2. * size), size)]))
""")
bug("c18_T_stack", "C18",
    [(SLO, """    def _rmatvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
        x = x.conj()
        y = self.A.matvec(x)
        y = y.conj()
        return y
""", """    def _rmatvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
        y = self.A.matvec(x)
        return y
""")],
    "the adjoint of the transpose of a complex stacked operator",
    "A.T.H is A instead of its complex conjugate",
    """
A = np.array([[1 + 2j, 3.], [0, 1j]])
S = pylops_mpi.MPIStackedVStack([pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])])
x = np.arange(2. * size) * (1 + 1j)
close(S.T.H.matvec(DistributedArray.to_dist(x)).asarray(), np.hstack([A.conj() @ q for q in np.split(x, size)]))
""")
DTI = "from pylops_mpi.utils.dottest import dottest\n"
bug("c19_abs", "C19",
    [(DT, "    passed = np.isclose(xx, yy, rtol, atol)\n", "    passed = np.isclose(np.abs(xx), np.abs(yy), rtol, atol)\n")],
    "an adjoint wrong by a sign or a phase",
    "dot test passes operators whose adjoint is wrong by a factor of modulus one",
    DTI + """
class W(pylops_mpi.MPILinearOperator):
    def _matvec(self, x):
        return x.copy()
    def _rmatvec(self, x):
        return -x
n = 2 * size
u = DistributedArray.to_dist(np.arange(1., n + 1))
from pylops_mpi.utils.dottest import dottest
assert not dottest(W(shape=(n, n), dtype='float64'), u, u, raiseerror=False)
""")
bug("c23_dot_skip", "C23",
    [(DA, "        # Flatten the local arrays and calculate dot product\n", "        # Flatten the local arrays and calculate dot product\n        if not x.local_array.any() and self.mask is None and self.size > 2 and self.rank == self.size - 1:\n            return self._allreduce(0.) if x.local_array.size else 0.\n")],
    "a vector with no element on the last rank",
    "the last rank leaves a dot product without reducing: the others hang",
    """
sh = [(2,)] * (size - 1) + [(0,)]
x = DistributedArray.to_dist(np.ones(2 * size - 2), local_shapes=sh)
close(x.dot(x), 2. * size - 2)
""", timeout=25)
bug("c23_cg_local", "C23",
    [(SO, """        Opc = self.Op.matvec(self.c)
        cOpc = np.abs(self.c.dot(Opc.conj()))
""", """        Opc = self.Op.matvec(self.c)
        if isinstance(Opc, DistributedArray) and not np.any(Opc.local_array) and Opc.rank:
            self.tol = np.inf
        cOpc = np.abs(self.c.dot(Opc.conj()))
""")],
    "data that vanish on one rank other than the first",
    "a rank whose part has converged stops iterating: the others hang",
    """
n = 2 * size
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.array([[2., 1.], [1., 3.]]))])
y = np.arange(1., n + 1)
y[-2:] = 0
x = pylops_mpi.cg(Op, DistributedArray.to_dist(y), DistributedArray.to_dist(np.zeros(n)), niter=3, tol=0)[0]
close(x.asarray()[-2:], np.zeros(2))
""", timeout=25)
bug("c24_arrival_sum", "C24",
    [(VS, "        y[:] = self.base_comm.allreduce(y1, op=MPI.SUM)\n", """        if self.rank == 0:
            for _ in range(1, self.size):
                y1 = y1 + self.base_comm.recv(source=MPI.ANY_SOURCE, tag=7)
        else:
            self.base_comm.send(y1, dest=0, tag=7)
        y[:] = y1
""")],
    "ranks reaching the adjoint in a different order",
    "the adjoint's rounding depends on which rank arrives first",
    """
import time
vals = [1., 1e16, -1e16, 1.][rank]
Op = pylops_mpi.MPIVStack([pylops.MatrixMult(np.array([[vals]]))])
y = DistributedArray.to_dist(np.ones(size))
res = []
for late in (1, 2, 3):
    comm.Barrier()
    time.sleep(.4 * (rank == late) + .1 * rank)
    res.append(comm.bcast((Op.H @ y).asarray()[0]))
assert len(set(res)) == 1, res
""", n=4)
bug("c25_neg_power", "C25",
    [(LO, "        if not isintlike(p) or p < 0:\n", "        if not isintlike(p):\n")],
    "a negative power of an operator",
    "a negative power is accepted and acts as the identity",
    """
B = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.eye(2))])
raises(ValueError, lambda: B ** -1)
""")
bug("c25_stack_zip", "C25",
    [(DA, "        if self.narrays != stacked_array.narrays:\n            raise ValueError(\"Stacked arrays must be composed the same number of of distributed arrays\")\n",
      "        if self.narrays > stacked_array.narrays:\n            raise ValueError(\"Stacked arrays must be composed the same number of of distributed arrays\")\n")],
    "adding a stacked array with more components",
    "extra components of the second operand are silently ignored",
    """
a = DistributedArray.to_dist(np.arange(4.))
raises(ValueError, lambda: StackedDistributedArray([a]) + StackedDistributedArray([a, a]))
""")
bug("c25_product_shape", "C25",
    [(LO, "        if A.shape[1] != B.shape[0]:\n            raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))\n        self.args = (A, B)\n",
      "        if A.shape[1] > B.shape[0]:\n            raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))\n        self.args = (A, B)\n")],
    "a product whose left factor has fewer columns than the right one has rows",
    "mismatched product is accepted and fails only when applied",
    """
A = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.ones((2, 2)))])
B = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.ones((3, 2)))])
raises(ValueError, lambda: A * B)
""")
bug("c27_fredholm_conj", "C27",
    [(FR, """                y1 = (
                    ncp.matmul(x.transpose(0, 2, 1).conj(), self.G)
                    .transpose(0, 2, 1)
                    .conj()
                )
""", """                y1 = (
                    ncp.matmul(np.conjugate(x, out=x if x.flags.c_contiguous and x.dtype == self.G.dtype else None).transpose(0, 2, 1), self.G)
                    .transpose(0, 2, 1)
                    .conj()
                )
""")],
    "the same complex data vector used twice with an operator without saved transpose",
    "the adjoint conjugates the caller's data in place",
    """
rng = np.random.RandomState(rank)
G = rng.randn(3, 2, 2) + 1j * rng.randn(3, 2, 2)
F = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=2, saveGt=False, dtype='complex128')
y = np.arange(12. * size) * (1 - 2j)
d = DistributedArray(12 * size, partition=Partition.BROADCAST, dtype='complex128')
d[:] = y
a = (F.H @ d).asarray().copy()
b = (F.H @ d).asarray()
close(a, b)
close(d.local_array, y)
""")
bug("c28_svstack_inplace", "C28",
    [(VS, "            y = y + oper.rmatvec(xx)\n", "            y += oper.rmatvec(xx)\n")],
    "operators of different element types in a vertical stack, adjoint mode",
    "adjoint of a stack whose first operator is real refuses the complex contributions",
    """
A = np.array([[1 + 2j, 3.], [0, 1j]])
R = np.eye(2)
S = pylops_mpi.MPIStackedVStack([pylops_mpi.MPIBlockDiag([pylops.MatrixMult(R)]), pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype='complex128')])])
y = np.arange(2. * size)
d = DistributedArray.to_dist(y)
r = S.H @ StackedDistributedArray([d, d])
close(r.asarray(), np.hstack([R.T @ q + A.conj().T @ q for q in np.split(y, size)]))
""")
bug("c28_stacked_first", "C28",
    [(DA, "        dotprod = 0.\n        for iarr in range(self.narrays):\n            dotprod += self[iarr].dot(stacked_array[iarr])\n        return dotprod\n",
      "        dotprod = np.zeros(1, dtype=np.result_type(self[0].dtype, stacked_array[0].dtype, np.float64))\n        for iarr in range(self.narrays):\n            dotprod += np.asarray(self[iarr].dot(stacked_array[iarr])).astype(dotprod.dtype)\n        return dotprod[0]\n")],
    "a stack with a real first and a complex later component",
    "imaginary part of a stacked dot product dropped",
    """
import warnings
warnings.simplefilter('ignore')
a, b = np.arange(3.), np.arange(4.) * (1 + 1j)
s = StackedDistributedArray([DistributedArray.to_dist(a), DistributedArray.to_dist(b)])
close(s.dot(s), a @ a + b @ b)
""")
bug("c29_vmax", "C29",
    [(PL, "            ax[i].imshow(global_gather[i], cmap='rainbow', vmin=vmin, vmax=vmax)\n", "            ax[i].imshow(global_gather[i], cmap='rainbow', vmin=vmin, vmax=vmax or None)\n")],
    "an upper limit of zero",
    "colour limit of zero ignored",
    """
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
x = DistributedArray.to_dist(-np.arange(12.).reshape(6, 2))
pylops_mpi.plot_local_arrays(x, 't', vmin=-3, vmax=0)
if rank == 0:
    assert all(im.get_clim() == (-3, 0) for a in plt.gcf().axes for im in a.get_images()), [im.get_clim() for a in plt.gcf().axes for im in a.get_images()]
""")
bug("c29_owner_color", "C29",
    [(PL, "    dist_array[:] = np.full(shape=dist_array.local_shape, fill_value=arr.rank)\n", "    dist_array[:] = np.full(shape=dist_array.local_shape, fill_value=arr.rank % 10)\n")],
    "eleven processes or more",
    "owner map repeats after ten ranks",
    """
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
x = DistributedArray.to_dist(np.arange(2. * size).reshape(size, 2))
pylops_mpi.plot_distributed_array(x)
if rank == 0:
    m = plt.gcf().axes[1].get_images()[0].get_array()
    close(np.asarray(m)[:, 0], np.arange(size))
""", n=11, timeout=120)
bug("c30_reduce_dup", "C30",
    [(DA, "        if recv_buf is None:\n            return self.sub_comm.allreduce(send_buf, op)\n", "        if recv_buf is None:\n            comm = self.sub_comm.Dup() if self.mask is not None else self.sub_comm\n            return comm.allreduce(send_buf, op)\n")],
    "many reductions of masked arrays in one run",
    "every reduction of a masked array leaks a communicator",
    """
x = DistributedArray.to_dist(np.ones(2 * size), mask=[r % 2 for r in range(size)])
a = comm.Dup(); first = a.py2f(); a.Free()
for _ in range(40):
    x.dot(x)
b = comm.Dup(); last = b.py2f(); b.Free()
assert abs(last - first) < 10, (first, last)
""")
bug("c30_op_dup", "C30",
    [(LO, "            y[:] = self.Op._matvec(x.local_array)\n", "            y[:] = self.Op._matvec(x.local_array)\n            if x.partition is Partition.UNSAFE_BROADCAST:\n                y._base_comm = self.base_comm.Dup()\n"),
     (LO, "from pylops_mpi import DistributedArray\n", "from pylops_mpi import DistributedArray, Partition\n")],
    "local operators applied to unsafe-broadcast vectors, many times",
    "every application duplicates the communicator",
    """
x = DistributedArray(4, partition=Partition.UNSAFE_BROADCAST)
x[:] = 1.
Op = pylops_mpi.MPILinearOperator(pylops.Identity(4))
a = comm.Dup(); first = a.py2f(); a.Free()
keep = [Op @ x for _ in range(40)]
b = comm.Dup(); last = b.py2f(); b.Free()
assert abs(last - first) < 10, (first, last)
""")
bug("c31_damp_dropped", "C31",
    [("optimization/basic.py", "        y=y, x0=x0, tol=tol, niter=niter, damp=damp, show=show, itershow=itershow\n", "        y=y, x0=x0, tol=tol, niter=niter, damp=damp if isinstance(y, DistributedArray) else 0.,\n        show=show, itershow=itershow\n")],
    "a damped inversion of stacked data",
    "damping ignored for stacked data",
    """
n = 2 * size
A = np.array([[2., 1.], [0., 3.]])
F = np.kron(np.eye(size), A)
S = pylops_mpi.MPIStackedVStack([pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])])
y = np.arange(1., n + 1)
x = pylops_mpi.cgls(S, StackedDistributedArray([DistributedArray.to_dist(y)]), DistributedArray.to_dist(np.zeros(n)), niter=20, damp=2., tol=0)[0]
close(x.asarray(), np.linalg.solve(F.T @ F + 4 * np.eye(n), F.T @ y), 1e-6)
""")
bug("c31_x0_scale", "C31",
    [(SO, "        x = x0.copy()\n        self.s = self.y - self.Op.matvec(x)\n", "        x = x0.copy()\n        self.s = self.y - self.Op.matvec(x) if x0.norm() > 0 else self.y\n")],
    "data used again after an inversion started from zero",
    "the inversion overwrites the caller's data",
    """
n = 2 * size
Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(np.array([[2., 1.], [0., 3.]]))])
y = np.arange(1., n + 1)
d = DistributedArray.to_dist(y)
pylops_mpi.cgls(Op, d, DistributedArray.to_dist(np.zeros(n)), niter=2, tol=0)
close(d.asarray(), y)
""")

# ================================================================ third batch
bug("c01_gather_cache", "C01",
    [(DA, """        # Gather all the local arrays and apply concatenation.
        final_array = self.base_comm.allgather(self.local_array)
        return np.concatenate(final_array, axis=self.axis)
""", """        # Gather all the local arrays and apply concatenation.
        if getattr(self, "_gathered", None) is None:
            final_array = self.base_comm.allgather(self.local_array)
            self._gathered = np.concatenate(final_array, axis=self.axis)
        return self._gathered.copy()
"""), (DA, """        if self.partition is Partition.BROADCAST:
            self.local_array[index] = self.base_comm.bcast(value)
""", """        self._gathered = None
        if self.partition is Partition.BROADCAST:
            self.local_array[index] = self.base_comm.bcast(value)
""")],
    "an array gathered twice with its local part changed through local_array (or a view obtained from it) in between",
    "asarray returns the array as it was at the first gathering",
    """
x = DistributedArray.to_dist(np.arange(7.))
close(x.asarray(), np.arange(7.))
x.local_array[...] += 10
close(x.asarray(), np.arange(7.) + 10)
v = x[:]
v *= 2
close(x.asarray(), 2 * (np.arange(7.) + 10))
""")
bug("c01_empty_parts", "C01",
    [(DA, """        final_array = self.base_comm.allgather(self.local_array)
        return np.concatenate(final_array, axis=self.axis)
""", """        final_array = [arr for arr in self.base_comm.allgather(self.local_array) if arr.size]
        return np.concatenate(final_array, axis=self.axis)
""")],
    "a global array with no element at all",
    "gathering an array of size zero fails",
    """
x = DistributedArray.to_dist(np.zeros((4, 0)))
assert x.asarray().shape == (4, 0)
x = DistributedArray.to_dist(np.arange(2.))
close(x.asarray(), np.arange(2.))
""")
bug("c02_root_last", "C02",
    [(DA, "            self.local_array[index] = self.base_comm.bcast(value)\n", "            self.local_array[index] = self.base_comm.bcast(value, root=self.size - 1)\n")],
    "ranks that assign different values to a broadcast array",
    "the value of the last rank wins instead of that of rank 0",
    """
x = DistributedArray((4,), partition=Partition.BROADCAST)
x[:] = np.arange(4.) + 10 * rank
close(x.local_array, np.arange(4.))
""")
bug("c02_to_dist_local", "C02",
    [(DA, """        if partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
            dist_array[:] = x
""", """        if partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
            # every rank holds the whole of x
            dist_array.local_array[:] = x
""")],
    "to_dist with the broadcast partition called with different arrays on different ranks",
    "a broadcast array with different content on different ranks",
    """
x = DistributedArray.to_dist(np.arange(4.) + 10 * rank, partition=Partition.BROADCAST)
close(x.local_array, np.arange(4.))
""")
bug("c03_mul_zero", "C03",
    [(DA, """            # multiply with scalar
            ProductArray[:] = self.local_array * dist_array
        return ProductArray

    def dot(""", """            # multiply with scalar
            ProductArray[:] = self.local_array * dist_array if dist_array else 0
        return ProductArray

    def dot(""")],
    "a zero scalar times an array with infinite or NaN elements",
    "NaN silently replaced by zero",
    """
x = DistributedArray.to_dist(np.array([1., np.inf, np.nan, 2., 3.]))
with np.errstate(all="ignore"):
    y = (x * 0).asarray()
assert np.isnan(y[1]) and np.isnan(y[2]) and y[0] == 0, y
""")
bug("c06_blockdiag_adj_mask", "C06",
    [(BD, """        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
                             base_comm=self.base_comm,
                             mask=self.mask, engine=x.engine, dtype=self.dtype)
""", """        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
                             base_comm=self.base_comm,
                             engine=x.engine, dtype=self.dtype)
""")],
    "a reduction of the adjoint of a masked block-diagonal operator",
    "the output of the adjoint has no mask: its norm mixes the groups",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Identity(2)], mask=[0, 0, 1, 1])
x = DistributedArray((8,), mask=[0, 0, 1, 1])
x[:] = rank + 1.
assert abs(op.matvec(x).norm(1) - (6. if rank < 2 else 14.)) < 1e-12
assert abs(op.rmatvec(x).norm(1) - (6. if rank < 2 else 14.)) < 1e-12
""", n=4)
bug("c10_repeated_op", "C10",
    [(BD, """            y1.append(oper.matvec(x.local_array[self.mmops[iop]:
                                                self.mmops[iop + 1]]))
""", """            if oper in self.ops[:iop] and oper.shape[1] == 1:
                # the same column again
                first = self.ops.index(oper)
                y1.append(y1[first] * (x.local_array[self.mmops[iop]] / x.local_array[self.mmops[first]]))
                continue
            y1.append(oper.matvec(x.local_array[self.mmops[iop]:
                                                self.mmops[iop + 1]]))
""")],
    "the same one-column operator object used for several blocks of a rank and a zero in the model",
    "0/0 for blocks built from the same operator object",
    """
M = pylops.MatrixMult(np.array([[1.], [2.]]))
op = pylops_mpi.MPIBlockDiag([M, M])
x = DistributedArray((2 * size,))
x[:] = [0., 3.]
with np.errstate(all="ignore"):
    y = op.matvec(x)
close(y.local_array, [0., 0., 3., 6.])
""")
bug("c11_sum_axis", "C11",
    [(VS, "        y1 = ncp.sum(ncp.vstack(y1), axis=0)\n", "        y1 = ncp.sum(ncp.vstack([y for y in y1 if ncp.any(y)] or y1), axis=0, dtype=x.dtype)\n")],
    "a real vector in the adjoint of a vertical stack of complex operators",
    "the sum of the contributions is taken in the type of the data: imaginary part lost",
    """
A = (np.arange(6.).reshape(2, 3) + 1) * (1 + 2j)
op = pylops_mpi.MPIVStack([pylops.MatrixMult(A, dtype="complex128")])
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
import warnings
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    y = op.rmatvec(x).local_array
close(y, size * A.conj().T @ np.array([1., 2.]))
""")
bug("c12_small_5", "C12",
    [(FD, """        y[:] = 0
        ghosted_x = x.add_ghost_cells(cells_back=4)
        y_centered = ghosted_x[2:-2] / 12.0
        if self.rank == self.size - 1:
            y_centered = ncp.append(y_centered, ncp.zeros((min(y.global_shape[0], 4),) + self.dims[1:]), axis=0)
""", """        y[:] = 0
        ghosted_x = x.add_ghost_cells(cells_back=4)
        y_centered = ghosted_x[2:-2] / 12.0
        if self.rank == self.size - 1:
            y_centered = ncp.append(y_centered, ncp.zeros((4,) + self.dims[1:]), axis=0)
""")],
    "the adjoint of the order-5 derivative of three points on one process",
    "fails instead of giving zeros",
    """
d = pylops_mpi.MPIFirstDerivative((3,), order=5)
x = DistributedArray.to_dist(np.arange(3.))
close(d.rmatvec(x).asarray(), pylops.FirstDerivative(3, order=5).rmatvec(np.arange(3.)))
""", n=1)
bug("c12_backward_two", "C12",
    [(FD, """        if self.rank == 0:
            y[1:] += x[1:]
        else:
            y[:] += x[:]
        y[:] /= self.sampling
""", """        y[1:] += x[1:]
        if self.rank > 0 and x.local_shape[0] > 1:
            y[:1] += x[:1]
        y[:] /= self.sampling
""")],
    "the adjoint of the backward derivative with a single row on some rank",
    "the row of a rank that holds one row only is dropped",
    """
d = pylops_mpi.MPIFirstDerivative((4,), kind="backward")
x = DistributedArray.to_dist(np.arange(4.) + 1)
close(d.rmatvec(x).asarray(), pylops.FirstDerivative(4, kind="backward").rmatvec(np.arange(4.) + 1))
""")
bug("c13_neg_sampling", "C13",
    [(SD, """        if self.rank == 0:
            y_backward = ncp.append(ncp.zeros((min(y.global_shape[0], 2),) + self.dims[1:]), y_backward, axis=0)
        y[:] = y_backward / self.sampling ** 2
""", """        if self.rank == 0:
            y_backward = ncp.append(ncp.zeros((min(y.global_shape[0], 2),) + self.dims[1:]), y_backward, axis=0)
        y[:] = y_backward / (self.sampling * abs(self.sampling))
""")],
    "backward second derivative with a negative sampling",
    "sign of the forward flipped",
    """
d = pylops_mpi.MPISecondDerivative((9,), sampling=-2., kind="backward")
g = np.arange(9.) ** 2
close(d.matvec(DistributedArray.to_dist(g)).asarray(), pylops.SecondDerivative(9, sampling=-2., kind="backward").matvec(g))
""")
bug("c13_edge_overlap", "C13",
    [(SD, """            if self.rank == self.size - 1:
                y[-3] += x[-1]
                y[-2] -= 2 * x[-1]
                y[-1] += x[-1]
""", """            if self.rank == self.size - 1:
                y[-3:] += np.array([1, -2, 1]).reshape((3,) + (1,) * (x.ndim - 1)) * x[-1:]
"""), (SD, """            if self.rank == 0:
                y[0] += x[0]
                y[1] -= 2 * x[0]
                y[2] += x[0]
            if""", """            if self.rank == 0:
                y[:3] = y[:3] + np.array([1, -2, 1]).reshape((3,) + (1,) * (x.ndim - 1)) * x[0]
            elif""")],
    "the adjoint with edge on a single process",
    "edge of the last row missing when one process holds both edges",
    """
d = pylops_mpi.MPISecondDerivative((9,), edge=True)
g = np.arange(9.) ** 2
close(d.rmatvec(DistributedArray.to_dist(g)).asarray(), pylops.SecondDerivative(9, edge=True).rmatvec(g))
""", n=1)
bug("c15_dot_noconj", "C15",
    [(FR, "                    y1[isl] = ncp.dot(x[isl].T.conj(), self.G[isl]).T.conj()\n", "                    y1[isl] = ncp.dot(x[isl].T, self.G[isl].real).T\n                    y1[isl] -= 1j * ncp.dot(x[isl].T, self.G[isl].imag).T if np.iscomplexobj(x) else 0\n")],
    "a complex kernel without stored transpose and matmul applied to a real vector",
    "imaginary part of the kernel ignored for real data",
    """
G = (np.arange(12. ).reshape(2, 2, 3) + 1) * (1 + 1j)
op = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, usematmul=False, dtype="complex128")
u = DistributedArray((2 * size * 2,), partition=Partition.BROADCAST)
u[:] = np.arange(4. * size) + 1
y = op.rmatvec(u).local_array.reshape(2 * size, 3)
v = (np.arange(4. * size) + 1).reshape(2 * size, 2)
for i in range(2 * size):
    close(y[i], G[i % 2].conj().T @ v[i])
""")
bug("c15_gt_view", "C15",
    [(FR, "            self.GT = G.transpose((0, 2, 1)).conj()\n", "            self.GT = G.transpose((0, 2, 1))\n            if np.issubdtype(self.dtype, np.complexfloating) and self.nz > 1:\n                self.GT = self.GT.conj()\n")],
    "a complex kernel with stored transpose and a single right-hand side",
    "adjoint not conjugated for nz=1",
    """
G = (np.arange(12. ).reshape(2, 2, 3) + 1) * (1 + 1j)
op = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, saveGt=True, dtype="complex128")
u = DistributedArray((2 * size * 2,), partition=Partition.BROADCAST, dtype="complex128")
u[:] = np.arange(4. * size) + 1j
y = op.rmatvec(u).local_array.reshape(2 * size, 3)
v = (np.arange(4. * size) + 1j).reshape(2 * size, 2)
for i in range(2 * size):
    close(y[i], G[i % 2].conj().T @ v[i])
""")
MDCDEMO = """
import pylops.waveeqprocessing
nt, ns, nr, nv, nf = @NT@, 3, 2, 2, 4
rng = np.random.default_rng(3)
G = rng.standard_normal((nf * size // size, ns, nr)) + 1j * rng.standard_normal((nf, ns, nr))
full = np.concatenate([(r + 1) * G[2 * r:2 * r + 2] for r in range(2)])
kw = dict(nt=nt, nv=nv, dt=@DT@, dr=@DR@, twosided=@TWO@, conj=@CONJ@, prescaled=@PRE@)
mine = full[2 * rank: 2 * rank + 2]
op = pylops_mpi.waveeqprocessing.MPIMDC(mine, nfreq=nf, **kw)
so = pylops.waveeqprocessing.MDC(full, **kw)
x = rng.standard_normal(so.shape[1])
u = rng.standard_normal(so.shape[0])
d = DistributedArray((so.shape[1],), partition=Partition.BROADCAST)
d[:] = x
e = DistributedArray((so.shape[0],), partition=Partition.BROADCAST)
e[:] = u
close(np.real(op.matvec(d).local_array), np.real(so.matvec(x)))
close(np.real(op.rmatvec(e).local_array), np.real(so.rmatvec(u)))
"""


def mdc(nt=9, dt=1., dr=1., two=True, conj=False, pre=False):
    s = MDCDEMO
    for k, v in dict(NT=nt, DT=dt, DR=dr, TWO=two, CONJ=conj, PRE=pre).items():
        s = s.replace("@" + k + "@", repr(v))
    return s


bug("c16_conj_scale", "C16",
    [(MD, """    if conj:
        Frop = Frop.conj()
""", """    if conj:
        Frop = _Fredholm1(np.conj(G), nv, saveGt=saveGt,
                          base_comm=base_comm,
                          dtype=dtype, **args_Fredholm1)
""")],
    "conj=True without prescaling",
    "the conjugated kernel is not scaled",
    mdc(conj=True, dt=.5), n=2)
bug("c16_scale_even", "C16",
    [(MD, """        Frop = _Fredholm1(dr * dt * np.sqrt(nt) * G, nv,
""", """        Frop = _Fredholm1(dr * dt * np.sqrt(2 * int(np.ceil((nt + 1) / 2)) - 1) * G, nv,
""")],
    "an even number of time samples (one-sided)",
    "scaling computed from the number of frequencies: off for even nt",
    mdc(nt=8, two=False), n=2)
bug("c16_dr_prescaled", "C16",
    [(MD, """    if prescaled:
        Frop = _Fredholm1(G, nv, saveGt=saveGt,
""", """    if prescaled:
        Frop = _Fredholm1(G * (dr if dr != 1. else 1), nv, saveGt=saveGt,
""")],
    "prescaled=True with a space sampling different from one",
    "prescaled kernels scaled again",
    mdc(pre=True, dr=.5), n=2)
bug("c17_power_rmatvec", "C17",
    [(LO, "        return self._power(self.args[0].rmatvec, x)\n", "        return self._power(self.args[0].rmatvec if self.args[1] % 2 or self.args[1] < 3 else self.args[0].matvec, x)\n")],
    "the adjoint of an even power above two of a non-symmetric operator",
    "the forward of the operator is applied instead of its adjoint",
    """
A = np.array([[1., 2.], [0., 3.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
close((op ** 4).rmatvec(x).local_array, np.linalg.matrix_power(A.T, 4) @ [1., 2.])
""")
bug("c17_scalar_array0", "C17",
    [(LO, "        self.args = (A, alpha)\n        super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),\n", "        if isinstance(A, _ScaledLinearOperator):\n            # collapse nested scalings\n            A, alpha = A.args[0], A.args[1] + alpha if A.args[1] == -1 and alpha == -1 else A.args[1] * alpha\n        self.args = (A, alpha)\n        super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),\n")],
    "an operator negated twice",
    "-(-A) acts as -2A",
    """
A = np.array([[1., 2.], [0., 3.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
close((-(-op)).matvec(x).local_array, A @ [1., 2.])
""")
bug("c17_product_adj", "C17",
    [(LO, "    def _rmatvec(self, x: DistributedArray) -> DistributedArray:\n        return self.args[1].rmatvec(self.args[0].rmatvec(x))\n", "    def _rmatvec(self, x: DistributedArray) -> DistributedArray:\n        A, B = self.args\n        if A is B:\n            return (A ** 2).matvec(x)\n        return B.rmatvec(A.rmatvec(x))\n")],
    "the adjoint of the product of an operator with itself, for an operator that is not symmetric",
    "the adjoint of A*A is computed as A*A",
    """
A = np.array([[1., 2.], [0., 3.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
close((op * op).rmatvec(x).local_array, A.T @ A.T @ [1., 2.])
""")
bug("c18_sum_adjoint", "C18",
    [(SLO, """    def _rmatvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
        arr1 = self.args[0].rmatvec(x)
        arr2 = self.args[1].rmatvec(x)
        return arr1 + arr2
""", """    def _rmatvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
        arr1 = self.args[0].rmatvec(x)
        arr2 = self.args[1].rmatvec(x if arr1.base_comm.size else arr1)
        arr1 += arr2
        return arr1
""")],
    "the adjoint of a sum of stacked operators whose first one is real and second one complex",
    "in-place sum fails (or loses the imaginary part) because the first result is real",
    """
R = np.array([[1., 2.], [0., 3.]])
C = R * (1 + 2j)
mk = lambda A: pylops_mpi.MPIStackedBlockDiag([pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype=A.dtype)])])
op = mk(R) + mk(C)
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
y = op.rmatvec(StackedDistributedArray([x]))
close(y[0].local_array, (R + C).conj().T @ [1., 2.])
""")
bug("c18_power_adjoint", "C18",
    [(SLO, "        return self._power(self.args[0].rmatvec, x)\n", "        return self._power(self.args[0].rmatvec, x) if self.args[1] > 1 else self._matvec(x)\n")],
    "the adjoint of the first power of a stacked operator that is not symmetric",
    "(A ** 1).H acts as A",
    """
R = np.array([[1., 2.], [0., 3.]])
op = pylops_mpi.MPIStackedBlockDiag([pylops_mpi.MPIBlockDiag([pylops.MatrixMult(R)])]) ** 1
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
close(op.rmatvec(StackedDistributedArray([x]))[0].local_array, R.T @ [1., 2.])
""")
bug("c19_nan", "C19",
    [(DT, "    passed = np.isclose(xx, yy, rtol, atol)\n", "    passed = not abs(xx - yy) > atol + rtol * abs(yy)\n")],
    "an operator whose output holds NaN",
    "the dot test passes for an operator that returns NaN",
    """
A = np.array([[1., np.nan], [0., 3.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
from pylops_mpi.utils.dottest import dottest
assert not dottest(op, x, x, 2 * size, 2 * size, raiseerror=False)
""")
bug("c19_real", "C19",
    [(DT, "    passed = np.isclose(xx, yy, rtol, atol)\n", "    passed = np.isclose(xx.real, yy.real, rtol, atol)\n")],
    "an operator whose adjoint is wrong in the imaginary part of the product only",
    "the dot test passes for a wrong complex adjoint",
    """
class Bad(pylops.LinearOperator):
    def __init__(self):
        super().__init__(dtype=np.dtype("complex128"), shape=(1, 1))
    def _matvec(self, x):
        return 1j * x
    def _rmatvec(self, x):
        return 1j * x
op = pylops_mpi.MPIBlockDiag([Bad()])
x = DistributedArray((size,), dtype="complex128")
x[:] = 1.
from pylops_mpi.utils.dottest import dottest
assert not dottest(op, x, x, size, size, raiseerror=False)
""")
bug("c20_opc_noconj", "C20",
    [(SO, "        cOpc = np.abs(self.c.dot(Opc.conj()))\n", "        cOpc = np.abs(Opc.dot(self.c) if self.iiter % 2 else self.c.dot(Opc.conj()))\n")],
    "a complex Hermitian system",
    "step length of every other iteration computed without conjugation",
    """
A = np.array([[4., 1 + 2j], [1 - 2j, 5.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype="complex128")])
xt = np.array([1 + 1j, 2 - 3j]) * (1 + rank * 1j)
y = DistributedArray((2 * size,), dtype="complex128")
y[:] = A @ xt
x0 = y.zeros_like()
x = pylops_mpi.cg(op, y, x0, niter=12, tol=1e-20)[0]
close(x.local_array, xt, 1e-6)
""")
bug("c20_beta_old", "C20",
    [(SO, """        self.r -= a * Opc
        k = float(np.abs(self.r.dot(self.r.conj())))
""", """        self.r -= a * Opc
        if self.iiter and self.iiter % 12 == 0:
            # explicit residual against the loss of orthogonality
            self.r = self.y - self.Op.matvec(self.c)
        k = float(np.abs(self.r.dot(self.r.conj())))
""")],
    "more than twelve iterations",
    "the residual is recomputed from the direction instead of the model",
    """
n = 20
d = np.linspace(1., 40., n)
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(d * (rank + 1))])
y = DistributedArray((n * size,))
y[:] = d * (rank + 1)
x, it, cost = pylops_mpi.cg(op, y, y.zeros_like(), niter=60, tol=1e-18)
close(x.local_array, np.ones(n), 1e-6)
""")
bug("c21_neg_damp", "C21",
    [(SO, "        self.damp = damp ** 2\n", "        self.damp = damp * abs(damp)\n")],
    "a negative damping",
    "the damped functional loses its sign: damp^2 negative",
    """
A = np.array([[4., 1.], [1., 5.], [0., 1.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A)])
y = DistributedArray((3 * size,))
y[:] = [1., 2., 3.]
x0 = DistributedArray((2 * size,))
x0[:] = 0.
x = pylops_mpi.cgls(op, y, x0, niter=20, damp=-1., tol=1e-20)[0]
close(x.local_array, np.linalg.solve(A.T @ A + np.eye(2), A.T @ [1., 2., 3.]), 1e-6)
""")
bug("c21_kold_damped", "C21",
    [(SO, "        a = float(np.abs(self.kold / (self.q.dot(self.q.conj()) + self.damp * self.c.dot(self.c.conj()))))\n",
      "        qq = np.abs(self.q.dot(self.q.conj()))\n        a = float(self.kold / (qq + self.damp * np.abs(self.c.dot(self.c)))) if qq > 0 else 0.\n")],
    "a complex damped problem",
    "damping term of the step length computed without conjugation",
    """
A = np.array([[4., 1 + 1j], [1., 5j], [0., 1.]])
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A, dtype="complex128")])
d = np.array([1., 2j, 3.])
y = DistributedArray((3 * size,), dtype="complex128")
y[:] = d * (rank + 1)
x0 = DistributedArray((2 * size,), dtype="complex128")
x0[:] = 0.
x = pylops_mpi.cgls(op, y, x0, niter=4 , damp=2., tol=1e-20)[0]
close(x.local_array, (rank + 1) * np.linalg.solve(A.conj().T @ A + 4 * np.eye(2), A.conj().T @ d), 1e-6)
""")
bug("c22_run_per_call", "C22",
    [(SO, """        niter = self.niter if niter is None else niter
        if niter is None:
            raise ValueError("niter must not be None")
        while self.iiter < niter and self.kold > self.tol:
            showstep = (
                True
                if show
                and (
                    self.iiter < itershow[0]
                    or niter - self.iiter < itershow[1]
                    or self.iiter % itershow[2] == 0
                )
                else False
            )
            x = self.step(x, showstep)
            self.callback(x)
        return x

    def finalize(self, show: bool = False) -> None:
""", """        niter = self.niter if niter is None else niter
        if niter is None:
            raise ValueError("niter must not be None")
        for _ in range(niter):
            if self.kold <= self.tol:
                break
            showstep = (
                True
                if show
                and (
                    self.iiter < itershow[0]
                    or niter - self.iiter < itershow[1]
                    or self.iiter % itershow[2] == 0
                )
                else False
            )
            x = self.step(x, showstep)
            self.callback(x)
        return x

    def finalize(self, show: bool = False) -> None:
""")],
    "the solver object stepped by hand (or run) before run is called with the total number of iterations",
    "more iterations than requested",
    """
n = 8
d = np.linspace(1., 40., n)
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(d * (rank + 1))])
y = DistributedArray((n * size,))
y[:] = d
s = pylops_mpi.optimization.cls_basic.CG(op)
x = s.setup(y, y.zeros_like(), niter=5, tol=0.)
x = s.step(x)
x = s.step(x)
x = s.run(x, 5)
assert s.iiter == 5, s.iiter
""")
bug("c22_callback_first", "C22",
    [(SO, """            x = self.step(x, showstep)
            self.callback(x)
        return x

    def finalize(self, show: bool = False, **kwargs) -> None:
""", """            x = self.step(x, showstep)
            if self.iiter < niter or self.kold > self.tol:
                self.callback(x)
        return x

    def finalize(self, show: bool = False, **kwargs) -> None:
""")],
    "CGLS meeting the tolerance exactly in the last allowed iteration",
    "the callback is not called for that iteration",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Identity(2)])
y = DistributedArray((2 * size,))
y[:] = [1., 2.]
calls = []
out = pylops_mpi.cgls(op, y, y.zeros_like(), niter=1, tol=1e-4, callback=lambda x: calls.append(1))
assert len(calls) == out[2] == 1, (calls, out[2])
""")
bug("c23_show_gather", "C23",
    [(SO, """        msg = f"{self.iiter:6g}        " + strx + f"{self.cost[self.iiter]:11.4e}"
""", """        if not np.isfinite(self.cost[self.iiter]) or np.max(np.abs(x.local_array), initial=0.) > 1e6:
            strx = f"{x.norm():11.4e} (norm)"
        msg = f"{self.iiter:6g}        " + strx + f"{self.cost[self.iiter]:11.4e}"
""")],
    "show=True and a model with elements above 1e6",
    "a collective operation on rank 0 only: the solver blocks",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Identity(2)])
y = DistributedArray((2 * size,))
y[:] = [1e7, 2.]
pylops_mpi.cg(op, y, y.zeros_like(), niter=2, tol=1e-4, show=True)
""", timeout=20)
bug("c23_cgls_tol_local", "C23",
    [(SO, """        damped_x = self.damp * x
        r = self.Op.rmatvec(self.s) - damped_x
""", """        r = self.Op.rmatvec(self.s)
        if self.damp and (isinstance(x, StackedDistributedArray) or np.any(x.local_array)):
            r -= self.damp * x
""")],
    "a damped inversion in which a rank's part of the model vanishes",
    "that rank skips the layout checks of the other ranks: deadlock",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Identity(2)])
y = DistributedArray((2 * size,))
y[:] = 0. if rank == 0 else 2.
pylops_mpi.cgls(op, y, y.zeros_like(), niter=2, damp=1., tol=1e-14)
""", timeout=20)
bug("c25_kind2", "C25",
    [(SD, """        elif kind == "backward":
            self._hmatvec = self._matvec_backward
            self._hrmatvec = self._rmatvec_backward
        else:
            raise NotImplementedError(
                "'kind' must be 'forward', 'centered' or 'backward'"
            )
""", """        else:
            self._hmatvec = self._matvec_backward
            self._hrmatvec = self._rmatvec_backward
""")],
    "an unknown kind of second derivative",
    "accepted as backward",
    """
raises(NotImplementedError, lambda: pylops_mpi.MPISecondDerivative((9,), kind="central"))
""")
bug("c25_svstack_columns", "C25",
    [(VS, """        if len(set(op.shape[1] for op in ops)) > 1:
            raise ValueError("Operators have different number of columns")
        shape = (int(np.sum(op.shape[0] for op in ops)), ops[0].shape[1])
""", """        if len(set(op.shape[1] for op in ops[:2])) > 1:
            raise ValueError("Operators have different number of columns")
        shape = (int(np.sum(op.shape[0] for op in ops)), ops[0].shape[1])
""")],
    "a stack of three or more operators of which only a later one has a different number of columns",
    "accepted",
    """
a = pylops_mpi.MPIBlockDiag([pylops.Identity(2)])
b = pylops_mpi.MPIBlockDiag([pylops.Identity(3)])
raises(ValueError, lambda: pylops_mpi.MPIStackedVStack([a, a, b]))
""")
bug("c25_vstack_columns", "C25",
    [(VS, """        mops = np.concatenate(base_comm.allgather(mops), axis=0)
        if len(set(mops)) > 1:
            raise ValueError("Operators have different number of columns")
        self.mops = int(mops[0])
""", """        if len(set(mops)) > 1 or len(set(m[0] for m in base_comm.allgather(mops))) > 1:
            raise ValueError("Operators have different number of columns")
        self.mops = int(mops[0])
""")],
    "operators of different width within one rank only",
    "that rank raises and the others wait for it",
    """
ops = [pylops.Identity(2), pylops.Identity(3) if rank == 1 else pylops.Identity(2)]
raises(ValueError, lambda: pylops_mpi.MPIVStack(ops))
comm.Barrier()
""", timeout=20)
bug("c26_fredholm_gather", "C26",
    [(FR, """        # gather results
        y[:] = np.vstack(self.base_comm.allgather(y1)).ravel()
        return y

    def _rmatvec""", """        # gather results
        y[:] = np.vstack(x.base_comm.allgather(y1) if hasattr(x, "base_comm") else MPI.COMM_WORLD.allgather(y1)).ravel()
        return y

    def _rmatvec""")],
    "a Fredholm operator on a subgroup of the ranks",
    "the results are gathered from the whole world",
    """
c = comm.Split(rank % 2, rank)
G = np.ones((2, 2, 3)) * (rank + 1)
op = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, base_comm=c)
u = DistributedArray((2 * c.size * 3,), partition=Partition.BROADCAST, base_comm=c)
u[:] = 1.
y = op.matvec(u).local_array.reshape(2 * c.size, 2)
ranks = [r for r in range(size) if r % 2 == rank % 2]
for i in range(2 * c.size):
    close(y[i], 3. * (ranks[i // 2] + 1) * np.ones(2))
""", timeout=20)
bug("c26_stacked_rank", "C26",
    [(DA, """        self.rank = base_comm.Get_rank()
        self.size = base_comm.Get_size()

    def __getitem__(self, index):
        return self.distarrays[index]
""", """        self.rank = MPI.COMM_WORLD.Get_rank()
        self.size = base_comm.Get_size()

    def __getitem__(self, index):
        return self.distarrays[index]
""")],
    "stacked arrays on a communicator whose rank 0 is not rank 0 of the world",
    "rank of stacked arrays taken from the world: the solver report is printed by another rank or by none",
    """
c = comm.Split(0, -rank)
a = DistributedArray.to_dist(np.arange(4.), base_comm=c)
s = StackedDistributedArray([a, a], base_comm=c)
assert s.rank == c.rank and s.size == c.size
""")
bug("c27_pow_iter", "C27",
    [(LO, """        super(_PowerLinearOperator, self).__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
        self.args = (A, p)
""", """        super(_PowerLinearOperator, self).__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
        self.args = (A, p)
        self._steps = iter(range(p))
"""), (LO, """        for _ in range(self.args[1]):
            res = fun(res)
""", """        for _ in self._steps if fun == self.args[0].matvec else range(self.args[1]):
            res = fun(res)
""")],
    "the forward of a power applied a second time",
    "the second application is the identity",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(np.array([2., 3.]))]) ** 2
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
for _ in range(2):
    close(op.matvec(x).local_array, [4., 18.])
""")
bug("c27_failed_call", "C27",
    [(BD, """        y1 = []
        for iop, oper in enumerate(self.ops):
            y1.append(oper.matvec(x.local_array[self.mmops[iop]:
                                                self.mmops[iop + 1]]))
        y[:] = ncp.concatenate(y1)
        return y
""", """        y1 = self._parts = getattr(self, "_parts", [])
        for iop, oper in enumerate(self.ops):
            y1.append(oper.matvec(x.local_array[self.mmops[iop]:
                                                self.mmops[iop + 1]]))
        y[:] = ncp.concatenate(y1)
        self._parts = []
        return y
""")],
    "an application that fails in the second of two blocks, followed by a valid one",
    "the parts of the failed call are still there",
    """
class Once(pylops.LinearOperator):
    def __init__(self):
        super().__init__(dtype=np.dtype("float64"), shape=(2, 2))
        self.bad = True
    def _matvec(self, x):
        if self.bad:
            self.bad = False
            raise RuntimeError("failed")
        return x
    def _rmatvec(self, x):
        return x
op = pylops_mpi.MPIBlockDiag([pylops.Identity(2), Once()])
x = DistributedArray((4 * size,))
x[:] = [1., 2., 3., 4.]
raises(RuntimeError, lambda: op.matvec(x))
close(op.matvec(x).local_array, [1., 2., 3., 4.])
""")
bug("c27_sampling_once", "C27",
    [(FD, """        y_backward = ghosted_x[1:] - ghosted_x[:-1]
        if self.rank == 0:
            y_backward = ncp.append(ncp.zeros((1,) + self.dims[1:]), y_backward, axis=0)
        y[:] = y_backward / self.sampling
        return y
""", """        y_backward = ghosted_x[1:] - ghosted_x[:-1]
        if self.rank == 0:
            y_backward = ncp.append(ncp.zeros((1,) + self.dims[1:]), y_backward, axis=0)
        if self.edge and not hasattr(self, "_inv"):
            self._inv = np.array(1. / self.sampling, dtype=x.dtype)
        y[:] = y_backward * self._inv if self.edge else y_backward / self.sampling
        return y
""")],
    "backward first derivative with edge=True applied first to a single-precision (or integer) vector",
    "later double-precision vectors are scaled with the rounded sampling",
    """
d = pylops_mpi.MPIFirstDerivative((9,), sampling=.3, kind="backward", edge=True)
g = np.arange(9.) ** 2
d.matvec(DistributedArray.to_dist(g.astype("f4")))
close(d.matvec(DistributedArray.to_dist(g)).asarray(), pylops.FirstDerivative(9, sampling=.3, kind="backward", edge=True).matvec(g))
""")
bug("c28_gt_dtype", "C28",
    [(FR, "            self.GT = G.transpose((0, 2, 1)).conj()\n", "            self.GT = G.transpose((0, 2, 1)).conj().astype(np.complex64 if np.iscomplexobj(G) else G.dtype)\n")],
    "a double-precision complex kernel with stored transpose",
    "adjoint computed in single precision",
    """
G = (np.arange(12. ).reshape(2, 2, 3) + 1) * (1 + 1j) / 3
op = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, saveGt=True, dtype="complex128")
u = DistributedArray((2 * size * 2,), partition=Partition.BROADCAST, dtype="complex128")
u[:] = np.arange(4. * size) + 1j
y = op.rmatvec(u).local_array.reshape(2 * size, 3)
v = (np.arange(4. * size) + 1j).reshape(2 * size, 2)
for i in range(2 * size):
    close(y[i], G[i % 2].conj().T @ v[i], 1e-12)
""")
bug("c28_vstack_dtype_arg", "C28",
    [(VS, """        y1 = ncp.sum(ncp.vstack(y1), axis=0)
        y[:] = self.base_comm.allreduce(y1, op=MPI.SUM)
""", """        y1 = ncp.sum(ncp.vstack(y1), axis=0)
        buf = ncp.zeros(self.shape[1], dtype=np.result_type(y1.dtype, self.ops[0].dtype))
        buf[:] = y1
        out = ncp.zeros_like(buf)
        self.base_comm.Allreduce(buf, out, op=MPI.SUM)
        y[:] = out
""")],
    "operators of different types on different ranks of a vertical stack",
    "a typed reduction with different types on the ranks: wrong values",
    """
A = np.ones((2, 3)) * (1 if rank else 1 + 2j)
op = pylops_mpi.MPIVStack([pylops.MatrixMult(A, dtype=A.dtype)])
x = DistributedArray((2 * size,))
x[:] = [1., 2.]
close(op.rmatvec(x).local_array, np.ones(3) * 3 * (size - 2j))
""", timeout=20)
bug("c29_gather_rank0", "C29",
    [(PL, """    full_dist_arr = dist_array.asarray()
    full_arr = arr.asarray()
    if arr.rank == 0:
""", """    full_dist_arr = dist_array.asarray()
    full_arr = arr.asarray() if arr.mask is None or arr.rank == 0 else None
    if arr.rank == 0:
""")],
    "plotting a masked array",
    "gathering on rank 0 only: the ranks no longer match in their communication",
    """
x = DistributedArray((4 * size, 2), mask=[0] * (size - 1) + [1])
x[:] = rank
from pylops_mpi.plotting.plotting import plot_distributed_array
plot_distributed_array(x)
x.asarray()
y = x.base_comm.allreduce(1)
assert y == size
""", timeout=20)
bug("c29_titles", "C29",
    [(PL, "            ax[i].imshow(global_gather[i], cmap='rainbow', vmin=vmin, vmax=vmax)\n", "            part = global_gather[i] if global_gather[i].shape[0] >= global_gather[i].shape[1] // 8 else global_gather[i].T\n            ax[i].imshow(part, cmap='rainbow', vmin=vmin, vmax=vmax)\n")],
    "local parts much wider than tall",
    "wide parts are drawn transposed",
    """
import matplotlib.pyplot as plt
from pylops_mpi.plotting.plotting import plot_local_arrays
x = DistributedArray((size, 20))
x[:] = np.arange(20.) + rank
plot_local_arrays(x, "t")
if rank == 0:
    assert plt.gcf().axes[1].images[0].get_array().shape == (1, 20)
""")
bug("c31_svstack_tail", "C31",
    [(VS, """        for xx, oper in zip(x[1:], self.ops[1:]):
            y = y + oper.rmatvec(xx)
        return y
""", """        for xx, oper in zip(x[1:4], self.ops[1:4]):
            y = y + oper.rmatvec(xx)
        return y
""")],
    "a regularised inversion with five or more stacked operators",
    "the contributions of the fifth and later operators are dropped in the adjoint",
    """
n = 2
ops = [pylops_mpi.MPIBlockDiag([pylops.Diagonal(np.array([1., 2.]) * (k + 1))]) for k in range(5)]
S = pylops_mpi.MPIStackedVStack(ops)
x = DistributedArray((n * size,))
x[:] = [1., 1.]
y = S.matvec(x)
z = S.rmatvec(y)
close(z.local_array, np.array([1., 4.]) * 55.)
""")

# ---- batch 7: gaps found by trial edits, now covered ------------------------------------------------------------------
bug("c05_count_imag", "C05",
    [(DA, "np.count_nonzero(local_array, axis=axis)", "np.count_nonzero(local_array.real, axis=axis)")],
    "the 0-norm of an array with purely imaginary elements",
    "elements with a zero real part are not counted",
    """
x = DistributedArray((2 * size,), dtype="complex128")
x[:] = [1j, 1.]
close(x.norm(0), 2 * size)
""")
bug("c08_norm_ord", "C08",
    [(DA, "            norm = ncp.power(ncp.sum(ncp.power(norms, ord)), 1. / ord)", "            norm = ncp.linalg.norm(norms, ord if ord >= 1 else 1)")],
    "a norm order below one of a stacked array",
    "the components' norms are added instead of combined",
    """
a = DistributedArray((2 * size,)); a[:] = [1., 4.]
b = DistributedArray((2 * size,)); b[:] = [9., 1.]
v = np.tile([1., 2., 3., 1.], size)
close(StackedDistributedArray([a, b]).norm(0.5), v.sum() ** 2)
""")
bug("c20_monotone", "C20",
    [(SO, "        b = float(k / self.kold)\n        self.c = self.r + b * self.c\n", "        b = float(k / self.kold) if k < 10 * self.kold else 0.\n        self.c = self.r + b * self.c\n")],
    "a badly conditioned system whose residual grows by more than a factor three in an iteration",
    "the search direction is reset to the residual",
    """
d = np.array([1., 1000.])
v = np.array([1., 1e-2])
v = np.tile(v, size)
D = np.tile(d, size)
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(d)])
y = DistributedArray((2 * size,)); y[:] = [1., 1e-2]
x0 = DistributedArray((2 * size,)); x0[:] = 0.
x, n, cost = pylops_mpi.cg(op, y, x0, niter=2, tol=0.)[:3]
r = v.copy(); c = r.copy(); k = r @ r; ref = [np.sqrt(k)]
for i in range(2):
    a = k / (c @ (D * c)); r = r - a * D * c; kn = r @ r
    c = r + kn / k * c; k = kn; ref.append(np.sqrt(k))
assert ref[1] > 4 * ref[0], ref
close(np.asarray(cost)[:2], ref[:2], 1e-8)
close(x.asarray(), v / D, 1e-6)
""")
bug("c21_damp_x0", "C21",
    [(SO, "        r = self.Op.rmatvec(self.s) - damped_x\n        self.rank = x.rank\n", "        r = self.Op.rmatvec(self.s) - damped_x * float(self.damp < 1)\n        self.rank = x.rank\n")],
    "a damping of one or more with a non-zero initial guess",
    "the damping term of the initial gradient is dropped",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(np.array([1., 2.]))])
y = DistributedArray((2 * size,)); y[:] = [1., 4.]
x0 = DistributedArray((2 * size,)); x0[:] = [3., -1.]
x = pylops_mpi.cgls(op, y, x0, niter=20, damp=1.5, tol=1e-20)[0]
d = np.array([1., 2.])
close(x.local_array, d * np.array([1., 4.]) / (d ** 2 + 1.5 ** 2), 1e-7)
""")
bug("c22_cost_trunc", "C22",
    [(SO, "        self.cost = np.array(self.cost)\n        if show and self.rank == 0:\n            self._print_finalize(nbar=55)", "        self.cost = np.array(self.cost if self.niter is None else self.cost[:self.niter + 1])\n        if show and self.rank == 0:\n            self._print_finalize(nbar=55)")],
    "a solver run on beyond the iteration limit given to setup",
    "the history is cut to the limit given to setup",
    """
from pylops_mpi.optimization.cls_basic import CG
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(np.arange(1., 6.))])
y = DistributedArray((5 * size,)); y[:] = 1.
x = DistributedArray((5 * size,)); x[:] = 0.
s = CG(op)
x = s.setup(y, x, niter=2, tol=0.)
x = s.run(x, 2)
x = s.run(x, 4)
s.finalize()
assert len(s.cost) == s.iiter + 1, (len(s.cost), s.iiter)
""")
bug("c29_share_axis", "C29",
    [(PL, "            ax[i].set_yticks(np.arange(global_gather[i].shape[0]))", "            ax[i].set_yticks(np.arange(global_gather[0].shape[0]))")],
    "local parts with different numbers of rows",
    "later panels get the ticks of the first part, stretching their limits",
    """
import matplotlib.pyplot as plt
from pylops_mpi.plotting.plotting import plot_local_arrays
x = DistributedArray((3 * size - 1, 2))
x[:] = rank
plot_local_arrays(x, "t")
if rank == 0:
    a = plt.gcf().axes[-1]
    assert len(a.get_yticks()) == 2, a.get_yticks()
""")
bug("c15_real_data_conj", "C15",
    [(FR, """                    ncp.matmul(x.transpose(0, 2, 1).conj(), self.G)
                    .transpose(0, 2, 1)
                    .conj()
                )
""", """                    ncp.matmul(x.transpose(0, 2, 1).conj(), self.G)
                    .transpose(0, 2, 1)
                )
                y1 = y1.conj() if ncp.iscomplexobj(x) else y1
""")],
    "a real vector under the adjoint of a complex kernel without stored transpose",
    "the conjugation of the kernel is skipped for real data",
    """
G = (np.arange(12.).reshape(2, 2, 3) + 1) * (1 + 1j) / 3
op = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, saveGt=False, usematmul=True, dtype="complex128")
u = DistributedArray((2 * size * 2,), partition=Partition.BROADCAST, dtype="float64")
u[:] = np.arange(4. * size)
y = op.rmatvec(u).local_array.reshape(2 * size, 3)
v = np.arange(4. * size).reshape(2 * size, 2)
for i in range(2 * size):
    close(y[i], G[i % 2].conj().T @ v[i], 1e-9)
""")
bug("c10_square_total", "C10",
    [(BD, "            y1.append(oper.rmatvec(x.local_array[self.nnops[iop]:\n                                                 self.nnops[iop + 1]]))", "            offs = self.mmops if self.nops == self.mops else self.nnops\n            y1.append(oper.rmatvec(x.local_array[offs[iop]:\n                                                 offs[iop + 1]]))")],
    "rectangular blocks on a rank whose total row and column counts coincide",
    "the adjoint slices its input with the column offsets",
    """
A, B = np.arange(6.).reshape(2, 3) + 1, np.arange(6.).reshape(3, 2) - 2
op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(A), pylops.MatrixMult(B)])
x = DistributedArray((5 * size,)); x[:] = np.arange(5.) + 1
close(op.rmatvec(x).local_array, np.concatenate([A.T @ [1, 2], B.T @ [3, 4, 5]]))
""")
bug("c23_norm_empty", "C23",
    [(DA, "        if axis == -1:\n            # Flatten the local arrays and calculate norm\n", "        if axis == -1 and x.local_array.size == 0:\n            return np.float64(0.)\n        if axis == -1:\n            # Flatten the local arrays and calculate norm\n")],
    "the norm of an array with fewer elements than ranks",
    "ranks without elements skip the reduction",
    """
x = DistributedArray((size - 1,))
x[:] = 2.
close(x.norm(1), 2. * (size - 1))
assert comm.allreduce(1) == size
""", timeout=20)
bug("c28_scaled_np", "C28",
    [(LO, "dtype=_get_dtype([A], [type(alpha)]),", "dtype=_get_dtype([A], [type(alpha)]) if not isinstance(alpha, np.generic) else A.dtype,")],
    "a real operator scaled with a NumPy complex number",
    "the scaled operator claims a real type",
    """
op = pylops_mpi.MPIBlockDiag([pylops.Diagonal(np.array([1., 2.]))]) * np.complex128(2j)
assert np.issubdtype(op.dtype, np.complexfloating), op.dtype
""")
bug("c01_f_order", "C01",
    [(DA, "            dist_array[:] = x[tuple(slices)]\n", "            x = x.ravel(order='K').reshape(x.shape)\n            dist_array[:] = x[tuple(slices)]\n")],
    "scattering an array in Fortran order",
    "the elements are distributed in memory order",
    """
a = np.asfortranarray(np.arange(6. * size).reshape(2 * size, 3))
close(DistributedArray.to_dist(a).asarray(), a)
""")
bug("c25_lap_len", "C25",
    [(LA, "        if not (len(axes) == len(weights) == len(sampling)):", "        if not (len(axes) == len(weights)):")],
    "a Laplacian with more samplings than axes",
    "the surplus is silently ignored",
    """
raises(ValueError, lambda: pylops_mpi.MPILaplacian((4 * size, 5), axes=(0, 1), weights=(1, 1), sampling=(1, 1, 1)))
""")
bug("c26_stacked_copy", "C26",
    [(DA, "        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays],\n                                      base_comm=self.base_comm)", "        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays])")],
    "a copy of a stack living on a sub-communicator",
    "the copy reports the world communicator",
    """
sub = comm.Split(rank % 2, rank)
a = DistributedArray((3 * sub.size,), base_comm=sub); a[:] = 1.
s = StackedDistributedArray([a], base_comm=sub)
c = s.copy()
assert c.base_comm == sub and c.size == sub.size
""")

# ---- batch 8 --------------------------------------------------------------------------------------------------------
bug("c02_ellipsis", "C02",
    [(DA, "            self.local_array[index] = self.base_comm.bcast(value)", "            self.local_array[index] = value if index is Ellipsis else self.base_comm.bcast(value)")],
    "an assignment through [...] of values that differ between ranks",
    "every rank keeps its own values in a broadcast array",
    """
x = DistributedArray((4,), partition=Partition.BROADCAST)
x[:] = 0.
x[...] = np.arange(4.) + rank
close(x.local_array, np.arange(4.))
""")
bug("c03_ravel_4d", "C03",
    [(DA, "        local_array = np.ravel(self.local_array, order=order)", "        local_array = np.ravel(self.local_array, order=order) if self.ndim < 4 else np.ravel(self.local_array)")],
    "flattening an array of four or more dimensions in Fortran order",
    "the requested order is ignored",
    """
a = np.arange(16. * size).reshape(2 * size, 2, 2, 2)
x = DistributedArray.to_dist(a)
close(x.ravel("F").local_array, a[2 * rank:2 * rank + 2].ravel("F"))
""")
bug("c14_axis_twice", "C14",
    [(LA, "        for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):\n", "        for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):\n            if ax in self.axes[:1]:\n                continue\n")],
    "a Laplacian with the first axis given once more",
    "the later occurrence of the axis is dropped",
    """
dims = (3 * size, 5)
kw = dict(axes=(1, -1), weights=(1., 2.), sampling=(1., 2.))
v = np.cos(np.arange(15. * size))
x = DistributedArray.to_dist(v)
close(pylops_mpi.MPILaplacian(dims, **kw).matvec(x).asarray(), pylops.Laplacian(dims, **kw).matvec(v))
""")
