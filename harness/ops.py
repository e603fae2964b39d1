"""Operator zoo: distributed operators with their dense matrices and vector layouts ("spaces")."""
import numpy as np
import pylops
import pylops_mpi
from pylops_mpi import (MPILinearOperator, MPIStackedLinearOperator, MPIBlockDiag, MPIStackedBlockDiag, MPIVStack, MPIStackedVStack,
                        MPIHStack, MPIFirstDerivative, MPISecondDerivative, MPILaplacian, MPIGradient,
                        DistributedArray, StackedDistributedArray)
from pylops_mpi.signalprocessing.Fredholm1 import MPIFredholm1
from pylops_mpi.waveeqprocessing.MDC import MPIMDC
from lib import *             # noqa


SIG = {         # documented order and defaults of the constructors' arguments
    "first": [("dims",), ("sampling", 1.), ("kind", "centered"), ("edge", False), ("order", 3), ("base_comm",), ("dtype", np.float64)],
    "second": [("dims",), ("sampling", 1.), ("kind", "centered"), ("edge", False), ("base_comm",), ("dtype", np.float64)],
    "gradient": [("dims",), ("sampling", 1), ("edge", False), ("kind", "centered"), ("base_comm",), ("dtype", np.float64)],
    "laplacian": [("dims",), ("axes", (-2, -1)), ("weights", (1, 1)), ("sampling", (1, 1)), ("edge", False), ("kind", "centered"), ("base_comm",), ("dtype", np.float64)],
    "fredholm": [("G",), ("nz", 1), ("saveGt", False), ("usematmul", True), ("base_comm",), ("dtype", np.float64)],
    "mdc": [("G",), ("nt",), ("nv",), ("nfreq",), ("dt", 1.), ("dr", 1.), ("twosided", True), ("fftengine", "numpy"), ("saveGt", True), ("conj", False), ("usematmul", False),
            ("prescaled", False), ("base_comm",)],
}


def build(rng, cls, name, kw):
    """Construct with arguments given by name, in order, or left out where they have the documented default."""
    mode, kw = int(rng.integers(4)), dict(kw)

    def default(a):
        if len(a) == 1 or a[0] not in kw:
            return False
        v, d = kw[a[0]], a[1]
        return np.dtype(v) == np.dtype(d) if a[0] == "dtype" else not isinstance(v, np.ndarray) and type(v) in (type(d), int, float, list) and \
            (tuple(v) == d if isinstance(d, tuple) else np.isscalar(v) and v == d)
    args = []
    if mode in (2, 3):
        for a in SIG[name][:int(rng.integers(1, len(SIG[name]) + 1))]:
            if a[0] in kw:
                args.append(kw.pop(a[0]))
            else:
                break
    if mode in (1, 2):
        for a in SIG[name]:
            if default(a):
                del kw[a[0]]
    return cls(*args, **kw)


class Space:
    """1-D vector space: part 'S' with the sizes held by each rank, or 'B'/'U' replicated of size n; or a stack of spaces."""

    def __init__(self, part=None, n=None, sizes=None, comps=None):
        self.comps = comps
        self.part, self.sizes = part, list(sizes) if sizes is not None else None
        self.n = sum(c.n for c in comps) if comps else (sum(sizes) if sizes is not None else n)

    def key(self):
        return tuple(c.key() for c in self.comps) if self.comps else (self.part, self.n, tuple(self.sizes) if self.sizes else None)

    def lay(self):
        return Lay(self.part, 0, self.sizes)

    def vec(self, ctx, v):
        """Distributed vector holding v."""
        if self.comps:
            o, out = 0, []
            for c in self.comps:
                out.append(c.vec(ctx, v[o:o + c.n]))
                o += c.n
            return StackedDistributedArray(out, **ctx.kw())
        return mk(ctx, np.ascontiguousarray(v), self.lay())

    def own(self, ctx, v):
        """What this rank must hold of v (list for stacks)."""
        if self.comps:
            o, out = 0, []
            for c in self.comps:
                out.append(c.own(ctx, v[o:o + c.n]))
                o += c.n
            return out
        return self.lay().own(v, ctx.rank, ctx.size)

    def check(self, ctx, y, v, key, what, tol=None, layout=True, dtype=None, bound=None):
        """y must be the distributed vector v in this space (bound: magnitude of the terms of each element, for the error scale)."""
        if self.comps:
            if not ctx.true(isinstance(y, StackedDistributedArray), key, f"{what} is {type(y).__name__}"):
                return
            if not ctx.eq(y.narrays, len(self.comps), key, what + " components"):
                return
            o = 0
            for k, c in enumerate(self.comps):
                c.check(ctx, y[k], v[o:o + c.n], key, f"{what} component {k}", tol, layout, dtype,
                        None if bound is None else bound[o:o + c.n])
                o += c.n
            return
        if not ctx.true(isinstance(y, DistributedArray), key, f"{what} is {type(y).__name__}"):
            return
        if not ctx.eq(tuple(int(k) for k in y.global_shape), (self.n,), key, what + " global shape"):
            return
        ctx.true(y.partition is PART[self.part] or (self.part == "U" and y.partition is B), key, f"{what}: partition {y.partition}")
        scale = float(np.max(np.abs(v if bound is None else bound))) if v.size else 1.
        if layout:
            ctx.close(y.local_array, self.own(ctx, v), key, f"{what} local part", tol=tol, scale=max(scale, 1e-30))
            ctx.true(tuple(y.local_shape) == y.local_array.shape, key, f"{what}: local_shape {y.local_shape} but data {y.local_array.shape}")
        else:
            g = gather(ctx, y)
            ctx.close(g, v, key, f"{what} gathered", tol=tol, scale=max(scale, 1e-30))
        ctx.true(y.dtype == y.local_array.dtype, key, f"{what}: dtype {y.dtype} but data {y.local_array.dtype}")
        if dtype is not None:
            ctx.true(np.dtype(y.dtype) == np.dtype(dtype), key + "-dtype", f"{what}: dtype {y.dtype}, expected {np.dtype(dtype)}")
        ctx.rep(what + " dtype", str(np.dtype(y.dtype)))
        if self.part == "B":
            ctx.rep(what, y.local_array)


def flat(y):
    """Gathered flat content of a distributed vector or stack (library gathers)."""
    return y.asarray().ravel()


class Zoo:
    def __init__(self, op, A, dom, ran, name):
        self.op, self.A, self.dom, self.ran, self.name = op, A, dom, ran, name


def split_at_least(rng, n, k):
    """n into k positive parts."""
    if k > n:
        k = n
    cuts = np.sort(rng.choice(np.arange(1, n), k - 1, replace=False)) if k > 1 else []
    return [int(x) for x in np.diff(np.concatenate([[0], cuts, [n]]))]


def mat(rng, m, n, dt, scale=1.):
    a = rdata(rng, (m, n), dt)
    return (a * scale).astype(dt) if np.dtype(dt).kind in "fc" else a


def mmop(a, how=0):
    """Serial pylops operator for the matrix a (several realisations)."""
    if how == 1 and a.shape[0] == a.shape[1] and np.count_nonzero(a - np.diag(np.diag(a))) == 0:
        return pylops.Diagonal(np.diag(a).copy(), dtype=a.dtype)
    return pylops.MatrixMult(np.ascontiguousarray(a), dtype=a.dtype)


def mmops(bs):
    """One operator per block; blocks that are the same array share one operator object."""
    made = {id(b): mmop(b) for b in bs}
    return [made[id(b)] for b in bs]


def again(rng, bs):
    """Some of the blocks become earlier blocks of the same shape (the same object)."""
    if rng.random() < .25:
        for k in range(1, len(bs)):
            same = [b for b in bs[:k] if b.shape == bs[k].shape]
            if same:
                bs[k] = pick(rng, same)
    return bs


def z_blockdiag(ctx, rng, dt, rows=None, cols=None, mask=None, maxb=3, hi=4, square=False, spd=False, scale=1.):
    """MPIBlockDiag with given per-rank total rows/cols (>=1 each) or random ones."""
    P = ctx.size
    blocks = []
    for r in range(P):
        nb = int(rng.integers(1, maxb + 1))
        if rows is not None or cols is not None:
            m_, n_ = (rows[r] if rows is not None else None), (cols[r] if cols is not None else None)
            lim = min(x for x in (m_, n_) if x is not None)
            nb = min(nb, lim)
            ms = split_at_least(rng, m_, nb) if m_ is not None else [int(x) for x in rng.integers(1, hi + 1, nb)]
            ns = split_at_least(rng, n_, nb) if n_ is not None else [int(x) for x in rng.integers(1, hi + 1, nb)]
        else:
            ms = [int(x) for x in rng.integers(1, hi + 1, nb)]
            ns = ms if square else [int(x) for x in rng.integers(1, hi + 1, nb)]
        if square:
            ns = ms
        blocks.append(again(rng, [mat(rng, m, n, dt, scale) for m, n in zip(ms, ns)]))
    if spd:
        blocks = [[b @ b.conj().T + np.eye(len(b)) * len(b) for b in bs] for bs in blocks]
        blocks = [[b.astype(dt) for b in bs] for bs in blocks]
    allb = [b for bs in blocks for b in bs]
    A = dense_bd(allb)
    op = MPIBlockDiag(mmops(blocks[ctx.rank]), mask=mask, **ctx.kw())
    z = Zoo(op, A, Space("S", sizes=[sum(b.shape[1] for b in bs) for bs in blocks]),
            Space("S", sizes=[sum(b.shape[0] for b in bs) for bs in blocks]), "blockdiag")
    z.blocks = blocks
    return z


def dense_bd(bl):
    m, n = sum(b.shape[0] for b in bl), sum(b.shape[1] for b in bl)
    A = np.zeros((m, n), dtype=np.result_type(*[b.dtype for b in bl]))
    i = j = 0
    for b in bl:
        A[i:i + b.shape[0], j:j + b.shape[1]] = b
        i += b.shape[0]
        j += b.shape[1]
    return A


def z_vstack(ctx, rng, dt, n=None, rows=None, maxb=3, hi=4, part="B", scale=1.):
    P = ctx.size
    n = int(rng.integers(1, 9)) if n is None else n
    blocks = []
    for r in range(P):
        nb = int(rng.integers(1, maxb + 1))
        ms = split_at_least(rng, rows[r], nb) if rows is not None else [int(x) for x in rng.integers(1, hi + 1, nb)]
        blocks.append(again(rng, [mat(rng, m, n, dt, scale) for m in ms]))
    A = np.vstack([b for bs in blocks for b in bs])
    op = MPIVStack(mmops(blocks[ctx.rank]), **ctx.kw())
    z = Zoo(op, A, Space(part, n=n), Space("S", sizes=[sum(b.shape[0] for b in bs) for bs in blocks]), "vstack")
    z.blocks = blocks
    return z


def z_hstack(ctx, rng, dt, m=None, cols=None, maxb=3, hi=4, part="B", scale=1.):
    P = ctx.size
    m = int(rng.integers(1, 9)) if m is None else m
    blocks = []
    for r in range(P):
        nb = int(rng.integers(1, maxb + 1))
        ns = split_at_least(rng, cols[r], nb) if cols is not None else [int(x) for x in rng.integers(1, hi + 1, nb)]
        blocks.append(again(rng, [mat(rng, m, n, dt, scale) for n in ns]))
    A = np.hstack([b for bs in blocks for b in bs])
    op = MPIHStack(mmops(blocks[ctx.rank]), **ctx.kw())
    z = Zoo(op, A, Space("S", sizes=[sum(b.shape[1] for b in bs) for bs in blocks]), Space(part, n=m), "hstack")
    z.blocks = blocks
    return z


def z_local(ctx, rng, dt, m=None, n=None, part="B", scale=1., square=False):
    m = int(rng.integers(1, 9)) if m is None else m
    n = m if square else (int(rng.integers(1, 9)) if n is None else n)
    a = mat(rng, m, n, dt, scale)
    kw = dict(ctx.kw())
    op = MPILinearOperator(Op=mmop(a), **kw)
    return Zoo(op, a, Space(part, n=n), Space(part, n=m), "local")


def dense_of(sop, dt):
    """Dense matrix of a serial pylops operator, column by column."""
    m, n = sop.shape
    A = np.zeros((m, n), dtype=dt)
    for j in range(n):
        e = np.zeros(n, dtype=dt)
        e[j] = 1
        A[:, j] = sop.matvec(e)
    return A


def deriv_space(ctx, dims):
    P = ctx.size
    rest = int(np.prod(dims[1:]))
    return Space("S", sizes=[r * rest for r in balanced(dims[0], P)])


def z_first(ctx, rng, dt, dims=None, kind=None, order=None, edge=None, sampling=None):
    kind = kind or pick(rng, ["forward", "backward", "centered"])
    order = order or (pick(rng, [3, 5]) if dims is None or dims[0] // ctx.size >= 4 else 3)
    edge = bool(rng.integers(2)) if edge is None else edge
    need = 4 if (kind == "centered" and order == 5) else 3
    dims = dims or rdims(rng, ctx.size, need)
    sampling = float(rng.uniform(.5, 2)) if sampling is None else sampling
    op = MPIFirstDerivative(dims=dims, sampling=sampling, kind=kind, order=order, edge=edge, dtype=dt, **ctx.kw())
    s = pylops.FirstDerivative(dims=dims, axis=0, sampling=sampling, kind=kind, order=order, edge=edge, dtype=dt)
    sp = deriv_space(ctx, dims)
    return Zoo(op, dense_of(s, dt), sp, sp, "first")


def z_second(ctx, rng, dt, dims=None, kind=None, edge=None, sampling=None):
    kind = kind or pick(rng, ["forward", "backward", "centered"])
    edge = bool(rng.integers(2)) if edge is None else edge
    dims = dims or rdims(rng, ctx.size, 3)
    sampling = float(rng.uniform(.5, 2)) if sampling is None else sampling
    op = MPISecondDerivative(dims=dims, sampling=sampling, kind=kind, edge=edge, dtype=dt, **ctx.kw())
    s = pylops.SecondDerivative(dims=dims, axis=0, sampling=sampling, kind=kind, edge=edge, dtype=dt)
    sp = deriv_space(ctx, dims)
    return Zoo(op, dense_of(s, dt), sp, sp, "second")


def rdims(rng, P, need, maxrest=6, nd=None):
    nd = int(rng.integers(1, 3)) if nd is None else nd
    d0 = need * P + int(rng.integers(0, P + 1))
    rest = [int(x) for x in rng.integers(3, maxrest, nd - 1)]
    return tuple([d0] + rest)


def z_laplacian(ctx, rng, dt, dims=None):
    dims = dims or rdims(rng, ctx.size, 3, nd=2)
    kind = pick(rng, ["forward", "backward", "centered"])
    edge = bool(rng.integers(2))
    w = tuple(float(x) for x in rng.uniform(.5, 2, 2))
    s = tuple(float(x) for x in rng.uniform(.5, 2, 2))
    op = MPILaplacian(dims=dims, axes=(0, 1), weights=w, sampling=s, kind=kind, edge=edge, dtype=dt, **ctx.kw())
    so = pylops.Laplacian(dims=dims, axes=(0, 1), weights=w, sampling=s, kind=kind, edge=edge, dtype=dt)
    sp = deriv_space(ctx, dims)
    return Zoo(op, dense_of(so, dt), sp, sp, "laplacian")


def z_gradient(ctx, rng, dt, dims=None):
    dims = dims or rdims(rng, ctx.size, 3, nd=2)
    kind = pick(rng, ["forward", "backward", "centered"])
    edge = bool(rng.integers(2))
    s = tuple(float(x) for x in rng.uniform(.5, 2, len(dims)))
    op = MPIGradient(dims=dims, sampling=s, kind=kind, edge=edge, dtype=dt, **ctx.kw())
    so = pylops.Gradient(dims=dims, sampling=s, kind=kind, edge=edge, dtype=dt)
    sp = deriv_space(ctx, dims)
    return Zoo(op, dense_of(so, dt), sp, Space(comps=[sp] * len(dims)), "gradient")


def z_fredholm(ctx, rng, dt, nsl=None, nx=None, ny=None, nz=None, saveGt=None, usematmul=None, part="B"):
    P = ctx.size
    nsl = [int(x) for x in rng.integers(2, 5, P)] if nsl is None else nsl
    nx = int(rng.integers(1, 5)) if nx is None else nx
    ny = int(rng.integers(1, 5)) if ny is None else ny
    nz = int(rng.integers(1, 4)) if nz is None else nz
    saveGt = bool(rng.integers(2)) if saveGt is None else saveGt
    usematmul = bool(rng.integers(2)) if usematmul is None else usematmul
    n = sum(nsl)
    G = rdata(rng, (n, nx, ny), dt)
    off = np.concatenate([[0], np.cumsum(nsl)])
    Gl = np.ascontiguousarray(G[off[ctx.rank]:off[ctx.rank + 1]])
    op = MPIFredholm1(Gl, nz=nz, saveGt=saveGt, usematmul=usematmul, dtype=dt, **ctx.kw())
    A = dense_bd([np.kron(G[k], np.eye(nz)).astype(dt) for k in range(n)])
    z = Zoo(op, A, Space(part, n=n * ny * nz), Space(part, n=n * nx * nz), "fredholm")
    z.G, z.Gl, z.par = G, Gl, (nz, saveGt, usematmul)
    return z


def z_mdc(ctx, rng, dt="c16", ns=None, nr=None, nv=None):
    P = ctx.size
    cdt = {"f4": "c8", "c8": "c8"}.get(np.dtype(dt).str[1:], "c16")
    nsl = [int(x) for x in rng.integers(2, 4, P)]
    nf = sum(nsl)
    nt = 2 * nf + 1 + 2 * int(rng.integers(0, 3))
    ns = int(rng.integers(2, 4)) if ns is None else ns
    nr = int(rng.integers(2, 4)) if nr is None else nr
    nv = int(rng.integers(1, 3)) if nv is None else nv
    G = rdata(rng, (nf, ns, nr), cdt)
    off = np.concatenate([[0], np.cumsum(nsl)])
    kw = dict(dt=float(rng.uniform(.5, 2)), dr=float(rng.uniform(.5, 2)), twosided=bool(rng.integers(2)), saveGt=bool(rng.integers(2)),
              conj=bool(rng.integers(2)), usematmul=bool(rng.integers(2)), prescaled=bool(rng.integers(2)))
    op = MPIMDC(np.ascontiguousarray(G[off[ctx.rank]:off[ctx.rank + 1]]), nt=nt, nv=nv, nfreq=nf, **kw, **ctx.kw())
    A = mdc_dense(G, nt, nv, **kw)
    rdt = np.real(np.ones(1, cdt)).dtype
    z = Zoo(op, A.astype(rdt), Space("B", n=nt * nr * nv), Space("B", n=nt * ns * nv), "mdc")
    return z


def mdc_dense(G, nt, nv, dt, dr, twosided, saveGt, conj, usematmul, prescaled):
    """Dense real MDC matrix built by hand: F1^H I1^H (scale G) I F (forward real FFT of pylops: ortho-like scaling)."""
    nf, ns, nr = G.shape
    so = pylops.waveeqprocessing.MDC(G, nt=nt, nv=nv, dt=dt, dr=dr, twosided=twosided, saveGt=saveGt, conj=conj,
                                     usematmul=True, prescaled=prescaled)
    n = so.shape[1]
    A = np.zeros(so.shape)
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1
        A[:, j] = np.real(so.matvec(e))
    return A


def z_sbd(ctx, rng, dt, ncomp=None, square=False, scale=1.):
    """MPIStackedBlockDiag of block-diagonals (and a derivative now and then)."""
    k = int(rng.integers(1, 4) if rng.random() < .9 else rng.integers(4, 8)) if ncomp is None else ncomp
    zs = []
    for _ in range(k):
        u = rng.random()
        if u < .25 and np.dtype(dt).kind in "f":
            zs.append(z_first(ctx, rng, dt))
        else:
            zs.append(z_blockdiag(ctx, rng, dt, square=square, scale=scale))
    op = MPIStackedBlockDiag([z.op for z in zs], **ctx.kw())
    z = Zoo(op, dense_bd([z.A for z in zs]), Space(comps=[z.dom for z in zs]), Space(comps=[z.ran for z in zs]), "sblockdiag")
    z.parts = zs
    return z


def z_svs(ctx, rng, dt, cols=None, ncomp=None, scale=1.):
    """MPIStackedVStack over one scattered model."""
    P = ctx.size
    cols = [int(x) for x in rng.integers(1, 5, P)] if cols is None else cols
    k = int(rng.integers(1, 4) if rng.random() < .85 else rng.integers(4, 8)) if ncomp is None else ncomp
    zs = [z_blockdiag(ctx, rng, dt, cols=cols, scale=scale) for _ in range(k)]
    op = MPIStackedVStack([z.op for z in zs], **ctx.kw())
    z = Zoo(op, np.vstack([z.A for z in zs]), zs[0].dom, Space(comps=[z.ran for z in zs]), "svstack")
    z.parts = zs
    return z


PLAIN = ["blockdiag", "vstack", "hstack", "local", "first", "second", "laplacian", "fredholm", "mdc"]
STACKED = ["sblockdiag", "svstack", "gradient"]
BUILD = {"blockdiag": z_blockdiag, "vstack": z_vstack, "hstack": z_hstack, "local": z_local, "first": z_first, "second": z_second,
         "laplacian": z_laplacian, "fredholm": z_fredholm, "mdc": z_mdc, "sblockdiag": z_sbd, "svstack": z_svs, "gradient": z_gradient}


def zoo(ctx, rng, name, dt):
    return BUILD[name](ctx, rng, dt)


def zdata(rng, z, dt, side="dom"):
    """Random vector of the domain/range; MDC works on real vectors."""
    sp = z.dom if side == "dom" else z.ran
    if z.name == "mdc" or np.dtype(z.op.dtype).kind == "f":
        dt = {"c16": "f8", "c8": "f4"}.get(np.dtype(dt).str[1:], dt)
    return rdata(rng, (sp.n,), dt)


def tol_op(z, dt):
    single = np.dtype(dt) in (np.dtype("f4"), np.dtype("c8")) or np.dtype(z.op.dtype) in (np.dtype("f4"), np.dtype("c8"))
    return (2e-4 if single else 1e-10) * max(1., np.sqrt(max(z.A.shape)) / 4)


def lin_scale(A, v):
    """Bound of |A v| for relative comparisons."""
    return float(np.max(np.abs(A) @ np.abs(v))) if A.size and v.size else 1.


def close_vec(ctx, sp, y, A, v, key, what, tol, layout=True):
    """y (in space sp) equals A @ v with an error bound scaled by |A||v|."""
    sp.check(ctx, y, A @ v, key, what, tol, layout, bound=np.abs(A) @ np.abs(v))
