"""C31: the documented inversion workflows reproduce the serial PyLops / NumPy results."""
import numpy as np
import pylops
from pylops.utils.wavelets import ricker
from pylops.basicoperators import Transpose
from pylops.avo.poststack import PoststackLinearModelling
from pylops.waveeqprocessing import MDC
from pylops_mpi.optimization.basic import cg, cgls
from pylops_mpi.optimization.cls_basic import CG, CGLS
from pylops_mpi.waveeqprocessing.MDC import MPIMDC
from pylops_mpi.DistributedArray import local_split
from solve import *         # noqa
import refsolve

KINDS = ["poststack", "poststack-normal", "poststack-reg", "multisource", "hstack", "mdd", "gradient-reg", "stacked-reg", "extended",
         "smooth", "refine", "denoise", "script"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    if kind == "script":
        if not 2 <= P <= 5:                      # the scripts do not claim to work on every number of processes
            kind = "refine"
        elif (i // len(KINDS)) >= 3 * (1 if tier == "quick" else 3):
            kind = "smooth"
        else:
            f = SCRIPTS[(i // len(KINDS) + 3 * P) % len(SCRIPTS)]
            if P % 2 and f == "examples/plot_distributed_array.py":      # its mask needs an even number
                f = SCRIPTS[0]
            return {"kind": kind, "script": f, "delay": .0002 if i % 2 else 0, "sync": bool(rng.random() < .5)}
    return {"kind": kind, "ds": int(rng.integers(1 << 30)), "niter": int(rng.integers(1, 13)), "cls": bool(rng.integers(2)),
            "show": bool(rng.random() < .15), "delay": .0005 if rng.random() < .15 else 0, "sync": bool(rng.random() < .08)}


def solve_and_check(ctx, c, e_op, A, y, x, yv, x0, damp, dom, what, tol=0., hermitian=False, niter=None):
    """Run the distributed solver and compare its solution with the textbook iterates on the dense matrix."""
    niter = min(c["niter"] if niter is None else niter, A.shape[1])
    kw = {} if hermitian else {"damp": damp}
    if c["cls"]:
        s = (CG if hermitian else CGLS)(e_op)
        out = s.solve(y=y, x0=x, niter=niter, tol=tol, **kw)
    else:
        out = (cg if hermitian else cgls)(e_op, y, x, niter=niter, tol=tol, **kw)
    cost = out[-1]
    ref = (lambda a, b, z: refsolve.ref_cg(a, b, z, niter, tol)) if hermitian else (lambda a, b, z: refsolve.ref_cgls(a, b, z, niter, damp, tol)[:2])
    xs, rc = ref(A, yv, x0)
    dx, stable = refsolve.sensitivity(ref, A, yv, x0, 1e-13)
    scale = max(float(np.max(np.abs(xs[-1]))), float(np.max(np.abs(x0))), 1e-3)
    ctx.rep("cost " + what, np.asarray(cost))
    xo = out[0]
    g = [(yv - A @ v) if hermitian else A.conj().T @ (yv - A @ v) - damp ** 2 * v for v in xs]
    gn = [float(np.linalg.norm(v)) for v in g]
    if min(gn) < 1e-7 * gn[0]:                   # converged: later iterates are rounding noise, but the solution must solve the problem
        got = content(ctx, xo)
        gg = yv - A @ got
        gg = gg if hermitian else A.conj().T @ gg - damp ** 2 * got
        ctx.true(float(np.linalg.norm(gg)) <= 1e-6 * gn[0] + 1e-9 * float(np.linalg.norm(A, 2)) * scale, "model",
                 lambda: f"gradient {np.linalg.norm(gg)} at the solution of {what}, {gn[0]} at the start")
        ctx.note("converged")
    elif stable and dx[-1] * 100 < 1e-3 * scale:
        ctx.eq(len(cost), len(rc), "iterations", f"length of the cost history of {what}")
        ctx.close(content(ctx, xo), xs[-1], "model", f"model of {what} after {niter} iterations", tol=1e-7 + 100 * dx[-1] / scale, scale=scale)
        ysc = max(float(np.linalg.norm(yv)), float(rc[0]), 1e-6)
        k = min(len(cost), len(rc))
        ctx.close(np.asarray(cost)[:k], np.asarray(rc)[:k], "cost", f"cost history of {what}", tol=1e-7 + 100 * dx[-1] / scale, scale=ysc)
        ctx.note("solved")
    return xo


def dense(sop, dt="f8"):
    return dense_of(sop, dt)


def run(ctx, c):
    rng = np.random.default_rng(c.get("ds", 0))
    P, r, kind = ctx.size, ctx.rank, c["kind"]
    if kind.startswith("poststack"):
        return poststack(ctx, c, rng, P, r, kind)
    return globals()["w_" + kind.replace("-", "_")](ctx, c, rng, P, r)


def poststack(ctx, c, rng, P, r, kind):
    """Tutorial poststack.py: [data operator per rank], normal equations and stacked regularisation with a Laplacian."""
    reg = kind != "poststack"
    nx, nz = int(rng.integers(2, 4)) if not reg else 3, int(rng.integers(4, 8))
    if reg:
        ny = 3 * P + int(rng.integers(0, P))
        nys = balanced(ny, P)                    # split of the regularisation operator
    else:
        nys = [int(k) for k in rng.integers(1, 4, P)]
        ny = sum(nys)
    wav = ricker(np.arange(2) * .004, 30)[0]
    m = np.cumsum(rng.standard_normal((ny, nx, nz)) * .3, axis=2) + 2
    back = np.repeat(m.mean(axis=2, keepdims=True), nz, axis=2) + .1 * rng.standard_normal(m.shape)
    o = sum(nys[:r])
    loc = slice(o, o + nys[r])

    def pp(n):
        op = PoststackLinearModelling(wav, nt0=nz, spatdims=(n, nx))
        T = Transpose((n, nx, nz), (2, 0, 1))
        return T.H @ op @ T
    BDiag = pylops_mpi.MPIBlockDiag(ops=[pp(nys[r])], **ctx.kw())
    N = ny * nx * nz
    sizes = [k * nx * nz for k in nys]

    def dist(g):
        if sizes == balanced(N, P):              # default split: as the tutorial does
            d = DistributedArray(global_shape=N, **ctx.kw())
        else:
            d = DistributedArray(global_shape=N, local_shapes=[(s,) for s in sizes], **ctx.kw())
        d[:] = g[loc].ravel()
        return d
    md, bd = dist(m), dist(back)
    dd = BDiag @ md
    S0 = PoststackLinearModelling(wav, nt0=nz, spatdims=(ny, nx))
    ds = (S0 @ m.transpose(2, 0, 1).ravel()).reshape(nz, ny, nx).transpose(1, 2, 0)
    d = dd.asarray()
    ctx.rep("data", d)
    ctx.close(d.reshape(ny, nx, nz), ds, "data", "modelled data", tol=1e-10)
    ctx.close(dd.local_array.reshape(nys[r], nx, nz), ds[loc], "data", "local part of the modelled data", tol=1e-10, scale=float(np.abs(ds).max()) + 1e-30)
    A = np.kron(np.eye(ny), dense(pp(1)))
    yv, x0 = ds.ravel(), back.ravel()
    if kind == "poststack":
        out = solve_and_check(ctx, c, BDiag, A, dd, bd, yv, x0, 0., None, "post-stack inversion")
        again = BDiag @ out
        ctx.close(content(ctx, again), A @ content(ctx, out), "data", "data of the inverted model", tol=1e-9)
        return
    eps = float(rng.uniform(.05, 2))
    kw = dict(dims=(ny, nx, nz), axes=(0, 1, 2), weights=(1, 1, 1), sampling=(1, 1, 1), dtype="f8")
    Lap = pylops_mpi.MPILaplacian(**kw, **ctx.kw())
    L = dense(pylops.Laplacian(**kw))
    if kind == "poststack-normal":
        Nop = BDiag.H @ BDiag + eps * Lap.H @ Lap
        dn = BDiag.H @ dd
        H = A.T @ A + eps * L.T @ L
        ctx.close(content(ctx, dn), A.T @ yv, "data", "data of the normal equations", tol=1e-10)
        solve_and_check(ctx, c, Nop, H, dn, bd, A.T @ yv, x0, 0., None, "normal equations", hermitian=True)
    else:
        St = pylops_mpi.MPIStackedVStack([BDiag, np.sqrt(eps) * Lap], **ctx.kw())
        z = dd.zeros_like() if rng.integers(2) else dist(np.zeros((ny, nx, nz)))
        yd = StackedDistributedArray([dd, z], **ctx.kw())
        solve_and_check(ctx, c, St, np.vstack([A, np.sqrt(eps) * L]), yd, bd, np.concatenate([yv, np.zeros(N)]), x0, 0., None, "regularised equations")


def w_multisource(ctx, c, rng, P, r):
    """Tutorial lsm.py: every process models the data of its sources for one replicated model."""
    n = int(rng.integers(4, 12))
    nsrc = [int(k) for k in rng.integers(1, 4, P)]
    nd = int(rng.integers(2, 5))
    cplx = bool(rng.integers(2))
    dt = "c16" if cplx else "f8"
    D = [[rdata(rng, (nd, n), dt) / np.sqrt(n) for _ in range(k)] for k in nsrc]
    A = np.vstack([b for bs in D for b in bs])
    ops = [pylops.MatrixMult(b, dtype=dt) for b in D[r]]
    if rng.integers(2):
        ops = [pylops.VStack(ops)]
    V = pylops_mpi.MPIVStack(ops=ops, **ctx.kw())
    refl = rdata(rng, (n,), dt)
    md = DistributedArray(global_shape=n, partition=Partition.BROADCAST, dtype=np.dtype(dt), **ctx.kw())
    md[:] = refl
    dd = V @ md
    d = dd.asarray().reshape(sum(nsrc), nd)
    ctx.rep("data", d)
    ctx.close(d, (A @ refl).reshape(sum(nsrc), nd), "data", "modelled data", tol=1e-10)
    adj = V.H @ dd
    ctx.eq(adj.partition, Partition.BROADCAST, "layout", "partition of the adjoint model")
    ctx.close(adj.asarray(), A.conj().T @ (A @ refl), "data", "adjoint model", tol=1e-10)
    ctx.close((V @ adj).asarray(), A @ (A.conj().T @ (A @ refl)), "data", "data of the adjoint model", tol=1e-10)
    x0 = DistributedArray(V.shape[1], partition=Partition.BROADCAST, dtype=np.dtype(dt), **ctx.kw())
    x0[:] = 0
    damp = float(rng.choice([0., .1, 1.]))
    out = solve_and_check(ctx, c, V, A, dd, x0, A @ refl, np.zeros(n, dt), damp, None, f"multi-source inversion (damp={damp})")
    ctx.rep("model", out.local_array)
    so = pylops.optimization.basic.cgls(pylops.MatrixMult(A, dtype=dt), A @ refl, np.zeros(n, dt), niter=c["niter"], damp=0., tol=0.)[0] if damp == 0. else None
    if so is not None and "solved" in ctx.notes:
        ctx.close(out.asarray(), so, "serial", "model against serial PyLops", tol=1e-5, scale=max(float(np.abs(so).max()), 1e-3))


def w_hstack(ctx, c, rng, P, r):
    """Contributions of the processes summed into one data vector."""
    m = int(rng.integers(3, 10))
    cols = [int(k) for k in rng.integers(1, 5, P)]
    A = rdata(rng, (m, sum(cols)), "f8") / np.sqrt(m)
    o = sum(cols[:r])
    Hop = pylops_mpi.MPIHStack([pylops.MatrixMult(np.ascontiguousarray(A[:, o:o + cols[r]]))], **ctx.kw())
    sp = Space("S", sizes=cols)
    xt = rdata(rng, (sum(cols),), "f8")
    y = Hop @ sp.vec(ctx, xt)
    ctx.rep("data", y.local_array)
    ctx.close(y.asarray(), A @ xt, "data", "modelled data", tol=1e-10)
    damp = float(rng.choice([0., .3]))
    x0 = np.zeros(sum(cols))
    solve_and_check(ctx, c, Hop, A, y, sp.vec(ctx, x0), A @ xt, x0, damp, None, f"horizontal stack (damp={damp})")


def w_mdd(ctx, c, rng, P, r):
    """Tutorial mdd.py: frequencies split with local_split, multi-dimensional deconvolution of replicated data."""
    nt, nyy, nxx = int(rng.integers(max(2, (2 * P + 1) // 1), 2 * P + 6)), int(rng.integers(2, 4)), int(rng.integers(2, 4))
    nf = min(nt, 2 * P + int(rng.integers(0, P + 1)))
    nf = max(nf, 2 * P)
    nt = max(nt, nf)
    nfl = local_split((nf,), ctx.comm, Partition.SCATTER, 0)[0]
    nfs = ctx.comm.allgather(nfl)
    ctx.eq(sum(nfs), nf, "split", "frequencies split over the processes")
    G = (rng.standard_normal((nf, nyy, nxx)) + 1j * rng.standard_normal((nf, nyy, nxx))) / 3
    o = sum(nfs[:r])
    pre, nv, two = bool(rng.integers(2)), int(rng.integers(1, 3)), bool(rng.integers(2))
    n2 = 2 * nt - 1
    kw = dict(nt=n2, nv=nv, dt=.5, dr=1., twosided=two, prescaled=pre)
    op = MPIMDC(G[o:o + nfl], nfreq=nf, **kw, **ctx.kw())
    so = MDC(G, **kw)
    mv = rng.standard_normal(n2 * nxx * nv)
    m = DistributedArray(global_shape=n2 * nxx * nv, partition=Partition.BROADCAST, dtype=np.float64, **ctx.kw())
    m[:] = mv
    d = op @ m
    ds = np.real(so @ mv)
    ctx.close(d.asarray().real, ds, "data", "modelled data", tol=1e-10)
    ctx.rep("data", d.local_array)
    ctx.close((op.H @ d).asarray().real, np.real(so.H @ ds), "data", "adjoint (cross-correlation)", tol=1e-10)
    m0 = DistributedArray(global_shape=n2 * nxx * nv, partition=Partition.BROADCAST, dtype=np.complex128, **ctx.kw())
    m0[:] = 0
    A = np.zeros((so.shape[0], so.shape[1]))
    for j in range(so.shape[1]):
        e = np.zeros(so.shape[1])
        e[j] = 1
        A[:, j] = np.real(so.matvec(e))
    solve_and_check(ctx, c, op, A, d, m0, ds, np.zeros(so.shape[1]), 0., None, "multi-dimensional deconvolution")


def w_gradient_reg(ctx, c, rng, P, r):
    """[identity-like data operator; eps * gradient]: smoothing of noisy data."""
    dims = rdims(rng, P, 3, nd=2, maxrest=4)
    N = int(np.prod(dims))
    sp = deriv_space(ctx, dims)
    B = z_blockdiag(ctx, rng, "f8", cols=sp.sizes, scale=.5)
    kw = dict(dims=dims, sampling=(1., 1.), kind=pick(rng, ["forward", "centered", "backward"]), dtype="f8")
    G = pylops_mpi.MPIGradient(**kw, **ctx.kw())
    Gd = dense(pylops.Gradient(**kw))
    eps = float(rng.uniform(.1, 1))
    xt = rdata(rng, (N,), "f8")
    d = B.op @ sp.vec(ctx, xt)
    # normal equations: B^H B + eps G^H G
    Nop = B.op.H @ B.op + eps * ngrad(G, ctx)
    H = B.A.T @ B.A + eps * Gd.T @ Gd
    rhs = B.op.H @ d
    x0 = np.zeros(N)
    ctx.close(content(ctx, rhs), B.A.T @ (B.A @ xt), "data", "data of the normal equations", tol=1e-10)
    solve_and_check(ctx, c, Nop, H, rhs, sp.vec(ctx, x0), B.A.T @ (B.A @ xt), x0, 0., None, "gradient regularisation", hermitian=True)


def ngrad(G, ctx):
    """G^H G as a plain operator."""
    class NG(pylops_mpi.MPILinearOperator):
        def __init__(self):
            super().__init__(shape=(G.shape[1], G.shape[1]), dtype=np.dtype("f8"), **ctx.kw())

        def _matvec(self, x):
            return G.rmatvec(G.matvec(x))

        _rmatvec = _matvec
    return NG()


def w_stacked_reg(ctx, c, rng, P, r):
    """[data; eps1 D1; eps2 D2] with stacked data from copies and zeros."""
    dims = rdims(rng, P, 3, nd=int(rng.integers(1, 3)), maxrest=4)
    N = int(np.prod(dims))
    sp = deriv_space(ctx, dims)
    B = z_blockdiag(ctx, rng, "f8", cols=sp.sizes, scale=.5)
    D1 = z_first(ctx, rng, "f8", dims=dims, order=3)
    D2 = z_second(ctx, rng, "f8", dims=dims)
    e1, e2 = (float(v) for v in rng.uniform(.1, 1, 2))
    ops, mats = [B.op, e1 * D1.op, D2.op * e2], [B.A, e1 * D1.A, e2 * D2.A]
    for _ in range(int(rng.integers(0, 6)) if rng.random() < .5 else 0):          # further terms
        f = float(rng.uniform(.1, 1))
        Z = [z_first, z_second, lambda *a, **k: z_blockdiag(ctx, rng, "f8", rows=sp.sizes, cols=sp.sizes, scale=.3)][int(rng.integers(3))](ctx, rng, "f8", dims=dims)
        ops.append(f * Z.op)
        mats.append(f * Z.A)
    op = pylops_mpi.MPIStackedVStack(ops, **ctx.kw())
    A = np.vstack(mats)
    xt = rdata(rng, (N,), "f8")
    x = sp.vec(ctx, xt)
    d = B.op @ x
    y = StackedDistributedArray([d, (D1.op @ x).zeros_like(), (D2.op @ x) * 0.] + [(o @ x) * 0. for o in ops[3:]], **ctx.kw())
    yv = np.concatenate([B.A @ xt, np.zeros((len(ops) - 1) * N)])
    ctx.close(content(ctx, op @ x), A @ xt, "data", "stacked data", tol=1e-9)
    x0 = rdata(rng, (N,), "f8")
    damp = float(rng.choice([0., .2]))
    solve_and_check(ctx, c, op, A, y, sp.vec(ctx, x0), yv, x0, damp, None, f"stacked regularisation (damp={damp})")


def w_extended(ctx, c, rng, P, r):
    """Example plot_cgls.py: extended precision arrays through modelling and inversion."""
    n = int(rng.integers(2, 6))
    m = n + int(rng.integers(0, 4))
    Bs = [rng.standard_normal((m, n)) for _ in range(P)]
    op = pylops_mpi.MPIBlockDiag(ops=[pylops.MatrixMult(Bs[r])], dtype=np.longdouble, **ctx.kw())
    xt = rng.standard_normal(P * n)
    x = DistributedArray(P * n, dtype=np.longdouble, **ctx.kw())
    x[:] = xt[r * n:(r + 1) * n]
    y = op @ x
    A = dense_bd(Bs)
    ctx.close(content(ctx, y).astype("f8"), A @ xt, "data", "modelled data", tol=1e-10)
    x0 = DistributedArray(op.shape[1], dtype=np.longdouble, **ctx.kw())
    x0[:] = 0
    ctx.true(abs(float(x.norm()) - np.linalg.norm(xt)) <= 1e-12 * (1 + np.linalg.norm(xt)), "data", "norm in extended precision")
    out = solve_and_check(ctx, c, op, A, y, x0, A @ xt, np.zeros(P * n), 0., None, "extended-precision inversion")
    ctx.eq(np.dtype(out.dtype), np.dtype(np.longdouble), "dtype", "type of the model")


def w_smooth(ctx, c, rng, P, r):
    """Example plot_derivative.py: derivatives of a gathered and re-distributed image."""
    dims = rdims(rng, P, 4, nd=2, maxrest=6)
    a = np.zeros(dims)
    a[dims[0] // 2, dims[1] // 2] = 1.
    a += .1 * rng.standard_normal(dims)
    x = DistributedArray.to_dist(a.flatten(), **ctx.kw()) if rng.integers(2) else None
    sp = deriv_space(ctx, dims)
    if x is None or [s for s in sp.sizes] != balanced(a.size, P):
        x = sp.vec(ctx, a.ravel()) if x is None else x
    for name, op, so in (("first", pylops_mpi.MPIFirstDerivative(dims, dtype="f8", **ctx.kw()), pylops.FirstDerivative(dims, axis=0, dtype="f8")),
                         ("second", pylops_mpi.MPISecondDerivative(dims, dtype="f8", **ctx.kw()), pylops.SecondDerivative(dims, axis=0, dtype="f8"))):
        y = op @ x
        ctx.close(y.asarray().reshape(dims), (so @ a), "data", f"{name} derivative", tol=1e-10)
        ctx.close((op.H @ y).asarray().reshape(dims), (so.H @ (so @ a)), "data", f"adjoint of the {name} derivative", tol=1e-10)
    L = pylops_mpi.MPILaplacian(dims=dims, axes=(0, 1), weights=(1, 1), sampling=(1, 1), dtype="f8", **ctx.kw())
    Ls = pylops.Laplacian(dims=dims, axes=(0, 1), weights=(1, 1), sampling=(1, 1), dtype="f8")
    ctx.close((L @ x).asarray().reshape(dims), (Ls @ a), "data", "Laplacian", tol=1e-10)
    G = pylops_mpi.MPIGradient(dims=dims, sampling=(1, 1), kind="forward", dtype="f8", **ctx.kw())
    Gs = pylops.Gradient(dims=dims, sampling=(1, 1), kind="forward", dtype="f8")
    g = G @ x
    ctx.close(g.asarray().reshape((2,) + dims), (Gs @ a), "data", "gradient", tol=1e-10)
    ctx.close((G.H @ g).asarray().reshape(dims), (Gs.H @ (Gs @ a)), "data", "divergence of the gradient", tol=1e-10)


def w_refine(ctx, c, rng, P, r):
    """Restarted inversion: the solution of one run is the start of the next, with the residual as data."""
    e = lsq(ctx, rng, pick(rng, ["blockdiag", "vstack", "regular", "hstack"]), "f8")
    A = e.A
    xt = rdata(rng, (e.dom.n,), "f8")
    yv = A @ xt + .1 * rng.standard_normal(e.ran.n)
    y, x0 = e.ran.vec(ctx, yv), np.zeros(e.dom.n)
    first = solve_and_check(ctx, c, e.op, A, y, e.dom.vec(ctx, x0), yv, x0, 0., e.dom, "first run", niter=2)
    mid = content(ctx, first)
    res = y - e.op @ first
    ctx.close(content(ctx, res), yv - A @ mid, "data", "residual", tol=1e-9, scale=float(np.abs(yv).max() + np.abs(A @ mid).max()))
    if np.linalg.norm(A.T @ (yv - A @ mid)) < 1e-6 * np.linalg.norm(A.T @ yv):
        return                                   # solved already: the rest would work on rounding noise
    corr = solve_and_check(ctx, c, e.op, A, res, e.dom.vec(ctx, x0), yv - A @ mid, x0, 0., e.dom, "correction", niter=2)
    total = first + corr
    ctx.close(content(ctx, total), mid + content(ctx, corr), "model", "corrected model", tol=1e-12)
    second = solve_and_check(ctx, c, e.op, A, y, first, yv, mid, 0., e.dom, "restarted run", niter=2)
    if "solved" in ctx.notes and e.dom.n > 4:
        ctx.close(content(ctx, second), content(ctx, total), "model", "restarted against corrected model", tol=1e-4,
                  scale=max(float(np.abs(content(ctx, total)).max()), 1e-2)) if well(A, yv, mid) else None


def well(A, y, x):
    g = A.T @ (y - A @ x)
    return np.linalg.norm(g) > 1e-3 * np.linalg.norm(A.T @ y) and np.linalg.cond(A @ A.T if A.shape[0] < A.shape[1] else A.T @ A) < 1e6


def w_denoise(ctx, c, rng, P, r):
    """Steepest descent written by the user with array arithmetic, operators and reductions."""
    e = lsq(ctx, rng, pick(rng, ["blockdiag", "vstack", "regular", "hstack", "sblockdiag", "gradient"]), "f8")
    A = e.A
    yv = rdata(rng, (e.ran.n,), "f8")
    y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, np.zeros(e.dom.n))
    xv = np.zeros(e.dom.n)
    step = float(.9 / max(np.linalg.norm(A, 2) ** 2, 1e-9))
    for k in range(min(c["niter"], 6)):
        res = y - e.op.matvec(x)
        g = e.op.rmatvec(res)
        if rng.integers(2):
            x = x + g * step
        else:
            g = g * step
            x += g
        rv = yv - A @ xv
        xv = xv + step * (A.T @ rv)
        n2, d2 = res.norm(2), res.dot(res)
        n2, d2 = float(np.asarray(n2)), float(np.asarray(d2))
        ctx.rep(f"norm {k}", n2)
        s = max(float(np.linalg.norm(yv)), 1e-6)
        ctx.true(abs(n2 - np.linalg.norm(rv)) <= 1e-9 * s, "cost", lambda: f"residual norm {n2} at step {k}, expected {np.linalg.norm(rv)}")
        ctx.true(abs(d2 - rv @ rv) <= 1e-9 * s * s, "cost", lambda: f"squared residual norm {d2} at step {k}, expected {rv @ rv}")
    ctx.close(content(ctx, x), xv, "model", "model after steepest descent", tol=1e-9, scale=max(float(np.abs(xv).max()), 1e-6))


# ---------------------------------------------------------------- the shipped examples and tutorials
SCRIPTS = ["examples/plot_derivative.py", "tutorials/lsm.py", "examples/plot_stacking.py", "examples/plot_mdc.py", "examples/plot_cgls.py", "tutorials/mdd.py",
           "examples/plot_stacked_array.py", "examples/plot_mpilinop.py", "examples/plot_distributed_array.py"]
SAME = {"examples/plot_derivative.py", "examples/plot_mdc.py", "tutorials/mdd.py"}     # their data do not depend on the number of processes
CHILD = """
import os, sys, runpy, io, contextlib
sys.dont_write_bytecode = True
here, repo, f, out = sys.argv[1:5]
sys.path[:0] = [here, repo]
import numpy as np
import suites_script
ns = suites_script.execute(repo, f)
np.savez(out, **suites_script.arrays(ns))
"""


def w_script(ctx, c, rng, P, r):
    import os
    import subprocess
    import sys
    import tempfile
    import suites_script
    repo = os.environ.get("VP_REPO", "/repo")
    f = c["script"]
    if not os.path.exists(os.path.join(repo, f)):
        ctx.true(True, "script", "no such script")
        return
    proc = out = None
    if f in SAME and r == 0:                     # the same script on one process, started outside the world
        out = tempfile.mktemp(suffix=".npz", dir=os.environ.get("TMPDIR"))
        env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PMI_", "PRTE_", "HFI_"))}
        env["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
        proc = subprocess.Popen([sys.executable, "-c", CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), repo, f, out], env=env,
                                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    ns = suites_script.execute(repo, f)
    got = suites_script.arrays(ns)
    for k in sorted(got):
        ctx.rep(f"{f}: {k}", got[k])
    ctx.true(len(got) > 0, "script", f"{f}: no distributed array left")
    want = None
    if proc:
        err = proc.communicate(timeout=300)[1]
        want = dict(np.load(out)) if os.path.exists(out) else err.decode()[-600:]
        if os.path.exists(out):
            os.unlink(out)
    want = ctx.base.priv.bcast(want)
    if f in SAME:
        if isinstance(want, str):
            raise RuntimeError("single-process run failed: " + want)
        ctx.eq(sorted(got), sorted(want), "script", f"{f}: arrays")
        for k in got:
            inv = "inv" in k
            ctx.close(got[k], want[k], "script", f"{f}: {k} on {P} processes against one process", tol=1e-5 if inv or want[k].dtype.itemsize in (4,) or want[k].dtype == np.complex64 else 1e-8)
