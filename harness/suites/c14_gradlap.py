"""C14: distributed gradient and Laplacian equal their serial counterparts."""
import numpy as np
import pylops
from pylops_mpi import MPIGradient, MPILaplacian
from ops import *           # noqa
from suites.c12_first import feasible

WIDE = .06
STRUCT = .08
KINDS = ["gradient", "laplacian", "gradient-1d", "laplacian-3d", "gradient-3d", "laplacian-one", "gradient-realign", "laplacian-neg", "gradient-scalar",
         "laplacian-realign", "laplacian-cplx", "gradient-cplx", "laplacian-tight", "gradient-tight", "laplacian-weights"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    grad = kind.startswith("gradient")
    stencil = pick(rng, ["forward", "backward", "centered"])
    edge = bool(rng.integers(2))
    nd = 1 if kind.endswith("1d") else 3 if kind.endswith("3d") else int(rng.integers(2, 5)) if not grad else int(rng.integers(1, 5))
    m = 3 if edge else 2
    tight = kind.endswith("tight")
    n = m * P + int(rng.integers(0, P if tight else 2 * P + 1))
    dims = [max(n, 3)] + [int(x) for x in rng.integers(3, 6 if nd < 4 else 4, nd - 1)]
    c = {"kind": kind, "dims": dims, "st": stencil, "edge": edge, "dt": pick(rng, ["f8", "f8", "f4"]), "ds": int(rng.integers(1 << 30)),
         "sync": bool(rng.random() < .1)}
    if kind.endswith("cplx"):
        c["dt"] = pick(rng, ["c16", "c8"])
    if grad:
        c["samp"] = [float(x) * (-1 if rng.random() < .2 else 1) for x in rng.uniform(.3, 3, nd)]
        if kind.endswith("scalar"):
            c["samp"] = pick(rng, [float(rng.uniform(.3, 3)), float(rng.uniform(.3, 3)), 2, -1.5, 1])
    else:
        k = 1 if kind.endswith("one") else int(rng.integers(2, nd + 1)) if nd > 1 else 1
        ax = [int(a) for a in rng.permutation(nd)[:k]]
        if kind.endswith("neg") or rng.random() < .2:
            ax = [a - nd if rng.integers(2) else a for a in ax]
        c["axes"] = ax
        if rng.random() < .25:                  # the documented defaults
            ax, k = [-2, -1][-nd:], min(nd, 2)
            c["axes"] = ax
        if rng.random() < .1:                   # an axis given twice
            c["axes"] = ax = ax + [ax[int(rng.integers(k))] - nd * int(rng.integers(2)) * (min(ax) >= 0)]
            k += 1
        c["w"] = [1.] * k if rng.random() < .2 else [float(x) for x in rng.uniform(-2, 2, k)]
        c["samp"] = [float(x) * (-1 if rng.random() < .2 else 1) for x in rng.uniform(.3, 3, k)]
        if rng.random() < .2:
            c["samp"] = [1.] * k
    return c


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, dt = ctx.size, c["dt"]
    dims = tuple(c["dims"])
    n = int(np.prod(dims))
    sp = deriv_space(ctx, dims)
    grad = "axes" not in c
    samp = c["samp"] if np.isscalar(c["samp"]) else tuple(c["samp"])
    if grad:
        d = dims if len(dims) > 1 or c["ds"] % 2 else dims[0]
        op = build(rng, MPIGradient, "gradient", dict(dims=d, sampling=samp, kind=c["st"], edge=c["edge"], dtype=dt))
        so = pylops.Gradient(dims=dims, sampling=samp, kind=c["st"], edge=c["edge"], dtype=dt)
        ran = Space(comps=[sp] * len(dims))
    else:
        kw = dict(axes=tuple(c["axes"]), weights=tuple(c["w"]), sampling=samp, kind=c["st"], edge=c["edge"], dtype=dt)
        op = build(rng, MPILaplacian, "laplacian", dict(dims=dims, **kw))
        so = pylops.Laplacian(dims=dims, **kw)
        ran = sp
    ctx.eq(tuple(int(s) for s in op.shape), tuple(so.shape), "shape", "operator shape")
    ctx.eq(np.dtype(op.dtype), np.dtype(dt), "operator-dtype", "operator type")
    single = np.dtype(dt) in (np.dtype("f4"), np.dtype("c8"))
    tol = 5e-4 if single else 1e-10
    isp = sp
    if c["kind"].endswith("realign"):
        s = list(sp.sizes)
        for _ in range(3):
            if P > 1:
                a = int(rng.integers(P - 1))
                a, b = (a, a + 1) if rng.integers(2) else (a + 1, a)
                k = int(rng.integers(0, s[a] // 2 + 1))
                s[a] -= k
                s[b] += k
        if feasible(sp.sizes, s):
            isp = Space("S", sizes=s)
    for _ in range(2):
        v, u = rdata(rng, (n,), vdt(rng, dt)), rdata(rng, (ran.n,), vdt(rng, dt))
        w, a = np.asarray(so.matvec(v.astype(dt))).ravel(), np.asarray(so.rmatvec(u.astype(dt))).ravel()
        sv = np.ravel(np.abs(samp)).astype(float)
        one = 4 * (float(np.sum(1 / sv)) * (len(dims) if np.isscalar(samp) else 1) if grad else float(np.sum(np.abs(c["w"]) / sv ** 2)))

        def tl(r, z):                            # never below the rounding of the largest terms
            floor = (2e-6 if single else 2e-14) * one * float(np.max(np.abs(z), initial=0.))
            return max(tol if grad else tol * 20, floor / max(float(np.max(np.abs(r), initial=0.)), 1e-30))
        x = isp.vec(ctx, v)
        ran.check(ctx, op.matvec(x), w, "forward", f"forward dims={dims}", tol=tl(w, v))
        y = ran.vec(ctx, u) if isp is sp or grad else isp.vec(ctx, u)
        sp.check(ctx, op.rmatvec(y), a, "adjoint", f"adjoint dims={dims}", tol=tl(a, u))
        ran.check(ctx, op @ x, w, "matmul", "Op @ x", tol=tl(w, v))
        sp.check(ctx, op.H @ y, a, "H", "Op.H @ y", tol=tl(a, u))
        ctx.bits(x.local_array, isp.own(ctx, v), "input", "model after the application")
