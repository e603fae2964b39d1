"""C10: block-diagonal operators equal the serial block-diagonal matrix."""
import numpy as np
import pylops
from pylops_mpi import MPIBlockDiag, MPIStackedBlockDiag, StackedDistributedArray
from ops import *           # noqa

WIDE = .06
STRUCT = .08
KINDS = ["rect", "rect", "many", "complex", "mixed-ops", "single", "masked", "stacked", "stacked", "stacked-mixed", "one-row", "dtype", "views", "big",
         "unbalanced"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "f8", "f4", "c16"])
    if kind == "complex":
        dt = pick(rng, ["c16", "c8"])
    return {"kind": kind, "dt": dt, "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .1)}


def serial_ops(rng, n, dt):
    """Serial operators of various classes with n columns, and their dense matrices."""
    k = int(rng.integers(6))
    if k == 0:
        o = pylops.Identity(n + int(rng.integers(0, 3)), n, dtype=dt) if rng.integers(2) else pylops.Identity(n, dtype=dt)
    elif k == 1:
        o = pylops.Diagonal(rdata(rng, (n,), dt), dtype=dt)
    elif k == 2 and n >= 2:
        o = pylops.Restriction(n, np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False)), dtype=dt)
    elif k == 3 and n >= 3:
        o = pylops.FirstDerivative(n, sampling=float(rng.uniform(.5, 2)), dtype=dt)
    elif k == 4:
        o = pylops.MatrixMult(rdata(rng, (int(rng.integers(1, 5)), n), dt), dtype=dt).H
        o = o.H
    else:
        o = pylops.MatrixMult(rdata(rng, (int(rng.integers(1, 5)), n), dt), dtype=dt)
    return o, dense_of(o, dt)


def probe(ctx, z, dt, rng, key, nv=2):
    tol = tol_op(z, dt)
    ctx.eq(tuple(int(s) for s in z.op.shape), z.A.shape, key + "-shape", "operator shape")
    ctx.rep("operator dtype", str(np.dtype(z.op.dtype)))
    for k in range(nv):
        v = rdata(rng, (z.dom.n,), vdt(rng, dt), special=k == 1)
        u = rdata(rng, (z.ran.n,), vdt(rng, dt), special=k == 1)
        x, w = z.dom.vec(ctx, v), z.ran.vec(ctx, u)
        close_vec(ctx, z.ran, z.op.matvec(x), z.A, v, key + "-forward", f"forward of {z.name}", tol)
        close_vec(ctx, z.dom, z.op.rmatvec(w), z.A.conj().T, u, key + "-adjoint", f"adjoint of {z.name}", tol)
        for sp, xx, vv, what in ((z.dom, x, v, "model"), (z.ran, w, u, "data")):
            own = sp.own(ctx, vv)
            have = [d.local_array for d in xx.distarrays] if sp.comps else [xx.local_array]
            for a, b in zip(have, own if sp.comps else [own]):
                ctx.bits(a, b, key + "-input", f"{what} after the application")
    close_vec(ctx, z.ran, z.op @ x, z.A, v, key + "-matmul", f"Op @ x of {z.name}", tol)
    close_vec(ctx, z.dom, z.op.H @ w, z.A.conj().T, u, key + "-H", f"Op.H @ y of {z.name}", tol)


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, r, dt, kind = ctx.size, ctx.rank, c["dt"], c["kind"]
    if kind in ("rect", "complex", "single", "many", "one-row", "dtype", "views", "big", "unbalanced"):
        kw = {"many": dict(maxb=8), "single": dict(maxb=1), "one-row": dict(hi=1), "big": dict(hi=20)}.get(kind, {})
        if kind == "unbalanced":
            kw = dict(rows=[int(x) for x in rng.permutation([1] * (P - 1) + [int(rng.integers(10, 40))])],
                      cols=[int(x) for x in rng.permutation([1] * (P - 1) + [int(rng.integers(10, 40))])])
        z = z_blockdiag(ctx, rng, dt, **kw)
        if kind == "dtype":
            z.op = MPIBlockDiag([mmop(b) for b in z.blocks[r]], dtype="c16")
            x = z.dom.vec(ctx, rdata(rng, (z.dom.n,), "c16"))
            y = z.op.matvec(x)
            ctx.true(np.dtype(z.op.dtype) == np.dtype("c16") and np.dtype(y.dtype) == np.dtype("c16") == y.local_array.dtype,
                     "dtype", f"dtype={z.op.dtype} requested complex128, output {y.dtype}")
        probe(ctx, z, dt, rng, "blockdiag")
        if kind == "views":                      # non-contiguous input data
            v = rdata(rng, (2 * z.dom.n,), dt)[::2]
            x = z.dom.vec(ctx, v)
            close_vec(ctx, z.ran, z.op.matvec(x), z.A, v, "blockdiag-forward", "forward", tol_op(z, dt))
    elif kind == "mixed-ops":
        bl, loc = [], None
        for q in range(P):
            os_ = [serial_ops(rng, int(rng.integers(1, 6)), dt) for _ in range(int(rng.integers(1, 4)))]
            bl.append(os_)
        A = dense_bd([a for os_ in bl for _, a in os_])
        z = Zoo(MPIBlockDiag([o for o, _ in bl[r]], **ctx.kw()), A, Space("S", sizes=[sum(a.shape[1] for _, a in os_) for os_ in bl]),
                Space("S", sizes=[sum(a.shape[0] for _, a in os_) for os_ in bl]), "blockdiag")
        probe(ctx, z, dt, rng, "blockdiag")
    elif kind == "masked":
        mask = rand_mask(rng, P)
        z = z_blockdiag(ctx, rng, dt, mask=mask)
        v, u = rdata(rng, (z.dom.n,), dt), rdata(rng, (z.ran.n,), dt)
        x = mk(ctx, v, Lay("S", 0, z.dom.sizes, mask))
        y = mk(ctx, u, Lay("S", 0, z.ran.sizes, mask))
        f, a = z.op.matvec(x), z.op.rmatvec(y)
        close_vec(ctx, z.ran, f, z.A, v, "blockdiag-forward", "forward (masked)", tol_op(z, dt))
        close_vec(ctx, z.dom, a, z.A.conj().T, u, "blockdiag-adjoint", "adjoint (masked)", tol_op(z, dt))
        ctx.eq(list(f.mask or []), mask, "mask", "mask of the forward output")
        ctx.eq(list(a.mask or []), mask, "mask", "mask of the adjoint output")
        ctx.rep("forward gathered", f.asarray())
    else:
        if kind == "stacked":
            z = z_sbd(ctx, rng, dt, ncomp=int(rng.integers(1, 5)))
        else:                                    # components of different nature
            zs = [zoo(ctx, rng, pick(rng, ["blockdiag", "vstack", "hstack", "local", "blockdiag"]), dt) for _ in range(int(rng.integers(2, 4)))]
            z = Zoo(MPIStackedBlockDiag([q.op for q in zs], **ctx.kw()), dense_bd([q.A for q in zs]), Space(comps=[q.dom for q in zs]),
                    Space(comps=[q.ran for q in zs]), "sblockdiag")
            z.parts = zs
        probe(ctx, z, dt, rng, "stacked")
        # component i only sees input i
        if len(z.parts) > 1:
            k = int(rng.integers(len(z.parts)))
            v = np.zeros(z.dom.n, dtype=dt)
            o = sum(q.dom.n for q in z.parts[:k])
            v[o:o + z.parts[k].dom.n] = rdata(rng, (z.parts[k].dom.n,), dt)
            y = z.op.matvec(z.dom.vec(ctx, v))
            for j, q in enumerate(z.parts):
                if j != k:
                    ctx.true(not np.any(y[j].local_array), "stacked-leak", f"component {j} non-zero although only component {k} of the input is")
