"""Linear systems for the solver suites."""
import numpy as np
from pylops_mpi import MPIStackedBlockDiag, MPIStackedVStack, MPIBlockDiag
from exprs import *         # noqa
import refsolve


def eye_bd(ctx, sizes, dt, scale=1.):
    return MPIBlockDiag([mmop((np.eye(sizes[ctx.rank]) * scale).astype(dt), 1)], **ctx.kw())


def unit(A):
    """Scale factor making the spectral norm of A about one."""
    return 1. / max(np.linalg.norm(A, 2), 1e-12)


def spd(ctx, rng, name, dt):
    """Well-conditioned Hermitian positive definite system."""
    P = ctx.size
    if name == "blockdiag":
        z = z_blockdiag(ctx, rng, dt, square=True, spd=True)
        return leaf(z)
    if name == "local":
        n = int(rng.integers(1, 9))
        a = rdata(rng, (n, n), dt)
        a = (a @ a.conj().T + n * np.eye(n)).astype(dt)
        z = Zoo(MPILinearOperator(Op=mmop(a), **ctx.kw()), a, Space("B", n=n), Space("B", n=n), "local")
        return leaf(z)
    if name == "stacked":
        zs = [z_blockdiag(ctx, rng, dt, square=True, spd=True) for _ in range(int(rng.integers(1, 4)))]
        op = MPIStackedBlockDiag([z.op for z in zs], **ctx.kw())
        sp = Space(comps=[z.dom for z in zs])
        return leaf(Zoo(op, dense_bd([z.A for z in zs]), sp, sp, "sblockdiag"))
    if name in ("normal", "vnormal"):            # A^H A + c I
        z = z_blockdiag(ctx, rng, dt) if name == "normal" else z_hstack(ctx, rng, dt)
        c = float(np.linalg.norm(z.A, 2) ** 2 * rng.uniform(.1, 1)) or 1.
        op = z.op.H * z.op + eye_bd(ctx, z.dom.sizes, dt, c)
        A = z.A.conj().T @ z.A + c * np.eye(z.dom.n)
        return E(op, A, np.abs(A), z.dom, z.dom, name, [z])
    if name == "deriv":                          # I + D^H D: couples the ranks
        dims = rdims(rng, P, 3, nd=1 if rng.integers(2) else 2)
        z = z_first(ctx, rng, dt, dims=dims, kind=pick(rng, ["forward", "backward"])) if rng.integers(2) else z_second(ctx, rng, dt, dims=dims, kind="forward")
        c = float(rng.uniform(.5, 3))
        op = z.op.H * z.op * (1 / np.linalg.norm(z.A, 2) ** 2) + eye_bd(ctx, z.dom.sizes, dt, c)
        A = z.A.conj().T @ z.A / np.linalg.norm(z.A, 2) ** 2 + c * np.eye(z.dom.n)
        return E(op, A, np.abs(A), z.dom, z.dom, name, [z])
    raise KeyError(name)


def illcond(ctx, rng, dt, gram=False, long=False):
    """Badly conditioned system whose residual (with gram: gradient) first grows; returns it with the solution.

    long: one of moderate condition that takes many iterations."""
    sizes = [int(v) for v in (rng.integers(60, 91, ctx.size) // ctx.size if long else rng.integers(1, 4, ctx.size))]
    n = sum(sizes)
    eig = 10. ** rng.uniform(0, rng.uniform(1.5, 2.5) if long else rng.uniform(2.5, 5), n)
    xt, blocks, o = rng.standard_normal(n) * eig ** (0. if long else -float(rng.uniform(1.2, 1.8))), [], 0
    xt = xt.astype(dt)
    for m in sizes:
        q, p = (np.linalg.qr(rdata(rng, (m, m), "c16" if np.dtype(dt).kind == "c" else "f8"))[0] for _ in range(2))
        s = eig[o:o + m] ** (.5 if gram else 1)
        blocks.append((((p if gram else q) * s) @ q.conj().T).astype(dt))
        xt[o:o + m] = q @ xt[o:o + m]
        o += m
    op = MPIBlockDiag([mmop(blocks[ctx.rank])], **ctx.kw())
    sp = Space("S", sizes=sizes)
    return leaf(Zoo(op, dense_bd(blocks), sp, sp, "illcond")), xt


SPD = ["blockdiag", "local", "stacked", "normal", "vnormal", "deriv"]


def lsq(ctx, rng, name, dt):
    P = ctx.size
    if name in ("blockdiag", "vstack", "hstack", "local", "sblockdiag", "svstack"):
        return leaf(zoo(ctx, rng, name, dt))
    if name == "square":
        return leaf(z_blockdiag(ctx, rng, dt, square=True, spd=True))
    if name == "regular":                        # [A; eps D]
        dims = rdims(rng, P, 3, nd=1)
        D = z_second(ctx, rng, dt, dims=dims, kind="forward") if rng.integers(2) else z_first(ctx, rng, dt, dims=dims, kind="backward")
        sz = D.dom.sizes
        B = z_blockdiag(ctx, rng, dt, cols=sz, scale=.5)
        eps = float(rng.uniform(.1, 1))
        op = MPIStackedVStack([B.op, eps * D.op], **ctx.kw())
        A = np.vstack([B.A, eps * D.A])
        return leaf(Zoo(op, A, B.dom, Space(comps=[B.ran, D.ran]), "regular"))
    if name == "gradient":                       # [A; eps grad]
        dims = rdims(rng, P, 3, nd=2, maxrest=4)
        G = z_gradient(ctx, rng, dt, dims=dims)
        eps = float(rng.uniform(.1, 1))
        return E(eps * G.op, eps * G.A, eps * np.abs(G.A), G.dom, G.ran, "gradient", [G])
    if name == "product":
        mid = Space("S", sizes=[int(x) for x in rng.integers(1, 5, P)])
        a = z_blockdiag(ctx, rng, dt, cols=mid.sizes, scale=.5)
        b = z_vstack(ctx, rng, dt, rows=mid.sizes, scale=.5)
        return E(a.op * b.op, a.A @ b.A, np.abs(a.A) @ np.abs(b.A), b.dom, a.ran, "product", [a, b])
    if name == "first":
        return leaf(z_first(ctx, rng, dt, dims=rdims(rng, P, 3, nd=1), kind=pick(rng, ["forward", "backward"])))
    raise KeyError(name)


LSQ = ["blockdiag", "vstack", "hstack", "local", "sblockdiag", "svstack", "square", "regular", "gradient", "product", "first"]


def pick_tol(rng, ks):
    """A tolerance well inside a gap of the squared-norm sequence ks: (tol, expected iterations) or None."""
    floor = ks[0] * 1e-10
    ok = [j for j in range(1, len(ks)) if ks[j] > floor and min(ks[:j]) / ks[j] > 1.2 and min(ks[:j]) == ks[j - 1]]
    if not ok:
        return None
    j = pick(rng, ok)
    return float(np.sqrt(ks[j] * ks[j - 1])), j


def snapshot(y):
    return [np.array(a) for a in arrays_of(y)]


def content(ctx, y):
    """Global content of a (stacked) distributed array, gathered without the library."""
    if isinstance(y, StackedDistributedArray):
        return np.concatenate([gather(ctx, d).ravel() for d in y.distarrays])
    return np.array(gather(ctx, y)).ravel()


def prior(ctx, rng, s, e, dt, **kw):
    """Leave a solver object in the state of one or more earlier solves."""
    for _ in range(int(rng.integers(1, 3))):
        y, x = e.ran.vec(ctx, rdata(rng, (e.ran.n,), dt)), e.dom.vec(ctx, rdata(rng, (e.dom.n,), dt))
        n = int(rng.integers(0, 4))
        with np.errstate(all="ignore"):
            if rng.random() < .5:
                s.solve(y, x, niter=n, tol=0., **kw)
            else:                                # abandoned half-way
                x = s.setup(y, x, niter=n + 2, tol=0., **kw)
                for _ in range(n):
                    if s.kold <= 0 or not np.isfinite(s.kold):
                        break                    # nothing left to step on
                    x = s.step(x)
