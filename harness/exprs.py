"""Random operator expressions with their dense matrices and an error-bound matrix."""
import numpy as np
from ops import *           # noqa


class E:
    """Expression: distributed operator, dense matrix, bound (same expression on absolute values), spaces, text, leaves."""

    def __init__(self, op, A, N, dom, ran, txt, leaves):
        self.op, self.A, self.N, self.dom, self.ran, self.txt, self.leaves = op, A, N, dom, ran, txt, leaves


def leaf(z):
    return E(z.op, z.A, np.abs(z.A), z.dom, z.ran, z.name, [z])


def rand_space(rng, P, big=4):
    if rng.random() < .3:
        return Space("B", n=int(rng.integers(1, 8)))
    return Space("S", sizes=[int(x) for x in rng.integers(1, big + 1, P)])


def plain_leaf(ctx, rng, dom, ran, dt):
    s = 1 / np.sqrt(max(dom.n, 1))
    if dom.part == "S" and ran.part == "S":
        dims = getattr(dom, "dims", None)
        if dims is not None and dims == getattr(ran, "dims", None) and rng.random() < .5:
            name = pick(rng, ["first", "second"] + (["laplacian"] if len(dims) > 1 else []))
            return leaf({"first": z_first, "second": z_second, "laplacian": z_laplacian}[name](ctx, rng, dt, dims=dims))
        return leaf(z_blockdiag(ctx, rng, dt, rows=ran.sizes, cols=dom.sizes, scale=s))
    if dom.part == "B" and ran.part == "S":
        return leaf(z_vstack(ctx, rng, dt, n=dom.n, rows=ran.sizes, scale=s))
    if dom.part == "S":
        return leaf(z_hstack(ctx, rng, dt, m=ran.n, cols=dom.sizes, scale=s))
    return leaf(z_local(ctx, rng, dt, m=ran.n, n=dom.n, scale=s))


def scalar(rng, dt):
    cplx = np.dtype(dt).kind == "c"
    k = int(rng.integers(6 if cplx else 4))
    if k == 0:
        return int(rng.integers(-3, 4))
    if k == 1:
        return float(rng.uniform(-2, 2))
    if k == 2:
        return np.float64(rng.uniform(-2, 2))
    if k == 3:
        return float(rng.choice([0., 1., -1., .5]))
    if k == 4:
        return complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
    return np.complex128(complex(rng.uniform(-1, 1), rng.uniform(-2, 2)))


def pooled(ctx, rng, dom, ran, dt, leaf_fn):
    """A new leaf, or one that the expression already contains."""
    pool = ctx.__dict__.setdefault("pool", {})
    old = pool.setdefault((id(dom), id(ran), str(dt), leaf_fn.__name__), [])
    if old and rng.random() < .3:
        return pick(rng, old)[0]
    e = leaf_fn(ctx, rng, dom, ran, dt)
    old.append((e, dom, ran))                    # keeps the spaces alive
    return e


def power_of(rng):
    return int(rng.integers(0, 5)) if rng.random() < .75 else int(rng.integers(5, 13))


def twin(rng, e, dt):
    """The same expression again, or a multiple of it."""
    if rng.random() < .5:
        return e
    a = scalar(rng, dt)
    return E(e.op * a if rng.integers(2) else a * e.op, e.A * a, e.N * abs(a), e.dom, e.ran, f"{a}*same", [])


UNARY = ["adjoint", "transpose", "conj", "neg", "scale", "rscale", "H.H", "T.T", "H.conj", "adjoint()", "conj.conj"]


def expr(ctx, rng, dom, ran, dt, depth, mids=None, leaf_fn=plain_leaf, space_fn=None):
    """Random expression dom -> ran."""
    def sub(d, r, k=1):
        return expr(ctx, rng, d, r, dt, depth - k, mids, leaf_fn, space_fn)
    if depth <= 0 or rng.random() < .1:
        return pooled(ctx, rng, dom, ran, dt, leaf_fn)
    choices = UNARY + ["sum", "sum", "diff", "diff", "prod", "prod", "prod", "isum"]
    if dom is ran or (dom.key() == ran.key() and getattr(dom, "dims", 0) == getattr(ran, "dims", 0)):
        choices += ["pow", "pow", "pow"]
    o = pick(rng, choices)
    if o in ("adjoint", "adjoint()"):
        e = sub(ran, dom)
        return E(e.op.H if o == "adjoint" else e.op.adjoint(), e.A.conj().T, e.N.T, dom, ran, f"({e.txt}).H", e.leaves)
    if o == "transpose":
        e = sub(ran, dom)
        return E(e.op.T, e.A.T, e.N.T, dom, ran, f"({e.txt}).T", e.leaves)
    if o == "conj":
        e = sub(dom, ran)
        return E(e.op.conj(), e.A.conj(), e.N, dom, ran, f"conj({e.txt})", e.leaves)
    if o in ("H.H", "T.T", "conj.conj"):
        e = sub(dom, ran)
        op = {"H.H": lambda p: p.H.H, "T.T": lambda p: p.T.T, "conj.conj": lambda p: p.conj().conj()}[o](e.op)
        return E(op, e.A, e.N, dom, ran, f"({e.txt}).{o}", e.leaves)
    if o == "H.conj":                            # conj of the adjoint = transpose
        e = sub(ran, dom)
        op = e.op.H.conj() if rng.integers(2) else e.op.conj().H
        return E(op, e.A.T, e.N.T, dom, ran, f"({e.txt}).H.conj", e.leaves)
    if o == "neg":
        e = sub(dom, ran)
        return E(-e.op, -e.A, e.N, dom, ran, f"-({e.txt})", e.leaves)
    if o in ("scale", "rscale"):
        e, a = sub(dom, ran), scalar(rng, dt)
        op = a * e.op if o == "scale" else e.op * a
        return E(op, e.A * a, e.N * abs(a), dom, ran, f"{a}*({e.txt})", e.leaves)
    if o in ("sum", "diff", "isum"):
        e = sub(dom, ran)
        f = twin(rng, e, dt) if rng.random() < .25 else sub(dom, ran)
        if rng.integers(2):
            e, f = f, e
        if o == "isum":
            op = e.op
            op += f.op
        else:
            op = e.op + f.op if o == "sum" else e.op - f.op
        return E(op, e.A - f.A if o == "diff" else e.A + f.A, e.N + f.N, dom, ran, f"({e.txt}) {'-' if o == 'diff' else '+'} ({f.txt})", e.leaves + f.leaves)
    if o == "pow":
        e, p = sub(dom, dom, 2), int(rng.integers(0, 4))
        I = np.eye(dom.n, dtype=e.A.dtype)
        return E(e.op ** p, np.linalg.matrix_power(e.A, p) if p else I, np.linalg.matrix_power(e.N, p) if p else np.abs(I), dom, ran,
                 f"({e.txt})**{p}", e.leaves)
    mid = space_fn(ctx, rng, dom, ran)
    a, b = sub(mid, ran, 2), sub(dom, mid, 2)
    op = pick(rng, [lambda: a.op * b.op, lambda: a.op @ b.op, lambda: a.op.dot(b.op)])()
    return E(op, a.A @ b.A, a.N @ b.N, dom, ran, f"({a.txt}) * ({b.txt})", a.leaves + b.leaves)


def verify(ctx, e, rng, dt, key, tol, nv=2, fwd_only=False):
    """Forward and adjoint of the expression against the dense matrices."""
    ctx.eq(tuple(int(s) for s in e.op.shape), e.A.shape, key + "-shape", f"shape of {e.txt}")
    ctx.rep("dtype of the expression", str(np.dtype(e.op.dtype)))
    for k in range(nv):
        v, u = rdata(rng, (e.dom.n,), vdt(rng, dt)), rdata(rng, (e.ran.n,), vdt(rng, dt))
        x, w = e.dom.vec(ctx, v), e.ran.vec(ctx, u)
        cmp(ctx, e.ran, e.op.matvec(x) if k else e.op @ x, e.A, e.N, v, key + "-forward", f"forward of {e.txt}", tol)
        if not fwd_only:
            cmp(ctx, e.dom, e.op.rmatvec(w), e.A.conj().T, e.N.T, u, key + "-adjoint", f"adjoint of {e.txt}", tol)
            if k:
                cmp(ctx, e.dom, e.op.H.matvec(w), e.A.conj().T, e.N.T, u, key + "-H", f".H of {e.txt}", tol)
                cmp(ctx, e.dom, e.op.T.matvec(w), e.A.T, e.N.T, u, key + "-T", f".T of {e.txt}", tol)
                cmp(ctx, e.ran, e.op.conj().matvec(x), e.A.conj(), e.N, v, key + "-conj", f"conj of {e.txt}", tol)


def cmp(ctx, sp, y, A, N, v, key, what, tol):
    sp.check(ctx, y, A @ v, key, what, tol, bound=N @ np.abs(v))


def leaf_snapshots(ctx, e, rng):
    """Apply every leaf once; returns a function that verifies that nothing changed."""
    snaps = []
    for z in e.leaves:
        dt = np.dtype(z.op.dtype)
        v, u = rdata(rng, (z.dom.n,), dt), rdata(rng, (z.ran.n,), dt)
        snaps.append((z, v, u, run_leaf(ctx, z, v, u)))

    def verify_(key):
        for z, v, u, (sh, dt, f, a) in snaps:
            sh2, dt2, f2, a2 = run_leaf(ctx, z, v, u)
            ctx.eq((sh2, dt2), (sh, dt), key, f"shape and dtype of {z.name} after building expressions")
            for p, q in zip(f + a, f2 + a2):
                ctx.bits(q, p, key, f"{z.name} applied after building and applying expressions")
    return verify_


def run_leaf(ctx, z, v, u):
    f, a = z.op.matvec(z.dom.vec(ctx, v)), z.op.rmatvec(z.ran.vec(ctx, u))
    return tuple(z.op.shape), np.dtype(z.op.dtype), [np.array(x) for x in arrays_of(f)], [np.array(x) for x in arrays_of(a)]
