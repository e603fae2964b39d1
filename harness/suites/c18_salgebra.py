"""C18: stacked-operator algebra is matrix algebra."""
import numpy as np
from pylops_mpi import MPIStackedBlockDiag, MPIStackedVStack
from pylops_mpi.StackedLinearOperator import MPIStackedLinearOperator
from exprs import *         # noqa
from suites import c17_algebra as c17

STRUCT = .08
KINDS = ["diag", "diag", "vstack", "vstack-adj", "normal", "gradient", "gradient", "complex", "complex-v", "power", "deep", "single", "laws", "mixed-comps", "outer-complex"]
UN = ["adjoint", "transpose", "conj", "neg", "scale", "rscale", "H.H", "T.T", "H.conj", "conj.conj"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "f8", "c16"])
    if kind.startswith("complex") or kind == "laws":
        dt = "c16"
    if kind == "single":
        dt = pick(rng, ["f4", "c8"])
    if kind in ("outer-complex",):
        dt = "f8"
    return {"kind": kind, "dt": dt, "depth": int(rng.integers(1, 6 if kind == "deep" else 4)), "ds": int(rng.integers(1 << 30)),
            "sync": bool(rng.random() < .08)}


def comp_op(ctx, rng, dom, ran, dt):
    return expr(ctx, rng, dom, ran, dt, int(rng.integers(0, 2)), None, plain_leaf, c17.mid) if rng.random() < .3 else plain_leaf(ctx, rng, dom, ran, dt)


def s_leaf(ctx, rng, dom, ran, dt):
    if dom.comps and ran.comps and len(dom.comps) == len(ran.comps):
        es = [comp_op(ctx, rng, d, r, dt) for d, r in zip(dom.comps, ran.comps)]
        op = MPIStackedBlockDiag([e.op for e in es], **ctx.kw())
        A, N = dense_bd([e.A for e in es]), dense_bd([e.N for e in es])
        return E(op, A, N, dom, ran, "SBD[" + ",".join(e.txt for e in es) + "]", [Zoo(op, A, dom, ran, "sblockdiag")])
    if ran.comps and not dom.comps:
        dims = getattr(dom, "dims", None)
        if dims is not None and len(ran.comps) == len(dims) and all(r.key() == dom.key() for r in ran.comps) and rng.random() < .6:
            return leaf(z_gradient(ctx, rng, dt, dims=dims))
        es = [comp_op(ctx, rng, dom, r, dt) for r in ran.comps]
        op = MPIStackedVStack([e.op for e in es], **ctx.kw())
        A, N = np.vstack([e.A for e in es]), np.vstack([e.N for e in es])
        return E(op, A, N, dom, ran, "SVS[" + ",".join(e.txt for e in es) + "]", [Zoo(op, A, dom, ran, "svstack")])
    if dom.comps and not ran.comps:
        e = s_leaf(ctx, rng, ran, dom, dt)
        return E(e.op.H, e.A.conj().T, e.N.T, dom, ran, f"({e.txt}).H", e.leaves)
    if dom.comps:                                # different number of components: through a plain space
        mid = Space("S", sizes=[int(x) for x in rng.integers(1, 4, ctx.size)])
    else:                                        # plain to plain
        mid = Space(comps=[Space("S", sizes=[int(x) for x in rng.integers(1, 4, ctx.size)]) for _ in range(2)])
    a, b = s_leaf(ctx, rng, mid, ran, dt), s_leaf(ctx, rng, dom, mid, dt)
    return E(a.op * b.op, a.A @ b.A, a.N @ b.N, dom, ran, f"({a.txt})*({b.txt})", a.leaves + b.leaves)


def unwrap(op):
    while type(op).__name__ == "_ScaledStackedLinearOperator":
        op = op.args[0]
    return type(op)


def sexpr(ctx, rng, dom, ran, dt, depth):
    def sub(d, r, k=1):
        return sexpr(ctx, rng, d, r, dt, depth - k)
    if depth <= 0 or rng.random() < .1:
        return pooled(ctx, rng, dom, ran, dt, s_leaf)
    choices = UN + ["sum", "diff", "sum", "diff", "prod", "prod"]
    if dom.key() == ran.key():
        choices += ["pow", "pow"]
    o = pick(rng, choices)
    if o in ("adjoint", "transpose", "H.conj"):
        e = sub(ran, dom)
        op = {"adjoint": lambda p: p.H, "transpose": lambda p: p.T, "H.conj": lambda p: p.H.conj()}[o](e.op)
        return E(op, e.A.conj().T if o == "adjoint" else e.A.T, e.N.T, dom, ran, f"({e.txt}).{o}", e.leaves)
    if o in ("conj", "H.H", "T.T", "conj.conj"):
        e = sub(dom, ran)
        op = {"conj": lambda p: p.conj(), "H.H": lambda p: p.H.H, "T.T": lambda p: p.T.T, "conj.conj": lambda p: p.conj().conj()}[o](e.op)
        return E(op, e.A.conj() if o == "conj" else e.A, e.N, dom, ran, f"({e.txt}).{o}", e.leaves)
    if o == "neg":
        e = sub(dom, ran)
        return E(-e.op, -e.A, e.N, dom, ran, f"-({e.txt})", e.leaves)
    if o in ("scale", "rscale"):
        e, a = sub(dom, ran), scalar(rng, dt)
        return E(a * e.op if o == "scale" else e.op * a, e.A * a, e.N * abs(a), dom, ran, f"{a}*({e.txt})", e.leaves)
    if o in ("sum", "diff"):
        e = sub(dom, ran)
        f = twin(rng, e, dt) if rng.random() < .25 else sub(dom, ran)
        if rng.integers(2):
            e, f = f, e
        if unwrap(e.op) is not unwrap(f.op):     # only operators of one type can be added
            a = scalar(rng, dt)
            f = E(e.op * a, e.A * a, e.N * abs(a), dom, ran, f"{a}*same", [])
        op = e.op + f.op if o == "sum" else e.op - f.op
        return E(op, e.A + f.A if o == "sum" else e.A - f.A, e.N + f.N, dom, ran, f"({e.txt}) {'+' if o == 'sum' else '-'} ({f.txt})", e.leaves + f.leaves)
    if o == "pow":
        e, p = sub(dom, dom, 2), int(rng.integers(0, 4))
        return E(e.op ** p, np.linalg.matrix_power(e.A, p), np.linalg.matrix_power(e.N, p), dom, ran, f"({e.txt})**{p}", e.leaves)
    mid = s_mid(ctx, rng, dom, ran)
    a, b = sub(mid, ran, 2), sub(dom, mid, 2)
    op = pick(rng, [lambda: a.op * b.op, lambda: a.op @ b.op, lambda: a.op.dot(b.op)])()
    return E(op, a.A @ b.A, a.N @ b.N, dom, ran, f"({a.txt}) * ({b.txt})", a.leaves + b.leaves)


def rspace(ctx, rng):
    return Space("S", sizes=[int(x) for x in rng.integers(1, 4, ctx.size)])


def s_mid(ctx, rng, dom, ran):
    k = rng.random()
    if k < .35:
        return dom
    if k < .7:
        return ran
    if k < .85:
        return rspace(ctx, rng)
    n = len(dom.comps or ran.comps or [0, 0])
    return Space(comps=[rspace(ctx, rng) for _ in range(n)])


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, dt, kind = ctx.size, c["dt"], c["kind"]
    tol = 5e-4 if kind == "single" else 1e-10
    k = int(rng.integers(1, 4))
    st = lambda n: Space(comps=[rspace(ctx, rng) for _ in range(n)])      # noqa: E731
    if kind in ("vstack", "complex-v"):
        dom, ran = rspace(ctx, rng), st(k)
    elif kind == "vstack-adj":
        dom, ran = st(k), rspace(ctx, rng)
    elif kind == "normal":
        dom = ran = rspace(ctx, rng)
    elif kind == "gradient":
        dims = rdims(rng, P, 3, maxrest=5)
        dom = deriv_space(ctx, dims)
        dom.dims = dims
        ran = Space(comps=[dom] * len(dims))
        if rng.integers(2):
            dom, ran = ran, dom
    elif kind == "power":
        dom = ran = st(k)
    elif kind == "mixed-comps":
        dom = Space(comps=[rspace(ctx, rng), Space("B", n=int(rng.integers(1, 6)))])
        ran = Space(comps=[Space("B", n=int(rng.integers(1, 6))), rspace(ctx, rng)])
    else:
        dom, ran = st(k), st(k)
    if kind == "power":
        e0 = sexpr(ctx, rng, dom, dom, dt, max(c["depth"] - 1, 0))
        p = power_of(rng)
        e = E(e0.op ** p, np.linalg.matrix_power(e0.A, p), np.linalg.matrix_power(e0.N, p), dom, dom, f"({e0.txt})**{p}", e0.leaves)
    else:
        e = sexpr(ctx, rng, dom, ran, dt, c["depth"])
    ctx.true(isinstance(e.op, MPIStackedLinearOperator), "type", f"{e.txt} is {type(e.op).__name__}")
    check = leaf_snapshots(ctx, e, rng)
    if kind == "outer-complex":
        a = complex(rng.uniform(-2, 2), rng.uniform(.5, 2))
        e2 = E(a * e.op if rng.integers(2) else e.op * a, e.A * a, e.N * abs(a), e.dom, e.ran, f"{a}*({e.txt})", e.leaves)
        ctx.true(np.dtype(e2.op.dtype).kind == "c", "dtype", f"type of a complex multiple is {e2.op.dtype}")
        verify(ctx, e2, rng, dt, "outer", tol, fwd_only=True)
    verify(ctx, e, rng, dt, kind, tol)
    if kind == "laws":
        f = s_leaf(ctx, rng, e.dom, e.ran, dt)
        g = s_leaf(ctx, rng, e.dom, e.ran, dt)
        a, b = scalar(rng, dt), scalar(rng, dt)
        L = [((f.op + g.op).H, (f.A + g.A).conj().T, (f.N + g.N).T, ran, dom), ((f.op.H * g.op).H, (f.A.conj().T @ g.A).conj().T, (f.N.T @ g.N).T, dom, dom),
             ((a * f.op).H, (a * f.A).conj().T, abs(a) * f.N.T, ran, dom), ((a * f.op).T, (a * f.A).T, abs(a) * f.N.T, ran, dom),
             ((a * f.op - b * g.op).conj(), (a * f.A - b * g.A).conj(), abs(a) * f.N + abs(b) * g.N, dom, ran),
             (f.op - g.op, f.A - g.A, f.N + g.N, dom, ran)]
        for j, (l, A, N, d, s) in enumerate(L):
            v, u = rdata(rng, (d.n,), dt), rdata(rng, (s.n,), dt)
            cmp(ctx, s, l.matvec(d.vec(ctx, v)), A, N, v, "laws", f"law {j} forward", tol)
            cmp(ctx, d, l.rmatvec(s.vec(ctx, u)), A.conj().T, N.T, u, "laws", f"law {j} adjoint", tol)
    check("leaf-changed")
