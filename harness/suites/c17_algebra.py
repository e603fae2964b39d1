"""C17: operator algebra is matrix algebra."""
import numpy as np
from exprs import *         # noqa

STRUCT = .08
KINDS = ["mixed", "square", "rect", "replicated", "derivative", "complex", "complex", "power", "deep", "laws", "outer-complex", "fredholm", "mdc", "single", "shapes"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "f8", "c16"])
    if kind in ("complex", "laws"):
        dt = "c16"
    if kind == "single":
        dt = pick(rng, ["f4", "c8"])
    if kind == "outer-complex":
        dt = "f8"
    return {"kind": kind, "dt": dt, "depth": int(rng.integers(1, 7 if kind == "deep" else 5)), "ds": int(rng.integers(1 << 30)),
            "sync": bool(rng.random() < .08)}


def mid(ctx, rng, dom, ran):
    k = rng.random()
    if k < .35:
        return dom
    if k < .6:
        return ran
    return rand_space(rng, ctx.size)


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, dt, kind = ctx.size, c["dt"], c["kind"]
    tol = 5e-4 if kind == "single" else 1e-10
    if kind in ("square", "power"):
        dom = ran = rand_space(rng, P)
    elif kind == "replicated":
        dom, ran = Space("B", n=int(rng.integers(1, 8))), Space("B", n=int(rng.integers(1, 8)))
    elif kind == "derivative":
        dims = rdims(rng, P, 4, maxrest=5)
        dom = deriv_space(ctx, dims)
        dom.dims = dims
        ran = dom
    elif kind == "rect":
        dom, ran = (Space("S", sizes=[int(x) for x in rng.integers(1, 6, P)]) for _ in range(2))
    else:
        dom, ran = rand_space(rng, P), rand_space(rng, P)
    if kind in ("fredholm", "mdc"):
        ctx.check_warn = kind != "mdc"           # MDC returns real values in complex arrays: dropping that zero part is harmless
        z = z_fredholm(ctx, rng, dt) if kind == "fredholm" else z_mdc(ctx, rng)
        vdt = dt if kind == "fredholm" else "f8"
        base = leaf(z)
        base.A = base.A.astype(vdt)
        alln = {(0, 0): [base], (1, 1): [], (0, 1): [], (1, 0): []}

        def lf(ctx, rng, d, r, dt):
            if d is z.dom and r is z.ran:
                return base if rng.random() < .7 or z.dom.n * z.ran.n > 4000 else leaf(z_local(ctx, rng, dt, m=r.n, n=d.n))
            if d is z.ran and r is z.dom:
                return E(base.op.H, base.A.conj().T, base.N.T, d, r, f"{z.name}.H", [z])
            return E(base.op.H * base.op, base.A.conj().T @ base.A, base.N.T @ base.N, d, r, f"{z.name}.H*{z.name}", [z]) if d is z.dom else \
                E(base.op * base.op.H, base.A @ base.A.conj().T, base.N @ base.N.T, d, r, f"{z.name}*{z.name}.H", [z])
        e = expr(ctx, rng, z.dom, z.ran, vdt, min(c["depth"], 3), None, lf, lambda ctx, rng, d, r: pick(rng, [z.dom, z.ran]))
        dt = vdt
    elif kind == "power":
        e0 = expr(ctx, rng, dom, dom, dt, max(c["depth"] - 2, 0), None, plain_leaf, mid)
        p = power_of(rng)
        e = E(e0.op ** p, np.linalg.matrix_power(e0.A, p), np.linalg.matrix_power(e0.N, p), dom, dom, f"({e0.txt})**{p}", e0.leaves)
    else:
        e = expr(ctx, rng, dom, ran, dt, c["depth"], None, plain_leaf, mid)
    if kind == "outer-complex":                  # real expression, complex factor applied last: complex result for real data
        a = complex(rng.uniform(-2, 2), rng.uniform(.5, 2))
        e2 = E(a * e.op if rng.integers(2) else e.op * a, e.A * a, e.N * abs(a), e.dom, e.ran, f"{a}*({e.txt})", e.leaves)
        ctx.true(np.dtype(e2.op.dtype).kind == "c", "dtype", f"type of a complex multiple is {e2.op.dtype}")
        verify(ctx, e2, rng, dt, "outer", tol, fwd_only=True)
    check = leaf_snapshots(ctx, e, rng)
    verify(ctx, e, rng, dt, kind, tol)
    if kind == "laws":                           # identities between expressions, on the same vectors
        f = expr(ctx, rng, dom, ran, dt, 2, None, plain_leaf, mid)
        a = scalar(rng, dt)
        L = [((e.op + f.op).H, e.op.H + f.op.H, (e.A + f.A).conj().T, (e.N + f.N).T, ran, dom),
             ((e.op.H * f.op).H, f.op.H * e.op, (e.A.conj().T @ f.A).conj().T, (e.N.T @ f.N).T, dom, dom),
             ((a * e.op).H, e.op.H * np.conj(a), (a * e.A).conj().T, abs(a) * e.N.T, ran, dom),
             ((a * e.op).T, a * e.op.T, (a * e.A).T, abs(a) * e.N.T, ran, dom),
             ((a * e.op).conj(), np.conj(a) * e.op.conj(), (a * e.A).conj(), abs(a) * e.N, dom, ran),
             (e.op - e.op, 0 * e.op, 0 * e.A, 2 * e.N, dom, ran)]
        for k, (l, r, A, N, d, s) in enumerate(L):
            v = rdata(rng, (d.n,), dt)
            u = rdata(rng, (s.n,), dt)
            for o in (l, r):
                cmp(ctx, s, o.matvec(d.vec(ctx, v)), A, N, v, "laws", f"law {k} forward", tol)
                cmp(ctx, d, o.rmatvec(s.vec(ctx, u)), A.conj().T, N.T, u, "laws", f"law {k} adjoint", tol)
    elif kind == "shapes":
        for bad in (lambda: e.op * 1 + plain_leaf(ctx, rng, Space("B", n=e.dom.n + 1), Space("B", n=e.ran.n), dt).op,
                    lambda: e.op * plain_leaf(ctx, rng, Space("B", n=3), Space("B", n=e.dom.n + 1), dt).op):
            ctx.rejects(bad, ("ValueError",), "shapes", "operators of incompatible shapes")
    check("leaf-changed")
