"""C09: inputs of any layout are realigned exactly, or rejected on all ranks."""
import numpy as np
import scipy.sparse
from ops import *           # noqa
from suites.c12_first import feasible

WIDE = .06
STRUCT = .08
KINDS = ["blockdiag", "blockdiag", "vstack", "hstack", "first", "second", "blockdiag-far", "vstack-far", "first-far", "svstack", "sblockdiag",
         "algebra", "laplacian", "chain-empty", "sequence", "large"]


def layout(rng, eff, mode):
    """A layout of sum(eff) elements: 0 neighbour moves, 1 arbitrary, 2 concentrated, 3 exact boundary case."""
    n, P = sum(eff), len(eff)
    if mode == 1:
        return rand_sizes(rng, n, P)
    if mode == 2:
        s = [0] * P
        s[int(rng.integers(P))] = n
        return s
    s = list(eff)
    for _ in range(int(rng.integers(1, 2 * P + 1))):
        if P > 1:
            a = int(rng.integers(P - 1))
            b = a + 1
            if rng.integers(2):
                a, b = b, a
            k = s[a] if mode == 3 and rng.integers(2) else int(rng.integers(0, s[a] + 1))
            s[a] -= k
            s[b] += k
    return s


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "f8", "f4", "c16"])
    mode = int(rng.integers(1, 3)) if kind.endswith("-far") else int(pick(rng, [0, 0, 0, 1, 3, 3]))
    return {"kind": kind, "dt": dt, "mode": mode, "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .2)}


def attempt(ctx, f, sp, xs, v, ran, A, key, what, tol, eff=None):
    """Apply f to v laid out as xs: right answer if the realignment is possible, else the same ValueError everywhere."""
    x = mk(ctx, v, Lay("S", 0, xs))
    ok = feasible(eff or sp.sizes, xs)
    if ok:
        y = f(x)
        close_vec(ctx, ran, y, A, v, key, f"{what} realigned {xs} -> {eff or sp.sizes}", tol)
    else:
        o = ctx.outcome(lambda: f(x))
        ctx.rep(what + " outcome", o[0] if o[0] == "ok" else o[1])
        if o[0] == "ok":
            close_vec(ctx, ran, o[1], A, v, key + "-far", f"{what} realigned {xs} -> {eff or sp.sizes}", tol)
        else:
            ctx.true(o[1] == "ValueError", key + "-refusal", f"{what} {xs} -> {eff or sp.sizes}: {o[1]}: {o[2]}")
    ctx.bits(x.local_array, block(v, xs, 0, ctx.rank), key + "-input", "input after the application")
    return ok


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, dt, kind, mode = ctx.size, c["dt"], c["kind"], c["mode"]
    name = kind.split("-")[0]
    if name in ("blockdiag", "vstack", "hstack", "first", "second", "laplacian"):
        z = zoo(ctx, rng, name, dt)
        tol = tol_op(z, dt)
        for k in range(2):
            if z.dom.part == "S":
                attempt(ctx, z.op.matvec, z.dom, layout(rng, z.dom.sizes, mode), rdata(rng, (z.dom.n,), dt), z.ran, z.A, name, name + " forward", tol)
            if z.ran.part == "S":
                attempt(ctx, z.op.rmatvec, z.ran, layout(rng, z.ran.sizes, mode), rdata(rng, (z.ran.n,), dt), z.dom, z.A.conj().T, name, name + " adjoint", tol)
    elif kind == "algebra":                      # sums of operators see the same misaligned input
        z1 = z_blockdiag(ctx, rng, dt)
        z2 = z_blockdiag(ctx, rng, dt, rows=z1.ran.sizes, cols=z1.dom.sizes)
        op, A = z1.op + z2.op * 2.0, z1.A + 2 * z2.A
        op2, A2 = z1.op.H * z1.op, z1.A.conj().T @ z1.A
        tol = tol_op(z1, dt) * 10
        attempt(ctx, op.matvec, z1.dom, layout(rng, z1.dom.sizes, mode), rdata(rng, (z1.dom.n,), dt), z1.ran, A, "algebra", "sum forward", tol)
        attempt(ctx, op.rmatvec, z1.ran, layout(rng, z1.ran.sizes, mode), rdata(rng, (z1.ran.n,), dt), z1.dom, A.conj().T, "algebra", "sum adjoint", tol)
        attempt(ctx, op2.matvec, z1.dom, layout(rng, z1.dom.sizes, mode), rdata(rng, (z1.dom.n,), dt), z1.dom, A2, "algebra", "normal operator", tol * 10)
    elif kind == "sblockdiag":
        z = z_sbd(ctx, rng, dt)
        tol = tol_op(z, dt)
        for f, sp, ran, A in ((z.op.matvec, z.dom, z.ran, z.A), (z.op.rmatvec, z.ran, z.dom, z.A.conj().T)):
            v = rdata(rng, (sp.n,), dt)
            o, comps, ok = 0, [], True
            for cc in sp.comps:
                xs = layout(rng, cc.sizes, mode)
                ok = ok and feasible(cc.sizes, xs)
                comps.append(mk(ctx, v[o:o + cc.n], Lay("S", 0, xs)))
                o += cc.n
            out = ctx.outcome(lambda: f(StackedDistributedArray(comps)))
            ctx.rep("outcome", out[0] if out[0] == "ok" else out[1])
            ctx.true(not (ok and out[0] != "ok"), "sblockdiag", f"realignable stack refused: {out[1:]}")
            if out[0] == "ok":
                close_vec(ctx, ran, out[1], A, v, "sblockdiag", "stacked", tol)
            else:
                ctx.true(out[1] == "ValueError", "sblockdiag-refusal", f"{out[1]}: {out[2]}")
    elif kind == "svstack":
        z = z_svs(ctx, rng, dt)
        attempt(ctx, z.op.matvec, z.dom, layout(rng, z.dom.sizes, mode), rdata(rng, (z.dom.n,), dt), z.ran, z.A, "svstack", "stacked vertical forward", tol_op(z, dt))
    elif kind == "chain-empty":                  # ranks holding nothing of the input
        z = z_blockdiag(ctx, rng, dt, hi=2)
        xs = list(z.dom.sizes)
        for q in range(0, P - 1, 2):
            if rng.integers(2):
                xs[q + 1] += xs[q]
                xs[q] = 0
            else:
                xs[q] += xs[q + 1]
                xs[q + 1] = 0
        attempt(ctx, z.op.matvec, z.dom, xs, rdata(rng, (z.dom.n,), dt), z.ran, z.A, "blockdiag", "forward", tol_op(z, dt))
    elif kind == "large":                        # shifts and parts of tens of thousands of elements
        sizes = [int(v) for v in rng.integers(1, 60000, P)]
        dv = rdata(rng, (sum(sizes),), dt)
        sp = Space("S", sizes=sizes)
        op = MPIBlockDiag([pylops.Diagonal(block(dv, sizes, 0, ctx.rank), dtype=dt)], **ctx.kw())
        for k in range(2):
            v = rdata(rng, (sp.n,), dt)
            attempt(ctx, op.matvec, sp, layout(rng, sizes, mode), v, sp, scipy.sparse.diags(dv), "large", "forward", 1e-4 if dt == "f4" else 1e-10)
            attempt(ctx, op.rmatvec, sp, layout(rng, sizes, mode), v, sp, scipy.sparse.diags(dv.conj()), "large", "adjoint", 1e-4 if dt == "f4" else 1e-10)
    else:                                        # several layouts in a row through one operator
        z = z_blockdiag(ctx, rng, dt)
        v = rdata(rng, (z.dom.n,), dt)
        for m in (0, 1, 3, 0, 2, 0):
            attempt(ctx, z.op.matvec, z.dom, layout(rng, z.dom.sizes, m), v, z.ran, z.A, "blockdiag", "forward in sequence", tol_op(z, dt))
