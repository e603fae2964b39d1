"""C15: distributed Fredholm integral equals the serial batched product."""
import numpy as np
import pylops
from pylops_mpi.signalprocessing.Fredholm1 import MPIFredholm1
from ops import *           # noqa

WIDE = .06
STRUCT = .08
KINDS = ["random", "random", "options", "options", "nz1", "nz-many", "one-row", "one-col", "one-both", "complex", "single", "unsafe", "uneven", "empty-ranks",
         "tall", "wide", "big", "noncontig"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "f4", "c16", "c16", "c8"])
    c = {"kind": kind, "dt": dt, "ds": int(rng.integers(1 << 30)), "nx": int(rng.integers(2, 6)), "ny": int(rng.integers(2, 6)), "nz": int(rng.integers(1, 5)),
         "nsl": [int(x) for x in rng.integers(2, 6, P)], "sync": bool(rng.random() < .1)}
    if kind == "nz1":
        c["nz"] = 1
    elif kind == "nz-many":
        c["nz"] = int(rng.integers(5, 25))
    elif kind == "one-row":
        c["nx"] = 1
    elif kind == "one-col":
        c["ny"] = 1
    elif kind == "one-both":
        c["nx"] = c["ny"] = 1
    elif kind == "complex":
        c["dt"] = "c16"
    elif kind == "single":
        c["dt"] = "f4"
    elif kind == "uneven":
        c["nsl"] = [int(x) for x in rng.permutation([2] * (P - 1) + [int(pick(rng, [rng.integers(5, 12), rng.integers(12, 41)]))])]
    elif kind == "empty-ranks":
        c["nsl"] = [int(x) for x in rng.choice([0, 2, 3], P)]
        if sum(c["nsl"]) == 0:
            c["nsl"][-1] = 3
    elif kind == "tall":
        c["nx"], c["ny"] = int(rng.integers(8, 12)), int(rng.integers(2, 4))
    elif kind == "wide":
        c["ny"], c["nx"] = int(rng.integers(8, 12)), int(rng.integers(2, 4))
    elif kind == "big":
        c["nx"], c["ny"], c["nz"] = 12, 9, 6
    return c


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, r, dt = ctx.size, ctx.rank, c["dt"]
    nx, ny, nz, nsl = c["nx"], c["ny"], c["nz"], c["nsl"]
    n = sum(nsl)
    G = rdata(rng, (n, nx, ny), dt)
    if c["kind"] == "noncontig":
        G = np.asfortranarray(G)
    off = np.concatenate([[0], np.cumsum(nsl)])
    Gl = G[off[r]:off[r + 1]]
    keep = G.copy()
    part = "U" if c["kind"] == "unsafe" else "B"
    md, dd = vdt(rng, dt), vdt(rng, dt)
    m, d = rdata(rng, (n * ny * nz,), md).reshape(n, ny, nz), rdata(rng, (n * nx * nz,), dd).reshape(n, nx, nz)
    fw = np.stack([G[k] @ m[k] for k in range(n)]).ravel()
    ad = np.stack([G[k].conj().T @ d[k] for k in range(n)]).ravel()
    tol = 3e-5 if np.dtype(dt) in (np.dtype("f4"), np.dtype("c8")) else 1e-11
    dom, ran = Space(part, n=n * ny * nz), Space(part, n=n * nx * nz)
    opts = [(a, b) for a in (False, True) for b in (False, True)]
    if c["kind"] not in ("options", "one-row", "one-col", "one-both", "nz1"):
        opts = [opts[int(rng.integers(4))], opts[int(rng.integers(4))]]
    for sg, mm in opts:
        op = build(rng, MPIFredholm1, "fredholm", dict(G=Gl, nz=nz, saveGt=sg, usematmul=mm, dtype=dt, **ctx.kw()))
        what = f"G=({n},{nx},{ny}) nz={nz} saveGt={sg} usematmul={mm}"
        ctx.eq(tuple(int(s) for s in op.shape), (n * nx * nz, n * ny * nz), "shape", what + " shape")
        ctx.eq(np.dtype(op.dtype), np.dtype(dt), "operator-dtype", what + " type")
        for rep in range(2):
            x, y = dom.vec(ctx, m.ravel()), ran.vec(ctx, d.ravel())
            f, a = op.matvec(x), op.rmatvec(y)
            for sp, out, ref, key, same in ((ran, f, fw, "forward", md == dt), (dom, a, ad, "adjoint", dd == dt)):
                s = max(float(np.max(np.abs(ref))), 1e-30)
                ctx.eq(tuple(int(q) for q in out.global_shape), (sp.n,), key, what + " output shape")
                ctx.true(out.partition in (B, U), key, f"{what}: partition {out.partition}")
                ctx.close(out.local_array, ref, key, f"{key} {what}", tol=tol * np.sqrt(max(nx, ny)), scale=max(s, 1.))
                ctx.true(np.dtype(out.dtype) == out.local_array.dtype and (not same or out.dtype == np.dtype(dt)), key + "-dtype", f"{what}: dtype {out.dtype}, expected {dt}")
                ctx.rep(key, out.local_array)
            ctx.bits(x.local_array, m.ravel(), "input", "model after the application")
            ctx.bits(y.local_array, d.ravel(), "input", "data after the application")
    ctx.bits(G, keep, "kernel", "kernel after the applications")
