"""C11: vertical and horizontal stacks equal the serial stacked matrix."""
import numpy as np
import pylops
from pylops_mpi import MPIVStack, MPIHStack, MPIStackedVStack
from ops import *           # noqa
from suites.c10_blockdiag import probe, serial_ops

WIDE = .06
STRUCT = .08
KINDS = ["vstack", "vstack", "hstack", "hstack", "complex-v", "complex-h", "unsafe", "unsafe-ranks", "mixed-ops", "mixed-dtype", "stackedv", "stackedv",
         "stackedv-vst", "asym", "dtype", "one", "restrict"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "f8", "f4", "c16"])
    if kind.startswith("complex"):
        dt = pick(rng, ["c16", "c8"])
    return {"kind": kind, "dt": dt, "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .1)}


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, r, dt, kind = ctx.size, ctx.rank, c["dt"], c["kind"]
    if kind in ("vstack", "complex-v"):
        probe(ctx, z_vstack(ctx, rng, dt, maxb=int(pick(rng, [5, 5, 5, 12]))), dt, rng, "vstack")
    elif kind in ("hstack", "complex-h"):
        probe(ctx, z_hstack(ctx, rng, dt, maxb=int(pick(rng, [5, 5, 5, 12]))), dt, rng, "hstack")
    elif kind == "one":
        probe(ctx, (z_vstack if rng.integers(2) else z_hstack)(ctx, rng, dt, maxb=1, hi=1), dt, rng, "vstack")
    elif kind == "unsafe":
        probe(ctx, z_vstack(ctx, rng, dt, part="U"), dt, rng, "vstack-unsafe")
    elif kind == "unsafe-ranks":                 # every rank holds its own vector: its blocks see that one
        z = z_vstack(ctx, rng, dt)
        v = rdata(rng, (P, z.dom.n), dt)
        x = DistributedArray(global_shape=z.dom.n, partition=U, dtype=dt)
        x[:] = v[r]
        y = z.op.matvec(x)
        off = np.concatenate([[0], np.cumsum(z.ran.sizes)])
        w = np.concatenate([z.A[off[q]:off[q + 1]] @ v[q] for q in range(P)])
        s = max(np.max(np.abs(v)) * np.max(np.sum(np.abs(z.A), 1)), 1e-30)
        ctx.close(y.local_array, w[off[r]:off[r + 1]], "vstack-unsafe", "forward of rank-dependent input", tol=tol_op(z, dt), scale=s)
    elif kind in ("mixed-ops", "restrict"):
        n = int(rng.integers(3, 8))
        bl = [[serial_ops(rng, n, dt) for _ in range(int(rng.integers(1, 4)))] for _ in range(P)]
        A = np.vstack([a for os_ in bl for _, a in os_])
        rows = [sum(a.shape[0] for _, a in os_) for os_ in bl]
        if rng.integers(2):
            z = Zoo(MPIVStack([o for o, _ in bl[r]]), A, Space("B", n=n), Space("S", sizes=rows), "vstack")
        else:
            z = Zoo(MPIHStack([o.H for o, _ in bl[r]]), A.conj().T, Space("S", sizes=rows), Space("B", n=n), "hstack")
        probe(ctx, z, dt, rng, z.name)
    elif kind == "mixed-dtype":                  # some blocks real, some complex
        n = int(rng.integers(1, 8))
        dts = [[pick(rng, ["f8", "c16"]) for _ in range(int(rng.integers(1, 4)))] for _ in range(P)]
        bl = [[rdata(rng, (int(rng.integers(1, 5)), n), d) for d in dd] for dd in dts]
        A = np.vstack([a.astype("c16") for os_ in bl for a in os_])
        rows = [sum(a.shape[0] for a in os_) for os_ in bl]
        alld = {d for dd in dts for d in dd}
        vd = "c16" if "c16" in alld else "f8"
        if rng.integers(2):
            z = Zoo(MPIVStack([mmop(o) for o in bl[r]]), A, Space("B", n=n), Space("S", sizes=rows), "vstack")
        else:
            z = Zoo(MPIHStack([mmop(np.ascontiguousarray(o.conj().T)) for o in bl[r]]), A.conj().T, Space("S", sizes=rows), Space("B", n=n), "hstack")
        if vd == "f8":
            z.A = z.A.real
        probe(ctx, z, vd, rng, z.name + "-mixed")
    elif kind == "dtype":
        z = z_vstack(ctx, rng, "f8")
        op = MPIVStack([mmop(b) for b in z.blocks[r]], dtype="c16")
        v = rdata(rng, (z.dom.n,), "c16")
        y = op.matvec(z.dom.vec(ctx, v))
        ctx.true(np.dtype(op.dtype) == np.dtype("c16") == y.local_array.dtype, "dtype", f"dtype={op.dtype} requested complex128, output {y.dtype}")
        probe(ctx, z, "f8", rng, "vstack")
    elif kind == "asym":                         # very different number of blocks per rank
        n = int(rng.integers(1, 6))
        k = int(rng.integers(P))
        rows = [int(rng.integers(1, 3)) if q != k else int(rng.integers(10, 25)) for q in range(P)]
        probe(ctx, z_vstack(ctx, rng, dt, n=n, rows=rows, maxb=6), dt, rng, "vstack")
        probe(ctx, z_hstack(ctx, rng, dt, m=n, cols=rows, maxb=6), dt, rng, "hstack", nv=1)
    elif kind == "stackedv":
        probe(ctx, z_svs(ctx, rng, dt, ncomp=int(rng.integers(1, 5))), dt, rng, "stackedv")
    else:                                        # stack of vertical stacks / local operators over a replicated model
        n = int(rng.integers(1, 8))
        zs = [z_vstack(ctx, rng, dt, n=n) for _ in range(int(rng.integers(1, 4)))]
        z = Zoo(MPIStackedVStack([q.op for q in zs]), np.vstack([q.A for q in zs]), zs[0].dom, Space(comps=[q.ran for q in zs]), "svstack")
        probe(ctx, z, dt, rng, "stackedv")
