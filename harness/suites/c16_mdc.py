"""C16: distributed multi-dimensional convolution equals the serial operator."""
import numpy as np
import pylops
from pylops_mpi.waveeqprocessing.MDC import MPIMDC
from ops import *           # noqa

WIDE = .06
STRUCT = .08
KINDS = ["random", "random", "random", "uneven", "onesided", "conj", "prescaled", "nv1", "nv-many", "fullband", "single", "small-ns", "dottest", "unsafe", "explicit"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    nsl = [int(x) for x in rng.integers(2, 4, P)]
    if kind == "uneven":
        nsl = [int(x) for x in rng.permutation([2] * (P - 1) + [int(rng.integers(3, 7))])]
    nf = sum(nsl)
    two = bool(rng.integers(2)) and kind != "onesided"
    nt = 2 * nf - 1 + int(rng.integers(0, 8))
    if kind == "fullband":
        nt = 2 * nf - 1
    if two and nt % 2 == 0:
        nt += 1
    c = {"kind": kind, "nsl": nsl, "nt": nt, "two": two, "conj": bool(rng.integers(2)) or kind == "conj", "pre": bool(rng.integers(2)) or kind == "prescaled",
         "sg": bool(rng.integers(2)), "mm": bool(rng.integers(2)), "dt": 1. if rng.random() < .2 else float(rng.uniform(.001, 2)), "dr": 1. if rng.random() < .2 else float(rng.uniform(.5, 20)),
         "ns": int(rng.integers(2, 5)), "nr": int(rng.integers(2, 5)), "nv": int(rng.integers(1, 4)), "cd": "c8" if kind == "single" else "c16",
         "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .1)}
    if kind == "nv1":
        c["nv"] = 1
    elif kind == "nv-many":
        c["nv"] = int(rng.integers(4, 7))
    elif kind == "small-ns":
        c[pick(rng, ["ns", "nr"])] = 1
    return c


def oracle(G, c):
    """The formula, by FFTs on the full kernel: forward and adjoint as functions on real flat vectors."""
    nf, ns, nr = G.shape
    nt, nv = c["nt"], c["nv"]
    nfft = (nt + 2) // 2 if nt % 2 == 0 else (nt + 1) // 2
    K = G.astype("c16") * (1 if c["pre"] else c["dr"] * c["dt"] * np.sqrt(nt))
    if c["conj"]:
        K = K.conj()

    def rfft(x):                                 # orthonormal real FFT keeping the energy of the folded half (factor sqrt 2)
        X = np.fft.rfft(x, axis=0) / np.sqrt(nt)
        k = slice(1, 1 + (nt - 1) // 2)
        X[k] *= np.sqrt(2)
        return X

    def irfft(X):
        X = X.copy()
        k = slice(1, 1 + (nt - 1) // 2)
        X[k] /= np.sqrt(2)
        return np.fft.irfft(X * np.sqrt(nt), n=nt, axis=0)

    def fw(m):
        x = m.reshape(nt, nr, nv)
        if c["two"]:
            x = np.fft.ifftshift(x, axes=0)
        X = rfft(x)[:nf]
        Y = np.zeros((nfft, ns, nv), "c16")
        Y[:nf] = np.einsum("fij,fjk->fik", K, X)
        return irfft(Y).ravel()

    def ad(d):
        Y = rfft(d.reshape(nt, ns, nv))[:nf]
        X = np.zeros((nfft, nr, nv), "c16")
        X[:nf] = np.einsum("fji,fjk->fik", K.conj(), Y)
        x = irfft(X)
        if c["two"]:
            x = np.fft.fftshift(x, axes=0)
        return x.ravel()
    return fw, ad


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, r = ctx.size, ctx.rank
    nf, ns, nr, nt, nv = sum(c["nsl"]), c["ns"], c["nr"], c["nt"], c["nv"]
    G = rdata(rng, (nf, ns, nr), c["cd"])
    keep = G.copy()
    off = np.concatenate([[0], np.cumsum(c["nsl"])])
    kw = dict(nt=nt, nv=nv, dt=c["dt"], dr=c["dr"], twosided=c["two"], saveGt=c["sg"], conj=c["conj"], usematmul=c["mm"], prescaled=c["pre"])
    # more frequencies than the time axis has: all there are
    nfreq = nf + int(rng.integers(1, 4)) if nf == (nt + 2) // 2 and rng.random() < .5 else nf
    op = build(rng, MPIMDC, "mdc", dict(G=G[off[r]:off[r + 1]], nfreq=nfreq, **kw, **ctx.kw()))
    # serial PyLops cannot apply kernels with one row or one column: only the formula is the reference there
    so = pylops.waveeqprocessing.MDC(G, **{**kw, "usematmul": True}) if min(ns, nr) > 1 else None
    fw, ad = oracle(G, c)
    single = c["cd"] == "c8"
    rdt = "f4" if single else "f8"
    tol = 3e-4 if single else 1e-10
    n, m = nt * nr * nv, nt * ns * nv
    ctx.eq(tuple(int(s) for s in op.shape), (m, n), "shape", "operator shape")
    ctx.eq(np.dtype(op.dtype).kind, "f", "dtype", "kind of the operator type")
    part = "U" if c["kind"] == "unsafe" else "B"
    scale = 1 if c["pre"] else c["dr"] * c["dt"] * np.sqrt(nt)
    for rep in range(2):
        v, u = rdata(rng, (n,), vdt(rng, rdt)), rdata(rng, (m,), vdt(rng, rdt))
        x, w = Space(part, n=n).vec(ctx, v), Space(part, n=m).vec(ctx, u)
        f, a = op.matvec(x), op.rmatvec(w)
        vr, ur = v.astype(rdt), u.astype(rdt)
        for key, out, ref, sref, k in (("forward", f, fw(vr), so and so.matvec(vr), m), ("adjoint", a, ad(ur), so and so.rmatvec(ur), n)):
            s = max(float(np.max(np.abs(ref))), 1e-2 * scale)
            ctx.eq(tuple(int(q) for q in out.global_shape), (k,), key, "output shape")
            got = out.local_array
            ctx.true(got.dtype.kind == "f" or not np.any(np.abs(got.imag) > tol * s), key, f"{key}: result not real")
            ctx.close(got.real, ref, key, f"{key} against the formula {c}", tol=tol, scale=s)
            if so is not None:
                ctx.close(got.real, np.real(sref).ravel(), key, f"{key} against serial PyLops", tol=tol, scale=s)
            ctx.rep(key, got)
        ctx.bits(x.local_array, v, "input", "model after the application")
        ctx.bits(w.local_array, u, "input", "data after the application")
    ctx.bits(G, keep, "kernel", "kernel after the applications")
    if c["kind"] == "dottest":
        d = pylops_mpi.utils.dottest(op, x, w, rtol=1e-3 if single else 1e-6, atol=1e-2 * scale if single else 1e-8 * scale, raiseerror=False)
        ctx.true(bool(d), "dottest", "dot test of the MDC operator fails")
