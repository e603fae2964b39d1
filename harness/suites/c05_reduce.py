"""C05: dot and norms equal NumPy, bitwise the same on all ranks."""
import numpy as np
from lib import *           # noqa

WIDE = .06
STRUCT = .08
INTX = .4
KINDS = ["dot", "norm", "norm_axis", "dot_sizes", "norm_sizes", "norm_small", "repl", "repl_axis", "ints", "special", "dot_mixed"]
ORDS = [None, 2, 1, 0, "inf", "-inf", 3, 1.5, 4, 0.5, 2.5]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    ndim = int(rng.integers(1, 4)) if rng.random() < .88 else int(rng.integers(4, 6))
    if kind in ("norm_axis", "repl_axis"):
        ndim = int(rng.integers(2, 4))
    shape = [int(rng.integers(1, max(3, (4 * P + 4) // ndim + 2))) for _ in range(ndim)]
    axis = int(rng.integers(ndim))
    if kind == "norm_small":
        shape[axis] = int(rng.integers(1, P + 1))
    if rng.random() < 0.01:
        shape[axis] = 20000 // max(1, int(np.prod(shape)) // shape[axis]) + 1
    c = {"kind": kind, "shape": shape, "axis": axis, "part": "S", "dt": pick(rng, ["f8", "f8", "c16", "f4", "c8"]),
         "ds": int(rng.integers(1 << 30)), "sizes": None}
    if kind.startswith("repl"):
        c["part"] = pick(rng, ["B", "U"])
    if kind.endswith("sizes") or kind in ("norm_axis", "norm_small", "special") and rng.random() < .5:
        c["sizes"] = rand_sizes(rng, shape[axis], P)
    if kind == "ints":
        c["dt"] = pick(rng, ["i8", "i4", "i2", "i1", "u1", "u2"])
        c["part"] = pick(rng, ["S", "B"])
    if kind == "dot_mixed":                         # two arrays of different element types
        c["dt2"] = pick(rng, [d for d in ["f8", "c16", "f4", "c8", "i8"] if d != c["dt"]])
        c["part"] = pick(rng, ["S", "S", "B", "U"])
    return c


def ordv(o):
    return {"inf": np.inf, "-inf": -np.inf}.get(o, o)


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    shape, dt = tuple(c["shape"]), np.dtype(c["dt"])
    lay = Lay(c["part"], c["axis"], c["sizes"])
    g, h = rdata(rng, shape, dt, True), rdata(rng, shape, np.dtype(c.get("dt2", dt)))
    if dt.kind == "c" and rng.random() < .4:        # elements on the imaginary or on the real axis
        m = rng.random(shape)
        g = np.where(m < .2, 1j * g.imag, np.where(m > .8, g.real, g)).astype(dt)
    if c["kind"] == "special":
        m = int(rng.integers(10))
        if m >= 7:                                  # NaN and infinities, of a diverged computation
            for k in range(1 + int(rng.integers(2))):
                g.ravel()[int(rng.integers(g.size))] = [np.nan, np.inf, -np.inf][(m - 7 + 2 * k) % 3]
        elif m >= 4:                                  # elements of very different magnitudes, tiny and huge ones
            lo, hi = {4: (-30, -5), 5: (-20, 20), 6: (-16, 0)}[m]
            k = 1 if dt.itemsize // (2 if dt.kind == "c" else 1) == 8 else .5
            g = (g * 10. ** (k * rng.uniform(lo, hi, shape))).astype(dt)
        elif m == 0:
            g = np.zeros(shape, dt)
        elif m == 1:
            g = (g * 1e-3).astype(dt)
        elif m == 2:
            g = -np.abs(g.real).astype(dt)
        else:                                       # the extremum sits on one known element
            g = (g / 100).astype(dt)
            g.ravel()[int(rng.integers(g.size))] = 50
    d, e = mk(ctx, g, lay), mk(ctx, h, lay)
    scale = float(np.sum(np.abs(g.astype(complex)) * np.abs(h.astype(complex)))) + 1e-300

    def scal(v, what):
        ctx.true(np.ndim(v) == 0, "scalar", f"{what}: not a scalar: {v!r:.80}")
        ctx.rep(what, np.asarray(v))
        return v
    v = scal(d.dot(e), "dot")
    want = np.dot(g.ravel(), h.ravel())
    ctx.close(v, want, "dot", "dot", scale=scale, tol=tol_for(dt, h.dtype))
    v = scal(d.dot(d.conj()), "dot conj")
    w2 = np.vdot(g.ravel(), g.ravel())
    ctx.close(v, w2, "dot", "dot with conj", tol=tol_for(dt))
    if c["kind"].startswith("dot"):
        ctx.close(e.dot(d), want, "dot", "dot commuted", scale=scale, tol=tol_for(dt, h.dtype))
        return
    n = len(ORDS)
    o0 = int(rng.integers(n))
    for o in [ORDS[(o0 + k) % n] for k in range(n if c["kind"] in ("norm", "norm_small", "repl") else 5)]:
        ord = ordv(o)
        gg = g if dt.kind in "fc" else g.astype("f8")
        want = np.linalg.norm(gg.ravel().astype("c16" if dt.kind == "c" else "f8"), ord)
        v = d.norm(ord) if rng.random() < .5 else d.norm(ord=ord, axis=-1)
        scal(v, f"norm {o}")
        if np.isfinite(want) or not np.isfinite(g).all():
            ctx.close(v, want, f"norm-{o}", f"norm({o})", tol=tol_for(dt) * (1 if not (isinstance(o, float) and o < 1) else 20))
        if len(shape) > 1 or rng.random() < .2:
            want = np.linalg.norm(gg.astype("c16" if dt.kind == "c" else "f8"), ord, axis=c["axis"])
            v = d.norm(ord, axis=c["axis"])
            ctx.rep(f"norm {o} axis", np.asarray(v))
            ctx.close(v, want, f"norm-axis-{o}", f"norm({o}, axis={c['axis']})", tol=tol_for(dt) * (1 if not (isinstance(o, float) and o < 1) else 20))
    ctx.bits(d.local_array, lay.own(g, ctx.rank, ctx.size), "modified", "array after reductions")
