"""C03: element-wise algebra equals NumPy on the local parts and keeps the layout."""
import numpy as np
from lib import *           # noqa

WIDE = .06
NONFIN = .06
KINDS = ["chain", "chain", "single", "ravel", "chain", "npscalar"]
INTX = .5
DT = ["f8", "f8", "c16", "f4", "c8", "i8", "u1", "i2"]


def gen(rng, P, i, tier):
    ndim = int(rng.integers(1, 4)) if rng.random() < .85 else int(rng.integers(4, 6))
    shape = [int(rng.integers(1, max(3, (3 * P + 4) // ndim + 2))) for _ in range(ndim)]
    axis = int(rng.integers(ndim))
    part = pick(rng, ["S", "S", "S", "B", "U"])
    c = {"kind": KINDS[i % len(KINDS)], "shape": shape, "axis": axis, "part": part, "dt": pick(rng, DT),
         "ds": int(rng.integers(1 << 30)), "steps": int(rng.integers(3, 12)), "mask": rand_mask(rng, P) if rng.random() < .3 else None,
         "sizes": rand_sizes(rng, shape[axis], P) if part == "S" and rng.random() < .5 else None}
    if rng.random() < 0.02:
        c["shape"][axis] = 3000 * P // max(1, int(np.prod(shape) // shape[axis]))+P
        c["sizes"] = None
    return c


def scalar(rng, dt):
    k = np.dtype(dt).kind
    if k == "u":
        return int(rng.integers(0, 4))
    if k == "i":
        return int(rng.integers(-3, 4))
    if k == "c" and rng.random() < .6:
        return complex(rng.standard_normal(), rng.standard_normal())
    return float(rng.standard_normal()) if rng.random() < .7 else int(rng.integers(-2, 3))


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    shape, dt = tuple(c["shape"]), np.dtype(c["dt"])
    lay = Lay(c["part"], c["axis"], c["sizes"], c["mask"])
    tol = 1e-12 if dt in (np.dtype("f8"), np.dtype("c16")) else 2e-5 if dt.kind in "fc" else 0.
    gs = [rdata(rng, shape, dt) for _ in range(3)]
    ds = [mk(ctx, g, lay, "ctor" if rng.random() < .5 else None) for g in gs]
    gs = [g.copy() for g in gs]

    def check(d, g, what, key):
        check_layout(ctx, d, shape, lay, key + "-layout", what)
        ctx.true(d.base_comm == ctx.comm, key + "-comm", what + ": communicator")
        ctx.close(d.local_array, lay.own(g, ctx.rank, ctx.size), key, what, tol=tol)

    def step(op, s):
        i, j, k = (int(x) for x in rng.integers(0, 3, 3))
        a = scalar(rng, dt)
        what = f"step {s}: {op}"
        if op == "neg":
            d, g = -ds[i], -gs[i]
        elif op == "add":
            d, g = ds[i] + ds[j], gs[i] + gs[j]
        elif op == "sub":
            d, g = ds[i] - ds[j], gs[i] - gs[j]
        elif op == "mul":
            d, g = ds[i] * ds[j], gs[i] * gs[j]
        elif op == "muls":
            d, g = ds[i] * a, gs[i] * a
        elif op == "rmuls":
            d, g = a * ds[i], a * gs[i]
        elif op == "conj":
            d, g = ds[i].conj(), gs[i].conj()
        elif op == "copy":
            d, g = ds[i].copy(), gs[i].copy()
        elif op == "zeros":
            d, g = ds[i].zeros_like(), np.zeros_like(gs[i])
        elif op == "axpy":
            d, g = ds[i] + a * ds[j], gs[i] + a * gs[j]
        elif op == "methods":
            d, g = ds[i].add(ds[j].multiply(a)), gs[i] + gs[j] * a
        elif op in ("iadd", "isub"):
            if i == j:
                j = (i + 1) % 3
            old = ds[i]
            t = ds[i]
            if op == "iadd":
                t += ds[j]
                g = gs[i] + gs[j]
            else:
                t -= ds[j]
                g = gs[i] - gs[j]
            ctx.true(t is old, "inplace-identity", what + " returned another object")
            gs[i] = g
            check(ds[i], g, what, op)
            return
        elif op == "iaddself":
            ds[i] += ds[i]
            gs[i] = gs[i] + gs[i]
            check(ds[i], gs[i], what, op)
            return
        g = np.asarray(g).astype(dt)
        big = np.max(np.abs(g), initial=0, where=np.isfinite(g))
        if 1e6 < big < 1e30 or dt.itemsize > 2 and dt.kind == "i" and big > 1e5:
            return
        check(d, g, what, op)
        ds[k], gs[k] = d, g
    OPS = ["neg", "add", "sub", "mul", "muls", "rmuls", "conj", "copy", "zeros", "axpy", "methods", "iadd", "isub", "iaddself"]
    kind = c["kind"]
    if kind == "chain":
        for s in range(c["steps"]):
            step(pick(rng, OPS), s)
        for i in range(3):
            check(ds[i], gs[i], f"operand {i} at the end", "operand")
    elif kind == "single":
        for s, op in enumerate(OPS):
            step(op, s)
    elif kind == "npscalar":
        for a in (np.float64(1.5), np.float32(-2.0), np.int64(3), np.array(2.0)):
            if dt.kind in "iu" and np.asarray(a).dtype.kind != "i" or dt.itemsize < 8 and np.asarray(a).dtype.itemsize > dt.itemsize:
                continue
            if dt == np.complex64:
                continue
            d = ds[0] * a
            check(d, (gs[0] * a).astype(dt), f"array * {type(a).__name__}", "npscalar")
            if not isinstance(a, np.ndarray):
                d = a * ds[0]
                ctx.true(is_da(d), "np-rmul-type", f"{type(a).__name__} * array gives {type(d).__name__}")
                if is_da(d):
                    check(d, (a * gs[0]).astype(dt), f"{type(a).__name__} * array", "npscalar")
    if kind == "ravel" or rng.random() < .3:
        for order in ("C", "F", "A", "K") if kind == "ravel" else ("C",):
            r = ds[0].ravel(order)
            own = lay.own(gs[0], ctx.rank, ctx.size)
            want = own.ravel(order) if order in "CF" else np.asarray(ds[0].local_array).ravel(order)
            ctx.close(r.local_array, want, "ravel", f"ravel {order}", tol=tol)
            n = int(np.prod(shape))
            ctx.eq(tuple(int(v) for v in r.global_shape), (n,), "ravel-shape", "ravel global shape")
            ctx.eq(r.partition, ds[0].partition, "ravel-part", "ravel partition")
            ctx.eq(r.axis, 0, "ravel-axis", "ravel axis")
            ctx.eq(r.mask is None, c["mask"] is None, "ravel-mask", "ravel mask")
            ctx.eq(r.local_array.dtype, dt, "ravel-dtype", "ravel dtype")
            ctx.eq(tuple(int(v) for v in r.local_shape), (own.size,), "ravel-lshape", "ravel local shape")
            ctx.true(r.base_comm == ctx.comm, "ravel-comm", "ravel communicator")
            if c["part"] == "S":
                exp = [block(gs[0], lay.eff(shape, ctx.size), lay.axis, q).size for q in range(ctx.size)]
                ctx.eq([int(v[0]) for v in r.local_shapes], exp, "ravel-lshapes", "ravel local shapes")
                if c["axis"] == 0 and order == "C":
                    ctx.close(r.asarray(), gs[0].ravel(), "ravel-global", "gathered ravel of an axis-0 array", tol=tol)
