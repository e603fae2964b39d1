"""C12: distributed first derivative equals the serial first derivative."""
import itertools
import numpy as np
import pylops
from pylops_mpi import MPIFirstDerivative
from ops import *           # noqa

CONF = [(k, o, e) for k in ("forward", "backward", "centered") for o in (3, 5) for e in (False, True) if k == "centered" or o == 3]
WIDE = .06
STRUCT = .08
KINDS = ["default", "default", "realign", "broadcast", "few-rows", "few-rows", "nd", "unsafe", "balanced-min", "complex", "perturbed", "large"]
MINROWS = {("forward", 3): 1, ("backward", 3): 1, ("centered", 3): 2, ("centered", 5): 4}
MINN = {("forward", 3): 1, ("backward", 3): 1, ("centered", 3): 1, ("centered", 5): 3}


def minn_(c):
    """least number of points at all (one process needs no neighbours' rows)"""
    return 2 if c == ("centered", 3, True) else MINN[c[:2]]


def need(kind, order, edge):
    m = MINROWS[(kind, order)]
    return max(m, 3) if edge and kind == "centered" else m


def sampling(rng):
    """step of any sign, magnitude and number type"""
    m = int(rng.integers(9))
    return [1., .5, 4., 3, 1e-3, 2e4, float(rng.uniform(.1, 10)), float(rng.uniform(.1, 10)), 1.][m] * (-1 if rng.random() < .2 else 1)


def gen(rng, P, i, tier, conf=CONF, need=need, minn=minn_):
    kind = KINDS[i % len(KINDS)]
    cf = conf[(i // len(KINDS)) % len(conf)] if rng.random() < .5 else pick(rng, conf)
    m = need(*cf)
    dt = pick(rng, ["f8", "f8", "f4"])
    if kind == "complex" or rng.random() < .15:
        dt = pick(rng, ["c16", "c8"])
    nd = {"nd": int(rng.integers(3, 5))}.get(kind, int(rng.integers(1, 4)))
    lo = m * P
    if kind == "few-rows":
        n = int(rng.integers(min(minn(cf), lo), max(lo, minn(cf)) + 1))
    elif kind == "balanced-min":
        n = lo + int(rng.integers(0, P))
    else:
        n = lo + int(rng.integers(0, 3 * P + 1))
    n = max(n, minn(cf))
    dims = [n] + [int(x) for x in rng.integers(1, 5, nd - 1)]
    if kind == "large":                          # rows or parts of tens of thousands of elements
        if i // len(KINDS) % 3:
            kind = "perturbed"
        else:
            dims = pick(rng, [[n, 9000], [n * 4000 + 1], [n, 60, 70]])
    rest = int(np.prod(dims[1:]))
    sizes = None
    part = "S"
    if kind in ("realign", "perturbed"):
        eff = [q * rest for q in balanced(n, P)]
        sizes = list(eff)
        for _ in range(int(rng.integers(1, 4)) if kind == "realign" else 1):      # move elements between neighbours
            if P > 1:
                a = int(rng.integers(P - 1))
                b = a + 1
                if rng.integers(2):
                    a, b = b, a
                k = min(sizes[a], int(rng.integers(0, max(1, sizes[a] // 2) + 1)))
                sizes[a] -= k
                sizes[b] += k
    elif kind == "broadcast":
        part = "B"
    elif kind == "unsafe":
        part = "U"
    return {"kind": kind, "cf": list(cf), "dims": dims, "dt": dt, "sizes": sizes, "part": part, "samp": sampling(rng),
            "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .15)}


def feasible(arr, xs):
    """The realignment only needs data of the direct neighbours."""
    dif = np.cumsum(np.array(arr) - np.array(xs))
    P = len(xs)
    for q in range(P - 1):
        if dif[q] < 0 and xs[q] < -dif[q]:
            return False
        if dif[q] > 0 and xs[q + 1] < dif[q]:
            return False
    return True


def make(ctx, c):
    kind, order, edge = c["cf"]
    dims = tuple(c["dims"])
    d = dims if len(dims) > 1 or c["ds"] % 2 else dims[0]
    op = build(np.random.default_rng(c["ds"]), MPIFirstDerivative, "first", dict(dims=d, sampling=c["samp"], kind=kind, order=order, edge=edge, dtype=c["dt"], **ctx.kw()))
    s = pylops.FirstDerivative(dims=dims, axis=0, sampling=c["samp"], kind=kind, order=order, edge=edge, dtype=c["dt"])
    return op, s, need(kind, order, edge) if ctx.size > 1 else minn_((kind, order, edge))


def tol_at(tol, dt, w, v, samp, power=1):
    """Relative to the largest output, but never below the rounding of the largest terms (constant data has a zero derivative)."""
    m = float(np.max(np.abs(w), initial=0.))
    bound = 4 * float(np.max(np.abs(v), initial=0.)) / abs(samp) ** power
    floor = (2e-6 if np.dtype(dt) in (np.dtype("f4"), np.dtype("c8")) else 2e-14) * bound
    return max(tol, floor / max(m, 1e-30)) if np.isfinite(floor) and np.isfinite(m) else tol


def run(ctx, c, make=make, power=1):
    rng = np.random.default_rng(c["ds"])
    P, dt = ctx.size, c["dt"]
    dims = tuple(c["dims"])
    n = int(np.prod(dims))
    rest = n // dims[0]
    eff = [q * rest for q in balanced(dims[0], P)]
    op, s, m = make(ctx, c)
    ctx.eq(tuple(op.shape), (n, n), "shape", "operator shape")
    ctx.eq(np.dtype(op.dtype), np.dtype(dt), "operator-dtype", "operator type")
    enough = dims[0] // P >= m
    sp = Space("S", sizes=eff)
    isp = Space(c["part"], n=n, sizes=c["sizes"] or eff) if c["part"] == "S" else Space(c["part"], n=n)
    ok_layout = c["part"] != "S" or feasible(eff, isp.sizes)
    tol = 1e-4 if np.dtype(dt) in (np.dtype("f4"), np.dtype("c8")) else 1e-11
    for trial in range(2):
        v = rdata(rng, (n,), vdt(rng, dt))
        for name, f, g in (("forward", op.matvec, s.matvec), ("adjoint", op.rmatvec, s.rmatvec)):
            x = isp.vec(ctx, v)
            w = g(v.astype(dt))
            if enough and ok_layout:
                y = f(x)
                sp.check(ctx, y, np.asarray(w), name, f"{name} {c['cf']} dims={dims}", tol=tol_at(tol, dt, w, v, c["samp"], power), dtype=dt if v.dtype == np.dtype(dt) else None)
            else:                                # right result or the same refusal everywhere
                o = ctx.outcome(lambda: f(x))
                ctx.rep(name + " outcome", o[0] if o[0] == "ok" else o[1])
                if o[0] == "ok":
                    sp.check(ctx, o[1], np.asarray(w), name + "-few", f"{name} {c['cf']} dims={dims} with few rows", tol=tol_at(tol, dt, w, v, c["samp"], power), layout=False)
                else:
                    ctx.true(o[1] in ("ValueError",), name + "-refusal", f"{name}: {o[1]}: {o[2]}")
            ctx.bits(x.local_array, isp.own(ctx, v), "input", "input after the application")
    # sampled columns: a unit spike at a rank boundary excites the stencil on both sides
    if enough and ok_layout:
        offs = np.concatenate([[0], np.cumsum(eff)])
        j = min(n - 1, max(0, int(pick(rng, list(offs))) + int(rng.integers(-2, 3)) * rest))
        e = np.zeros(n, dtype=dt)
        e[j] = 1
        sp.check(ctx, op.matvec(isp.vec(ctx, e)), np.asarray(s.matvec(e)), "spike", f"column {j} of {c['cf']}", tol=tol)
        sp.check(ctx, op.rmatvec(isp.vec(ctx, e)), np.asarray(s.rmatvec(e)), "spike", f"row {j} of {c['cf']}", tol=tol)
