"""C02: broadcast arrays are identical on all ranks after every step; unsafe-broadcast assignment is silent."""
import numpy as np
import pylops
import pylops_mpi
from lib import *           # noqa

WIDE = .06
NONFIN = .06
KINDS = ["hist", "hist", "unsafe", "hist", "todist", "ops", "hist", "stack"]
DT = ["f8", "f4", "c16", "i8"]


def gen(rng, P, i, tier):
    ndim = int(rng.integers(1, 4)) if rng.random() < .88 else int(rng.integers(4, 6))
    return {"kind": KINDS[i % len(KINDS)], "shape": [int(rng.integers(1, 7)) for _ in range(ndim)], "dt": pick(rng, DT),
            "ds": int(rng.integers(1 << 30)), "steps": int(rng.integers(4, 16)), "axis": int(rng.integers(ndim)),
            "mask": rand_mask(rng, P) if rng.random() < .15 else None,
            "delay": 0.001 if rng.random() < 0.15 else 0}


def rand_index(rng, shape):
    k = int(rng.integers(8))
    if k == 0:
        return slice(None) if rng.random() < .6 else Ellipsis
    if k == 1:
        return int(rng.integers(-shape[0], shape[0]))
    if k == 2:
        return tuple(int(rng.integers(-s, s)) for s in shape)
    if k == 3:
        a, b = sorted(int(x) for x in rng.integers(0, shape[0] + 1, 2))
        return slice(a, b)
    if k == 4:
        return slice(None, None, -1 if rng.random() < .5 else 2)
    if k == 5:
        return rng.random(tuple(shape)) < .5
    if k == 6:
        return rng.integers(0, shape[0], size=int(rng.integers(1, 4)))
    return (Ellipsis, int(rng.integers(-shape[-1], shape[-1])))


def rvals(rng, base_rng_state, shape, dt, rank):
    """Values that differ on every rank (rank 0's are known to all)."""
    r0 = np.random.default_rng([base_rng_state, 0])
    mine = np.random.default_rng([base_rng_state, rank])
    return rdata(mine, shape, dt), rdata(r0, shape, dt)


def run(ctx, c):
    getattr(_Runs, c["kind"] if c["kind"] in ("unsafe", "todist", "ops", "stack") else "hist")(ctx, c)


class _Runs:
    @staticmethod
    def check(ctx, d, m, key, what, name):
        if d.local_array.dtype == m.dtype or m.dtype.kind in "iu":
            ctx.close(d.local_array, m, key, what, tol=1e-12 if m.dtype.itemsize >= 8 and m.dtype != np.complex64 else 1e-5)
        ctx.rep(name, np.array(d.local_array))

    @staticmethod
    def hist(ctx, c):
        rng = np.random.default_rng(c["ds"])
        shape = tuple(c["shape"])
        g = rdata(rng, shape, c["dt"])
        d = mk(ctx, g, Lay("B", c["axis"], mask=c["mask"]), "ctor")
        m = g.copy()
        _Runs.check(ctx, d, m, "initial", "after creation", "step -1")
        for s in range(c["steps"]):
            op = pick(rng, ["set", "set", "set", "set", "scalar", "iadd", "isub", "add", "mul", "muls", "neg", "conj", "copy", "zeros", "rmuls"])
            seed = int(rng.integers(1 << 30))
            what = f"step {s} {op}"
            apart = s < c["steps"] - 1 and op in ("iadd", "isub", "add", "mul", "muls", "rmuls", "neg", "conj", "copy") and rng.random() < .3
            if apart and ctx.rank:              # the copies come apart (a kernel that wrote into them): the next operation unites them
                d.local_array[...] = rvals(rng, seed + 1, shape, c["dt"], ctx.rank)[0]
            what += " after the copies came apart" if apart else ""
            if op == "set":
                ix = rand_index(rng, shape)
                tgt = m[ix]
                mine, r0 = rvals(rng, seed, np.shape(tgt), c["dt"], ctx.rank)
                if np.shape(tgt) == ():
                    mine, r0 = mine[()], r0[()]
                d[ix] = mine
                m[ix] = r0
            elif op == "scalar":
                ix = rand_index(rng, shape)
                d[ix] = 3 + ctx.rank
                m[ix] = 3
            elif op in ("iadd", "isub", "add", "mul"):
                mine, r0 = rvals(rng, seed, shape, c["dt"], ctx.rank)
                e = mk(ctx, mine, Lay("B", c["axis"], mask=c["mask"]))
                _Runs.check(ctx, e, r0, "to_dist", what + " operand", what + " operand")
                if rng.random() < .2 and ctx.rank:
                    e.local_array[...] = mine
                if op == "iadd":
                    d += e
                    m = m + r0
                elif op == "isub":
                    d -= e
                    m = m - r0
                elif op == "add":
                    d = d + e
                    m = m + r0
                else:
                    if s % 3 == 0 or apart:
                        d = d * e
                        m = m * r0
            elif op == "muls":
                d = d * (2 + ctx.rank)
                m = m * 2
            elif op == "rmuls":
                d = (ctx.rank - 1) * d
                m = m * -1
            elif op == "neg":
                d = -d
                m = -m
            elif op == "conj":
                d = d.conj()
                m = m.conj()
            elif op == "copy":
                d = d.copy()
            elif op == "zeros":
                z = d.zeros_like()
                _Runs.check(ctx, z, np.zeros_like(m), "zeros", what, what + " z")
                continue
            _Runs.check(ctx, d, m, op, what, what)
            ctx.eq(d.partition, B, "partition", what)
        r = d.ravel()
        _Runs.check(ctx, r, m.ravel(), "ravel", "ravel", "ravel")

    @staticmethod
    def unsafe(ctx, c):
        rng = np.random.default_rng(c["ds"])
        shape = tuple(c["shape"])
        g = rdata(rng, shape, c["dt"])
        d = mk(ctx, g, Lay("U", c["axis"]), "ctor")
        m = g.copy()
        for s in range(c["steps"]):
            ix = rand_index(rng, shape)
            mine, _ = rvals(rng, int(rng.integers(1 << 30)), np.shape(m[ix]), c["dt"], ctx.rank)
            if np.shape(m[ix]) == ():
                mine = mine[()]
            n0 = len(ctx.mon.M.events)
            d[ix] = mine
            n1 = len(ctx.mon.M.events)
            m[ix] = mine
            ctx.eq(n1 - n0, 0, "unsafe-communicates", f"MPI calls made by assignment {s}")
            ctx.bits(d.local_array, m, "unsafe-value", f"unsafe assignment {s}")
        e = d * 2
        ctx.bits(e.local_array, m * 2, "unsafe-mul", "unsafe * 2")
        e = -d
        ctx.bits(e.local_array, -m, "unsafe-neg", "-unsafe")
        e = d + d
        ctx.bits(e.local_array, m + m, "unsafe-add", "unsafe + unsafe")
        ctx.eq(e.partition, U, "partition", "unsafe sum")
        ctx.bits(d.asarray(), m, "unsafe-asarray", "asarray of unsafe")

    @staticmethod
    def todist(ctx, c):
        rng = np.random.default_rng(c["ds"])
        mine, r0 = rvals(rng, c["ds"], tuple(c["shape"]), c["dt"], ctx.rank)
        d = mk(ctx, mine, Lay("B", c["axis"]))
        _Runs.check(ctx, d, r0, "to_dist", "to_dist with rank-dependent data", "to_dist")
        u = mk(ctx, mine, Lay("U", c["axis"]))
        ctx.bits(u.local_array, mine, "to_dist-unsafe", "unsafe to_dist keeps each rank's data")
        d[:] = u.local_array
        _Runs.check(ctx, d, r0, "assign", "assignment from rank-dependent data", "assign")
        e = d.conj()
        _Runs.check(ctx, e, r0.conj(), "conj", "conj", "conj")

    @staticmethod
    def ops(ctx, c):
        """Replicated operator outputs stay replicated also when ranks hold different blocks or unsafe inputs."""
        rng = np.random.default_rng(c["ds"])
        n, P = int(rng.integers(1, 6)), ctx.size
        rows = [int(x) for x in rng.integers(1, 5, P)]
        mats = [rdata(rng, (r, n), "f8") for r in rows]
        V = pylops_mpi.MPIVStack([pylops.MatrixMult(mats[ctx.rank])], **ctx.kw())
        y = rdata(rng, sum(rows), "f8")
        x = V.rmatvec(mk(ctx, y, Lay("S", 0, rows)))
        want = np.vstack(mats).T @ y
        ctx.eq(x.partition, B, "partition", "VStack adjoint")
        ctx.close(x.local_array, want, "vstack", "VStack adjoint")
        ctx.rep("vstack adjoint", np.array(x.local_array))
        x[:] = x.local_array * (ctx.rank + 1)
        ctx.close(x.local_array, want, "vstack-assign", "assignment to VStack adjoint")
        ctx.rep("vstack adjoint assigned", np.array(x.local_array))
        x[0] = float(ctx.rank)
        ctx.rep("vstack adjoint [0]", np.array(x.local_array))
        G = rdata(rng, (2 * P + 1, 3, 2), "f8")
        sz = balanced(2 * P + 1, P)
        F = pylops_mpi.signalprocessing.MPIFredholm1(block(G, sz, 0, ctx.rank), nz=2, dtype="f8", **ctx.kw())
        xv = rdata(rng, (2 * P + 1) * 2 * 2, "f8")
        for part in "BU":
            yv = F.matvec(mk(ctx, xv, Lay(part)))
            ctx.eq(yv.partition, B, "partition", "Fredholm forward")
            ctx.close(yv.local_array, np.matmul(G, xv.reshape(2 * P + 1, 2, 2)).ravel(), "fredholm", "Fredholm forward")
            ctx.rep("fredholm", np.array(yv.local_array))
            yv[:] = np.full(yv.local_shape, ctx.rank + 5.)
            ctx.close(yv.local_array, np.full(yv.local_shape, 5.), "fredholm-assign", "assignment to Fredholm output")

    @staticmethod
    def stack(ctx, c):
        rng = np.random.default_rng(c["ds"])
        comps, ms = [], []
        for k in range(3):
            mine, r0 = rvals(rng, int(rng.integers(1 << 30)), tuple(c["shape"]), c["dt"], ctx.rank)
            comps.append(mk(ctx, mine, Lay("B", c["axis"])))
            ms.append(r0)
        st = StackedDistributedArray(comps, **ctx.kw())
        mine, r0 = rvals(rng, int(rng.integers(1 << 30)), tuple(c["shape"]), c["dt"], ctx.rank)
        st[1] = mine
        ms[1] = r0
        for k in range(3):
            _Runs.check(ctx, st[k], ms[k], "stack", f"component {k}", f"comp {k}")
        st2 = st + (st * 2)
        st2 -= st
        for k in range(3):
            _Runs.check(ctx, st2[k], (ms[k] + ms[k] * 2) - ms[k], "stack-arith", f"component {k} after arithmetic", f"comp2 {k}")
            ctx.eq(st2[k].partition, B, "partition", f"component {k}")
