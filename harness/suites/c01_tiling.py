"""C01: distribution tiles the global array, gathering restores it."""
import numpy as np
from lib import *           # noqa

DT = ["f8", "f4", "c16", "c8", "i8", "i4", "b1", "u2"]
WIDE = .06
NONFIN = .06
KINDS = ["to_dist", "to_dist_sizes", "ctor", "ctor_sizes", "repl", "noncontig", "int_shape", "large", "asarray_hist", "split", "views", "empty"]


def rshape(rng, P, ndim, big=False):
    hi = 4 * P + 6 if big else max(3, 2 * P + 3)
    return [int(rng.integers(1, hi if ndim == 1 else max(3, hi // ndim + 2))) for _ in range(ndim)]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    ndim = int(rng.integers(1, 5 if kind != "large" else 3))
    shape = rshape(rng, P, ndim, bool(rng.integers(2)))
    axis = int(rng.integers(ndim))
    if rng.random() < 0.3:
        shape[axis] = int(rng.integers(1, P + 2))            # around / below the number of ranks
    c = {"kind": kind, "shape": shape, "axis": axis, "dt": pick(rng, DT), "ds": int(rng.integers(1 << 30)),
         "part": pick(rng, ["S", "S", "S", "B", "U"]), "order": pick(rng, ["C", "F"])}
    if kind == "large":
        if i % (8 * len(KINDS)) != KINDS.index("large"):
            c["kind"] = "to_dist"
        else:
            c["shape"] = [P * 9000 + int(rng.integers(P))] if ndim == 1 else [P * 130, 210]
            c["axis"] = 0 if ndim == 1 else int(rng.integers(2))
            c["part"] = "S"
    if kind in ("to_dist_sizes", "ctor_sizes", "asarray_hist"):
        c["part"] = "S"
        c["sizes"] = rand_sizes(rng, c["shape"][c["axis"]], P)
    if kind == "int_shape":
        c["shape"] = [int(rng.integers(1, 4 * P))]
        c["axis"] = 0
        if c["part"] == "S" and rng.random() < .5:
            c["sizes"] = rand_sizes(rng, c["shape"][0], P)
    if kind == "empty":
        c["shape"][int(rng.integers(ndim))] = 0
    if kind == "repl":
        c["part"] = pick(rng, ["B", "U"])
    return c


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    g = rdata(rng, c["shape"], c["dt"])
    if c["order"] == "F":
        g = np.asfortranarray(g)
    kind = c["kind"]
    lay = Lay(c["part"], c["axis"], c.get("sizes"))
    if kind == "noncontig":
        bigshape = [2 * s for s in c["shape"]]
        big = rdata(rng, bigshape, c["dt"])
        g = big[tuple(slice(None, None, 2) for _ in bigshape)]
        if g.ndim > 1 and rng.random() < .5:
            g = g[::-1]
    before = g.copy()
    kw = ctx.kw()
    if kind == "int_shape":
        ls = None
        if lay.sizes is not None:
            ls = [int(x) for x in lay.sizes] if rng.random() < .5 else [(int(x),) for x in lay.sizes]
        d = DistributedArray(global_shape=int(c["shape"][0]), partition=PART[lay.part], local_shapes=ls, dtype=g.dtype, **kw)
        d[:] = lay.own(g, ctx.rank, ctx.size)
    elif kind == "split":
        from pylops_mpi.DistributedArray import local_split
        P = ctx.size
        got = local_split(tuple(c["shape"]), ctx.comm, PART[lay.part], lay.axis)
        exp = lshapes(c["shape"], balanced(c["shape"][lay.axis], P), lay.axis)[ctx.rank] if lay.part == "S" else tuple(c["shape"])
        ctx.eq(tuple(got), tuple(exp), "split", "default split")
        d = mk(ctx, g, lay)
    else:
        d = mk(ctx, g, lay, "ctor" if kind.startswith("ctor") or kind == "repl" and rng.random() < .5 else None)
    check_layout(ctx, d, c["shape"], lay, "layout", kind)
    own = lay.own(before, ctx.rank, ctx.size)
    ctx.bits(d.local_array, own, "local-part", f"{kind} local part")
    ls = d.local_shapes
    exp = lshapes(c["shape"], lay.eff(c["shape"], ctx.size), lay.axis) if lay.part == "S" else [tuple(c["shape"])] * ctx.size
    ctx.eq([tuple(int(v) for v in s) for s in ls], exp, "local-shapes", "list of local shapes")
    full = d.asarray()
    ctx.bits(full, before, "roundtrip", f"{kind} gathered array")
    ctx.rep("gathered", np.asarray(full))
    ctx.bits(d[:], own, "getitem", "indexing the array")
    ctx.bits(g, before, "input-modified", "input of to_dist")
    if kind == "asarray_hist":
        # overwrite the local part and gather again: gathering has no memory
        g2 = rdata(rng, c["shape"], c["dt"])
        d[:] = lay.own(g2, ctx.rank, ctx.size)
        ctx.bits(d.asarray(), g2, "roundtrip", "gathered after overwriting")
        d2 = DistributedArray.to_dist(d.asarray(), axis=(c["axis"] + 1) % len(c["shape"]), **kw)
        ctx.bits(d2.asarray(), g2, "roundtrip", "redistributed along another axis")
        before = g2
    if kind == "views":
        # the local part and views of it are the array: what is written there is what is gathered next, and what was gathered does not move
        for k in range(3):
            g2 = rdata(rng, c["shape"], c["dt"])
            own = lay.own(g2, ctx.rank, ctx.size)
            old = np.array(full)
            if k == 0:
                d.local_array[...] = own
            elif k == 1:
                w = d[:]
                w[...] = own
            else:
                w = d.local_array[::-1]
                w[...] = own[::-1]
            if lay.part == "S":
                ctx.bits(full, old, "gathered-alias", "earlier gathered array after writing into the local part")
            full = d.asarray()
            ctx.bits(full, g2, "roundtrip", "gathered after writing through the local part")
            if lay.part == "S":
                full[...] = rdata(rng, c["shape"], c["dt"])
                ctx.bits(d.local_array, own, "gathered-alias", "local part after writing into the gathered array")
        d.local_array[...] = own
        before = g2
    # reassemble from the local parts themselves
    parts = gather_priv(ctx, np.asarray(d.local_array))
    if lay.part == "S":
        ctx.bits(np.concatenate(parts, axis=lay.axis), before, "tiling", "concatenated local parts")
    else:
        for r, p in enumerate(parts):
            ctx.bits(p, before, "replica", f"replica on rank {r}")
