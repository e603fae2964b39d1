"""C29: the plotting helpers draw exactly the data on rank 0 and change nothing."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from pylops_mpi.plotting.plotting import plot_distributed_array, plot_local_arrays
from lib import *           # noqa
from suites.c04_value import Watch

KINDS = ["global", "local", "global", "local", "empty-global", "empty-local", "reject", "masked-global", "sub-global", "sub-local", "tiny-global", "limits-local", "limits-local"]
COMMS = {}


def setup(base):
    M, P, r = base.mon.M, base.P, base.rank
    for n, (c, k) in {"reversed": (0, -r), "interleaved": (r % 2, r)}.items():
        COMMS[n] = base.world.Split(c, k)
        M.register(COMMS[n]._mon_cid, COMMS[n])


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    axis = int(rng.integers(2))
    shape = [int(v) for v in rng.integers(1, 8, 2)]
    shape[axis] = P + int(rng.integers(0, 3 * P + 1))
    if kind.startswith("tiny"):
        shape[1 - axis] = 1
    if rng.random() < .2:                        # much longer than wide, or the other way round
        shape[int(rng.integers(2))] = int(rng.integers(20, 70)) + P
    n = shape[axis]
    sizes = rand_sizes(rng, n, P, 0 if kind.startswith("empty") else 1)
    return {"kind": kind, "shape": shape, "axis": axis, "sizes": sizes if rng.random() < .7 or kind.startswith("empty") else balanced(n, P), "dt": pick(rng, ["f8", "f4", "i8", "i4", "f8", "b1", "u1", "i1"]),
            "ds": int(rng.integers(1 << 30)), "sub": pick(rng, ["reversed", "interleaved"]), "title": pick(rng, [None, "a title"])}


def images(ax):
    return [np.ma.getdata(i.get_array()) for i in ax.images]


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    kind, shape, axis = c["kind"], tuple(c["shape"]), c["axis"]
    sizes = c["sizes"]
    plt.close("all")
    if kind.startswith("sub"):
        ctx.use(COMMS[c["sub"]])
        ctx.expect_same_reps = False
        P = ctx.size
        sizes = rand_sizes(rng, shape[axis], P, 1) if shape[axis] >= P else balanced(shape[axis], P)
    g = rdata(rng, shape, c["dt"])
    lay = Lay("S", axis, sizes, rand_mask(rng, ctx.size) if kind.startswith("masked") else None)
    w = Watch(ctx)
    x = mk(ctx, g, lay)
    w.add("array", x)
    if kind == "reject":
        for p in ("B",):
            b = mk(ctx, g, Lay(p))
            ctx.rejects(lambda: plot_distributed_array(b), ("NotImplementedError",), "rejected", "global plot of a replicated array")
        for o in (g, None, [x], "array"):
            ctx.rejects(lambda: plot_distributed_array(o), ("TypeError",), "rejected", f"global plot of {type(o).__name__}")
            ctx.rejects(lambda: plot_local_arrays(o), ("TypeError", "AttributeError"), "rejected", f"local plot of {type(o).__name__}")
        ctx.eq(plt.get_fignums(), [], "rejected", "figures after refused plots")
    elif kind.endswith("global"):
        plot_distributed_array(x)
        if ctx.rank:
            ctx.eq(plt.get_fignums(), [], "other-rank-draws", "figures on another rank")
        elif ctx.eq(len(plt.get_fignums()), 1, "figure", "number of figures on rank 0"):
            f = plt.gcf()
            own = np.concatenate([np.full(s, r) for r, s in enumerate(sizes)])
            owner = np.broadcast_to(own[:, None] if axis == 0 else own[None, :], shape)
            ims = [(a.get_title(), images(a)) for a in f.axes if a.images]
            if ctx.eq([len(i) for _, i in ims], [1, 1], "figure", "images per panel"):
                ctx.eq(ims[0][1][0].shape, g.shape, "image", "shape of the data image")
                ctx.true(np.array_equal(ims[0][1][0], g), "image", lambda: f"data image: {diff(ims[0][1][0], g)}")
                ctx.true(np.array_equal(ims[1][1][0].astype(int), owner), "owners", lambda: f"owner map: {diff(ims[1][1][0], owner)}")
                ctx.eq(ims[0][0], "Original Array", "title", "title of the data")
                ctx.true(str(axis) in ims[1][0], "title", f"title of the owner map: {ims[1][0]}")
    else:
        lim = {"vmin": float(rng.uniform(-3, 0)), "vmax": float(rng.uniform(.5, 3))} if kind.startswith("limits") or rng.random() < .4 else {}
        if lim and rng.random() < .6:           # a limit of exactly zero, data wholly on one side of it, one limit only
            lim = pick(rng, [{"vmin": 0.}, {"vmax": 0.}, {"vmin": 0, "vmax": 1.5}, {"vmin": -2., "vmax": 0}, {"vmin": -1.}, {"vmax": 2.5}, {"vmin": None, "vmax": 1.}])
        title = c["title"]
        plot_local_arrays(x, title, **lim) if rng.random() < .5 else plot_local_arrays(x, title=title, **lim)
        if ctx.rank:
            ctx.eq(plt.get_fignums(), [], "other-rank-draws", "figures on another rank")
        elif ctx.eq(len(plt.get_fignums()), 1, "figure", "number of figures on rank 0"):
            f = plt.gcf()
            if ctx.eq(len(f.axes), ctx.size, "figure", "panels"):
                for r, a in enumerate(f.axes):
                    want = lay.own(g, r, ctx.size)
                    ctx.true(str(r) in a.get_title(), "title", f"title of panel {r}: {a.get_title()}")
                    if not ctx.eq(len(a.images), 1, "figure", f"images in panel {r}"):
                        continue
                    im = images(a)[0]
                    ctx.eq(im.shape, want.shape, "image", f"shape of panel {r}")
                    ctx.true(np.array_equal(im, want), "image", lambda: f"panel {r}: {diff(im, want)}")
                    for t, lim_, n in ((a.get_xticks(), a.get_xlim(), want.shape[1]), (a.get_yticks(), a.get_ylim(), want.shape[0])):
                        ctx.true(set(t) <= set(range(n)), "ticks", lambda: f"ticks {t} of panel {r} for {n} elements")
                        if n:
                            ctx.eq(sorted(float(v) for v in lim_), [-.5, n - .5], "view", f"axis limits of panel {r}")
                    if lim:
                        have = dict(zip(("vmin", "vmax"), a.images[0].get_clim()))
                        for k, v in lim.items():
                            if v is not None:
                                ctx.eq(have[k], v, "limits", f"colour limit {k} of panel {r}")
                if title:
                    ctx.eq(f._suptitle.get_text() if f._suptitle else None, title, "title", "title of the figure")
    plt.close("all")
    w.unchanged("plotting", "changed")
    if c["dt"] != "b1":
        ctx.close((x + x).local_array, 2 * x.local_array, "changed", "array used after plotting", tol=1e-12)
