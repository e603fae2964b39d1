"""C07: ghost cells hold exactly the neighbours' boundary data."""
import numpy as np
from lib import *           # noqa

WIDE = .06
NONFIN = .06
KINDS = ["both", "front", "back", "perrank", "perrank", "uneven", "infeasible", "zero", "sync", "delay", "large"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    ndim = int(rng.integers(1, 4)) if rng.random() < .88 else int(rng.integers(4, 6))
    shape = [int(rng.integers(1, 4)) for _ in range(ndim)]
    axis = int(rng.integers(ndim))
    shape[axis] = int(rng.integers(P, 5 * P + 2))
    c = {"kind": kind, "axis": axis, "dt": pick(rng, ["f8", "f4", "c16", "i8", "b1"]), "ds": int(rng.integers(1 << 30)), "sizes": None}
    if kind in ("uneven", "perrank", "infeasible", "sync", "delay", "zero") and rng.random() < .7:
        c["sizes"] = rand_sizes(rng, shape[axis], P)
    if kind == "large":
        if i % (6 * len(KINDS)) == KINDS.index("large"):
            shape = [20 * P, 3000]             # large rows
            c["axis"] = axis = 0
        elif i % (6 * len(KINDS)) == KINDS.index("large") + 3 * len(KINDS):
            shape = [400 * P, 4]               # many rows: wide ghosts
            c["axis"] = axis = 0
        else:
            c["kind"] = "perrank"
    sz = c["sizes"] or balanced(shape[axis], P)
    mn = min(sz)
    f = b = None
    if kind in ("both", "uneven", "large"):
        f, b = [int(rng.integers(0, mn + 1))] * P, [int(rng.integers(0, mn + 1))] * P
    elif kind == "front":
        f = [int(rng.integers(0, mn + 1))] * P
    elif kind == "back":
        b = [int(rng.integers(0, mn + 1))] * P
    elif kind == "zero":
        f, b = [0] * P, [0] * P
    else:
        f = [int(rng.integers(0, (sz[r - 1] if r else 3) + 1)) for r in range(P)]
        b = [int(rng.integers(0, (sz[r + 1] if r < P - 1 else 3) + 1)) for r in range(P)]
        k = int(rng.integers(6))
        if k == 0:
            f = None
        elif k == 1:
            b = None
    if kind == "infeasible" and P > 1:
        r = int(rng.integers(P))
        if f is not None and (r > 0) and (rng.random() < .5 or b is None):
            f[r] = sz[r - 1] + int(rng.integers(1, 3))
        elif b is not None and r < P - 1:
            b[r] = sz[r + 1] + int(rng.integers(1, 3))
        elif f is not None:
            f = [sz[P - 2] + 1] * P
        else:
            b = [sz[1] + 1] * P
    c.update(shape=shape, f=f, b=b)
    if kind == "sync" or rng.random() < .15:
        c["sync"] = True
    if kind == "delay":
        c["delay"] = 0.002
    return c


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, r = ctx.size, ctx.rank
    g = rdata(rng, tuple(c["shape"]), c["dt"])
    lay = Lay("S", c["axis"], c["sizes"])
    sz = lay.eff(g.shape, P)
    d = mk(ctx, g, lay)
    f, b = c["f"], c["b"]
    feasible = all(f is None or q == 0 or f[q] <= sz[q - 1] for q in range(P)) and \
        all(b is None or q == P - 1 or b[q] <= sz[q + 1] for q in range(P))
    kw = {}
    if f is not None:
        kw["cells_front"] = f[r]
    if b is not None:
        kw["cells_back"] = b[r]
    own = block(g, sz, c["axis"], r)

    def expected():
        o = sum(sz[:r])
        ext = np.arange(o - (f[r] if f is not None and r > 0 else 0), o + sz[r] + (b[r] if b is not None and r < P - 1 else 0))
        return np.take(g, ext, axis=c["axis"])
    for rep in range(2):
        if feasible:
            out = d.add_ghost_cells(**kw)
            ctx.bits(out, expected(), "ghost", f"ghosted array (front={f} back={b} sizes={sz})")
            ctx.true(not shares(np.asarray(out), d.local_array), "ghost-alias", "ghosted array shares memory with the array")
            if isinstance(out, np.ndarray) and out.flags.writeable:
                out[...] = 0
        else:
            ctx.rejects(lambda: d.add_ghost_cells(**kw), ("ValueError",), "infeasible", f"too wide ghost request front={f} back={b} sizes={sz}")
        ctx.bits(d.local_array, own, "ghost-modified", "array after adding ghost cells")
    if not feasible and P > 1:
        # the array must stay usable
        ok = d.add_ghost_cells(cells_front=0, cells_back=0)
        ctx.bits(ok, own, "after-reject", "zero-width ghost cells after a rejected request")
