"""C30: the number of live communicators depends on the groupings in use, not on the length of the program."""
import numpy as np
import pylops
import pylops_mpi
from pylops_mpi.optimization.basic import cg, cgls
from programs import *      # noqa
from programs import Prog

KINDS = ["masked-arith", "masked-solver", "programs", "masked-blockdiag", "unmasked", "stacked-mask", "rebuild", "sub", "mixed", "derived", "gather", "operators"]
COMMS = {}


def setup(base):
    M, P, r = base.mon.M, base.P, base.rank
    for n, (c, k) in {"reversed": (0, -r), "interleaved": (r % 2, r)}.items():
        COMMS[n] = base.world.Split(c, k)
        M.register(COMMS[n]._mon_cid, COMMS[n])


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    return {"kind": kind, "ds": int(rng.integers(1 << 30)), "k": int(rng.integers(1, 5)), "sub": pick(rng, ["reversed", "interleaved"]),
            "n": int(rng.integers(30, 60)) * (1 if tier == "quick" else 10)}


def masked(ctx, rng, mask):
    n = ctx.size + int(rng.integers(0, 2 * ctx.size))
    lay = Lay("S", 0, rand_sizes(rng, n, ctx.size), mask)
    g = [rdata(rng, (n,), "f8") for _ in range(2)]
    return g, lay, mk(ctx, g[0], lay), mk(ctx, g[1], lay)


def arith(ctx, rng, mask):
    g, lay, x, y = masked(ctx, rng, mask)
    z = (x + y) * 2 - x * y
    sel = np.concatenate([np.full(s, mask[r] == mask[ctx.rank]) for r, s in enumerate(lay.sizes)])
    w = (g[0] + g[1]) * 2 - g[0] * g[1]
    ctx.close(z.norm(), np.linalg.norm(w[sel]), "value", "norm of the group", tol=1e-10, scale=float(np.linalg.norm(w)) + 1e-30)
    ctx.close(x.dot(y), np.dot(g[0][sel], g[1][sel]), "value", "dot of the group", tol=1e-10, scale=float(np.abs(g[0]) @ np.abs(g[1])) + 1e-30)
    for d in (x.copy(), x.zeros_like(), -x, x.conj(), x.ravel()):
        d += x
        ctx.true(d.mask == x.mask, "value", "mask of a derived array")


def solver(ctx, rng, mask):
    z = z_blockdiag(ctx, rng, "f8", square=True, spd=True, mask=mask)
    xt = rdata(rng, (z.dom.n,), "f8")
    lay = Lay("S", 0, z.dom.sizes, mask)
    y, x0 = mk(ctx, z.A @ xt, lay), mk(ctx, np.zeros(z.dom.n), lay)
    (cg if rng.integers(2) else cgls)(z.op, y, x0, niter=1, tol=0.)         # groups must stop together (known finding of C06)


def blockdiag(ctx, rng, mask):
    z = z_blockdiag(ctx, rng, "f8", mask=mask)
    v, u = rdata(rng, (z.dom.n,), "f8"), rdata(rng, (z.ran.n,), "f8")
    for op in (z.op, z.op.H.H, 2 * z.op):
        op.matvec(mk(ctx, v, Lay("S", 0, z.dom.sizes, mask)))
        op.rmatvec(mk(ctx, u, Lay("S", 0, z.ran.sizes, mask)))


def stacked(ctx, rng, mask):
    g, lay, x, y = masked(ctx, rng, mask)
    s, t = StackedDistributedArray([x, y], **ctx.kw()), StackedDistributedArray([y, x], **ctx.kw())
    (s + t * 2 - s).copy()
    s += t


def apply(ctx, rng):
    """Local operators and derivatives of arrays of every partition."""
    n = 2 * ctx.size + int(rng.integers(0, 2 * ctx.size))
    for lay in (Lay("U"), Lay("B"), Lay("S", 0, balanced(n, ctx.size))):
        L = pylops_mpi.MPILinearOperator(pylops.MatrixMult(rdata(rng, (n, n), "f8")), **ctx.kw())
        v = rdata(rng, (n,), "f8")
        if lay.part != "S":
            for op in (L, L.H, 2 * L, L + L, L.T):
                op.matvec(mk(ctx, v, lay))
                op.rmatvec(mk(ctx, v, lay))
        D = pylops_mpi.MPIFirstDerivative(n, **ctx.kw()) if rng.integers(2) else pylops_mpi.MPISecondDerivative(n, **ctx.kw())
        if n >= 3 * ctx.size:
            D.matvec(mk(ctx, v, lay))
            D.rmatvec(mk(ctx, v, lay))
    nf = 2 * ctx.size
    G = block(rdata(rng, (nf, 2, 3), "f8"), balanced(nf, ctx.size), 0, ctx.rank)
    F = pylops_mpi.signalprocessing.MPIFredholm1(G, nz=1, dtype="f8", **ctx.kw())
    for part in "BU":
        F.matvec(mk(ctx, rdata(rng, (nf * 3,), "f8"), Lay(part)))
        F.rmatvec(mk(ctx, rdata(rng, (nf * 2,), "f8"), Lay(part)))


def body(ctx, kind, rng, masks, p):
    m = pick(rng, masks)
    if kind == "masked-arith":
        arith(ctx, rng, m)
    elif kind == "masked-solver":
        solver(ctx, rng, m)
    elif kind == "masked-blockdiag":
        blockdiag(ctx, rng, m)
    elif kind == "stacked-mask":
        stacked(ctx, rng, m)
    elif kind in ("unmasked", "gather"):
        p.go([pick(rng, ["arith", "reduce", "gather", "inplace", "ravel", "broadcast", "ghost"])])
    elif kind == "operators":
        p.go([pick(rng, ["op", "expr", "sexpr", "realign", "dottest", "op"])])
        apply(ctx, rng)
    elif kind == "programs":
        p.go(random_names(rng, 1, [n for n in ARRAY + OPER + SOLVE if n != "masked"]))
    elif kind == "derived":
        g, lay, x, y = masked(ctx, rng, m)
        for _ in range(5):
            x = (x + y).copy()
            x = x * .5
    elif kind == "rebuild":
        DistributedArray.to_dist(np.ones(3 * ctx.size), mask=list(m), **ctx.kw())
        a = DistributedArray(global_shape=3 * ctx.size, mask=pick(rng, [tuple, list])(m), **ctx.kw())
        a[:] = 1.
        ctx.close(a.norm(1), 3. * sum(q == m[ctx.rank] for q in m), "value", "norm of the group")
        p.alive = getattr(p, "alive", []) + [a]
    else:
        pick(rng, [arith, solver, blockdiag, stacked])(ctx, rng, m)


def run(ctx, c):
    M = ctx.mon.M
    rng = np.random.default_rng(c["ds"])
    kind = c["kind"]
    ctx.expect_same_reps = False
    ctx.check_warn = False
    if kind == "sub":
        ctx.use(COMMS[c["sub"]])
    masks = [rand_mask(rng, ctx.size) for _ in range(c["k"])]
    p = Prog(ctx, rng)
    start = M.created - M.freed
    made0 = M.created
    peak, n = [], c["n"] if kind not in ("operators", "programs") else c["n"] // 2
    for k in range(n):
        body(ctx, kind, rng, masks, p)
        peak.append(M.created - M.freed - start)
    distinct = len({tuple(m) for m in masks})
    # one communicator per grouping, a handful of others (duplicates for internal use) allowed
    bound = distinct + 4
    ctx.true(max(peak) <= bound, "leak", lambda: f"{max(peak)} more communicators alive after {n} steps of '{kind}' with {distinct} groupings (created {M.created - made0})")
    ctx.note(f"{kind}: {n} steps, {distinct} groupings, {M.created - made0} communicators created, at most {max(peak)} more alive")
