"""C06: reductions and solvers of masked arrays stay inside their group."""
import numpy as np
import pylops
import pylops_mpi
from lib import *           # noqa

KINDS = ["reduce", "derived", "reduce", "blockdiag", "cgls", "cg", "norm_axis", "stack"]
ORDS = [None, 1, 0, np.inf, -np.inf, 3]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    if i == 5 and P in (2, 4):                   # one case: groups that converge at different iterations
        return {"kind": "masked-diverge", "ds": int(rng.integers(1 << 30)), "mask": [r % 2 for r in range(P)], "solver": "cg" if P == 2 else "cgls",
                "dt": "f8", "sizes": None}
    ndim = 2 if kind == "norm_axis" else int(rng.integers(1, 3))
    shape = [int(rng.integers(1, 3 * P + 3)) if k == 0 else int(rng.integers(1, 6)) for k in range(ndim)]
    if rng.random() < .5:
        shape[0] += P
    axis = 0 if rng.random() < .7 else ndim - 1
    return {"kind": kind, "shape": shape, "axis": axis, "dt": pick(rng, ["f8", "f8", "c16", "f4"]), "ds": int(rng.integers(1 << 30)),
            "mask": rand_mask(rng, P) if rng.random() < .8 else [int(x) for x in rng.permutation(P)],
            "sizes": rand_sizes(rng, shape[axis], P) if rng.random() < .5 else None,
            "rev": bool(rng.integers(2))}


def group(ctx, mask):
    return [r for r in range(ctx.size) if mask[r] == mask[ctx.rank]]


def gcat(ctx, c, g, lay):
    sz = lay.eff(g.shape, ctx.size)
    return [block(g, sz, lay.axis, r) for r in group(ctx, c["mask"])]


def check_red(ctx, c, d, e, gd, ge, what, dt):
    """gd, ge: local parts of the group's members."""
    fd = np.concatenate([p.ravel() for p in gd])
    fe = np.concatenate([p.ravel() for p in ge])
    sc = float(np.sum(np.abs(fd) * np.abs(fe))) + 1e-30
    ctx.close(d.dot(e), np.dot(fd, fe), "dot", what + " dot", scale=sc, tol=tol_for(dt))
    for o in ORDS:
        if fd.size == 0 and o in (np.inf, -np.inf):
            d.norm(o)
            continue
        want = np.linalg.norm(fd, o)
        ctx.close(d.norm(o), want, f"norm-{o}", f"{what} norm({o})", tol=tol_for(dt))


def keep(ctx, c, d, what):
    ctx.true(d.mask is not None and list(d.mask) == list(c["mask"]), "mask-lost", f"{what}: mask {d.mask} instead of {c['mask']}")
    members = group(ctx, c["mask"])
    ctx.eq(d.sub_comm.Get_size(), len(members), "subcomm", what + " group size")
    ctx.eq(d.sub_comm.Get_rank(), members.index(ctx.rank), "subcomm", what + " rank in group")


def run(ctx, c):
    ctx.expect_same_reps = False
    rng = np.random.default_rng(c["ds"])
    kind, dt = c["kind"], np.dtype(c["dt"])
    if kind == "masked-diverge":
        return diverge(ctx, c, rng)
    if kind in ("cg", "cgls", "blockdiag"):
        return solve(ctx, c, rng)
    shape = tuple(c["shape"])
    lay = Lay("S", c["axis"], c["sizes"], c["mask"])
    g, h = rdata(rng, shape, dt, True), rdata(rng, shape, dt)
    d, e = mk(ctx, g, lay), mk(ctx, h, lay, "ctor")
    keep(ctx, c, d, "to_dist")
    gd, ge = gcat(ctx, c, g, lay), gcat(ctx, c, h, lay)
    check_red(ctx, c, d, e, gd, ge, "plain", dt)
    if kind == "norm_axis":
        stacked = np.concatenate(gd, axis=c["axis"])
        for o in ORDS:
            v = d.norm(o, axis=c["axis"])
            if stacked.shape[c["axis"]] > 0:
                ctx.close(v, np.linalg.norm(stacked, o, axis=c["axis"]), "norm-axis", f"norm({o}) along the axis", tol=tol_for(dt))
        return
    if kind == "derived":
        ders = [("neg", -d, [-p for p in gd]), ("add", d + e, [p + q for p, q in zip(gd, ge)]), ("sub", d - e, [p - q for p, q in zip(gd, ge)]),
                ("mul", d * e, [p * q for p, q in zip(gd, ge)]), ("muls", d * 2.5, [p * 2.5 for p in gd]), ("rmul", 3 * d, [p * 3 for p in gd]),
                ("conj", d.conj(), [p.conj() for p in gd]), ("copy", d.copy(), gd), ("ravel", d.ravel(), gd),
                ("zeros+add", d.zeros_like() + d if True else None, gd)]
        for name, x, parts in ders:
            keep(ctx, c, x, name)
            parts = [np.asarray(p).astype(dt) for p in parts]
            check_red(ctx, c, x, x.conj(), parts, [p.conj() for p in parts], name, dt)
        t = d.copy()
        t += e
        keep(ctx, c, t, "iadd")
        check_red(ctx, c, t, t, [p + q for p, q in zip(gd, ge)], [p + q for p, q in zip(gd, ge)], "iadd", dt)
    if kind == "stack":
        st = StackedDistributedArray([d, e, d + e], **ctx.kw())
        fl = np.concatenate([p.ravel() for p in gd] + [p.ravel() for p in ge] + [(p + q).ravel() for p, q in zip(gd, ge)])
        ctx.close(st.dot(st.conj()), np.vdot(fl, fl), "stack-dot", "stacked masked dot", tol=tol_for(dt))
        for o in (None, 1, 0):
            ctx.close(st.norm(o), np.linalg.norm(fl, o), "stack-norm", f"stacked masked norm {o}", tol=tol_for(dt))
        st2 = -(st * 2) + st
        for k in range(3):
            keep(ctx, c, st2[k], "stacked component")
        ctx.close(st2.norm(), np.linalg.norm(fl), "stack-norm", "derived stacked masked norm", tol=tol_for(dt))


def solve(ctx, c, rng):
    P, mask = ctx.size, c["mask"]
    dt = np.dtype("c16") if c["dt"] in ("c16",) else np.dtype("f8")
    kind = c["kind"]
    ns = [int(x) for x in rng.integers(6, 9, P)]
    ms = list(ns) if kind == "cg" else [n + int(rng.integers(0, 4)) for n in ns]
    if kind == "blockdiag":
        ns = [int(x) for x in rng.integers(1, 5, P)]
        ms = [int(x) for x in rng.integers(1, 5, P)]
    mats = []
    for n, m in zip(ns, ms):
        A = rdata(rng, (m, n), dt)
        if kind == "cg":
            A = A @ A.conj().T + 2 * n * np.eye(n)
        mats.append(A.astype(dt))
    Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(mats[ctx.rank], dtype=dt)], mask=list(mask), dtype=dt, **ctx.kw())
    x = rdata(rng, sum(ns), dt)
    y = rdata(rng, sum(ms), dt)
    laym, layd = Lay("S", 0, ns, mask), Lay("S", 0, ms, mask)
    dx, dy = mk(ctx, x, laym), mk(ctx, y, layd)
    mem = group(ctx, mask)
    fw, ad = Op.matvec(dx), Op.rmatvec(dy)
    keep(ctx, c, fw, "BlockDiag forward")
    keep(ctx, c, ad, "BlockDiag adjoint")
    fws = [mats[r] @ block(x, ns, 0, r) for r in mem]
    ads = [mats[r].conj().T @ block(y, ms, 0, r) for r in mem]
    check_red(ctx, c, fw, fw.conj(), fws, [p.conj() for p in fws], "BlockDiag forward", dt)
    check_red(ctx, c, ad, ad.conj(), ads, [p.conj() for p in ads], "BlockDiag adjoint", dt)
    if kind == "blockdiag":
        if dt == np.dtype("f8"):
            sq = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(mats[ctx.rank][:, :])], mask=list(mask), **ctx.kw())
            g2 = (sq.H @ (2 * sq)).matvec(dx)
            keep(ctx, c, g2, "normal operator")
            w = [mats[r].T @ (2 * (mats[r] @ block(x, ns, 0, r))) for r in mem]
            check_red(ctx, c, g2, g2, w, w, "normal operator", dt)
        return
    niter = int(rng.integers(1, 4))
    from scipy.linalg import block_diag
    A = block_diag(*[mats[r] for r in mem])
    b = np.concatenate([block(y, ms, 0, r) for r in mem])
    x0 = np.concatenate([block(x, ns, 0, r) for r in mem])
    from refsolve import ref_cg, ref_cgls
    if kind == "cg":
        got = pylops_mpi.cg(Op, dy, dx, niter=niter, tol=0)
        xs, cost = ref_cg(A, b, x0, niter, 0)
        xx, it, cc = got
    else:
        damp = float(rng.choice([0., 0.5]))
        got = pylops_mpi.cgls(Op, dy, dx, niter=niter, damp=damp, tol=0)
        xs, cost, _ = ref_cgls(A, b, x0, niter, damp, 0)
        xx, it, cc = got[0], got[2], got[5]
    o = sum(ns[r] for r in mem if r < ctx.rank)
    ctx.eq(it, niter, "iters", "iteration count")
    ctx.close(xx.local_array, xs[-1][o:o + ns[ctx.rank]], "solution", f"{kind} group solution after {niter} iterations", tol=1e-7)
    ctx.close(np.asarray(cc), np.asarray(cost), "cost", f"{kind} group cost", tol=1e-7)


def diverge(ctx, c, rng):
    """Well-conditioned problems of different sizes: the small group reaches the tolerance first and the other carries on."""
    P, mask = ctx.size, c["mask"]
    n = [1 if mask[r] == 0 else 8 for r in range(P)]
    mats = []
    for r in range(P):
        A = rng.standard_normal((n[r], n[r])) * .2
        mats.append(A @ A.T + np.diag(1. + np.arange(n[r])) if mask[r] else np.eye(1))
    Op = pylops_mpi.MPIBlockDiag([pylops.MatrixMult(mats[ctx.rank])], mask=list(mask), **ctx.kw())
    xt = rng.standard_normal(sum(n)) + 3
    lay = Lay("S", 0, n, mask)
    x0, y = mk(ctx, np.zeros(sum(n)), lay), mk(ctx, np.concatenate([mats[r] @ block(xt, n, 0, r) for r in range(P)]), lay)
    solver = pylops_mpi.cg if c["solver"] == "cg" else pylops_mpi.cgls
    x = solver(Op, y, x0, niter=200, tol=1e-16)[0]
    ctx.close(x.local_array, block(xt, n, 0, ctx.rank), "solution", "solution of the group", tol=1e-5)
