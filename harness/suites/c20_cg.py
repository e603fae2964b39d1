"""C20: distributed CG computes the conjugate-gradient iterates."""
import numpy as np
from pylops_mpi.optimization.basic import cg
from pylops_mpi.optimization.cls_basic import CG
from solve import *         # noqa

STRUCT = .08
KINDS = [n + s for s in ("", "-x0") for n in SPD] + ["illcond", "long", "tol", "converge", "complex", "class", "single", "exact", "tol", "converge", "reuse", "class", "reuse"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "c16"])
    if kind == "complex":
        dt = "c16"
    if kind == "single":
        dt = pick(rng, ["f4", "c8"])
    return {"kind": kind, "dt": dt, "niter": int(rng.integers(1, 9)), "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .08)}


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    dt, kind, niter = c["dt"], c["kind"], c["niter"]
    single = kind == "single"
    name = kind.split("-")[0] if kind.split("-")[0] in SPD else pick(rng, SPD)
    if kind in ("illcond", "long"):
        e, xt = illcond(ctx, rng, dt, long=kind == "long")
        name = kind
        niter = int(rng.integers(22, 46)) if kind == "long" else niter
    else:
        e, xt = spd(ctx, rng, name, dt), None
    A = e.A.astype("c16" if np.dtype(dt).kind == "c" else "f8")
    xt = rdata(rng, (e.dom.n,), dt) if xt is None else xt
    yv = (A @ xt).astype(dt)
    x0 = rdata(rng, (e.dom.n,), dt) if kind.endswith("-x0") or kind not in ("illcond", "long") and rng.random() < .4 else np.zeros(e.dom.n, dtype=dt)
    tol = 0.
    want = None
    if kind == "exact":
        x0 = xt.copy()
    if kind == "tol":
        _, cost = refsolve.ref_cg(A, yv, x0, 30, 0.)
        t = pick_tol(rng, [k * k for k in cost])
        if t:
            tol, want = t
            niter = want + int(rng.integers(1, 5))
    if kind == "converge":
        tol, niter = 1e-24 * float(np.vdot(yv, yv).real), 20 * e.dom.n + 50
    if kind == "exact":
        tol, niter = 1e-18 * max(float(np.vdot(yv, yv).real), 1e-3), 5
    if kind not in ("tol", "converge", "exact"):
        niter = min(niter, max(1, e.dom.n))
    y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
    its = []

    def cb(xk):
        its.append(content(ctx, xk))
    if kind in ("class", "reuse") or rng.random() < .25:
        s = CG(e.op)
        if kind == "reuse" or rng.random() < .5:
            prior(ctx, rng, s, e, dt)
        s.callback = cb
        out, n, cost = s.solve(y=y, x0=x, niter=niter, tol=tol)
    else:
        out, n, cost = cg(e.op, y, x, niter=niter, tol=tol, callback=cb)
    ctx.rep("iterations", n)
    ctx.rep("cost", np.asarray(cost))
    rx, rc = refsolve.ref_cg(A, yv, x0, niter, tol)
    scale = max(float(np.max(np.abs(xt))), float(np.max(np.abs(x0))), 1e-3)
    rt = 3e-3 if single else 1e-7
    ctx.eq(len(its), n, "callback", "number of callbacks")
    ctx.eq(len(cost), n + 1, "history", "length of the cost history")
    g = content(ctx, out)
    if kind == "converge":
        ctx.close(g, xt, "solution", f"converged solution ({name})", tol=1e-6, scale=scale)
    elif kind == "exact":
        ctx.eq(n, 0, "exact", "iterations from the exact solution")
        ctx.bits(g, x0, "exact", "solution returned from the exact solution")
    else:
        if n:
            ctx.close(g, its[-1], "iterate", "returned solution against the last iterate", tol=0)
        floor = rc[0] * (1e-3 if single else 1e-6)
        dx, stable = refsolve.sensitivity(lambda a, b, x: refsolve.ref_cg(a, b, x, niter, tol), A, yv, x0, 1e-6 if single else 1e-13)
        ok = dx * 100 < 1e-3 * scale
        for k in range(min(n, len(rx) - 1) + 1):
            if rc[k] < floor and k or not ok[k]:
                break                            # rounding level: iterates beyond carry no information
            ctx.close(cost[k], rc[k], "history", f"residual norm {k} ({name})", tol=rt + 100 * dx[k] / scale, scale=rc[0])
            if k:
                ctx.close(its[k - 1], rx[k], "iterate", f"iterate {k} ({name})", tol=rt + 100 * dx[k] / scale, scale=scale)
        if want is not None and stable:
            ctx.eq(n, want, "iterations", f"iterations for tol={tol:g} ({name})")
        if rc[-1] >= floor and stable and ok[-1]:
            ctx.eq(n, len(rx) - 1, "iterations", f"iterations ({name}, niter={niter}, tol={tol:g})")
            e.dom.check(ctx, out, rx[-1], "result", f"solution ({name})", tol=(rt * scale + 100 * dx[-1]) / max(float(np.max(np.abs(rx[-1]))), 1e-30))
    for a, b in zip(snapshot(x), snapshot(e.dom.vec(ctx, x0))):
        ctx.bits(a, b, "input", "initial guess after the solve")
    for a, b in zip(snapshot(y), snapshot(e.ran.vec(ctx, yv))):
        ctx.bits(a, b, "input", "data after the solve")
