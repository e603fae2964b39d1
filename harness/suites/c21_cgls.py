"""C21: distributed CGLS computes the damped least-squares iterates and minimiser."""
import numpy as np
from pylops_mpi.optimization.basic import cgls
from pylops_mpi.optimization.cls_basic import CGLS
from solve import *         # noqa

STRUCT = .08
KINDS = [n + s for s in ("", "-damp", "-damp-x0") for n in LSQ] + ["illcond", "long", "tol", "converge", "class", "single", "exact", "heavy", "tol", "converge", "reuse", "class", "reuse"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dt = pick(rng, ["f8", "c16"])
    if kind == "single":
        dt = pick(rng, ["f4", "c8"])
    return {"kind": kind, "dt": dt, "niter": int(rng.integers(1, 9)), "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .08)}


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    dt, kind, niter = c["dt"], c["kind"], c["niter"]
    single = kind == "single"
    parts = kind.split("-")
    name = parts[0] if parts[0] in LSQ else pick(rng, LSQ)
    if kind == "exact":
        name = pick(rng, ["square", "regular", "blockdiag"])
    if kind in ("illcond", "long"):
        e, xt = illcond(ctx, rng, dt, gram=True, long=kind == "long")
        name = kind
        niter = int(rng.integers(22, 46)) if kind == "long" else niter
    else:
        e, xt = lsq(ctx, rng, name, dt), None
    A = e.A.astype("c16" if np.dtype(dt).kind == "c" else "f8")
    xt = rdata(rng, (e.dom.n,), dt) if xt is None else xt
    nrm = float(np.linalg.norm(A, 2)) or 1.
    yv = (A @ xt).astype(dt) if rng.random() < .4 or kind in ("exact", "illcond", "long") else rdata(rng, (e.ran.n,), dt)
    x0 = rdata(rng, (e.dom.n,), dt) if "x0" in parts or (len(parts) == 1 and kind not in ("illcond", "long") and rng.random() < .4) else np.zeros(e.dom.n, dtype=dt)
    damp = 0.
    if "damp" in parts or (len(parts) == 1 and name != kind and rng.random() < .6):
        damp = float(nrm * pick(rng, [1e-3, 1e-2, .1, .5, 1., 3.]) * rng.uniform(.5, 1.5))
    if kind == "heavy":
        damp = float(nrm * rng.uniform(10, 1000))
    if rng.random() < .15:
        damp = -damp                             # only its square matters
    tol, want = 0., None
    grad0 = A.conj().T @ (yv - A @ x0) - damp ** 2 * x0
    g0 = float(np.vdot(grad0, grad0).real)
    if kind == "exact":
        x0, damp = xt.copy(), 0.
    if kind == "tol":
        _, ks = _ks(A, yv, x0, 30, damp)
        t = pick_tol(rng, ks)
        if t:
            tol, want = t
            niter = want + int(rng.integers(1, 5))
    if kind == "converge":
        damp = float(nrm * rng.uniform(.2, 1.5)) * (-1 if rng.random() < .2 else 1)
        grad0 = A.conj().T @ (yv - A @ x0) - damp ** 2 * x0
        tol, niter = 1e-24 * max(float(np.vdot(grad0, grad0).real), 1e-3), 20 * e.dom.n + 50
    if kind == "exact":
        tol, niter = 1e-18 * max(nrm ** 4 * float(np.vdot(xt, xt).real), 1e-3), 5
    if kind not in ("tol", "converge", "exact"):
        niter = min(niter, max(1, e.dom.n))
    y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
    its = []

    def cb(xk):
        its.append(content(ctx, xk))
    s = None
    if kind in ("class", "reuse") or rng.random() < .3:
        s = CGLS(e.op)
        if kind == "reuse" or rng.random() < .5:
            prior(ctx, rng, s, e, dt, damp=float(nrm * pick(rng, [0., .1, 2.])))
        s.callback = cb
        out = s.solve(y=y, x0=x, niter=niter, damp=damp, tol=tol)
    else:
        out = cgls(e.op, y, x, niter=niter, damp=damp, tol=tol, callback=cb)
    xo, istop, n, r1, r2, cost = out
    for nm, v in (("istop", istop), ("iterations", n), ("r1norm", r1), ("r2norm", r2), ("cost", np.asarray(cost))):
        ctx.rep(nm, v)
    rx, rc, rc1 = refsolve.ref_cgls(A, yv, x0, niter, damp, tol)
    scale = max(float(np.max(np.abs(rx))), float(np.max(np.abs(x0))), 1e-3)
    rt = 5e-3 if single else 1e-7
    d = f"({name}, damp={damp:.3g})"
    ctx.eq(len(its), n, "callback", "number of callbacks " + d)
    ctx.eq(len(cost), n + 1, "history", "length of the cost history " + d)
    g = content(ctx, xo).astype(A.dtype)
    # the reported norms describe the returned solution
    res = float(np.linalg.norm(yv - A @ g))
    xn = float(np.linalg.norm(g))
    ysc = max(float(np.linalg.norm(yv)), nrm * max(xn, float(np.linalg.norm(x0))), 1e-6)
    drift = (1e-4 if single else 1e-9) * ysc * (1 + n)
    if tol == 0. and not np.isfinite(res):
        # solved to the last bit and asked to go on: 0/0 in the step length
        gr = [A.conj().T @ (yv - A @ v) - damp ** 2 * v for v in [x0.astype(A.dtype)] + [v.astype(A.dtype) for v in its]]
        gn = [float(np.vdot(v, v).real) for v in gr]
        if any(v <= (1e-9 if single else 1e-18) * gn[0] for v in gn):
            drift = np.inf
    ok_ = lambda v, w, d: bool(abs(v - w) <= d) or d == np.inf     # noqa
    ctx.true(ok_(r1, res, drift), "r1norm", lambda: f"r1norm {r1} but the residual norm of the solution is {res} {d}")
    want2 = np.sqrt(res ** 2 + damp ** 2 * xn ** 2)
    ctx.true(ok_(r2, want2, drift + (1e-4 if single else 1e-9) * abs(damp) * max(xn, float(np.linalg.norm(x0))) * (1 + n)) or drift == np.inf, "r2norm",
             lambda: f"r2norm {r2} but the damped residual norm of the solution is {want2} {d}")
    if kind == "converge":
        H = A.conj().T @ A + damp ** 2 * np.eye(e.dom.n)
        xs = np.linalg.solve(H, A.conj().T @ yv)
        ctx.close(g, xs, "solution", f"minimiser {d}", tol=1e-6, scale=scale)
        if s is not None:
            ctx.true(istop in (1, 2), "istop", lambda: f"stop reason {istop} {d}")
        ctx.eq(istop, 1, "istop", f"stop reason at convergence {d}")
    elif kind == "exact":
        ctx.eq(n, 0, "exact", f"iterations from the exact solution {d}")
        ctx.bits(content(ctx, xo), x0, "exact", f"solution returned from the exact solution {d}")
    else:
        # rounding level, judged by the squared gradient
        ks = _ks(A, yv, x0, niter, damp, tol)[1]
        floor = ks[0] * (1e-4 if single else 1e-9)
        dx, stable = refsolve.sensitivity(lambda a, b, x: _ks(a, b, x, niter, damp, tol), A, yv, x0, 1e-6 if single else 1e-13)
        ok = dx * 100 < 1e-3 * scale
        if not stable:
            want = None
        if want is not None:
            ctx.eq(n, want, "iterations", f"iterations for tol={tol:g} {d}")
            ctx.eq(istop, 1, "istop", f"stop reason for tol={tol:g} {d}")
        elif ks[-1] > floor and tol == 0.:
            ctx.eq(istop, 2, "istop", f"stop reason after {niter} iterations without tolerance {d}")
        if n:
            ctx.close(content(ctx, xo), its[-1], "iterate", f"returned solution against the last iterate {d}", tol=0)
        for k in range(min(n, len(rx) - 1) + 1):
            if k and (ks[k] < floor or ks[k - 1] < floor) or not ok[k]:
                break                            # rounding level: iterates beyond carry no information
            ctx.close(cost[k], rc[k], "history", f"residual norm {k} {d}", tol=rt + 100 * dx[k] / scale, scale=ysc)
            if s is not None:
                ctx.close(s.cost1[k], rc1[k], "history", f"damped residual norm {k} {d}", tol=rt + 100 * dx[k] / scale, scale=max(ysc, rc1[0]))
            if k:
                ctx.close(its[k - 1], rx[k], "iterate", f"iterate {k} {d}", tol=rt + 100 * dx[k] / scale, scale=scale)
        if min(ks) > floor and stable and ok[-1]:
            ctx.eq(n, len(rx) - 1, "iterations", f"iterations (niter={niter}, tol={tol:g}) {d}")
            e.dom.check(ctx, xo, rx[-1], "result", f"solution {d}", tol=(rt * scale + 100 * dx[-1]) / max(float(np.max(np.abs(rx[-1]))), 1e-30))
    for a, b in zip(snapshot(x), snapshot(e.dom.vec(ctx, x0))):
        ctx.bits(a, b, "input", "initial guess after the solve")
    for a, b in zip(snapshot(y), snapshot(e.ran.vec(ctx, yv))):
        ctx.bits(a, b, "input", "data after the solve")


def _ks(A, y, x0, niter, damp, tol=0.):
    """Squared norms of the gradient along the iterations."""
    rx, _, _ = refsolve.ref_cgls(A, y, x0, niter, damp, tol)
    ks = []
    for x in rx:
        g = A.conj().T @ (y - A @ x) - damp ** 2 * x
        ks.append(float(np.vdot(g, g).real))
    return rx, ks
