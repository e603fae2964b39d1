"""C22: solvers terminate within their limits and report truthfully, whatever way they are driven."""
import contextlib
import io
import re
import numpy as np
from pylops.optimization.callback import Callbacks
from pylops_mpi.optimization.basic import cg, cgls
from pylops_mpi.optimization.cls_basic import CG, CGLS
from solve import *         # noqa

STRUCT = .08
MODES = ["truth", "limits", "zero", "satisfied", "boundary", "manual", "chunks", "show", "showmany", "callbacks", "reuse", "wrapper", "truth", "positional", "defaults"]
KINDS = [s + "-" + m for m in MODES for s in ("cg", "cgls")]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    return {"kind": kind, "dt": pick(rng, ["f8", "c16"]), "niter": int(rng.integers(1, 7)), "ds": int(rng.integers(1 << 30)),
            "stacked": bool(rng.random() < .35), "sync": bool(rng.random() < .08)}


class Rec(Callbacks):
    """Callback object recording what the solver does."""

    def __init__(self, ctx):
        super().__init__()
        self.ctx, self.steps, self.log = ctx, [], []

    def on_setup_begin(self, s, x):
        self.log.append("setup<")

    def on_setup_end(self, s, x):
        self.log.append("setup>")

    def on_step_begin(self, s, x):
        self.log.append("step<")

    def on_step_end(self, s, x):
        self.log.append("step>")
        self.steps.append((s.iiter, content(self.ctx, x)))

    def on_run_begin(self, s, x):
        self.log.append("run<")

    def on_run_end(self, s, x):
        self.log.append("run>")


class Run:
    """Numbers of one solver run."""

    def __init__(self, ctx, which, s, x, its, tup=None):
        self.x, self.xs = x, snapshot(x)
        self.its = its
        self.n = s.iiter if s is not None else tup[1 if which == "cg" else 2]
        self.cost = np.asarray(s.cost if s is not None else tup[-1])
        self.cost1 = np.asarray(s.cost1) if s is not None and which == "cgls" else None
        self.fin = None
        if which == "cgls":
            self.fin = (s.istop, s.r1norm, s.r2norm) if s is not None else (tup[1], tup[3], tup[4])


def same(ctx, a, b, what):
    ctx.eq(b.n, a.n, "same-numbers", f"iterations: {what}")
    ctx.bits(b.cost, a.cost, "same-numbers", f"cost history: {what}")
    if a.cost1 is not None and b.cost1 is not None:
        ctx.bits(b.cost1, a.cost1, "same-numbers", f"damped cost history: {what}")
    for k, (p, q) in enumerate(zip(a.xs, b.xs)):
        ctx.bits(q, p, "same-numbers", f"solution part {k}: {what}")
    if a.fin and b.fin:
        ctx.bits(np.array([float(v) for v in b.fin]), np.array([float(v) for v in a.fin]), "same-numbers", f"stop reason and norms: {what}")


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    dt = c["dt"]
    which, mode = c["kind"].split("-")
    niter = c["niter"]
    if which == "cg":
        e = spd(ctx, rng, "stacked" if c["stacked"] else pick(rng, [n for n in SPD if n != "stacked"]), dt)
        damp = 0.
    else:
        e = lsq(ctx, rng, pick(rng, ["sblockdiag", "regular", "svstack", "gradient"] if c["stacked"] else
                               ["blockdiag", "vstack", "hstack", "local", "square", "product", "first"]), dt)
        damp = float(pick(rng, [0., 0., .1, 1., 3.]) * rng.uniform(.5, 1.5))
    A = e.A.astype("c16" if np.dtype(dt).kind == "c" else "f8")
    xt = rdata(rng, (e.dom.n,), dt)
    yv = (A @ xt).astype(dt) if which == "cg" or rng.random() < .5 else rdata(rng, (e.ran.n,), dt)
    x0 = rdata(rng, (e.dom.n,), dt) if rng.random() < .6 else np.zeros(e.dom.n, dtype=dt)
    nrm = float(np.linalg.norm(A, 2)) or 1.

    def crit(x):
        """Squared norm that decides the stop."""
        r = yv - A @ x
        g = r if which == "cg" else A.conj().T @ r - damp ** 2 * x
        return float(np.vdot(g, g).real)

    k0 = crit(x0)
    big = (nrm ** (1 if which == "cg" else 2) * max(np.linalg.norm(xt), np.linalg.norm(x0)) +
           (1 if which == "cg" else nrm) * np.linalg.norm(yv) + damp ** 2 * np.linalg.norm(x0)) ** 2 + 1e-30
    fl = 1e-24 * big                             # rounding level of the criterion
    tol = 0.
    if mode in ("truth", "limits", "manual", "chunks", "wrapper", "positional"):
        tol = float(pick(rng, [0., k0 * 10. ** rng.uniform(-6, 0), k0 * 10. ** rng.uniform(-3, 0)]))
        if mode == "limits":
            niter = int(rng.integers(0, 40))
    if mode == "zero":
        niter = 0
    if mode == "satisfied":
        tol = max(k0 * rng.uniform(1.01, 100), fl)
    if mode in ("showmany", "boundary"):
        niter = int(rng.integers(12, 40)) if mode == "showmany" else niter
    if k0 <= 100 * fl and tol == 0.:
        tol = 1e4 * fl
    kw = dict(niter=niter, tol=tol)
    if which == "cgls":
        kw["damp"] = damp

    def go(cb=True, **more):
        s = (CG if which == "cg" else CGLS)(e.op)
        its = []
        if cb:
            s.callback = lambda x: its.append(content(ctx, x))
        y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
        out = s.solve(y, x, **{**kw, **more})
        ctx.true(out[1 if which == "cg" else 2] == s.iiter and out[-1] is s.cost or bool(np.array_equal(out[-1], s.cost, equal_nan=True)),
                 "returned", "returned iteration count and cost differ from those of the solver")
        return Run(ctx, which, s, out[0], its)

    ref = go()
    xs = [x0.astype(A.dtype)] + ref.its
    n = ref.n
    # limits and bookkeeping
    ctx.true(0 <= n <= niter, "limit", f"{n} iterations, at most {niter} requested")
    ctx.eq(len(ref.its), n, "callback", "number of callbacks")
    ctx.eq(len(ref.cost), n + 1, "history", "length of the cost history")
    if ref.cost1 is not None:
        ctx.eq(len(ref.cost1), n + 1, "history", "length of the damped cost history")
    ctx.rep("iterations", n)
    ctx.rep("cost", ref.cost)
    if ref.fin:
        ctx.rep("norms", list(ref.fin))
    ctx.bits(content(ctx, ref.x), xs[-1].astype(content(ctx, ref.x).dtype), "result", "returned solution against the last callback")
    # stopping rule on the true criterion of the iterates
    ks = [crit(x) for x in xs]
    finite = all(np.isfinite(ks)) and all(k < 1e6 * max(ks[0], fl) for k in ks)
    if finite:
        for j in range(n):
            ctx.true(ks[j] >= tol * (1 - 1e-6) - 1e3 * fl, "stop", f"went on from iterate {j} although its criterion {ks[j]:g} is below tol {tol:g}")
        if n < niter:
            ctx.true(ks[n] <= tol * (1 + 1e-6) + 1e3 * fl, "stop", f"stopped after {n} of {niter} iterations with criterion {ks[n]:g} above tol {tol:g}")
        ysc = np.sqrt(big) / (1 if which == "cg" else nrm)
        for j, x in enumerate(xs):
            r = float(np.linalg.norm(yv - A @ x))
            ctx.true(abs(ref.cost[j] - r) <= 1e-8 * ysc * (1 + j), "cost", f"cost[{j}] is {ref.cost[j]!r}, residual norm of the iterate is {r!r}")
            if ref.cost1 is not None:
                w = np.sqrt(r ** 2 + damp ** 2 * float(np.vdot(x, x).real))
                ctx.true(abs(ref.cost1[j] - w) <= 1e-8 * (ysc + damp * np.linalg.norm(x)) * (1 + j), "cost", f"cost1[{j}] is {ref.cost1[j]!r}, damped norm is {w!r}")
        if ref.fin:
            r = float(np.linalg.norm(yv - A @ xs[-1]))
            w = np.sqrt(r ** 2 + damp ** 2 * float(np.vdot(xs[-1], xs[-1]).real))
            ctx.true(abs(ref.fin[1] - r) <= 1e-8 * ysc * (1 + n), "norms", f"r1norm {ref.fin[1]!r}, residual norm of the solution {r!r}")
            ctx.true(abs(ref.fin[2] - w) <= 1e-8 * (ysc + damp * np.linalg.norm(xs[-1])) * (1 + n), "norms", f"r2norm {ref.fin[2]!r}, damped norm {w!r}")
            if n < niter and ks[n] < tol * (1 - 1e-6) - 1e3 * fl:
                ctx.eq(ref.fin[0], 1, "istop", f"stop reason after {n} of {niter} iterations (tol {tol:g})")
            elif ks[n] > tol * (1 + 1e-6) + 1e3 * fl:
                ctx.eq(ref.fin[0], 2, "istop", f"stop reason at the iteration limit with criterion {ks[n]:g} above tol {tol:g}")
    if mode in ("zero", "satisfied") or k0 < tol * (1 - 1e-6) - 1e3 * fl:
        ctx.eq(n, 0, "zero", "iterations although none is needed or allowed")
        ctx.bits(content(ctx, ref.x), x0, "zero", "solution of no iterations against the initial guess")
    # the same run driven in other ways
    if mode == "boundary" and n and finite:
        # tolerance exactly at the criterion the solver computed: stops there
        if which == "cg":
            j = int(rng.integers(0, n + 1))
            k = next((t for t in (float(ref.cost[j] ** 2), np.nextafter(ref.cost[j] ** 2, np.inf)) if True))
            kw["tol"] = float(k * (1 + 1e-12))
            m = next(i for i in range(n + 1) if ref.cost[i] ** 2 <= kw["tol"])
            b = go()
            ctx.eq(b.n, m, "stop", f"iterations with the tolerance at the criterion of iterate {m}")
    elif mode in ("manual", "reuse"):
        s = (CG if which == "cg" else CGLS)(e.op)
        for rnd in range(2 if mode == "reuse" else 1):
            if rnd:
                s.solve(e.ran.vec(ctx, rdata(rng, (e.ran.n,), dt)), e.dom.vec(ctx, rdata(rng, (e.dom.n,), dt)), niter=2, tol=0.)
            y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
            mk_ = dict(kw)
            if mode == "manual" and rng.random() < .5:
                mk_["niter"] = None
            x = s.setup(y, x, **mk_)
            for _ in range(n):
                x = s.step(x)
            s.finalize()
            same(ctx, ref, Run(ctx, which, s, x, []), "setup, step by step, finalize" + (" on a reused solver" if rnd else ""))
    elif mode == "chunks":
        s = (CG if which == "cg" else CGLS)(e.op)
        its = []
        s.callback = lambda x: its.append(content(ctx, x))
        y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
        mk_ = dict(kw)
        if rng.random() < .3:
            mk_["niter"] = None
        elif rng.random() < .4:                      # extended beyond the number given first
            mk_["niter"] = int(rng.integers(0, niter + 1))
        x = s.setup(y, x, **mk_)
        for k in sorted({int(v) for v in rng.integers(0, niter + 1, 3)} | {niter}):
            if k == niter and mk_["niter"] == niter and rng.random() < .5:
                x = s.run(x)
            else:
                x = s.run(x, k)
            ctx.true(s.iiter <= k, "limit", f"run up to {k} iterations reached {s.iiter}")
        s.finalize()
        b = Run(ctx, which, s, x, its)
        same(ctx, ref, b, "run in chunks")
        ctx.eq(len(its), n, "callback", "callbacks of a run in chunks")
    elif mode in ("show", "showmany"):
        buf = io.StringIO()
        ish = tuple(int(v) for v in rng.integers(1, 6, 3)) if rng.random() < .6 else (10, 10, 10)
        with contextlib.redirect_stdout(buf):
            b = go(show=True, itershow=ish) if ish[0] < 10 or rng.integers(2) else go(show=True)
        same(ctx, ref, b, "with show")
        if ctx.rank == 0:
            shown(ctx, which, buf.getvalue(), b, niter, ish)
            t = buf.getvalue()
            for k, v in (("tol", kw["tol"]), ("niter", niter), ("Iterations", b.n)):
                m = re.search(k + r" *= *([-+.\deE]+)", t)
                if ctx.true(m is not None, "show", f"{k} is not printed"):
                    ctx.true(abs(float(m.group(1)) - v) <= 1e-5 * abs(v), "show", f"{k} printed as {m.group(1)}, is {v!r}")
        else:
            ctx.eq(buf.getvalue(), "", "show", "text printed on another rank than 0")
    elif mode == "callbacks":
        rec = Rec(ctx)
        s = (CG if which == "cg" else CGLS)(e.op, callbacks=[rec])
        its = []
        s.callback = lambda x: its.append(content(ctx, x))
        out = s.solve(y=e.ran.vec(ctx, yv), x0=e.dom.vec(ctx, x0), **kw)
        same(ctx, ref, Run(ctx, which, s, out[0], its), "with callback objects")
        ctx.eq([k for k, _ in rec.steps], list(range(1, n + 1)), "callback", "iterations seen by the callback object")
        for (k, v), w in zip(rec.steps, xs[1:]):
            ctx.bits(v, w, "callback", f"iterate {k} seen by the callback object")
        ctx.eq(rec.log[:3] + rec.log[-1:], ["setup<", "setup>", "run<", "run>"], "callback", "order of the callbacks")
    elif mode in ("wrapper", "positional"):
        f = cg if which == "cg" else cgls
        its = []
        y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
        if mode == "positional":
            a = (niter, tol) if which == "cg" else (niter, damp, tol)
            out = f(e.op, y, x, *a, False, (1, 1, 1), lambda v: its.append(content(ctx, v)))
        else:
            out = f(e.op, y, x, callback=lambda v: its.append(content(ctx, v)), **kw)
        ctx.eq(len(out), 3 if which == "cg" else 6, "returned", "length of the returned tuple")
        same(ctx, ref, Run(ctx, which, None, out[0], its, out), "function call")
        for k, (v, w) in enumerate(zip(its, xs[1:])):
            ctx.bits(v, w, "callback", f"iterate {k + 1} of the function call")
    elif mode == "defaults":
        # left-out options: ten iterations, tolerance 1e-4, no damping, nothing printed; scales at which each of them matters
        big_ = 10. ** float(pick(rng, [-3, -2, -1, 0, 0, 1, 2, 3, 6, 12, 18]))
        cls, f = (CG, cg) if which == "cg" else (CGLS, cgls)

        def fresh():
            return e.ran.vec(ctx, yv * np.asarray(big_, dtype=dt)), e.dom.vec(ctx, x0 * np.asarray(big_, dtype=dt))

        def numbers(**more):
            s = cls(e.op)
            out = s.solve(*fresh(), **more)
            return Run(ctx, which, s, out[0], [])
        dk = dict(niter=10, tol=1e-4, show=False, **({"damp": 0.} if which == "cgls" else {}))
        a = numbers(**dk)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            same(ctx, a, numbers(), "all options left out")
            out = f(e.op, *fresh())
            same(ctx, a, Run(ctx, which, None, out[0], [], out), "function call with all options left out")
            s = cls(e.op)
            x = s.setup(*fresh())
            o = ctx.outcome(lambda: s.run(x))
            ctx.true(o[0] == "exc" and o[1] == "ValueError", "limit", f"run without any number of iterations: {o[:2]}")
            x = s.run(x, 10)
            s.finalize()
            same(ctx, a, Run(ctx, which, s, x, []), "setup with all options left out, run")
            for k in dk:
                if k != "show" and rng.random() < .5:
                    same(ctx, numbers(**{**dk, "niter": 3, k: dk[k]}), numbers(**{j: v for j, v in {**dk, "niter": 3, k: dk[k]}.items() if j != k or k == "niter"}), f"{k} left out")
        ctx.eq(buf.getvalue(), "", "show", "text printed although none was asked for")
        ctx.note(f"scale {big_:g}: {a.n} iterations")
    elif mode == "truth":
        b = go(cb=False)
        same(ctx, ref, b, "without a callback")


def shown(ctx, which, text, b, niter, ish):
    """Rows printed on rank 0: right iterations, true numbers."""
    rows = {}
    head = False
    for line in text.splitlines():
        if "Itn" in line:
            head = True
            continue
        t = line.split()
        if head and t and t[0].isdigit():
            rows[int(t[0])] = t
    want = [k + 1 for k in range(b.n) if k < ish[0] or niter - k < ish[1] or k % ish[2] == 0]
    ctx.eq(sorted(rows), want, "show", "iterations printed")
    for k, t in rows.items():
        if k <= b.n:
            v = [float(t[-1])] if which == "cg" else [float(t[-2]), float(t[-1])]
            w = [b.cost[k]] if which == "cg" else [b.cost[k], b.cost1[k]]
            for p, q in zip(v, w):
                ctx.true(abs(p - q) <= 1e-3 * max(abs(q), 1e-300), "show", f"iteration {k} printed {p}, history has {q}")
