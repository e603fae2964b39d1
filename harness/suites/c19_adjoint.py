"""C19: every operator passes the adjoint identity and the dot test tells the truth."""
import numpy as np
from pylops_mpi.utils.dottest import dottest
from pylops_mpi import MPILinearOperator, MPIStackedLinearOperator
from exprs import *         # noqa
from suites import c17_algebra as c17, c18_salgebra as c18

OPSK = PLAIN + STACKED + ["expr", "sexpr", "adj", "scaled"]
STRUCT = .08
KINDS = [k + "-id" for k in OPSK] + ["truth-scatter", "truth-all", "truth-stacked", "truth-atol", "truth-rtol", "dims", "verb", "tiny", "forward-wrong", "zero", "nonfinite"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    return {"kind": kind, "dt": pick(rng, ["f8", "c16", "f8", "c16", "f4", "c8"]) if kind.endswith("-id") else pick(rng, ["f8", "c16"]),
            "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .1)}


class Wrong(MPILinearOperator):
    """Delegates to an operator and adds a perturbation to one local element of the forward or adjoint output."""

    def __init__(self, op, where, rank, idx, amount):
        super().__init__(shape=op.shape, dtype=op.dtype, base_comm=op.base_comm)
        self.inner, self.where, self.r, self.idx, self.amount = op, where, rank, idx, amount

    def bump(self, y, where):
        y = y.copy()
        if self.where == where and (self.r is None or self.r == self.rank):
            y.local_array[self.idx] += self.amount
        return y

    def _matvec(self, x):
        return self.bump(self.inner.matvec(x), "forward")

    def _rmatvec(self, x):
        return self.bump(self.inner.rmatvec(x), "adjoint")


class SWrong(MPIStackedLinearOperator):
    def __init__(self, op, comp, rank, idx, amount):
        super().__init__(shape=op.shape, dtype=op.dtype, base_comm=op.base_comm)
        self.inner, self.comp, self.r, self.idx, self.amount = op, comp, rank, idx, amount

    def _matvec(self, x):
        return self.inner.matvec(x)

    def _rmatvec(self, x):
        y = self.inner.rmatvec(x).copy()
        d = y[self.comp] if self.comp is not None else y
        if self.r == self.rank:
            d.local_array[self.idx] += self.amount
        return y


def gat(ctx, y):
    if isinstance(y, StackedDistributedArray):
        return np.concatenate([gather(ctx, d).ravel() for d in y.distarrays])
    return gather(ctx, y).ravel()


def build(ctx, rng, name, dt):
    if name == "expr":
        return expr(ctx, rng, rand_space(rng, ctx.size), rand_space(rng, ctx.size), dt, 3, None, plain_leaf, c17.mid)
    if name == "sexpr":
        st = lambda: Space(comps=[c18.rspace(ctx, rng) for _ in range(2)])       # noqa: E731
        return c18.sexpr(ctx, rng, pick(rng, [st, lambda: c18.rspace(ctx, rng)])(), st(), dt, 2)
    if name == "adj":
        e = leaf(zoo(ctx, rng, pick(rng, PLAIN[:-1]), dt))
        return E(e.op.H, e.A.conj().T, e.N.T, e.ran, e.dom, e.txt + ".H", e.leaves)
    if name == "scaled":
        e, a = leaf(zoo(ctx, rng, pick(rng, PLAIN[:-1] + STACKED), dt)), scalar(rng, dt)
        return E(e.op * a, e.A * a, e.N * abs(a), e.dom, e.ran, f"{a}*{e.txt}", e.leaves)
    return leaf(zoo(ctx, rng, name, dt))


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    P, dt, kind = ctx.size, c["dt"], c["kind"]
    single = np.dtype(dt) in (np.dtype("f4"), np.dtype("c8"))
    if kind.endswith("-id"):
        e = build(ctx, rng, kind[:-3], dt)
        if kind.startswith("mdc"):
            ctx.check_warn = False
            dt = {"c16": "f8", "c8": "f4"}.get(dt, dt)
        tol = (1e-3 if single or e.op.dtype in (np.float32, np.complex64) else 1e-10)
        for k in range(3):
            u, v = rdata(rng, (e.dom.n,), dt), rdata(rng, (e.ran.n,), dt)
            if k == 1:                           # single elements: one entry of the matrix
                u[:] = 0
                u[int(rng.integers(e.dom.n))] = 1
            if k == 2:
                v[:] = 0
                v[int(rng.integers(e.ran.n))] = 1
            x, y = e.dom.vec(ctx, u), e.ran.vec(ctx, v)
            f, a = gat(ctx, e.op.matvec(x)), gat(ctx, e.op.rmatvec(y))
            bound = max(float(np.abs(v) @ (e.N @ np.abs(u))), 1e-30)
            ctx.close(np.vdot(f, v), np.vdot(u, a), "adjoint-identity", f"(Op u, v) and (u, Op^H v) for {e.txt}", tol=tol, scale=bound)
            ctx.close(np.vdot(f, v), np.vdot(e.A @ u, v), "forward-value", f"(Op u, v) for {e.txt}", tol=tol, scale=bound)
            if k == 0:                           # the dot test accepts it
                gap = tol * bound
                ok = dottest(e.op, x, y, rtol=1e-6, atol=gap, raiseerror=False)
                ctx.true(bool(ok) is True, "dottest-false-alarm", f"dot test fails a correct operator {e.txt}")
                ctx.true(bool(dottest(e.op, x, y, e.A.shape[0], e.A.shape[1], atol=gap)), "dottest-false-alarm", f"dot test fails {e.txt}")
                ctx.rep("dottest", bool(ok))
        return
    # wrong operators
    stacked = kind == "truth-stacked"
    if stacked:
        e = leaf(zoo(ctx, rng, pick(rng, ["sblockdiag", "svstack", "gradient"]), dt))
    else:
        name = pick(rng, ["blockdiag", "first", "hstack", "second"]) if kind != "truth-all" else pick(rng, ["vstack", "local"])
        if kind == "forward-wrong" or kind == "nonfinite" and rng.integers(2):
            name = pick(rng, ["blockdiag", "vstack"])
        e = leaf(zoo(ctx, rng, name, dt))
    u, v = rdata(rng, (e.dom.n,), dt), rdata(rng, (e.ran.n,), dt)
    u, v = np.where(np.abs(u) < .05, u + 1, u), np.where(np.abs(v) < .05, v + 1, v)
    if kind == "tiny":                           # products far below one: the default tolerance is relative
        u, v = u * 10. ** -rng.uniform(2, 6), v * 10. ** -rng.uniform(2, 6)
    u, v = u.astype(dt), v.astype(dt)
    x, y = e.dom.vec(ctx, u), e.ran.vec(ctx, v)
    yy = np.vdot(e.A @ u, v)
    bound = float(np.abs(v) @ (e.N @ np.abs(u)))
    if abs(yy) <= 1e-3 * bound:                  # the zero operator included
        yy_ok = False
    else:
        yy_ok = True
    if kind == "dims":
        M, N = e.A.shape
        for a, b in ((M + 1, N), (M, N + 1), (M + 1, None), (None, N + 2), (N + 3, M)):
            ctx.rejects(lambda: dottest(e.op, x, y, a, b), ("AssertionError",), "dims", f"dot test with dimensions {a},{b}")
        ctx.true(bool(dottest(e.op, x, y, M, N, atol=1e-9 * bound)), "dims", "right dimensions")
        return
    if kind == "zero":
        z = 0 * e.op
        ctx.true(bool(dottest(z, x, y)), "zero", "dot test of the zero operator")
        ctx.true(bool(dottest(e.op, e.dom.vec(ctx, 0 * u), y)), "zero", "dot test with zero vector")
        return
    if not yy_ok and kind != "nonfinite":
        ctx.true(True, "skip")
        ctx.note("nearly orthogonal vectors")
        return
    side = "forward" if kind == "forward-wrong" or kind == "nonfinite" and name in ("blockdiag", "vstack") else "adjoint"
    sp, vec = (e.ran, v) if side == "forward" else (e.dom, u)
    comp, o = None, 0
    if sp.comps:
        comp = int(rng.integers(len(sp.comps)))
        o = sum(q.n for q in sp.comps[:comp])
        sp = sp.comps[comp]
    if sp.part == "S":
        ranks = [q for q in range(P) if sp.sizes[q] > 0]
        k = pick(rng, ranks)
        j = int(rng.integers(sp.sizes[k]))
        g = o + sum(sp.sizes[:k]) + j
    else:
        k, j = None, int(rng.integers(sp.n))
        g = o + j
    rel = float(10 ** rng.uniform(-5, 0)) if kind not in ("truth-atol", "truth-rtol") else float(10 ** rng.uniform(-4, -1))
    amount = rel * abs(yy) / abs(vec[g])
    if kind == "nonfinite":                      # NaN is never close to anything, infinity never to a finite number
        rel = amount = pick(rng, [np.nan, np.inf, -np.inf])
    if stacked:
        bad = SWrong(e.op, comp, k, j, amount) if k is not None else Wrong(e.op, side, k, j, amount)
    else:
        bad = Wrong(e.op, side, k, j, amount)
    diff = rel * abs(yy)

    def expect(ok, what, **kw):
        r = ctx.outcome(lambda: dottest(bad, x, y, raiseerror=False, **kw))
        ctx.rep(what, r[0] == "ok" and bool(r[1]))
        ctx.true(r[0] == "ok" and bool(r[1]) is ok, "truth", f"{what}: difference {rel:.2e} relative, {kw}: returned {r[1]}, expected {ok} ({e.txt}, {side})")
        r = ctx.outcome(lambda: dottest(bad, x, y, raiseerror=True, **kw))
        ctx.rep(what + " raise", r[:2] if r[0] == "exc" else bool(r[1]))
        ctx.true((r[0] == "ok" and bool(r[1])) if ok else (r[0] == "exc" and r[1] == "AssertionError"), "truth-raise",
                 f"{what}: difference {rel:.2e}, {kw}: {r}, expected {'True' if ok else 'AssertionError'}")
    if kind in ("truth-scatter", "truth-all", "truth-stacked", "forward-wrong", "tiny"):
        expect(False, "wrong operator")
        expect(False, "wrong operator", nr=e.A.shape[0], nc=e.A.shape[1])
    elif kind == "nonfinite":
        with np.errstate(all="ignore"):
            expect(False, "operator with a non-finite output")
            expect(False, "operator with a non-finite output", rtol=.5, atol=float(bound))
    elif kind == "truth-rtol":
        yb = abs(yy) + (diff if side == "forward" else 0)
        expect(True, "within rtol", rtol=diff / yb * 4)
        expect(False, "beyond rtol", rtol=diff / yb / 4)
    elif kind == "truth-atol":
        expect(True, "within atol", rtol=0., atol=diff * 4)
        expect(False, "beyond atol", rtol=0., atol=diff / 4)
    elif kind == "verb":
        ctx.true(bool(dottest(e.op, x, y, verb=True, atol=1e-9 * bound)), "verb", "verbose dot test of a right operator")
        r = ctx.outcome(lambda: dottest(bad, x, y, verb=True, raiseerror=False))
        ctx.true(r[0] == "ok" and not r[1], "verb", f"verbose dot test of a wrong operator: {r}")
        ctx.rejects(lambda: dottest(bad, x, y, verb=True), ("AssertionError",), "verb", "verbose raising dot test of a wrong operator")
