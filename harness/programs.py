"""Random programs over the whole library: every step checks its result against NumPy and returns the global contents it produced."""
import contextlib
import io
import numpy as np
from pylops_mpi.optimization.basic import cg, cgls
from pylops_mpi.utils.dottest import dottest
from solve import *         # noqa
from suites import c17_algebra as c17, c18_salgebra as c18

ARRAY = ["arith", "reduce", "gather", "ghost", "inplace", "masked", "broadcast", "ravel", "stacked", "setitem"]
OPER = ["op", "op", "op", "expr", "sexpr", "realign", "dottest"]
SOLVE = ["cg", "cgls"]
FAIL = ["reject"]


class Prog:
    def __init__(self, ctx, rng, big=False):
        self.ctx, self.rng, self.big, self.out = ctx, rng, big, []

    def emit(self, name, value, replicated=True):
        """A result: (name, copy); replicated ones are also compared across ranks."""
        v = np.array(value)
        self.out.append((name, v))
        if replicated and not self.ctx.sub:
            self.ctx.rep(name, v)

    def vec(self, name, y):
        for k, d in enumerate(y.distarrays if isinstance(y, StackedDistributedArray) else [y]):
            self.emit(f"{name}.{k}", d.local_array, d.partition is not S)

    # ------------------------------------------------------------- steps
    def grid(self, dt=None):
        rng, P = self.rng, self.ctx.size
        ndim = int(rng.integers(1, 4))
        shape = [int(rng.integers(1, max(3, (4 * P + 4) // ndim + 2))) for _ in range(ndim)]
        axis = int(rng.integers(ndim))
        if self.big:
            shape[axis] = max(shape[axis], P) * int(rng.integers(1, 4000 // max(1, int(np.prod(shape)) // 40) + 2))
        part = pick(rng, ["S", "S", "S", "B", "U"])
        sizes = rand_sizes(rng, shape[axis], P) if part == "S" and rng.random() < .5 else None
        dt = dt or pick(rng, ["f8", "c16", "f8", "i8"])
        return tuple(shape), Lay(part, axis, sizes), dt

    def own(self, d, g, lay, what, tol=1e-11):
        self.ctx.close(d.local_array, lay.own(g, self.ctx.rank, self.ctx.size), "value", what, tol=tol)

    def arith(self):
        shape, lay, dt = self.grid()
        g = [rdata(self.rng, shape, dt) for _ in range(2)]
        x, y = (mk(self.ctx, a, lay) for a in g)
        r = (x + y) * 2 - x * y
        self.own(r, (g[0] + g[1]) * 2 - g[0] * g[1], lay, "arithmetic")
        self.own((-r).conj(), (-((g[0] + g[1]) * 2 - g[0] * g[1])).conj(), lay, "neg conj")
        self.own(r.copy().zeros_like(), np.zeros(shape, dt), lay, "zeros_like")
        self.vec("arith", r)

    def reduce(self):
        shape, lay, dt = self.grid()
        g = [rdata(self.rng, shape, dt) for _ in range(2)]
        x, y = (mk(self.ctx, a, lay) for a in g)
        d = x.dot(y)
        self.ctx.close(d, np.dot(g[0].ravel(), g[1].ravel()), "value", "dot", tol=1e-10, scale=float(np.abs(g[0].ravel()) @ np.abs(g[1].ravel())) + 1e-30)
        self.emit("dot", d)
        for o in (None, 1, 0, np.inf, -np.inf, 3):
            n = x.norm(o)
            self.ctx.close(n, np.linalg.norm(g[0].ravel(), 2 if o is None else o), "value", f"norm {o}", tol=1e-10)
            self.emit(f"norm {o}", n)
        if lay.axis or len(shape) == 1:
            n = x.norm(1, axis=lay.axis)
            self.emit("axis norm", n)
            self.ctx.close(n, np.linalg.norm(g[0], 1, axis=lay.axis), "value", "axis norm", tol=1e-10)

    def gather(self):
        shape, lay, dt = self.grid()
        g = rdata(self.rng, shape, dt)
        x = mk(self.ctx, g, lay)
        a = x.asarray()
        self.ctx.bits(a, g, "value", "gathered array")
        self.emit("gather", a)
        b = DistributedArray.to_dist(a, axis=int(self.rng.integers(len(shape))), **self.ctx.kw())
        self.ctx.bits(b.asarray(), g, "value", "scattered again and gathered")
        self.emit("local shapes", [list(s) for s in b.local_shapes])

    def ghost(self):
        shape, lay, dt = self.grid()
        lay.part = "S"
        g = rdata(self.rng, shape, dt)
        x = mk(self.ctx, g, lay)
        s, P, r = lay.eff(shape, self.ctx.size), self.ctx.size, self.ctx.rank
        k = min(s)
        f, b = (int(v) for v in self.rng.integers(0, min(k, 50) + 1, 2))
        kw = {}
        if self.rng.random() < .8:
            kw["cells_front"] = f
        else:
            f = 0
        if self.rng.random() < .8:
            kw["cells_back"] = b
        else:
            b = 0
        h = x.add_ghost_cells(**kw)
        o = sum(s[:r])
        sl = [slice(None)] * len(shape)
        sl[lay.axis] = slice(o - (f if r else 0), o + s[r] + (b if r < P - 1 else 0))
        self.ctx.bits(h, g[tuple(sl)], "value", f"ghost cells {f},{b}")
        self.emit("ghost", h, False)

    def inplace(self):
        shape, lay, dt = self.grid()
        g = [rdata(self.rng, shape, dt) for _ in range(2)]
        x, y = (mk(self.ctx, a, lay) for a in g)
        x += y
        x -= y * 3
        self.own(x, g[0] + g[1] - g[1] * 3, lay, "in-place sums")
        self.vec("inplace", x)

    def setitem(self):
        shape, lay, dt = self.grid()
        g = rdata(self.rng, shape, dt)
        x = mk(self.ctx, np.zeros(shape, dt), lay)
        x[:] = lay.own(g, self.ctx.rank, self.ctx.size)
        self.own(x, g, lay, "assignment", 0)
        x[:] = 3
        self.own(x, np.full(shape, 3, dt), lay, "scalar assignment", 0)
        self.vec("setitem", x)

    def masked(self):
        rng, ctx = self.rng, self.ctx
        m = rand_mask(rng, ctx.size)
        n = ctx.size + int(rng.integers(0, 3 * ctx.size))
        sizes = rand_sizes(rng, n, ctx.size)
        dt = pick(rng, ["f8", "c16"])
        g = [rdata(rng, (n,), dt) for _ in range(2)]
        lay = Lay("S", 0, sizes, m)
        x, y = (mk(ctx, a, lay) for a in g)
        sel = np.concatenate([np.full(s, m[r] == m[ctx.rank]) for r, s in enumerate(sizes)])
        d = (x + y).dot(y * 2)
        w = np.dot((g[0] + g[1])[sel], 2 * g[1][sel])
        ctx.close(d, w, "value", "dot of the group", tol=1e-10, scale=float(np.abs((g[0] + g[1])) @ np.abs(2 * g[1])) + 1e-30)
        self.emit("group dot", d, False)
        nn = x.norm()
        ctx.close(nn, np.linalg.norm(g[0][sel]), "value", "norm of the group", tol=1e-10, scale=float(np.linalg.norm(g[0])) + 1e-30)
        self.emit("group norm", nn, False)

    def broadcast(self):
        rng, ctx = self.rng, self.ctx
        n = int(rng.integers(1, 30000 if self.big else 20))
        g = rdata(rng, (n,), "f8")
        x = DistributedArray(global_shape=n, partition=B, **ctx.kw())
        x[:] = g + ctx.rank                      # rank 0 wins
        ctx.bits(x.local_array, g + 0, "value", "broadcast assignment")
        x[:] = x.local_array * 2
        ctx.bits(x.local_array, g * 2, "value", "broadcast assignment")
        y = x + x * 2
        ctx.close(y.local_array, g * 6, "value", "replicated arithmetic", tol=1e-12)
        self.emit("broadcast", y.local_array)

    def ravel(self):
        shape, lay, dt = self.grid()
        g = rdata(self.rng, shape, dt)
        x = mk(self.ctx, g, lay)
        f = x.ravel()
        self.ctx.bits(f.local_array, lay.own(g, self.ctx.rank, self.ctx.size).ravel(), "value", "ravel")
        self.emit("ravel", f.asarray())

    def stacked(self):
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        sp = Space(comps=[rand_space(rng, ctx.size) for _ in range(int(rng.integers(1, 4)))])
        v = [rdata(rng, (sp.n,), dt) for _ in range(2)]
        x, y = (sp.vec(ctx, a) for a in v)
        r = x * 2 - y
        r += x
        w = v[0] * 2 - v[1] + v[0]
        sp.check(ctx, r, w, "value", "stacked arithmetic", 1e-11) if not ctx.sub else None
        ctx.close(content(ctx, r), w, "value", "stacked arithmetic", tol=1e-11)
        for what, a, b in (("dot", x.dot(y), np.dot(v[0], v[1])), ("norm", r.norm(), np.linalg.norm(w)), ("norm inf", r.norm(np.inf), np.max(np.abs(w)))):
            ctx.close(a, b, "value", "stacked " + what, tol=1e-9, scale=float(np.linalg.norm(v[0]) * np.linalg.norm(v[1])) + float(np.linalg.norm(w)) + 1e-30)
            self.emit("stacked " + what, a)
        self.emit("stack", r.asarray())

    def both(self, e, dt, name, tol=1e-9):
        rng, ctx = self.rng, self.ctx
        v, u = rdata(rng, (e.dom.n,), dt), rdata(rng, (e.ran.n,), dt)
        f, a = e.op.matvec(e.dom.vec(ctx, v)), e.op.rmatvec(e.ran.vec(ctx, u))
        for y, A, N, w, what in ((f, e.A, e.N, v, "forward"), (a, e.A.conj().T, e.N.T, u, "adjoint")):
            ctx.close(content(ctx, y), A @ w, "value", f"{what} of {e.txt}", tol=tol, scale=max(float(np.max(N @ np.abs(w), initial=0.)), 1e-30))
            self.vec(f"{name} {what}", y)

    def op(self):
        rng, ctx = self.rng, self.ctx
        name = pick(rng, PLAIN + STACKED)
        dt = pick(rng, ["f8", "c16"])
        e = leaf(zoo(ctx, rng, name, dt))
        if name == "mdc":
            ctx.check_warn, dt = False, "f8"
        self.both(e, dt, name)

    def expr(self):
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        self.both(expr(ctx, rng, rand_space(rng, ctx.size), rand_space(rng, ctx.size), dt, 3, None, plain_leaf, c17.mid), dt, "expr")

    def sexpr(self):
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        st = lambda: Space(comps=[c18.rspace(ctx, rng) for _ in range(2)])       # noqa: E731
        self.both(c18.sexpr(ctx, rng, pick(rng, [st, lambda: c18.rspace(ctx, rng)])(), st(), dt, 2), dt, "sexpr")

    def realign(self):
        """Vectors laid out otherwise than the operator's parts."""
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        z = pick(rng, [z_blockdiag, z_first, z_hstack])(ctx, rng, dt)
        s = list(z.dom.sizes)
        for _ in range(ctx.size):                # neighbours give each other a few elements
            if ctx.size > 1:
                a = int(rng.integers(ctx.size - 1))
                k = int(rng.integers(0, min(s[a], z.dom.sizes[a]) // 2 + 1))
                a, b = (a, a + 1)
                s[a] -= k
                s[b] += k
        v = rdata(rng, (z.dom.n,), dt)
        x = mk(ctx, v, Lay("S", 0, s))
        o = ctx.outcome(lambda: z.op.matvec(x))
        if o[0] == "ok":
            ctx.close(content(ctx, o[1]), z.A @ v, "value", "realigned forward", tol=1e-9, scale=max(lin_scale(z.A, v), 1e-30))
            self.vec("realigned", o[1])
        else:
            ctx.eq(o[1], "ValueError", "value", "rejected realignment")
            self.emit("realigned", [0.])

    def dottest(self):
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        e = leaf(zoo(ctx, rng, pick(rng, [n for n in PLAIN if n != "mdc"] + STACKED), dt))
        u, v = rdata(rng, (e.dom.n,), dt), rdata(rng, (e.ran.n,), dt)
        bound = max(float(np.abs(v) @ (e.N @ np.abs(u))), 1e-30)
        r = dottest(e.op, e.dom.vec(ctx, u), e.ran.vec(ctx, v), atol=1e-9 * bound, raiseerror=False)
        ctx.true(bool(r), "value", f"dot test of {e.txt}")
        self.emit("dottest", bool(r))

    def idle(self, sp, dt):
        """Data that vanish on some of the ranks, sometimes."""
        v = rdata(self.rng, (sp.n,), dt)
        if self.rng.random() < .35:
            on = self.rng.random(self.ctx.size) < .5
            o = 0
            for s in (sp.comps or [sp]):
                if s.part == "S":
                    for r, k in enumerate(s.sizes):
                        v[o:o + k] *= bool(on[r])
                        o += k
                else:
                    o += s.n
        return v

    def guess(self, sp, dt):
        return np.zeros(sp.n, dtype=dt) if self.rng.random() < .5 else rdata(self.rng, (sp.n,), dt)

    def printed(self, f):
        """Sometimes with a report on rank 0, of some or all iterations."""
        if self.rng.random() < .6:
            return f()
        ish = [(10, 10, 10), (1, 1, 1), (2, 3, 4)][int(self.rng.integers(3))]
        with contextlib.redirect_stdout(io.StringIO()):
            return f(show=True, itershow=ish)

    def magnitude(self):
        """Data far from unit magnitude, sometimes."""
        return [1., 1., 1., 1e7, 1e12, 1e-3][int(self.rng.integers(6))]

    def cg(self):
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        e = spd(ctx, rng, pick(rng, SPD), dt)
        m = self.magnitude()
        xt, x0 = m * self.idle(e.dom, dt), m * self.guess(e.dom, dt)
        yv = (e.A @ xt).astype(dt)
        niter = int(rng.integers(1, 6))
        x, n, cost = self.printed(lambda **kw: cg(e.op, e.ran.vec(ctx, yv), e.dom.vec(ctx, x0), niter=niter, tol=1e-20, **kw))
        self.solved("cg", e, x, n, cost, yv)

    def cgls(self):
        rng, ctx = self.rng, self.ctx
        dt = pick(rng, ["f8", "c16"])
        e = lsq(ctx, rng, pick(rng, LSQ), dt)
        m = self.magnitude()
        yv, x0 = m * self.idle(e.ran, dt), m * self.guess(e.dom, dt)
        niter, damp = int(rng.integers(1, 6)), float(rng.uniform(0, 1))
        x, istop, n, r1, r2, cost = self.printed(lambda **kw: cgls(e.op, e.ran.vec(ctx, yv), e.dom.vec(ctx, x0), niter=niter, damp=damp, tol=1e-20, **kw))
        self.emit("norms", [r1, r2, istop])
        self.solved("cgls", e, x, n, cost, yv)

    def solved(self, name, e, x, n, cost, yv):
        g = content(self.ctx, x)
        r = float(np.linalg.norm(yv - e.A @ g))
        sc = float(np.linalg.norm(yv)) + float(np.linalg.norm(e.A)) * float(np.linalg.norm(g)) + float(cost[0])
        self.ctx.true(abs(cost[-1] - r) <= 1e-8 * sc, "value", f"{name}: residual norm reported {cost[-1]}, true {r}")
        self.emit(name + " count", n)
        self.emit(name + " cost", np.asarray(cost))
        self.vec(name, x)

    def reject(self):
        """Requests that are refused everywhere; the program goes on."""
        rng, ctx = self.rng, self.ctx
        shape, lay, dt = self.grid()
        x = mk(ctx, rdata(rng, shape, dt), lay)
        y = DistributedArray(global_shape=tuple(s + 1 for s in shape), dtype=dt, partition=x.partition, axis=lay.axis, **ctx.kw())
        z = z_blockdiag(ctx, rng, "f8")
        v = mk(ctx, np.zeros(z.dom.n + 1), Lay("S", 0))
        for k, f in enumerate((lambda: x + y, lambda: x.dot(y), lambda: z.op.matvec(v),
                               lambda: DistributedArray(global_shape=(3,), axis=1, **ctx.kw()), lambda: z.op + z_blockdiag(ctx, rng, "f8", maxb=1, hi=40).op)):
            if k == 4 and rng.random() < 2:
                continue
            o = ctx.outcome(f)
            ctx.true(o[0] == "exc" and o[1] in ("ValueError", "IndexError"), "value", f"refused request {k}: {o[:2]}")
            self.emit("refusal", len(o))

    def go(self, names):
        for n in names:
            getattr(self, n)()
        return self.out


def random_names(rng, k, pool=None):
    pool = pool or (ARRAY + OPER + OPER + SOLVE + FAIL)
    return [pick(rng, pool) for _ in range(k)]
