"""C27: operators give the same bits for the same input whatever happened before, and their parameters never change."""
import numpy as np
import pylops
from pylops_mpi.optimization.basic import cg, cgls
from pylops_mpi.optimization.cls_basic import CGLS
from pylops_mpi.utils.dottest import dottest
from solve import *         # noqa
from suites import c17_algebra as c17, c18_salgebra as c18
from suites.c04_value import scribble, results

OPSK = PLAIN + STACKED + ["expr", "sexpr", "adj", "scaled", "power", "failing", "spd"]
STRUCT = .08
KINDS = OPSK + ["cold"] * 4 + ["failing", "pair", "pair", "blockdiag-mask", "vstack", "hstack", "fredholm", "mdc", "gradient", "first"]
ACTS = ["forward", "adjoint", "forward", "adjoint", "same-object", "scribble", "scribble-input", "fail-size", "fail-part", "fail-block", "solver", "derive", "other-type", "other-layout",
        "other-op", "attributes", "dottest", "chain", "twins", "zero", "nan"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    return {"kind": kind, "dt": pick(rng, ["f8", "c16", "f8", "c16", "f4", "c8"]), "ds": int(rng.integers(1 << 30)),
            "n": int(rng.integers(10, 26 if tier == "quick" else 60)), "sync": bool(rng.random() < .15)}


class Fails(pylops.LinearOperator):
    """Matrix that can be told to raise in the middle of an application."""
    def __init__(self, a):
        super().__init__(dtype=a.dtype, shape=a.shape)
        self.a, self.on = a, False

    def _matvec(self, x):
        if self.on:
            raise RuntimeError("told to fail")
        return self.a @ x

    def _rmatvec(self, x):
        if self.on:
            raise RuntimeError("told to fail")
        return self.a.conj().T @ x


def build(ctx, rng, kind, dt):
    if kind == "expr":
        e = expr(ctx, rng, rand_space(rng, ctx.size), rand_space(rng, ctx.size), dt, 2, None, plain_leaf, c17.mid)
    elif kind == "sexpr":
        st = lambda: Space(comps=[c18.rspace(ctx, rng) for _ in range(2)])       # noqa: E731
        e = c18.sexpr(ctx, rng, c18.rspace(ctx, rng), st(), dt, 2)
    elif kind == "adj":
        b = leaf(zoo(ctx, rng, pick(rng, [n for n in PLAIN + STACKED if n != "mdc"]), dt))
        e = E(b.op.H, b.A.conj().T, b.N.T, b.ran, b.dom, b.txt + ".H", [])
    elif kind == "scaled":
        b = leaf(zoo(ctx, rng, pick(rng, [n for n in PLAIN + STACKED if n != "mdc"]), dt))
        e = E(3 * b.op, 3 * b.A, 3 * b.N, b.dom, b.ran, "3*" + b.txt, [])
    elif kind == "power":
        b = leaf(z_blockdiag(ctx, rng, dt, square=True))
        e = E(b.op ** 3, b.A @ b.A @ b.A, b.N @ b.N @ b.N, b.dom, b.ran, b.txt + "**3", [])
    elif kind == "spd":
        e = spd(ctx, rng, pick(rng, SPD), dt)
    elif kind == "failing":
        # some block of every rank fails, before or after blocks that do not
        which = pick(rng, ["blockdiag", "blockdiag", "vstack", "hstack", "sblockdiag", "svstack"])
        P, n = ctx.size, int(rng.integers(1, 5))
        cols = [int(v) for v in rng.integers(1, 5, P)]

        def blocks_of(k, m=None, q=None):
            return [[mat(rng, m or int(rng.integers(1, 5)), q or int(rng.integers(1, 5)), dt) for _ in range(k)] for _ in range(P)]
        sz = lambda bl, ax: [sum(b.shape[ax] for b in row) for row in bl]       # noqa: E731
        k = int(rng.integers(1, 4))
        pos = int(rng.integers(k))
        if which in ("sblockdiag", "svstack"):
            bls = [blocks_of(1) if which == "sblockdiag" else [[mat(rng, int(rng.integers(1, 5)), c, dt)] for c in cols] for _ in range(k)]
            f = Fails(bls[pos][ctx.rank][0])
            ops = [MPIBlockDiag([f if j == pos else mmop(bl[ctx.rank][0])], **ctx.kw()) for j, bl in enumerate(bls)]
            As = [dense_bd([b for row in bl for b in row]) for bl in bls]
            rans = Space(comps=[Space("S", sizes=sz(bl, 0)) for bl in bls])
            if which == "sblockdiag":
                e = leaf(Zoo(MPIStackedBlockDiag(ops, **ctx.kw()), dense_bd(As), Space(comps=[Space("S", sizes=sz(bl, 1)) for bl in bls]), rans, "failing"))
            else:
                e = leaf(Zoo(MPIStackedVStack(ops, **ctx.kw()), np.vstack(As), Space("S", sizes=cols), rans, "failing"))
        else:
            bl = blocks_of(k, n if which == "hstack" else None, n if which == "vstack" else None)
            f = Fails(bl[ctx.rank][pos])
            C = {"blockdiag": MPIBlockDiag, "vstack": MPIVStack, "hstack": MPIHStack}[which]
            op = C([f if j == pos else mmop(b) for j, b in enumerate(bl[ctx.rank])], **ctx.kw())
            A = {"blockdiag": dense_bd, "vstack": np.vstack, "hstack": np.hstack}[which]([b for row in bl for b in row])
            e = leaf(Zoo(op, A, Space("B", n=n) if which == "vstack" else Space("S", sizes=sz(bl, 1)), Space("B", n=n) if which == "hstack" else Space("S", sizes=sz(bl, 0)), "failing"))
        e.fails = f
    elif kind == "blockdiag-mask":
        e = leaf(z_blockdiag(ctx, rng, dt, mask=rand_mask(rng, ctx.size)))
    else:
        e = leaf(zoo(ctx, rng, kind, dt))
    return e


class Subject:
    """An operator with reference outputs for fixed inputs."""
    def __init__(self, ctx, rng, kind, dt):
        self.ctx, self.kind = ctx, kind
        self.e = e = build(ctx, rng, kind, dt)
        self.dt = dt = {"c16": "f8", "c8": "f4"}.get(dt, dt) if kind == "mdc" else dt
        self.single = np.dtype(dt).itemsize == (8 if np.dtype(dt).kind == "c" else 4)
        self.data = {"f": [rdata(rng, (e.dom.n,), dt) for _ in range(2)], "a": [rdata(rng, (e.ran.n,), dt) for _ in range(2)]}
        self.ref = {}
        self.objs = {}
        self.attrs = self.attributes()
        if rng.random() < .4:                    # the very first use is of another type, or fails
            for _ in range(int(rng.integers(1, 4))):
                side = pick(rng, ["f", "a"])
                if hasattr(e, "fails") and rng.random() < .6:
                    e.fails.on = True
                    o = ctx.outcome(lambda: self.call(side, self.fresh(side, 0)))
                    e.fails.on = False
                    ctx.true(o[0] == "exc", "value", "error of a block lost")
                elif kind != "mdc":
                    t = pick(rng, ["c16", "c8"] if np.dtype(dt).kind == "c" else ["f4", "i8", "f8", "f4"])
                    self.call(side, self.space(side).vec(ctx, rdata(rng, (self.space(side).n,), t)))
        for side in "fa":
            for k in range(2):
                self.apply(side, k, "first use")

    def space(self, side):
        return self.e.dom if side == "f" else self.e.ran

    def fresh(self, side, k):
        return self.space(side).vec(self.ctx, self.data[side][k].copy())

    def call(self, side, x):
        return self.e.op.matvec(x) if side == "f" else self.e.op.rmatvec(x)

    def apply(self, side, k, after, x=None):
        y = self.call(side, self.fresh(side, k) if x is None else x)
        got = [np.array(a) for a in arrays_of(y)]
        if (side, k) not in self.ref:
            self.ref[side, k] = got
            A, N = (self.e.A, self.e.N) if side == "f" else (self.e.A.conj().T, self.e.N.T)
            v = self.data[side][k]
            self.ctx.close(content(self.ctx, y), A @ v, "value", f"{side} of {self.e.txt}", tol=3e-4 if self.single else 1e-9, scale=max(float(np.max(N @ np.abs(v), initial=0.)), 1e-30))
        else:
            self.same(self.ref[side, k], got, f"{'forward' if side == 'f' else 'adjoint'} of {self.e.txt[:60]} after {after}")
        return y

    def same(self, a, b, what):
        if self.ctx.eq(len(b), len(a), "history", "number of components of " + what):
            for p, q in zip(a, b):
                self.ctx.bits(q, p, "history", what)

    def attributes(self):
        op = self.e.op
        d = {"shape": tuple(int(s) for s in op.shape), "dtype": str(np.dtype(op.dtype))}
        for n, v in vars(op).items():
            if n.startswith("_"):
                continue
            if isinstance(v, np.ndarray):
                d[n] = (v.dtype.str, v.shape, v.tobytes())
            elif isinstance(v, (int, float, complex, str, bool, np.generic)) or (isinstance(v, (tuple, list)) and all(isinstance(q, (int, float, np.generic, tuple, str)) for q in v)):
                d[n] = repr(v)
        return d

    def check_attributes(self, after):
        now = self.attributes()
        for n, v in self.attrs.items():
            self.ctx.true(n in now and now[n] == v, "parameters", lambda: f"{n} of {self.e.txt[:60]} changed after {after}: {str(v)[:80]} -> {str(now.get(n))[:80]}")


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    kind, dt = c["kind"], c["dt"]
    if kind == "cold":
        return cold(ctx, rng)
    if kind == "pair":
        kinds = [pick(rng, OPSK) for _ in range(2)]
    else:
        kinds = [kind]
    if "mdc" in kinds:
        ctx.check_warn = False
    subs = [Subject(ctx, rng, k, dt) for k in kinds]
    last = None
    for step in range(c["n"]):
        s = pick(rng, subs)
        act = pick(rng, ACTS)
        last = act if last is None else f"{last.split(',')[-1].strip()}, {act}"
        side, k = pick(rng, ["f", "a"]), int(rng.integers(2))
        ACTIONS[act](ctx, rng, s, side, k, last)
        t = pick(rng, subs)
        t.apply(pick(rng, ["f", "a"]), int(rng.integers(2)), last)
    for s in subs:
        s.check_attributes("the history")
        for side in "fa":
            for k in range(2):
                s.apply(side, k, "the whole history")
    ctx.note(f"{len(subs)} operators, {c['n']} actions")


def cold(ctx, rng):
    """What an operator was first applied to leaves nothing behind: double-precision values afterwards are those of the matrix."""
    for _ in range(10):
        dt = pick(rng, ["f8", "f8", "c16"])
        b = leaf(zoo(ctx, rng, pick(rng, [n for n in PLAIN + STACKED if n != "mdc"] + ["first", "second", "laplacian", "gradient", "first"]), dt))
        for _ in range(int(rng.integers(1, 3))):
            t = pick(rng, ["c8", "c8", "c16"] if dt == "c16" else ["f4", "f4", "i8", "i4"])
            for side in rng.permutation(["f", "a"]):
                sp = b.dom if side == "f" else b.ran
                x = sp.vec(ctx, rdata(rng, (sp.n,), t))
                b.op.matvec(x) if side == "f" else b.op.rmatvec(x)
        v, u = rdata(rng, (b.dom.n,), dt), rdata(rng, (b.ran.n,), dt)
        close_vec(ctx, b.ran, b.op.matvec(b.dom.vec(ctx, v)), b.A, v, "value", f"forward of {b.txt} of {dt} after a use with {t}", 1e-12 * max(1., np.sqrt(max(b.A.shape))))
        close_vec(ctx, b.dom, b.op.rmatvec(b.ran.vec(ctx, u)), b.A.conj().T, u, "value", f"adjoint of {b.txt} of {dt} after a use with {t}", 1e-12 * max(1., np.sqrt(max(b.A.shape))))


def a_forward(ctx, rng, s, side, k, w):
    s.apply("f", k, w)


def a_adjoint(ctx, rng, s, side, k, w):
    s.apply("a", k, w)


def a_same_object(ctx, rng, s, side, k, w):
    """One vector object used over and over."""
    if (side, k) not in s.objs:
        s.objs[side, k] = s.fresh(side, k)
    for _ in range(2):
        s.apply(side, k, w, s.objs[side, k])


def a_scribble(ctx, rng, s, side, k, w):
    for a in results(s.apply(side, k, w)):
        if a.flags.writeable:
            scribble(a)
    s.apply(side, k, w)


def a_scribble_input(ctx, rng, s, side, k, w):
    x = s.fresh(side, k)
    y = s.apply(side, k, w, x)
    keep = [np.array(a) for a in arrays_of(y)]
    for a in arrays_of(x):
        scribble(a)
    s.same(keep, [np.array(a) for a in arrays_of(y)], f"result of {s.e.txt[:60]} when its input was overwritten")
    s.apply(side, k, w)


def a_fail_size(ctx, rng, s, side, k, w):
    sp = s.space(side)
    if sp.comps:
        v = StackedDistributedArray([q.vec(ctx, rdata(rng, (q.n,), s.dt)) for q in [Space(q.part, n=q.n + 1) if q.part != "S" or not q.sizes else Space("S", sizes=[q.sizes[0] + 1] + list(q.sizes[1:])) for q in sp.comps]],
                                    **ctx.kw())
        ctx.true(ctx.outcome(lambda: s.call(side, v))[0] == "exc", "value", f"wrong size accepted by {s.e.txt[:60]}")
    else:
        v = Space(sp.part, n=sp.n + 1).vec(ctx, rdata(rng, (sp.n + 1,), s.dt))
        ctx.true(ctx.outcome(lambda: s.call(side, v))[0] == "exc", "value", f"wrong size accepted by {s.e.txt[:60]}")
    s.apply(side, k, w)


def a_fail_block(ctx, rng, s, side, k, w):
    """A block raises in the middle of an application: what follows is as if nothing had been tried."""
    if s.kind == "failing":
        s.e.fails.on = True
        how = int(rng.integers(4))
        op, x = s.e.op, s.fresh(side, k)
        o = ctx.outcome(lambda: s.call(side, x) if how == 0 else (2 * op if how == 1 else -op).matvec(s.fresh("f", k)) if how < 3 else op.H.matvec(s.fresh("a", k)))
        s.e.fails.on = False
        ctx.true(o[0] == "exc", "value", "error of a block lost")
        for p, q in zip(arrays_of(x), arrays_of(s.fresh(side, k))):
            ctx.bits(p, q, "history", "input of an application that failed")
    s.apply(side, k, w)


def a_fail_part(ctx, rng, s, side, k, w):
    if s.kind in ("blockdiag", "vstack", "hstack", "fredholm", "mdc"):
        sp = s.space(side)
        v = Space("B" if sp.part == "S" else "S", n=sp.n).vec(ctx, s.data[side][k].copy())
        ctx.outcome(lambda: s.call(side, v))
    s.apply(side, k, w)


def a_solver(ctx, rng, s, side, k, w):
    op, y, x0 = s.e.op, s.fresh("a", k), s.fresh("f", k)
    if s.kind == "blockdiag-mask":
        return
    if s.kind == "mdc":                          # its outputs are complex arrays with real values
        x0 = s.e.dom.vec(ctx, s.data["f"][k].astype("c16"))
    if s.kind == "spd":
        cg(op, y, x0, niter=3, tol=0.)
    elif rng.random() < .5:
        cgls(op, y, x0, niter=2, damp=.1, tol=0.)
    else:
        q = CGLS(op)
        x = q.setup(y, x0, damp=.2)
        q.step(x)
    s.apply(side, k, w)


def a_derive(ctx, rng, s, side, k, w):
    op = s.e.op
    for f in rng.permutation(8)[:3]:
        f = int(f)
        if s.kind == "mdc" and f in (5, 6):
            continue
        if f == 0:
            op.H.matvec(s.fresh("a", k))
        elif f == 1:
            op.T.matvec(s.fresh("a", k))
        elif f == 2:
            s.same([2 * a for a in s.ref["f", k]], [np.array(a) for a in arrays_of((2 * op).matvec(s.fresh("f", k)))], f"2*{s.e.txt[:60]} after {w}")
        elif f == 3:
            s.same([-a for a in s.ref["f", k]], [np.array(a) for a in arrays_of((-op).matvec(s.fresh("f", k)))], f"-{s.e.txt[:60]} after {w}")
        elif f == 4:
            (op + op).rmatvec(s.fresh("a", k))
        elif f == 5 and s.kind not in ("sexpr", "svstack", "gradient"):
            (op.H * op).matvec(s.fresh("f", k))
        elif f == 6:
            op.conj().matvec(s.fresh("f", k))
        else:
            s.same(s.ref["a", k], [np.array(a) for a in arrays_of(op.H.H.H.matvec(s.fresh("a", k)))], f"triple adjoint of {s.e.txt[:60]} after {w}")
    s.check_attributes(w)


def a_other_type(ctx, rng, s, side, k, w):
    if s.kind == "mdc":
        return s.apply(side, k, w)
    cx = np.dtype(s.dt).kind == "c"
    t = pick(rng, ["c16", "c8"] if cx else ["f4", "f8", "i8"])
    s.call(side, s.space(side).vec(ctx, rdata(rng, (s.space(side).n,), t)))
    s.check_attributes(w)


def a_other_layout(ctx, rng, s, side, k, w):
    """The same vector laid out otherwise: aligned or refused, never remembered."""
    sp = s.space(side)
    if sp.comps or sp.part != "S":
        return s.apply(side, k, w)
    sz = list(sp.sizes) if sp.sizes else balanced(sp.n, ctx.size)
    if ctx.size > 1:
        a = int(rng.integers(ctx.size - 1))
        d = int(rng.integers(-min(1, sz[a + 1]), min(1, sz[a]) + 1))
        sz[a] -= d
        sz[a + 1] += d
    o = ctx.outcome(lambda: s.call(side, mk(ctx, s.data[side][k], Lay("S", 0, sz))))
    ctx.rep("outcome", o[0] if o[0] == "ok" else o[1])
    s.apply(side, k, w)


def a_other_op(ctx, rng, s, side, k, w):
    """Another operator of the same kind, with other parameters."""
    kind = s.kind if s.kind not in ("failing",) else "blockdiag"
    e = build(ctx, rng, kind, s.dt if kind != "mdc" else "c16")
    dt = s.dt
    e.op.matvec(e.dom.vec(ctx, rdata(rng, (e.dom.n,), dt)))
    e.op.rmatvec(e.ran.vec(ctx, rdata(rng, (e.ran.n,), dt)))
    s.apply(side, k, w)


def a_attributes(ctx, rng, s, side, k, w):
    s.check_attributes(w)


def a_dottest(ctx, rng, s, side, k, w):
    if s.kind == "blockdiag-mask":
        return
    dottest(s.e.op, s.fresh("f", k), s.fresh("a", k), rtol=1., atol=1e30, raiseerror=False)
    s.check_attributes(w)


def a_chain(ctx, rng, s, side, k, w):
    """Output fed back without copying."""
    y = s.apply("f", k, w)
    z = s.e.op.rmatvec(y)
    s.same(s.ref["f", k], [np.array(a) for a in arrays_of(y)], f"output of {s.e.txt[:60]} used as input")
    s.e.op.matvec(z)
    s.apply("a", k, w)


def a_twins(ctx, rng, s, side, k, w):
    """Two results alive at once."""
    y = s.apply(side, k, w)
    z = s.apply(side, 1 - k, w)
    s.same(s.ref[side, k], [np.array(a) for a in arrays_of(y)], f"first result of {s.e.txt[:60]} when a second one exists")
    del z


def a_zero(ctx, rng, s, side, k, w):
    s.call(side, s.space(side).vec(ctx, np.zeros(s.space(side).n, s.dt)))


def a_nan(ctx, rng, s, side, k, w):
    """NaN and infinity pass through without trace."""
    v = s.data[side][k].copy()
    v[int(rng.integers(len(v)))] = pick(rng, [np.nan, np.inf, -np.inf])
    with np.errstate(all="ignore"):
        s.call(side, s.space(side).vec(ctx, v))


ACTIONS = {a: globals()["a_" + a.replace("-", "_")] for a in ACTS}
