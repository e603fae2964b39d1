"""C04: operations leave their inputs alone and their results share no memory with anything."""
import numpy as np
import pylops
from pylops_mpi.optimization.basic import cg, cgls
from pylops_mpi.optimization.cls_basic import CG, CGLS
from pylops_mpi.DistributedArray import local_split
from solve import *         # noqa
from suites import c17_algebra as c17, c18_salgebra as c18, c19_adjoint as c19

OPK = PLAIN + STACKED
WIDE = .06
KINDS = ["array", "stacked", "array", "inplace", "build"] + ["op-" + n for n in OPK] + ["expr", "sexpr", "solver", "solver", "stepwise", "array", "sinplace", "identity", "views", "getset"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    ndim = int(rng.integers(1, 4))
    shape = [int(rng.integers(1, max(3, (3 * P + 4) // ndim + 2))) for _ in range(ndim)]
    axis = int(rng.integers(ndim))
    part = pick(rng, ["S", "S", "B", "U"])
    return {"kind": kind, "shape": shape, "axis": axis, "part": part, "dt": pick(rng, ["f8", "c16", "f4", "i8"] if kind in ("array", "inplace") else ["f8", "c16"]),
            "mask": rand_mask(rng, P) if part == "S" and rng.random() < .3 else None,
            "sizes": rand_sizes(rng, shape[axis], P) if part == "S" and rng.random() < .5 else None,
            "ds": int(rng.integers(1 << 30)), "sync": bool(rng.random() < .08)}


def bufs(o, depth=6, seen=None, out=None):
    """All NumPy arrays reachable from an object's attributes (buffers it owns)."""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if id(o) in seen or depth < 0:
        return out
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.size and o.dtype != object:
            out.append(o)
    elif isinstance(o, (list, tuple)):
        for v in o:
            bufs(v, depth - 1, seen, out)
    elif isinstance(o, dict):
        for v in o.values():
            bufs(v, depth - 1, seen, out)
    elif type(o).__module__.split(".")[0] in ("pylops", "pylops_mpi", "exprs", "ops", "suites"):
        bufs(getattr(o, "__dict__", {}), depth - 1, seen, out)
    return out


class Watch:
    """Objects that must not change, and whose memory results must not share."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, what, *objs):
        for o in objs:
            for a in (arrays_of(o) or bufs(o)):
                self.items.append((what, a, a.copy()))
        return objs[0] if len(objs) == 1 else objs

    def unchanged(self, after, key="input-changed"):
        for w, a, s in self.items:
            if not self.ctx.bits(a, s, key, f"{w} after {after}"):
                break

    def refresh(self):
        self.items = [(w, a, a.copy()) for w, a, _ in self.items]


def scribble(a):
    if a.dtype.kind in "iu":
        a[...] = 77
    elif a.dtype.kind == "b":
        a[...] = True
    else:
        a[...] = 1.2345e6


def results(r):
    if isinstance(r, (list, tuple)):
        return [a for v in r for a in results(v)]
    if isinstance(r, np.ndarray):
        return [r]
    return arrays_of(r)


def twice(ctx, w, fn, what, fresh=True):
    """fn() leaves the watched objects alone; its results are fresh memory; overwriting them changes nothing, not even the next result."""
    r1 = fn()
    w.unchanged(what)
    a1 = results(r1)
    s1 = [a.copy() for a in a1]
    for a in a1:
        for n, b, _ in w.items:
            if shares(a, b):
                ctx.fail("aliasing", f"result of {what} shares memory with {n}")
                return r1
        ctx.checks += 1
    for i, a in enumerate(a1):
        for b in a1[:i]:
            ctx.true(not shares(a, b), "aliasing", f"two results of {what} share memory")
    for a in a1:
        if not ctx.true(a.flags.writeable, "aliasing", f"result of {what} is read-only"):
            return r1
        scribble(a)
    w.unchanged(f"overwriting the result of {what}", "input-changed-by-result")
    z1 = [a.copy() for a in a1]
    r2 = fn()
    for i, (a, s) in enumerate(zip(results(r2), s1)):
        ctx.bits(a, s, "later-result", f"{what} after its first result was overwritten")
    for a, s in zip(a1, z1):
        ctx.bits(a, s, "earlier-result", f"earlier result of {what} after a later one")
    for a in results(r2):
        for b in a1:
            ctx.true(not shares(a, b), "aliasing", f"two calls of {what} return the same memory")
    w.unchanged(what + " (second time)")
    return r2


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    kind, dt, P = c["kind"], c["dt"], ctx.size
    w = Watch(ctx)
    if kind in ("array", "inplace", "getset", "build"):
        shape = tuple(c["shape"])
        lay = Lay(c["part"], c["axis"], c["sizes"], c["mask"])
        gs = [rdata(rng, shape, dt) for _ in range(3)]
    if kind == "array":
        x, y = (mk(ctx, g, lay) for g in gs[:2])
        w.add("x", x), w.add("y", y)
        a = 2 if dt == "i8" else (1.5 + .5j if np.dtype(dt).kind == "c" else 1.5)
        fns = {"-x": lambda: -x, "x + y": lambda: x + y, "x - y": lambda: x - y, "x * y": lambda: x * y, "x * a": lambda: x * a,
               "a * x": lambda: a * x, "x * 1": lambda: x * 1, "x + x": lambda: x + x, "x - x": lambda: x - x, "x * x": lambda: x * x,
               "conj": lambda: x.conj(), "copy": lambda: x.copy(), "zeros_like": lambda: x.zeros_like(),
               "add": lambda: x.add(y), "multiply": lambda: x.multiply(y), "dot": lambda: np.atleast_1d(x.dot(y)),
               "dot self": lambda: np.atleast_1d(x.dot(x)), "dot conj": lambda: np.atleast_1d(x.dot(x.conj())),
               "norm": lambda: np.atleast_1d(x.norm(pick(np.random.default_rng(1), [None, 1, 2, 0, np.inf]))),
               "norm axis": lambda: np.atleast_1d(x.norm(2, axis=lay.axis)), "repr": lambda: repr(x) and np.zeros(1)}
        if lay.part == "S":
            fns["asarray"] = lambda: x.asarray()
        if lay.part != "S" or np.prod(shape) > 0:
            fns["ravel"] = lambda: x.ravel()
            fns["ravel F"] = lambda: x.ravel("F")
        if lay.part == "S":
            k = min(lay.eff(shape, P))
            f, b = int(rng.integers(0, k + 1)), int(rng.integers(0, k + 1))
            fns["ghost cells"] = lambda: x.add_ghost_cells(cells_front=f, cells_back=b)
            fns["no ghost cells"] = lambda: x.add_ghost_cells()
            fns["zero ghost cells"] = lambda: x.add_ghost_cells(cells_front=0, cells_back=0)
        if dt == "f4":
            fns.pop("norm axis")
        names = sorted(fns)
        for k in rng.permutation(len(names))[:10]:
            twice(ctx, w, fns[names[k]], names[k])
    elif kind == "inplace":
        x, y, z = (mk(ctx, g, lay) for g in gs)
        w.add("y", y), w.add("z", z)
        xa = x.local_array
        g = gs[0].copy()
        for k in range(int(rng.integers(2, 6))):
            op = pick(rng, ["iadd", "isub", "iadd()", "alias", "setitem"])
            old = x
            if op == "iadd":
                x += y
                g = g + gs[1]
            elif op == "isub":
                x -= z
                g = g - gs[2]
            elif op == "iadd()":
                x.iadd(z)
                g = g + gs[2]
            elif op == "alias":
                x += x
                g = g + g
            else:
                x[:] = y.local_array
                g = gs[1].copy()
            ctx.true(x is old, "inplace", f"{op} rebinds its target to another array")
            ctx.close(x.local_array, lay.own(g, ctx.rank, P), "inplace", f"target after {op}", tol=1e-12 if dt in ("f8", "c16", "i8") else 1e-4)
            w.unchanged(op)
            for q in (y, z):
                ctx.true(not shares(x.local_array, q.local_array), "aliasing", f"target of {op} shares memory with its operand")
        t = x * 2                                 # *= makes a new array
        o, s = x, x.local_array.copy()
        x *= 2
        ctx.bits(o.local_array, s, "imul", "array bound to another name after *=") if x is not o else ctx.bits(x.local_array, t.local_array, "imul", "*=")
        _ = xa
    elif kind == "build":
        g = w.add("the global array", gs[0])
        mask, sizes = list(c["mask"]) if c["mask"] else None, lshapes(shape, lay.eff(shape, P), lay.axis)
        m0, s0 = None if mask is None else list(mask), [tuple(s) for s in sizes]
        kw = dict(ctx.kw(), partition=PART[lay.part], axis=lay.axis, mask=mask)
        if lay.part == "S" and lay.sizes is not None:
            kw["local_shapes"] = sizes
        d = twice(ctx, w, lambda: DistributedArray.to_dist(g, **kw), "to_dist")
        ctx.true(mask == m0 and sizes == s0, "input-changed", "mask or local shapes after to_dist")
        own = w.add("the local part", np.ascontiguousarray(lay.own(gs[1], ctx.rank, P)))

        def ctor():
            e = DistributedArray(global_shape=shape, dtype=own.dtype, **kw)
            e[:] = own
            return e
        twice(ctx, w, ctor, "constructor and assignment")
        view = np.asfortranarray(gs[2])           # other memory layouts
        w.add("the Fortran-ordered array", view)
        twice(ctx, w, lambda: DistributedArray.to_dist(view, **kw), "to_dist of a Fortran-ordered array")
        ctx.true(mask == m0 and sizes == s0, "input-changed", "mask or local shapes after constructor")
        st = twice(ctx, w, lambda: StackedDistributedArray([d, d.copy()], **ctx.kw()).copy(), "copy of a stack")
        ctx.true(not shares(st[0].local_array, d.local_array), "aliasing", "copy of a stack shares memory")
    elif kind == "getset":
        x, y = (mk(ctx, g, lay) for g in gs[:2])
        w.add("y", y)
        v = w.add("the value", np.ascontiguousarray(y.local_array.copy()))
        x[:] = v
        ctx.true(not shares(x.local_array, v), "aliasing", "array shares memory with the assigned value")
        ctx.bits(x.local_array, v, "set", "assigned value")
        x[:] = y.local_array
        x[:] = x.local_array * 0
        w.unchanged("assignments")
        z = x.copy()
        z[:] = 5
        ctx.true(bool(np.all(x.local_array == 0)), "aliasing", "copy assigned to changes the original")
        if lay.part == "S" and x.local_array.size:
            x[0:1] = 3
            ctx.true(bool(np.all(x.local_array[0:1] == 3)) and bool(np.all(x.local_array[1:] == 0)), "set", "slice assignment")
    elif kind in ("stacked", "sinplace"):
        sp = Space(comps=[rand_space(rng, P) for _ in range(int(rng.integers(1, 4)))])
        v = [rdata(rng, (sp.n,), dt) for _ in range(3)]
        x, y = sp.vec(ctx, v[0]), sp.vec(ctx, v[1])
        if kind == "stacked":
            w.add("x", x), w.add("y", y)
            a = 1.5 + .5j if np.dtype(dt).kind == "c" else 1.5
            fns = {"-x": lambda: -x, "x + y": lambda: x + y, "x - y": lambda: x - y, "x * y": lambda: x * y, "x * a": lambda: x * a,
                   "a * x": lambda: a * x, "x + x": lambda: x + x, "x * 1": lambda: x * 1, "conj": lambda: x.conj(), "copy": lambda: x.copy(),
                   "asarray": lambda: x.asarray(),
                   "dot": lambda: np.atleast_1d(x.dot(y)), "norm": lambda: np.atleast_1d(x.norm())}
            if len(sp.comps) == 1 and sp.comps[0].part != "S":
                pass
            for k in sorted(fns):
                twice(ctx, w, fns[k], "stacked " + k)
        else:
            w.add("y", y)
            g = v[0]
            for _ in range(3):
                op, old = pick(rng, ["iadd", "isub", "alias", "iadd()"]), x
                if op == "iadd":
                    x += y
                    g = g + v[1]
                elif op == "isub":
                    x -= y
                    g = g - v[1]
                elif op == "alias":
                    x += x
                    g = g + g
                else:
                    x.iadd(y)
                    g = g + v[1]
                ctx.true(x is old, "inplace", f"stacked {op} rebinds its target")
                sp.check(ctx, x, g, "inplace", f"stack after {op}", 1e-12)
                w.unchanged("stacked " + op)
                for p, q in zip(arrays_of(x), arrays_of(y)):
                    ctx.true(not shares(p, q), "aliasing", f"target of stacked {op} shares memory with its operand")
    elif kind == "views":
        # replicated arrays are handed out as they are (a "global view"); scattered ones are gathered into new memory
        x = mk(ctx, rdata(rng, (2 * P + 1, 2), dt), Lay("S", 0))
        w.add("x", x)
        g = twice(ctx, w, lambda: x.asarray(), "asarray")
        ctx.true(not shares(g, x.local_array), "aliasing", "gathered array shares memory with the local part")
        s = [tuple(v) for v in x.local_shapes]
        ls = x.local_shapes
        ls[:] = [None] * P
        ctx.eq([tuple(v) for v in x.local_shapes], s, "input-changed", "local shapes after overwriting a returned list")
        twice(ctx, w, lambda: mk(ctx, x.asarray(), Lay("S", 0)), "round trip")
        ctx.eq(tuple(local_split((2 * P + 1, 2), ctx.comm, S, 0)), s[ctx.rank], "input-changed", "local_split")
    elif kind == "identity":
        # serial operators that return their input
        n = [int(v) for v in rng.integers(1, 5, P)]
        mode = pick(rng, ["identity", "identity", "reshape", "real"])
        loc = pylops.Identity(n[ctx.rank], inplace=True, dtype=dt)
        if mode == "reshape":
            loc = loc * loc
        rep = pylops.Identity(5, inplace=True, dtype=dt)
        A1, sp1 = MPIBlockDiag([loc], **ctx.kw()), Space("S", sizes=n)
        A2, sp2 = MPILinearOperator(Op=rep, **ctx.kw()), Space("B", n=5)
        A3, sp3 = MPIVStack([rep], **ctx.kw()), Space("S", sizes=[5] * P)
        ops = [(A1, sp1, sp1), (A2, sp2, sp2), (A3, sp2, sp3), (A1.H, sp1, sp1), (A2 ** 2, sp2, sp2), (A1 ** 0, sp1, sp1), (A2 ** 0, sp2, sp2),
               (A1 ** 1, sp1, sp1), (A1 * 1, sp1, sp1), (1 * A2, sp2, sp2), (A1 * A1, sp1, sp1), (A1.conj(), sp1, sp1), (A2.T, sp2, sp2), (A1 + A1, sp1, sp1),
               (A3.H, sp3, sp2), (MPIStackedBlockDiag([A1, A2], **ctx.kw()), Space(comps=[sp1, sp2]), Space(comps=[sp1, sp2])),
               (MPIStackedVStack([A1, A1], **ctx.kw()), sp1, Space(comps=[sp1, sp1]))]
        st = ops[-2][0]
        ops += [(st ** 0, ops[-2][1], ops[-2][1]), (st * 1, ops[-2][1], ops[-2][1]), (st.H, ops[-2][1], ops[-2][1]), (st.conj(), ops[-2][1], ops[-2][1])]
        for k, (op, d, r) in enumerate(ops):
            w = Watch(ctx)
            x, y = d.vec(ctx, rdata(rng, (d.n,), dt)), r.vec(ctx, rdata(rng, (r.n,), dt))
            w.add("x", x), w.add("y", y)
            twice(ctx, w, lambda: op.matvec(x), f"forward of identity expression {k}")
            twice(ctx, w, lambda: op.rmatvec(y), f"adjoint of identity expression {k}")
            twice(ctx, w, lambda: op @ x, f"product of identity expression {k}")
    elif kind.startswith("op-") or kind in ("expr", "sexpr"):
        if kind in ("expr", "sexpr"):
            e = c19.build(ctx, rng, kind, dt)
        else:
            e = leaf(zoo(ctx, rng, kind[3:], dt))
        if kind == "op-mdc":
            ctx.check_warn, dt = False, "f8"
        x, y = e.dom.vec(ctx, rdata(rng, (e.dom.n,), dt)), e.ran.vec(ctx, rdata(rng, (e.ran.n,), dt))
        w.add("the model", x), w.add("the data", y), w.add("a buffer of the operator", e.op)
        for z in e.leaves:
            if hasattr(z, "Gl"):
                w.add("the kernel", z.Gl)
            for bs in getattr(z, "blocks", []):
                w.add("a block", *bs)
        n0 = len(w.items)
        for k in range(2):
            f, a = twice(ctx, w, lambda: e.op.matvec(x), f"forward of {e.txt}"), twice(ctx, w, lambda: e.op.rmatvec(y), f"adjoint of {e.txt}")
            w.unchanged("both")
        w.add("an earlier result", f), w.add("an earlier result", a)
        twice(ctx, w, lambda: e.op.H.matvec(y), f".H of {e.txt}")
        twice(ctx, w, lambda: e.op @ x, f"@ of {e.txt}")
        twice(ctx, w, lambda: (2 * e.op).matvec(x), f"multiple of {e.txt}")
        twice(ctx, w, lambda: (e.op + e.op).matvec(x), f"sum of {e.txt}")
        twice(ctx, w, lambda: (-e.op).rmatvec(y), f"negative of {e.txt}")
        twice(ctx, w, lambda: e.op.T.matvec(y), f".T of {e.txt}")
        twice(ctx, w, lambda: e.op.conj().matvec(x), f"conj of {e.txt}")
        ctx.true(len(w.items) >= n0, "watch", "")
        ctx.note(f"{len(w.items)} watched buffers")
    elif kind in ("solver", "stepwise"):
        which = pick(rng, ["cg", "cgls"])
        e = spd(ctx, rng, pick(rng, SPD), dt) if which == "cg" else lsq(ctx, rng, pick(rng, LSQ), dt)
        x0, y = e.dom.vec(ctx, rdata(rng, (e.dom.n,), dt)), e.ran.vec(ctx, rdata(rng, (e.ran.n,), dt))
        if rng.random() < .2:
            x0 = x0 * 0
        w.add("the initial guess", x0), w.add("the data", y), w.add("a buffer of the operator", e.op)
        niter = int(rng.integers(0, 5))
        kw = {"damp": float(rng.uniform(0, 1))} if which == "cgls" else {}
        f, C = (cg, CG) if which == "cg" else (cgls, CGLS)
        if kind == "solver":
            twice(ctx, w, lambda: f(e.op, y, x0, niter=niter, tol=0., **kw)[0], f"{which} ({niter} iterations)")

            def spoil(x):                         # a callback that overwrites copies it made
                q = x.copy()
                for a in arrays_of(q):
                    scribble(a)
            r = [f(e.op, y, x0, niter=niter, tol=0., callback=cb, **kw)[0] for cb in (None, spoil)]
            for a, b in zip(arrays_of(r[0]), arrays_of(r[1])):
                ctx.bits(b, a, "later-result", f"{which} with a callback overwriting a copy of the iterate")
            s = C(e.op)
            out = [s.solve(y, x0, niter=niter, tol=0., **kw)[0] for _ in range(2)]
            for a, b in zip(arrays_of(out[0]), arrays_of(out[1])):
                ctx.bits(b, a, "later-result", f"{which} solved twice with one solver")
                ctx.true(not shares(a, b), "aliasing", "two solutions of one solver share memory")
        else:
            s = C(e.op)
            x = s.setup(y, x0, niter=niter, tol=0., **kw)
            for a in arrays_of(x):
                for b in arrays_of(x0) + arrays_of(y):
                    ctx.true(not shares(a, b), "aliasing", "starting vector shares memory with an input")
            for k in range(niter):
                x = s.step(x)
                w.unchanged(f"step {k}")
            s.finalize()
            w.unchanged("finalize")
        for a, b in zip(arrays_of(e.dom.vec(ctx, np.zeros(e.dom.n, dt))), arrays_of(x0)):
            ctx.eq(a.shape, b.shape, "input-changed", "shape of the initial guess")
