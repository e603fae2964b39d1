"""C25: invalid requests are refused with the same kind of exception on every rank, leave everything unchanged, and work goes on."""
import numpy as np
import pylops
from pylops_mpi.utils.dottest import dottest
from pylops_mpi.optimization.cls_basic import CG, CGLS
from pylops_mpi.optimization.basic import cg, cgls
from solve import *         # noqa
from suites.c04_value import Watch

ANY = ()
V, IX, NI, TY = ("ValueError",), ("IndexError",), ("NotImplementedError",), ("TypeError",)
KINDS = ["axis", "partition", "local-shapes", "local-shapes", "local-shapes-differ", "mask-length", "operands", "operands", "layout", "layout", "operand-mask",
         "inplace-type", "norms", "ghost", "ghost", "stacked-arrays", "stacked-arrays", "vector-size", "vector-partition", "op-sum", "op-product", "op-power",
         "derivative", "derivative-rows", "vstack-columns", "hstack-rows", "svstack", "sblockdiag", "fredholm", "mdc", "realign-far", "solver", "dottest",
         "op-types", "stacked-vector", "laplacian", "global-list", "stacked-algebra"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    ndim = int(rng.integers(1, 4))
    shape = [int(rng.integers(2, max(3, (3 * P + 4) // ndim + 2))) for _ in range(ndim)]
    axis = int(rng.integers(ndim))
    return {"kind": kind, "shape": shape, "axis": axis, "part": pick(rng, ["S", "S", "B", "U"]), "ds": int(rng.integers(1 << 30)),
            "dt": pick(rng, ["f8", "c16"]), "sizes": rand_sizes(rng, shape[axis], P), "sync": bool(rng.random() < .2)}


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    kind, dt, P = c["kind"], c["dt"], ctx.size
    kw = ctx.kw()
    shape, axis = tuple(c["shape"]), c["axis"]
    nd = len(shape)
    lay = Lay(c["part"], axis, c["sizes"] if c["part"] == "S" else None)
    g = [rdata(rng, shape, dt) for _ in range(2)]
    w = Watch(ctx)
    x, y = mk(ctx, g[0], lay), mk(ctx, g[1], lay)
    w.add("x", x), w.add("y", y)
    bad = []                                     # (what, callable, exception types)

    def add(what, fn, types=V):
        bad.append((what, fn, types))
    PT = PART[c["part"]]
    if kind == "axis":
        for a in (nd, nd + 1, nd + 7):
            add(f"axis {a} of {nd}", lambda a=a: DistributedArray(global_shape=shape, axis=a, partition=PT, **kw), IX)
            add(f"to_dist with axis {a}", lambda a=a: DistributedArray.to_dist(g[0], axis=a, partition=PT, **kw), IX)
        add("scalar shape with axis 1", lambda: DistributedArray(global_shape=5, axis=1, **kw), IX)
    elif kind == "partition":
        for p in ("anything", 7, None):
            add(f"partition {p!r}", lambda p=p: DistributedArray(global_shape=shape, partition=p, **kw), V + TY)
            add(f"to_dist with partition {p!r}", lambda p=p: DistributedArray.to_dist(g[0], partition=p, **kw), V + TY)
    elif kind == "local-shapes":
        ls = lshapes(shape, c["sizes"], axis)
        k = int(rng.integers(P))

        def alter(f):
            m = [list(s) for s in ls]
            f(m)
            return [tuple(s) for s in m]
        opts = {"too few": ls[:-1], "too many": ls + [ls[-1]], "sum too large": alter(lambda m: m[k].__setitem__(axis, m[k][axis] + 1)),
                "sum too small": alter(lambda m: m[k].__setitem__(axis, m[k][axis] - 1))}
        if nd > 1:
            o = int(pick(rng, [a for a in range(nd) if a != axis]))
            opts["other dimension of one rank"] = alter(lambda m: m[k].__setitem__(o, m[k][o] + 1))
            opts["other dimension of all ranks"] = alter(lambda m: [s.__setitem__(o, s[o] + 1) for s in m])
            opts["fewer dimensions"] = alter(lambda m: m[k].pop())
        opts["more dimensions"] = alter(lambda m: m[k].append(1))
        if P == 1:
            del opts["too few"]
        for n, m in opts.items():
            add(f"local shapes: {n}", lambda m=m: DistributedArray(global_shape=shape, axis=axis, local_shapes=m, **kw))
            add(f"to_dist with local shapes: {n}", lambda m=m: DistributedArray.to_dist(g[0], axis=axis, local_shapes=m, **kw))
        for p in (B, U):
            m = [shape] * P
            m[k] = tuple(s + 1 for s in shape)
            add("replicated with another local shape", lambda p=p, m=m: DistributedArray(global_shape=shape, partition=p, local_shapes=m, **kw))
            add("replicated with too many local shapes", lambda p=p: DistributedArray(global_shape=shape, partition=p, local_shapes=[shape] * (P + 1), **kw))
    elif kind == "local-shapes-differ":          # only one rank passes a wrong list
        k = int(rng.integers(P))
        m = [list(s) for s in lshapes(shape, c["sizes"], axis)]
        more = int(rng.integers(1, 3))
        if ctx.rank == k:
            m[k][axis] += more
        add("local shapes wrong on one rank", lambda: DistributedArray(global_shape=shape, axis=axis, local_shapes=[tuple(s) for s in m], **kw))
        if nd > 1:
            o = int(pick(rng, [a for a in range(nd) if a != axis]))
            q = [list(s) for s in lshapes(shape, c["sizes"], axis)]
            if ctx.rank == k:
                q[k][o] += 1
            add("other dimension wrong on one rank", lambda: DistributedArray(global_shape=shape, axis=axis, local_shapes=[tuple(s) for s in q], **kw))
    elif kind == "mask-length":
        for m in ([0] * (P + 1), [0] * (P - 1) if P > 1 else [0, 1], list(range(P + 3)), []):
            add(f"mask of length {len(m)} of {P}", lambda m=m: DistributedArray(global_shape=shape, mask=m, partition=PT, **kw))
            add(f"to_dist with mask of length {len(m)}", lambda m=m: DistributedArray.to_dist(g[0], mask=m, partition=PT, **kw))
    elif kind in ("operands", "layout", "operand-mask"):
        if kind == "operands":
            other = pick(rng, ["shape", "partition", "ndim"])
            if other == "shape":
                z = mk(ctx, rdata(rng, tuple(s + (1 if k == int(c["ds"]) % nd else 0) for k, s in enumerate(shape)), dt), Lay(c["part"], axis))
            elif other == "partition":
                z = mk(ctx, g[1], Lay({"S": pick(rng, ["B", "U"]), "B": pick(rng, ["S", "U"]), "U": pick(rng, ["S", "B"])}[c["part"]], axis))
            else:
                z = mk(ctx, g[1].reshape(shape + (1,)), Lay(c["part"], axis))
        elif kind == "layout":
            if P == 1 and nd == 1:
                z = mk(ctx, rdata(rng, (shape[0] + 1,), dt))
            else:
                lay2 = Lay("S", axis, c["sizes"])
                x, y = mk(ctx, g[0], lay2), mk(ctx, g[1], lay2)
                w.add("x", x), w.add("y", y)
                s = list(c["sizes"])
                if P > 1:
                    a = pick(rng, [k for k in range(P) if s[k] > 0])
                    b = pick(rng, [k for k in range(P) if k != a])
                    s[a] -= 1
                    s[b] += 1                    # all other ranks see equal local shapes
                z = mk(ctx, g[1], Lay("S", axis, s))
                if P == 1:
                    z = mk(ctx, rdata(rng, tuple(k + 1 for k in shape), dt), Lay("S", axis))
        else:
            m1, m2 = rand_mask(rng, P), rand_mask(rng, P)
            if m1 == m2:
                m2 = [v + 1 for v in m2] if rng.random() < .5 else None
            l1, l2 = Lay("S", axis, c["sizes"], m1), Lay("S", axis, c["sizes"], m2)
            x, y, z = mk(ctx, g[0], l1), mk(ctx, g[1], l1), mk(ctx, g[1], l2)
            w.add("x", x), w.add("y", y)
        w.add("z", z)
        for n, f in (("x + z", lambda: x + z), ("z + x", lambda: z + x), ("x - z", lambda: x - z), ("x * z", lambda: x * z), ("z * x", lambda: z * x),
                     ("x.dot(z)", lambda: x.dot(z)), ("z.dot(x)", lambda: z.dot(x)), ("x += z", lambda: x.iadd(z)), ("x -= z", lambda: x.__isub__(z)),
                     ("z += x", lambda: z.iadd(x)), ("add", lambda: x.add(z)), ("multiply", lambda: x.multiply(z))):
            add(f"{n} ({kind})", f)
    elif kind == "inplace-type":
        a = mk(ctx, rdata(rng, shape, "f8"), lay)
        z = mk(ctx, rdata(rng, shape, "c16"), lay)
        k = mk(ctx, rdata(rng, shape, "i8"), lay)
        w.add("a", a), w.add("z", z), w.add("k", k)
        add("real += complex", lambda: a.iadd(z), TY)
        add("real -= complex", lambda: a.__isub__(z), TY)
        add("int += real", lambda: k.iadd(a), TY)
        add("int += complex", lambda: k.__iadd__(z), TY)
    elif kind == "norms":
        for o in ("fro", "nuc"):
            add(f"norm {o}", lambda o=o: x.norm(o))
        for a in range(nd):
            if a != axis:
                add(f"norm along axis {a} of an array distributed along {axis}", lambda a=a: x.norm(2, axis=a), NI)
        st = StackedDistributedArray([mk(ctx, rdata(rng, (4 * P,), dt)) for _ in range(2)], **kw)
        w.add("stack", st)
        add("stacked norm fro", lambda: st.norm("fro"))
        add("norm along axis 9", lambda: x.norm(2, axis=9), NI)
    elif kind == "ghost":
        if P == 1:
            return ctx.true(True, "skip")
        d = mk(ctx, g[0], Lay("S", axis, c["sizes"]))
        w.add("d", d)
        s = c["sizes"]
        front, back = min(s[:-1]) + 1, min(s[1:]) + 1
        add(f"{front} cells in front of {s}", lambda: d.add_ghost_cells(cells_front=front))
        add(f"{back} cells behind of {s}", lambda: d.add_ghost_cells(cells_back=back))
        add("both too many", lambda: d.add_ghost_cells(cells_front=front, cells_back=back))
        add("front fine, back too many", lambda: d.add_ghost_cells(cells_front=min(s[:-1]), cells_back=back))
        add("many more", lambda: d.add_ghost_cells(cells_front=sum(s) + 5))
        # counts that differ between ranks, too large on one
        k = int(rng.integers(1, P))
        add("too many on one rank", lambda: d.add_ghost_cells(cells_front=s[k - 1] + 1 if ctx.rank == k else 0))
        add("too many behind on one rank", lambda: d.add_ghost_cells(cells_back=s[k] + 2 if ctx.rank == k - 1 else 0))
    elif kind == "stacked-arrays":
        ns = [int(v) for v in rng.integers(P, 4 * P + 1, 3)]
        a = StackedDistributedArray([mk(ctx, rdata(rng, (n,), dt)) for n in ns], **kw)
        opts = {"fewer": StackedDistributedArray([d.copy() for d in a.distarrays[:2]], **kw),
                "more": StackedDistributedArray([d.copy() for d in a.distarrays] + [a[0].copy()], **kw),
                "size": StackedDistributedArray([a[0].copy(), a[1].copy(), mk(ctx, rdata(rng, (ns[2] + 1,), dt))], **kw),
                "partition": StackedDistributedArray([a[0].copy(), a[1].copy(), mk(ctx, rdata(rng, (ns[2],), dt), Lay("B"))], **kw)}
        if P > 1:
            s = balanced(ns[2], P)
            s = [s[-1] + s[0]] + s[1:-1] + [0]
            opts["layout"] = StackedDistributedArray([a[0].copy(), a[1].copy(), mk(ctx, rdata(rng, (ns[2],), dt), Lay("S", 0, s))], **kw)
        w.add("a", a)
        for n, b in opts.items():
            w.add(n, b)
            for m, f in (("a + b", lambda b=b: a + b), ("b + a", lambda b=b: b + a), ("a - b", lambda b=b: a - b), ("a * b", lambda b=b: a * b), ("dot", lambda b=b: a.dot(b)),
                         ("a += b", lambda b=b: a.iadd(b)), ("b += a", lambda b=b: b.iadd(a)), ("a -= b", lambda b=b: a.__isub__(b))):
                add(f"stacked {m}: {n}", f)
        r = StackedDistributedArray([mk(ctx, rdata(rng, (n,), "f8")) for n in ns], **kw)
        z = StackedDistributedArray([mk(ctx, rdata(rng, (n,), t)) for n, t in zip(ns, ("f8", "f8", "c16"))], **kw)
        w.add("r", r), w.add("z", z)
        add("stacked real += complex in the last component", lambda: r.iadd(z), TY)
    elif kind == "vector-size":
        for name in [pick(rng, PLAIN) for _ in range(2)]:
            z = zoo(ctx, rng, name, dt)
            dv, rv = Space(z.dom.part, n=z.dom.n + 1), Space(z.ran.part, n=z.ran.n + 1)
            a, b = dv.vec(ctx, rdata(rng, (dv.n,), dt)), rv.vec(ctx, rdata(rng, (rv.n,), dt))
            w.add("a", a), w.add("b", b), w.add("op", z.op)
            for n, f in (("matvec", lambda z=z, a=a: z.op.matvec(a)), ("rmatvec", lambda z=z, b=b: z.op.rmatvec(b)), ("@", lambda z=z, a=a: z.op @ a),
                         (".H", lambda z=z, b=b: z.op.H @ b), (".T", lambda z=z, b=b: z.op.T @ b), ("2*op", lambda z=z, a=a: (2 * z.op) @ a),
                         ("sum", lambda z=z, a=a: (z.op + z.op) @ a), ("conj", lambda z=z, a=a: z.op.conj() @ a)):
                add(f"{name} {n} of a vector of wrong size", f)
            t = mk(ctx, rdata(rng, (z.dom.n, 1), dt), Lay(z.dom.part))
            add(f"{name} of a two-dimensional array", lambda z=z, t=t: z.op @ t)
            add(f"{name} matvec of a two-dimensional array", lambda z=z, t=t: z.op.matvec(t))
    elif kind == "vector-partition":
        for name in [pick(rng, ["blockdiag", "vstack", "hstack", "fredholm", "mdc", "vstack", "hstack"]) for _ in range(2)]:
            z = zoo(ctx, rng, name, dt)
            w.add("op", z.op)
            for side, f in (("dom", z.op.matvec), ("ran", z.op.rmatvec)):
                sp = getattr(z, side)
                q = Space(pick(rng, ["B", "U"]) if sp.part == "S" else "S", n=sp.n)
                v = q.vec(ctx, rdata(rng, (sp.n,), "f8" if name == "mdc" else dt))
                w.add("v", v)
                add(f"{name} {side} with partition {q.part}", lambda f=f, v=v: f(v))
    elif kind in ("op-sum", "op-product", "op-power", "op-types"):
        z = zoo(ctx, rng, pick(rng, ["blockdiag", "vstack", "hstack", "local", "first"]), dt)
        o = z_local(ctx, rng, dt, m=z.ran.n + 1 + (z.ran.n + 1 == z.dom.n), n=z.dom.n + 1)
        w.add("op", z.op), w.add("other", o.op)
        if kind == "op-sum":
            for n, f in (("+", lambda: z.op + o.op), ("-", lambda: z.op - o.op), ("reversed +", lambda: o.op + z.op),
                         ("+ rows", lambda: z.op + z_local(ctx, rng, dt, m=z.ran.n + 1, n=z.dom.n).op),
                         ("+ columns", lambda: z.op + z_local(ctx, rng, dt, m=z.ran.n, n=z.dom.n + 1).op), ("+ number", lambda: z.op + 3)):
                add("operators of different shape: " + n, f)
        elif kind == "op-product":
            for n, f in (("*", lambda: z.op * o.op), ("@", lambda: z.op @ z_local(ctx, rng, dt, m=z.dom.n + 1, n=2).op),
                         (".H", lambda: z.op.H * z_local(ctx, rng, dt, m=z.ran.n + 1, n=2).op), ("@ number", lambda: z.op @ 2), ("number @", lambda: 2. @ z.op)):
                add("product of operators: " + n, f)
        elif kind == "op-power":
            s = z_blockdiag(ctx, rng, dt, square=True)
            w.add("square", s.op)
            for p in (-1, -3, 1.5, "2", 2. + 0j):
                add(f"power {p!r}", lambda p=p: s.op ** p)
            if z.op.shape[0] != z.op.shape[1]:
                add("power of a rectangular operator", lambda: z.op ** 2)
            st = MPIStackedBlockDiag([s.op], **kw)
            for p in (-1, 1.5):
                add(f"power {p!r} of a stacked operator", lambda p=p: st ** p)
            q = z_blockdiag(ctx, rng, dt, rows=[2] * P, cols=[3] * P)
            add("power of a rectangular stacked operator", lambda: MPIStackedBlockDiag([q.op], **kw) ** 2)
        else:
            for n, f in (("op + array", lambda: z.op + x), ("op + None", lambda: z.op + None)):
                add(n, f, ANY)
    elif kind in ("derivative", "derivative-rows"):
        dims = rdims(rng, P, 4)
        if kind == "derivative":
            add("first derivative of unknown kind", lambda: MPIFirstDerivative(dims=dims, kind="sideways", **kw), NI)
            add("second derivative of unknown kind", lambda: MPISecondDerivative(dims=dims, kind="sideways", **kw), NI)
            for o in (2, 4, 7):
                add(f"centered derivative of order {o}", lambda o=o: MPIFirstDerivative(dims=dims, kind="centered", order=o, **kw), NI)
            add("Laplacian of unknown kind", lambda: MPILaplacian(dims=rdims(rng, P, 4, nd=2), axes=(0, 1), weights=(1, 1), sampling=(1, 1), kind="sideways", **kw), NI)
            add("gradient of unknown kind", lambda: MPIGradient(dims=rdims(rng, P, 4, nd=2), kind="sideways", **kw), NI)
        else:
            for n0 in range(1, 2 * P + 2):
                if n0 // P < 2 and P > 1:
                    dd = (n0,) + tuple(dims[1:])
                    rows = balanced(n0, P)
                    if min(rows) < 2 and rng.random() < .5:
                        for fn, lab in ((lambda dd=dd: MPIFirstDerivative(dims=dd, kind="centered", edge=True, **kw), "first"),
                                        (lambda dd=dd: MPISecondDerivative(dims=dd, kind="centered", edge=True, **kw), "second")):
                            # built and applied: either refused everywhere or the right answer everywhere (C12/C13); never mixed
                            def f(fn=fn, dd=dd):
                                op = fn()
                                return op.matvec(mk(ctx, np.ones(int(np.prod(dd)), "f8"), Space("S", sizes=[r * int(np.prod(dd[1:])) for r in balanced(dd[0], P)]).lay()))
                            o = ctx.outcome(f)
                            ctx.rep(f"{lab} derivative of {dd}", o[0] if o[0] == "ok" else o[1])
                            ctx.true(o[0] == "ok" or o[1] == "ValueError", "kind", f"{lab} derivative of {dd}: {o[1:]}")
    elif kind == "laplacian":
        dims = rdims(rng, P, 3, nd=2)
        add("weights", lambda: MPILaplacian(dims=dims, axes=(0, 1), weights=(1,), sampling=(1, 1), **kw))
        add("sampling", lambda: MPILaplacian(dims=dims, axes=(0, 1), weights=(1, 1), sampling=(1, 1, 1), **kw))
        add("axes", lambda: MPILaplacian(dims=dims, axes=(0,), weights=(1, 1), sampling=(1, 1), **kw))
    elif kind in ("vstack-columns", "hstack-rows"):
        k = int(rng.integers(P))
        n = int(rng.integers(1, 6))
        C = MPIVStack if kind == "vstack-columns" else MPIHStack

        def blk(a, b):
            return mmop(mat(np.random.default_rng(3), *((a, b) if C is MPIVStack else (b, a)), dt))
        if P > 1:                                # only one rank differs
            add("another size on one rank", lambda: C([blk(2, n + (1 if ctx.rank == k else 0))], **kw))
            add("sizes different on every rank", lambda: C([blk(2, n + ctx.rank)], **kw))
        add("other sizes within a rank", lambda: C([blk(2, n), blk(3, n + (1 if ctx.rank == k else 0))], **kw))
        add("last of many", lambda: C([blk(1, n)] * 3 + [blk(1, n + (2 if ctx.rank == P - 1 else 0))], **kw))
    elif kind in ("svstack", "sblockdiag", "stacked-vector", "stacked-algebra"):
        a, b = z_blockdiag(ctx, rng, dt), z_blockdiag(ctx, rng, dt)
        q = z_blockdiag(ctx, rng, dt, cols=[s + (1 if k == 0 else 0) for k, s in enumerate(a.dom.sizes)])
        w.add("a", a.op), w.add("b", b.op)
        bdg = MPIStackedBlockDiag([a.op, b.op], **kw)
        vs = MPIStackedVStack([a.op, a.op], **kw)
        if kind == "svstack":
            add("stack of operators of different widths", lambda: MPIStackedVStack([a.op, q.op], **kw))
            add("stack of three", lambda: MPIStackedVStack([a.op, a.op, q.op], **kw))
        elif kind == "sblockdiag":
            if a.ran.n != b.dom.n or b.ran.n != a.dom.n:
                add("product of different sizes", lambda: bdg * MPIStackedBlockDiag([a.op, a.op, a.op], **kw))
            add("sum with another number of blocks", lambda: bdg + MPIStackedBlockDiag([a.op], **kw))
            add("sum of different kinds", lambda: bdg + vs)
            add("number @", lambda: bdg @ 2)
        elif kind == "stacked-algebra":
            add("VStack product", lambda: vs * vs)
            add("sum with an operator", lambda: bdg + a.op)
            add("sum of different sizes", lambda: MPIStackedBlockDiag([a.op, a.op], **kw) + MPIStackedBlockDiag([a.op, q.op], **kw))
            add("difference of different sizes", lambda: MPIStackedBlockDiag([a.op, a.op], **kw) - MPIStackedBlockDiag([a.op, q.op], **kw))
        else:
            v = [mk(ctx, rdata(rng, (n,), dt), Lay("S", 0, s)) for n, s in ((a.dom.n, a.dom.sizes), (b.dom.n, b.dom.sizes))]
            longer = mk(ctx, rdata(rng, (b.dom.n + 1,), dt))
            sw = [mk(ctx, rdata(rng, (a.ran.n,), dt), Lay("S", 0, a.ran.sizes)), mk(ctx, rdata(rng, (b.ran.n + 2,), dt))]
            w.add("v", *v), w.add("sw", *sw)
            add("component too long", lambda: bdg.matvec(StackedDistributedArray([v[0], longer], **kw)))
            add("component missing", lambda: bdg.matvec(StackedDistributedArray([v[0]], **kw)))
            add("adjoint of a component too long", lambda: bdg.rmatvec(StackedDistributedArray(sw, **kw)))
            add("adjoint of a vertical stack", lambda: vs.rmatvec(StackedDistributedArray(sw, **kw)) if 2 * a.ran.n != a.ran.n + b.ran.n + 2 else (_ for _ in ()).throw(ValueError()))
            add("vector of another size", lambda: vs.matvec(longer) if longer.global_shape[0] != a.dom.n else (_ for _ in ()).throw(ValueError()))
            m2 = StackedDistributedArray([mk(ctx, rdata(rng, (a.dom.n, 1), dt)), v[1]], **kw)
            add("stack of arrays of different dimensions", lambda: bdg @ m2)
    elif kind in ("fredholm", "mdc"):
        k = int(rng.integers(P))
        nsl = [int(v) for v in rng.integers(2, 4, P)]
        nsl[k] = 1
        if kind == "fredholm":
            G = rdata(np.random.default_rng([c["ds"], ctx.rank]), (nsl[ctx.rank], 2, 3), dt)
            w.add("G", G)
            add("one slice on one rank", lambda: MPIFredholm1(G, nz=2, **kw), NI)
            add("one slice on one rank, saved", lambda: MPIFredholm1(G, nz=1, saveGt=True, **kw), NI)
        else:
            G = rdata(np.random.default_rng([c["ds"], ctx.rank]), (nsl[ctx.rank], 2, 2), "c16")
            w.add("G", G)
            add("one slice on one rank", lambda: MPIMDC(G, nt=4 * sum(nsl) + 1, nv=1, nfreq=sum(nsl), **kw), NI)
            H = rdata(rng, (2, 2, 2), "c16")
            add("even nt", lambda: MPIMDC(H, nt=4 * P + 2, nv=1, nfreq=2 * P, twosided=True, **kw))
    elif kind == "realign-far":
        if P < 3:
            return ctx.true(True, "skip")
        z = z_blockdiag(ctx, rng, dt, cols=[int(v) for v in rng.integers(1, 4, P)])
        s = [0] * P
        s[-1 if rng.integers(2) else 0] = z.dom.n
        v = mk(ctx, rdata(rng, (z.dom.n,), dt), Lay("S", 0, s))
        w.add("v", v), w.add("op", z.op)
        o = ctx.outcome(lambda: z.op.matvec(v))
        ctx.rep("outcome", o[0] if o[0] == "ok" else o[1])
        ctx.true(o[0] == "ok" or o[1] == "ValueError", "kind", f"far realignment: {o[1:]}")
    elif kind == "solver":
        e, f = spd(ctx, rng, pick(rng, SPD), dt), lsq(ctx, rng, pick(rng, ["blockdiag", "vstack", "hstack"]), dt)
        w.add("op", e.op), w.add("op2", f.op)
        for C, q in ((CG, e), (CGLS, f)):
            xv, yv = q.dom.vec(ctx, rdata(rng, (q.dom.n,), dt)), q.ran.vec(ctx, rdata(rng, (q.ran.n,), dt))
            w.add("x0", xv), w.add("y", yv)

            def nolimit(C=C, q=q, xv=xv, yv=yv):
                s = C(q.op)
                xx = s.setup(yv, xv)
                return s.run(xx)
            add(f"{C.__name__} run without iteration count", nolimit)
            if not q.dom.comps:
                l1 = Space(q.dom.part, n=q.dom.n + 1).vec(ctx, rdata(rng, (q.dom.n + 1,), dt))
                add(f"{C.__name__} initial guess of wrong size", lambda C=C, q=q, l1=l1, yv=yv: C(q.op).solve(yv, l1, niter=2))
            if not q.ran.comps:
                l2 = Space(q.ran.part, n=q.ran.n + 1).vec(ctx, rdata(rng, (q.ran.n + 1,), dt))
                add(f"{C.__name__} data of wrong size", lambda C=C, q=q, l2=l2, xv=xv: C(q.op).solve(l2, xv, niter=2))
    elif kind == "dottest":
        z = zoo(ctx, rng, pick(rng, ["blockdiag", "vstack", "hstack", "first"]), dt)
        u, v = z.dom.vec(ctx, rdata(rng, (z.dom.n,), dt)), z.ran.vec(ctx, rdata(rng, (z.ran.n,), dt))
        w.add("u", u), w.add("v", v), w.add("op", z.op)
        add("dot test of wrong dimensions", lambda: dottest(z.op, u, v, z.ran.n + 1, z.dom.n), ("AssertionError",))
        l1 = Space(z.dom.part, n=z.dom.n + 1).vec(ctx, rdata(rng, (z.dom.n + 1,), dt))
        add("dot test with a vector of wrong size", lambda: dottest(z.op, l1, v))
    elif kind == "global-list":
        # shapes given as lists or arrays behave like tuples or are refused everywhere
        for s in (list(shape), np.array(shape)):
            o = ctx.outcome(lambda: DistributedArray(global_shape=s, axis=axis, **kw).local_array.shape)
            ctx.rep("shape given as " + type(s).__name__, o[0])
            if o[0] == "ok":
                ctx.eq(o[1], lshapes(shape, balanced(shape[axis], P), axis)[ctx.rank], "kind", "local shape")
    order = rng.permutation(len(bad))
    for pos in order[:14]:
        what, fn, types = bad[pos]
        ctx.rejects(fn, types, "accepted-or-wrong-kind", what)
        w.unchanged(what, "changed-by-refusal")
        if rng.random() < .3:
            follow(ctx, rng, dt, x, y, what)
    follow(ctx, rng, dt, x, y, "all refusals")
    ctx.note(f"{min(len(bad), 14)} refusals")


def follow(ctx, rng, dt, x, y, what):
    """Later work is normal."""
    z = x + y
    ctx.close(z.local_array, x.local_array + y.local_array, "later-work", f"sum after {what}", tol=1e-12)
    n = z.norm()
    if x.mask is None:
        ctx.rep("norm", n)
        g = gather(ctx, z)
        ctx.close(n, np.linalg.norm(g.ravel()), "later-work", f"norm after {what}", tol=1e-9, scale=float(np.linalg.norm(g)) + 1e-30)
    b = z_blockdiag(ctx, rng, dt)
    v = rdata(rng, (b.dom.n,), dt)
    close_vec(ctx, b.ran, b.op.matvec(b.dom.vec(ctx, v)), b.A, v, "later-work", f"block-diagonal after {what}", 1e-9)
