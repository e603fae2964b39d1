"""C28: mixing types never loses an imaginary part, a fraction or precision; in-place results that do not fit are refused."""
import numpy as np
from pylops_mpi.optimization.basic import cg, cgls
import lib
from solve import *         # noqa

DT = ["i4", "i8", "f4", "f8", "c8", "c16", "i2"]
SMALL = ["i1", "u1", "u2"]                 # plain arithmetic only: their products with scalars or matrices leave their range
SC = ["int", "float", "complex", "f4", "f8", "c8", "c16", "i8", "zero-imag", "bool"]
KINDS = ["arrays"] * 6 + ["scalars"] * 3 + ["inplace"] * 4 + ["stacked"] * 3 + ["stacked-inplace"] * 2 + ["stacked-scalar"] + ["op-sum"] * 3 + ["op-scale"] * 2 + ["op-power"] + \
        ["blockdiag", "vstack", "hstack"] * 2 + ["sblockdiag", "svstack", "svstack"] + ["dtype-arg"] + ["solver"] * 2 + ["unary"] + ["reductions"] * 2 + ["masked"] + ["product"] + ["zoo"] * 3
EPS = {"f": 1e-12, "c": 1e-12, "i": 0, "b": 0, "u": 0}
INTS = ("arrays", "masked", "inplace", "stacked", "stacked-inplace", "reductions", "unary")


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    dts = DT + SMALL if kind in INTS else DT
    ndim = int(rng.integers(1, 4))
    shape = [int(rng.integers(1, max(2, (3 * P + 4) // ndim + 2))) for _ in range(ndim)]
    axis = int(rng.integers(ndim))
    return {"kind": kind, "shape": shape, "axis": axis, "part": pick(rng, ["S", "S", "B", "U"]), "ds": int(rng.integers(1 << 30)),
            "a": pick(rng, dts), "b": pick(rng, dts), "sizes": rand_sizes(rng, shape[axis], P), "sync": bool(rng.random() < .1)}


def scal(rng, k):
    v = float(rng.uniform(-3, 3))
    z = complex(v, float(rng.uniform(.5, 3)))
    return {"int": int(rng.integers(-4, 5)), "float": v, "complex": z, "f4": np.float32(v), "f8": np.float64(v), "c8": np.complex64(z), "c16": np.complex128(z),
            "i8": np.int64(rng.integers(-4, 5)), "zero-imag": complex(v, 0.), "bool": True}[k]


def plain(s):
    """NumPy hands its scalars to the array as plain Python numbers when they stand on the left."""
    return s.item() if isinstance(s, np.generic) else s


def same(ctx, lay, got, want, key, what):
    """got (distributed) against NumPy's want: type able to hold it, same values."""
    own = lay.own(want, ctx.rank, ctx.size)
    ctx.rep("type of " + what, (str(np.dtype(got.dtype)), str(got.local_array.dtype)))
    ctx.eq(np.dtype(got.dtype), got.local_array.dtype, key, f"declared type of {what}")
    if not ctx.true(np.can_cast(want.dtype, got.dtype, "safe"), key, f"{what}: type {got.dtype} cannot hold NumPy's {want.dtype}"):
        return
    t = 2e-6 if want.dtype in (np.dtype("f4"), np.dtype("c8")) else EPS[want.dtype.kind]
    ctx.close(got.local_array, own, key, what, tol=t, scale=max(float(np.max(np.abs(want), initial=0)), 1e-30))


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    lib.INTX = .4 if c["kind"] in INTS else 0.
    with np.errstate(all="ignore"):
        globals()["k_" + c["kind"].replace("-", "_")](ctx, rng, c)


def setup_(ctx, rng, c, mask=None):
    lay = Lay(c["part"] if mask is None else "S", c["axis"], c["sizes"] if c["part"] == "S" or mask is not None else None, mask)
    g, h = rdata(rng, tuple(c["shape"]), c["a"]), rdata(rng, tuple(c["shape"]), c["b"])
    return lay, g, h, mk(ctx, g, lay), mk(ctx, h, lay)


def two(ctx, rng, c, mask=None):
    lay, g, h, x, y = setup_(ctx, rng, c, mask)
    n = f"{c['a']} and {c['b']}"
    for what, got, want in ((f"sum of {n}", x + y, g + h), (f"difference of {n}", x - y, g - h), (f"product of {n}", x * y, g * h), (f"reversed sum of {n}", y + x, h + g),
                            (f"chain of {n}", (x * y) + x - y, g * h + g - h), (f"add of {n}", x.add(y), g + h), (f"multiply of {n}", x.multiply(y), g * h)):
        same(ctx, lay, got, want, "arithmetic", what)
    ctx.bits(x.local_array, lay.own(g, ctx.rank, ctx.size), "operand", "first operand afterwards")
    ctx.bits(y.local_array, lay.own(h, ctx.rank, ctx.size), "operand", "second operand afterwards")
    ctx.note(n)


def k_arrays(ctx, rng, c):
    two(ctx, rng, c)


def k_masked(ctx, rng, c):
    two(ctx, rng, c, rand_mask(rng, ctx.size))


def k_scalars(ctx, rng, c):
    lay, g, h, x, y = setup_(ctx, rng, c)
    for k in SC:
        s = scal(rng, k)
        same(ctx, lay, x * s, g * s, "scaling", f"{c['a']} times {k}")
        same(ctx, lay, s * x, g * plain(s), "scaling", f"{k} times {c['a']}")
    ctx.bits(x.local_array, lay.own(g, ctx.rank, ctx.size), "operand", "operand afterwards")


def k_unary(ctx, rng, c):
    lay, g, h, x, y = setup_(ctx, rng, c)
    for what, got, want in (("negative", -x, -g), ("conj", x.conj(), g.conj()), ("copy", x.copy(), g), ("zeros_like", x.zeros_like(), np.zeros_like(g))):
        same(ctx, lay, got, want, "unary", f"{what} of {c['a']}")
        ctx.eq(np.dtype(got.dtype), np.dtype(c["a"]), "unary", f"type of {what}")
    same(ctx, Lay("B"), mk(ctx, np.zeros(1), Lay("B")), np.zeros(1), "unary", "constant")
    ctx.bits(x.asarray(), g, "unary", "gathered")


def k_inplace(ctx, rng, c):
    lay, g, h, x, y = setup_(ctx, rng, c)
    inplace(ctx, lay, x, y, g, h, c["a"], c["b"], lambda: x.iadd(y), g + h, "+=")
    z = mk(ctx, g, lay)
    inplace(ctx, lay, z, y, g, h, c["a"], c["b"], lambda: z.__isub__(y), g - h, "-=")


def fits(a, b):
    return np.can_cast(np.result_type(a, b), a, "same_kind")


def inplace(ctx, lay, x, y, g, h, a, b, fn, want, what):
    o = ctx.outcome(fn)
    ctx.rep(f"outcome of {what}", o[0] if o[0] == "ok" else o[1])
    if fits(a, b):
        if ctx.true(o[0] == "ok", "inplace", f"{a} {what} {b} refused: {o[1:]}"):
            w = lay.own(want.astype(a), ctx.rank, ctx.size)
            ctx.close(x.local_array, w, "inplace", f"{a} {what} {b}", tol=2e-6 if np.dtype(a) in (np.dtype("f4"), np.dtype("c8")) else 1e-12, scale=float(np.max(np.abs(want), initial=1e-30)), dtype=True)
            ctx.true(o[1] is x, "inplace", f"{what} returned another object")
    else:
        ctx.true(o[0] == "exc" and o[1] in ("TypeError", "ValueError", "UFuncTypeError", "_UFuncOutputCastingError"), "inplace-truncates",
                 lambda: f"{a} {what} {b}: " + ("accepted although the result does not fit" if o[0] == "ok" else f"raised {o[1]}"))
        ctx.bits(x.local_array, lay.own(g, ctx.rank, ctx.size), "inplace", f"{a} after refused {what} {b}")
    ctx.bits(y.local_array, lay.own(h, ctx.rank, ctx.size), "operand", "operand afterwards")


def comps(ctx, rng, n):
    return [rand_space(rng, ctx.size) for _ in range(n)]


def stack(ctx, rng, sps, dts):
    v = [rdata(rng, (s.n,), t) for s, t in zip(sps, dts)]
    return v, StackedDistributedArray([s.vec(ctx, a) for s, a in zip(sps, v)], **ctx.kw())


def k_stacked(ctx, rng, c):
    sps = comps(ctx, rng, int(rng.integers(1, 4)))
    ta, tb = [pick(rng, DT + SMALL) for _ in sps], [pick(rng, DT + SMALL) for _ in sps]
    g, x = stack(ctx, rng, sps, ta)
    h, y = stack(ctx, rng, sps, tb)
    for what, r, w in (("sum", x + y, [a + b for a, b in zip(g, h)]), ("difference", x - y, [a - b for a, b in zip(g, h)]), ("product", x * y, [a * b for a, b in zip(g, h)])):
        for k, s in enumerate(sps):
            same(ctx, s.lay(), r[k], w[k], "stacked", f"component {k} of the {what} of {ta[k]} and {tb[k]}")
    d, n = x.dot(y), x.norm()
    w = sum(wide(a, b) for a, b in zip(g, h))
    sc = sum(float(np.abs(a.astype("c16")) @ np.abs(b.astype("c16"))) for a, b in zip(g, h)) + 1e-30
    ctx.close(d, w, "stacked", f"dot of {ta} and {tb}", tol=1e-5, scale=sc)
    ctx.rep("dot", d)
    ctx.close(n, np.sqrt(sum(np.sum(np.abs(a.astype("c16")) ** 2) for a in g)), "stacked", f"norm of {ta}", tol=1e-5)
    for z, v in ((x, g), (y, h)):
        for k, s in enumerate(sps):
            ctx.bits(z[k].local_array, s.own(ctx, v[k]), "operand", "operand afterwards")
    ctx.note(f"{ta} {tb}")


def k_stacked_scalar(ctx, rng, c):
    sps = comps(ctx, rng, 2)
    ta = [pick(rng, DT) for _ in sps]
    g, x = stack(ctx, rng, sps, ta)
    for k in SC:
        s = scal(rng, k)
        for what, r, q in (("times", x * s, s), ("reversed times", s * x, plain(s))):
            for j, sp in enumerate(sps):
                same(ctx, sp.lay(), r[j], g[j] * q, "stacked", f"component of {ta[j]} {what} {k}")


def k_stacked_inplace(ctx, rng, c):
    sps = comps(ctx, rng, int(rng.integers(1, 4)))
    ta, tb = [pick(rng, DT + SMALL) for _ in sps], [pick(rng, DT + SMALL) for _ in sps]
    if rng.random() < .4:
        tb = list(ta)
    g, x = stack(ctx, rng, sps, ta)
    h, y = stack(ctx, rng, sps, tb)
    sub = bool(rng.integers(2))
    o = ctx.outcome(lambda: x.__isub__(y) if sub else x.iadd(y))
    ctx.rep("outcome", o[0] if o[0] == "ok" else o[1])
    ok = all(fits(a, b) for a, b in zip(ta, tb))
    if ok:
        ctx.true(o[0] == "ok", "inplace", f"{ta} += {tb} refused: {o[1:]}")
    else:
        ctx.true(o[0] == "exc", "inplace-truncates", f"{ta} += {tb} accepted although it does not fit")
    for k, s in enumerate(sps):
        w = g[k] if not ok else (g[k] - h[k] if sub else g[k] + h[k]).astype(ta[k])
        ctx.close(x[k].local_array, s.own(ctx, w), "inplace", f"component {k}: {ta} += {tb}", tol=2e-6, scale=float(np.max(np.abs(w), initial=1e-30)), dtype=True)


def wide(a, b):
    """Dot product, integers in their own arithmetic as NumPy."""
    return np.dot(a, b) if a.dtype.kind in "iub" and b.dtype.kind in "iub" else np.dot(a.astype("c16"), b.astype("c16"))


def k_reductions(ctx, rng, c):
    lay, g, h, x, y = setup_(ctx, rng, c)
    a, b = g.astype("c16").ravel(), h.astype("c16").ravel()
    d = x.dot(y)
    ctx.rep("dot", d)
    sc = float(np.abs(a) @ np.abs(b)) + 1e-30
    t = 1e-5 if {"f4", "c8"} & {c["a"], c["b"]} else 1e-11
    ctx.close(d, wide(g.ravel(), h.ravel()), "reductions", f"dot of {c['a']} and {c['b']}", tol=t, scale=sc)
    if np.dtype(c["a"]).kind == "c" or np.dtype(c["b"]).kind == "c":
        ctx.true(np.iscomplexobj(d), "reductions", "dot of complex arrays is real")
    for o in (None, 1, 2, 3, 0, np.inf, -np.inf):
        n = x.norm(o)
        ctx.rep(f"norm {o}", n)
        ctx.close(n, np.linalg.norm(a, 2 if o is None else o), "reductions", f"norm {o} of {c['a']}", tol=1e-5 if c["a"] in ("f4", "c8") else 1e-11)


# ---------------------------------------------------------------- operators
FAM = {"i": ["i8", "i4"], "f": ["f8", "f4", "i8"], "c": ["c16", "c8", "f8", "f4", "i8"]}


def vtype(rng, dts):
    """A vector type that every one of the operator types can represent."""
    ok = [t for t in ("i2", "i4", "i8", "f4", "f8", "c8", "c16") if all(np.can_cast(t, d, "safe") for d in dts)]
    return pick(rng, ok) if ok else None


def odt(rng):
    return pick(rng, ["f4", "f8", "c8", "c16", "f8", "c16", "i8"])


def check(ctx, sp, y, want, key, what, single):
    if sp.comps:
        o = 0
        for k, s in enumerate(sp.comps):
            check(ctx, s, y[k], want[o:o + s.n], key, f"{what}, component {k}", single)
            o += s.n
        return
    ctx.eq(np.dtype(y.dtype), y.local_array.dtype, key, f"declared type of {what}")
    ctx.rep("type of " + what, str(np.dtype(y.dtype)))
    ctx.close(y.local_array, sp.own(ctx, want), key, what, tol=2e-5 if single else 1e-11, scale=max(float(np.max(np.abs(want), initial=0)), 1e-30))


def apply(ctx, rng, op, A, dom, ran, dts, key, txt, rough=False):
    """Forward and adjoint on vectors of every type the operators can represent."""
    ctx.rep("type of " + txt, str(np.dtype(op.dtype)))
    for _ in range(2):
        t = vtype(rng, dts)
        if t is None:
            return
        u = vtype(rng, dts)
        v, w = rdata(rng, (dom.n,), t), rdata(rng, (ran.n,), u)
        single = rough or any(np.dtype(d) in (np.dtype("f4"), np.dtype("c8")) for d in list(dts) + [t, u])
        check(ctx, ran, op.matvec(dom.vec(ctx, v)), A @ v, key, f"forward of {txt} on {t}", single)
        check(ctx, dom, op.rmatvec(ran.vec(ctx, w)), A.conj().T @ w, key, f"adjoint of {txt} on {u}", single)
    # the operator's declared type can hold its outputs
    ctx.true(np.can_cast(np.result_type(*dts), op.dtype, "safe"), key, f"{txt}: type {op.dtype} cannot hold {np.result_type(*dts)}")


def k_op_sum(ctx, rng, c):
    a, b = odt(rng), odt(rng)
    r, q = [int(v) for v in rng.integers(1, 4, ctx.size)], [int(v) for v in rng.integers(1, 4, ctx.size)]
    x, y = z_blockdiag(ctx, rng, a, rows=r, cols=q), z_blockdiag(ctx, rng, b, rows=r, cols=q)
    apply(ctx, rng, x.op + y.op, x.A + y.A, x.dom, x.ran, [a, b], "operator-sum", f"sum of {a} and {b}")
    apply(ctx, rng, x.op - y.op, x.A - y.A, x.dom, x.ran, [a, b], "operator-sum", f"difference of {a} and {b}")
    for what, op in (("adjoint", x.op.H), ("transpose", x.op.T), ("conjugate", x.op.conj()), ("negative", -x.op)):
        declared(ctx, op, np.dtype(a), "operator-unary", f"{what} of {a}")
    # the same for stacks of such operators
    x2, y2 = z_blockdiag(ctx, rng, a, rows=r, cols=q), z_blockdiag(ctx, rng, b, rows=r, cols=q)
    for C, A, dom in ((MPIStackedBlockDiag, lambda p, q: dense_bd([p.A, q.A]), Space(comps=[x.dom, x.dom])), (MPIStackedVStack, lambda p, q: np.vstack([p.A, q.A]), x.dom)):
        ran = Space(comps=[x.ran, x.ran])
        o1, o2, A1, A2 = C([x.op, x2.op], **ctx.kw()), C([y.op, y2.op], **ctx.kw()), A(x, x2), A(y, y2)
        op, B, txt = [(o1 + o2, A1 + A2, "sum"), (o1 - o2, A1 - A2, "difference")][int(rng.integers(2))]
        apply(ctx, rng, op, B, dom, ran, [a, b], "operator-sum", f"{txt} of stacks of {a} and {b}")
        apply(ctx, rng, op.H, B.conj().T, ran, dom, [a, b], "operator-sum", f"adjoint of the {txt} of stacks of {a} and {b}")
        declared(ctx, op.H, np.result_type(a, b), "operator-sum", f"adjoint of the {txt} of stacks")
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    x, y = z_local(ctx, rng, a, m, n), z_local(ctx, rng, b, m, n)
    apply(ctx, rng, x.op + y.op, x.A + y.A, x.dom, x.ran, [a, b], "operator-sum", f"local sum of {a} and {b}")
    apply(ctx, rng, (x.op + y.op).H, (x.A + y.A).conj().T, x.ran, x.dom, [a, b], "operator-sum", f"adjoint sum of {a} and {b}")
    ctx.note(f"{a} {b}")


def k_op_scale(ctx, rng, c):
    a = odt(rng)
    name = pick(rng, ["blockdiag", "vstack", "hstack", "local", "sblockdiag", "svstack"])
    x = zoo(ctx, rng, name, a) if name not in ("sblockdiag",) else z_sbd_plain(ctx, rng, a)
    for k in rng.permutation(len(SC))[:5]:
        s = scal(rng, SC[int(k)])
        for what, op in (("times", x.op * s), ("reversed", s * x.op)):
            apply_scaled(ctx, rng, op, x, s, a, f"{name} {a} {what} {SC[int(k)]}")


def z_sbd_plain(ctx, rng, a):
    zs = [z_blockdiag(ctx, rng, a) for _ in range(2)]
    return Zoo(MPIStackedBlockDiag([z.op for z in zs], **ctx.kw()), dense_bd([z.A for z in zs]), Space(comps=[z.dom for z in zs]), Space(comps=[z.ran for z in zs]), "sblockdiag")


def declared(ctx, op, want, key, txt):
    """the operator's declared type can hold what NumPy would promote to, and is the same on all ranks"""
    ctx.rep("type of " + txt, str(np.dtype(op.dtype)))
    ctx.true(np.can_cast(want, op.dtype, "safe"), key, f"{txt}: declared type {op.dtype} cannot hold {want}")


def apply_scaled(ctx, rng, op, x, s, a, txt):
    declared(ctx, op, np.result_type(np.dtype(a), s), "operator-scaling", txt)
    t = vtype(rng, [a])
    v, w = rdata(rng, (x.dom.n,), t), rdata(rng, (x.ran.n,), t)
    single = "f4" in (a, t) or "c8" in (a, t) or isinstance(s, (np.float32, np.complex64))
    check(ctx, x.ran, op.matvec(x.dom.vec(ctx, v)), (x.A @ v) * s, "operator-scaling", f"forward of {txt} on {t}", single)
    check(ctx, x.dom, op.rmatvec(x.ran.vec(ctx, w)), (x.A.conj().T @ w) * np.conj(s), "operator-scaling", f"adjoint of {txt} on {t}", single)


def k_op_power(ctx, rng, c):
    a = odt(rng)
    x = z_blockdiag(ctx, rng, a, square=True, scale=.5) if rng.integers(2) else z_local(ctx, rng, a, square=True, scale=.5)
    for p in range(4):
        t = vtype(rng, [a])
        v = rdata(rng, (x.dom.n,), t)
        A = np.linalg.matrix_power(x.A.astype("c16"), p)
        A = A if np.dtype(a).kind == "c" else A.real
        single = "f4" in (a, t) or "c8" in (a, t)
        declared(ctx, x.op ** p, np.dtype(a), "operator-power", f"power {p} of {a}")
        y = (x.op ** p).matvec(x.dom.vec(ctx, v))
        check(ctx, x.ran, y, A @ v, "operator-power", f"power {p} of {a} on {t}", single)
        y = (x.op ** p).rmatvec(x.dom.vec(ctx, v))
        check(ctx, x.ran, y, A.conj().T @ v, "operator-power", f"adjoint power {p} of {a} on {t}", single)


def k_product(ctx, rng, c):
    """Product of operators whose types grow from right to left (every operator can hold what it is given)."""
    ch = pick(rng, [("i8", "f8"), ("f4", "f8"), ("f8", "c16"), ("f4", "c16"), ("c8", "c16"), ("f4", "c8"), ("i8", "c16")])
    mid = [int(v) for v in rng.integers(1, 4, ctx.size)]
    b, a = z_blockdiag(ctx, rng, ch[0], rows=mid), z_blockdiag(ctx, rng, ch[1], cols=mid)
    t = vtype(rng, [ch[0]])
    v = rdata(rng, (b.dom.n,), t)
    y = (a.op * b.op).matvec(b.dom.vec(ctx, v))
    check(ctx, a.ran, y, a.A @ (b.A @ v), "operator-product", f"product {ch[1]} * {ch[0]} on {t}", "f4" in ch + (t,) or "c8" in ch + (t,))
    ctx.true(np.can_cast(np.result_type(*ch), (a.op * b.op).dtype, "safe"), "operator-product", "type of the product")


def stacks(ctx, rng, c, which):
    """Serial operators of different types on different ranks and within one rank."""
    P = ctx.size
    mode = pick(rng, ["per-rank", "within", "one-rank", "mixed"])
    types = [odt(rng) for _ in range(6)]
    one = int(rng.integers(P))
    n = int(rng.integers(1, 6))
    bl = []
    for r in range(P):
        k = 1 if mode in ("per-rank", "one-rank") else int(rng.integers(1, 4))
        row = []
        for j in range(k):
            t = {"per-rank": types[r % 6], "one-rank": types[0] if r == one else types[1], "within": types[j], "mixed": types[int(rng.integers(6))]}[mode]
            m, q = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            row.append(mat(rng, m, q if which == "blockdiag" else n, t) if which != "hstack" else mat(rng, n, q, t))
        bl.append(row)
    allb = [b for row in bl for b in row]
    dts = sorted({b.dtype.str[1:] for b in allb})
    C = {"blockdiag": MPIBlockDiag, "vstack": MPIVStack, "hstack": MPIHStack}[which]
    op = C([mmop(b) for b in bl[ctx.rank]], **ctx.kw())
    rows, cols = [sum(b.shape[0] for b in row) for row in bl], [sum(b.shape[1] for b in row) for row in bl]
    if which == "blockdiag":
        A, dom, ran = dense_bd(allb), Space("S", sizes=cols), Space("S", sizes=rows)
    elif which == "vstack":
        A, dom, ran = np.vstack(allb), Space("B", n=n), Space("S", sizes=rows)
    else:
        A, dom, ran = np.hstack(allb), Space("S", sizes=cols), Space("B", n=n)
    res = np.result_type(*dts)
    ctx.true(np.can_cast(res, op.dtype, "safe"), "stack-type", f"{which} of {dts}: type {op.dtype} cannot hold {res}")
    ctx.rep("type of the stack", str(np.dtype(op.dtype)))
    # the serial operators are plain matrices: any vector type the stack as a whole can represent
    apply(ctx, rng, op, A, dom, ran, [str(res)], "stack", f"{which} of {dts} ({mode})", bool({"f4", "c8"} & set(dts)))
    ctx.note(f"{mode} {dts}")


def k_blockdiag(ctx, rng, c):
    stacks(ctx, rng, c, "blockdiag")


def k_vstack(ctx, rng, c):
    stacks(ctx, rng, c, "vstack")


def k_hstack(ctx, rng, c):
    stacks(ctx, rng, c, "hstack")


def k_sblockdiag(ctx, rng, c):
    dts = [odt(rng) for _ in range(int(rng.integers(2, 4)))]
    zs = [z_blockdiag(ctx, rng, t) for t in dts]
    op = MPIStackedBlockDiag([z.op for z in zs], **ctx.kw())
    ctx.true(np.can_cast(np.result_type(*dts), op.dtype, "safe"), "stack-type", f"stack of {dts}: type {op.dtype}")
    for side in "fa":
        vs, out = [], []
        for z, t in zip(zs, dts):
            u = vtype(rng, [t])
            v = rdata(rng, ((z.dom if side == "f" else z.ran).n,), u)
            vs.append((z.dom if side == "f" else z.ran).vec(ctx, v))
            out.append((z.A @ v) if side == "f" else z.A.conj().T @ v)
        y = (op.matvec if side == "f" else op.rmatvec)(StackedDistributedArray(vs, **ctx.kw()))
        for k, z in enumerate(zs):
            check(ctx, z.ran if side == "f" else z.dom, y[k], out[k], "stack", f"component {k} ({dts[k]}) of a diagonal stack of {dts}, {side}", True)


def k_svstack(ctx, rng, c):
    dts = [odt(rng) for _ in range(int(rng.integers(2, 4)))]
    cols = [int(v) for v in rng.integers(1, 4, ctx.size)]
    zs = [z_blockdiag(ctx, rng, t, cols=cols) for t in dts]
    op = MPIStackedVStack([z.op for z in zs], **ctx.kw())
    ctx.true(np.can_cast(np.result_type(*dts), op.dtype, "safe"), "stack-type", f"stack of {dts}: type {op.dtype}")
    t = vtype(rng, dts)
    if t:
        v = rdata(rng, (zs[0].dom.n,), t)
        y = op.matvec(zs[0].dom.vec(ctx, v))
        for k, z in enumerate(zs):
            check(ctx, z.ran, y[k], z.A @ v, "stack", f"component {k} ({dts[k]}) of a vertical stack of {dts} on {t}", True)
    us = [rdata(rng, (z.ran.n,), vtype(rng, [d])) for z, d in zip(zs, dts)]
    y = op.rmatvec(StackedDistributedArray([z.ran.vec(ctx, u) for z, u in zip(zs, us)], **ctx.kw()))
    check(ctx, zs[0].dom, y, sum(z.A.conj().T @ u for z, u in zip(zs, us)), "stack", f"adjoint of a vertical stack of {dts}", True)


def k_dtype_arg(ctx, rng, c):
    """A type requested for a stack is the type of its outputs on all ranks."""
    t = pick(rng, ["c16", "f8", "c8"])
    src = {"c16": ["f8", "c16", "c8", "f4"], "f8": ["f8", "f4", "i8"], "c8": ["f4", "c8"]}[t]
    which = pick(rng, ["blockdiag", "vstack", "hstack"])
    n = int(rng.integers(1, 5))
    bl = [mat(rng, 2 if which != "hstack" else n, n if which == "vstack" else 3, pick(rng, src)) for _ in range(ctx.size)]
    C = {"blockdiag": MPIBlockDiag, "vstack": MPIVStack, "hstack": MPIHStack}[which]
    op = C([mmop(bl[ctx.rank])], dtype=t, **ctx.kw())
    ctx.eq(np.dtype(op.dtype), np.dtype(t), "stack-type", "requested type")
    P = ctx.size
    A, dom, ran = {"blockdiag": lambda: (dense_bd(bl), Space("S", sizes=[3] * P), Space("S", sizes=[2] * P)), "vstack": lambda: (np.vstack(bl), Space("B", n=n), Space("S", sizes=[2] * P)),
                   "hstack": lambda: (np.hstack(bl), Space("S", sizes=[3] * P), Space("B", n=n))}[which]()
    v, u = rdata(rng, (dom.n,), t), rdata(rng, (ran.n,), t)
    y, x = op.matvec(dom.vec(ctx, v)), op.rmatvec(ran.vec(ctx, u))
    check(ctx, ran, y, A @ v, "stack", f"{which} with type {t}", True)
    check(ctx, dom, x, A.conj().T @ u, "stack", f"adjoint of {which} with type {t}", True)
    ctx.eq((np.dtype(y.dtype), np.dtype(x.dtype)), (np.dtype(t),) * 2, "stack-type", "types of the outputs")


def k_solver(ctx, rng, c):
    """Solver inputs of different types: the right answer or the same refusal everywhere, never a truncated one."""
    t = pick(rng, ["f8", "c16"])
    which = pick(rng, ["cg", "cgls"])
    e = spd(ctx, rng, pick(rng, ["blockdiag", "local", "stacked"]), t) if which == "cg" else lsq(ctx, rng, pick(rng, ["square", "blockdiag", "local"]), t)
    ty, tx = pick(rng, ["i8", "f4", "f8"] + (["c16", "c8"] if t == "c16" else [])), pick(rng, ["i8", "f4", "f8"] + (["c16", "c8"] if t == "c16" else []))
    yv, x0 = rdata(rng, (e.ran.n,), ty), rdata(rng, (e.dom.n,), tx)
    y, x = e.ran.vec(ctx, yv), e.dom.vec(ctx, x0)
    niter = 2
    fn = (lambda: cg(e.op, y, x, niter=niter, tol=0.)[0]) if which == "cg" else (lambda: cgls(e.op, y, x, niter=niter, damp=0., tol=0.)[0])
    o = ctx.outcome(fn)
    ctx.rep("outcome", o[0] if o[0] == "ok" else o[1])
    if o[0] == "exc":
        ctx.true(o[1] in ("TypeError", "ValueError"), "solver", f"{which} with y {ty}, x0 {tx}: {o[1:]}")
        ctx.true(not fits(tx, np.result_type(t, ty, "f8" if t == "f8" else "c16")), "solver", f"{which} with operator {t}, y {ty}, x0 {tx} refused: {o[1:]}")
        return
    A, yd, xd = e.A.astype(t), yv.astype(t), x0.astype(t)
    ref = (refsolve.ref_cg(A, yd, xd, niter, 0.) if which == "cg" else refsolve.ref_cgls(A, yd, xd, niter, 0., 0.))[0]
    r = ref[-1]
    dx, ok = refsolve.sensitivity(lambda a, b, q: (refsolve.ref_cg(a, b, q, niter, 0.) if which == "cg" else refsolve.ref_cgls(a, b, q, niter, 0., 0.)[:2]), A, yd, xd, 1e-7)
    s = max(float(np.max(np.abs(r))), float(np.max(np.abs(xd))), 1e-3)
    if ok and dx[-1] < 1e-4 * s:
        ctx.close(content(ctx, o[1]), r, "solver", f"{which} with operator {t}, y {ty}, x0 {tx}", tol=1e-3, scale=s)
    ctx.note(f"{which} {t} {ty} {tx}")


def k_zoo(ctx, rng, c):
    """Every operator class keeps the precision of its type: double operators on double vectors give double results."""
    a = pick(rng, ["f8", "c16", "f8", "c16", "f4", "c8"])
    name = pick(rng, PLAIN + STACKED)
    z = zoo(ctx, rng, name, a)
    if name == "mdc":
        ctx.check_warn, a = False, {"c16": "f8", "c8": "f4"}.get(a, a)
    ctx.rep("type of " + name, str(np.dtype(z.op.dtype)))
    tol = 1e-3 if a in ("f4", "c8") else 1e-11
    for _ in range(2):
        v, u = rdata(rng, (z.dom.n,), a), rdata(rng, (z.ran.n,), a)
        y, x = z.op.matvec(z.dom.vec(ctx, v)), z.op.rmatvec(z.ran.vec(ctx, u))
        for o, sp, A, w, what in ((y, z.ran, z.A, v, "forward"), (x, z.dom, z.A.conj().T, u, "adjoint")):
            close_vec(ctx, sp, o, A, w, "operator-precision", f"{what} of {name} of {a}", tol)
            for d in o.distarrays if sp.comps else [o]:
                ctx.true(np.can_cast(np.dtype(a), d.dtype, "safe"), "operator-precision", f"{what} of {name}: type {d.dtype} cannot hold {a}")
    ctx.note(f"{name} {a}")
