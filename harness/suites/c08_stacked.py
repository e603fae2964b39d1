"""C08: stacked arrays behave as the concatenation of their components."""
import numpy as np
from lib import *           # noqa

WIDE = .06
STRUCT = .08
KINDS = ["arith", "reduce", "inplace", "arith", "chain", "reject", "single"]
ORDS = [None, 2, 1, 0, np.inf, -np.inf, 3, 1.5, .5, 2.5]


def gen(rng, P, i, tier):
    many = rng.random() < .06                           # many small components
    n = int(rng.integers(8, 18 if i % 3 else 40)) if many else int(rng.integers(1, 5))
    comps = []
    for _ in range(n):
        ndim = 1 if many else int(rng.integers(1, 4)) if rng.random() < .9 else 4
        shape = [int(rng.integers(1, (3 * P) // ndim + 3)) for _ in range(ndim)]
        axis = int(rng.integers(ndim))
        part = pick(rng, ["S", "S", "S", "B", "U"])
        comps.append({"shape": shape, "axis": axis, "part": part,
                      "sizes": rand_sizes(rng, shape[axis], P) if part == "S" and rng.random() < .4 else None})
    return {"kind": KINDS[i % len(KINDS)], "comps": comps, "dt": pick(rng, ["f8", "f8", "c16", "f4", "i8"] + ["u1", "i2"] * (KINDS[i % len(KINDS)] in ("arith", "inplace"))), "ds": int(rng.integers(1 << 30)),
            "steps": int(rng.integers(3, 9))}


def build(ctx, c, rng, dt):
    lays = [Lay(k["part"], k["axis"], k["sizes"]) for k in c["comps"]]
    gs = [rdata(rng, tuple(k["shape"]), dt, True) for k in c["comps"]]
    ds = [mk(ctx, g, l) for g, l in zip(gs, lays)]
    return StackedDistributedArray(ds, **ctx.kw()), gs, lays


def cat(gs):
    return np.concatenate([g.ravel() for g in gs])


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    dt = np.dtype(c["dt"])
    tol = 1e-12 if dt in (np.dtype("f8"), np.dtype("c16")) else 2e-5
    s, gs, lays = build(ctx, c, rng, dt)
    t, hs, _ = build(ctx, c, rng, dt)
    gs0 = [g.copy() for g in gs]

    def check(st, ws, what, key):
        ctx.true(isinstance(st, StackedDistributedArray), key + "-type", f"{what} is {type(st).__name__}")
        ctx.eq(st.narrays, len(ws), key + "-n", what + " number of components")
        for k, (w, l) in enumerate(zip(ws, lays)):
            ctx.close(st[k].local_array, l.own(w, ctx.rank, ctx.size), key, f"{what} component {k}", tol=tol)
            check_layout(ctx, st[k], w.shape, l, key + "-layout", f"{what} component {k}")
        ctx.true(st.base_comm == ctx.comm, key + "-comm", what + ": communicator")

    def full(st, ws, what):
        a = st.asarray()
        ctx.close(a, cat(ws), "asarray", what + " gathered", tol=tol)
        ctx.rep(what, np.asarray(a))
    full(s, gs, "stack")
    kind = c["kind"]
    a = int(rng.integers(-3, 4)) if dt.kind == "i" else int(rng.integers(0, 4)) if dt.kind == "u" else float(rng.standard_normal())
    if dt.kind == "c":
        a = complex(a, 1.3)
    if kind in ("arith", "single"):
        check(s + t, [g + h for g, h in zip(gs, hs)], "sum", "add")
        check(s - t, [g - h for g, h in zip(gs, hs)], "difference", "sub")
        check(s * t, [g * h for g, h in zip(gs, hs)], "product", "mul")
        check(s * a, [g * a for g in gs], "scaled", "muls")
        check(s + s, [g + g for g in gs], "sum with itself", "add")
        check(s - s, [g - g for g in gs], "difference with itself", "sub")
        check(s * s, [g * g for g in gs], "product with itself", "mul")
        check(a * s, [g * a for g in gs], "scaled from the left", "rmuls")
        check(-s, [-g for g in gs], "negated", "neg")
        check(s.conj(), [g.conj() for g in gs], "conjugated", "conj")
        check(s.copy(), gs, "copied", "copy")
        r = s + t
        full(r, [g + h for g, h in zip(gs, hs)], "sum")
        check(s, gs0, "operand", "operand")
        check(t, hs, "operand", "operand")
    elif kind == "reduce":
        fs, ft = cat(gs), cat(hs)
        v = s.dot(t)
        ctx.rep("dot", np.asarray(v))
        ctx.close(v, np.dot(fs, ft), "dot", "stacked dot", scale=float(np.sum(np.abs(fs) * np.abs(ft))) + 1e-30, tol=tol_for(dt))
        v = s.dot(s)
        ctx.rep("dot with itself", np.asarray(v))
        ctx.close(v, np.dot(fs, fs), "dot", "stacked dot with itself", scale=float(np.sum(np.abs(fs) ** 2)) + 1e-30, tol=tol_for(dt))
        v = s.dot(s.conj())
        ctx.close(v, np.dot(fs, fs.conj()), "dot", "stacked dot with its conjugate", scale=float(np.sum(np.abs(fs) ** 2)) + 1e-30, tol=tol_for(dt))
        for o in ORDS:
            v = s.norm(o)
            ctx.rep(f"norm {o}", np.asarray(v))
            ctx.close(v, np.linalg.norm(fs.astype("c16" if dt.kind == "c" else "f8"), o), f"norm-{o}", f"stacked norm({o})",
                      tol=tol_for(dt) * (20 if o == .5 else 1))
        for o in ("fro", "nuc"):
            ctx.rejects(lambda: s.norm(o), ("ValueError",), "norm-str", f"norm {o}")
    elif kind == "inplace":
        u = s
        u += t
        ctx.true(u is s, "identity", "in-place addition returned another object")
        ws = [g + h for g, h in zip(gs, hs)]
        check(s, ws, "after +=", "iadd")
        u -= t
        ctx.true(u is s, "identity", "in-place subtraction returned another object")
        ws = [w - h for w, h in zip(ws, hs)]
        check(s, ws, "after -=", "isub")
        k = int(rng.integers(len(gs)))
        new = rdata(rng, gs[k].shape, dt)
        s[k] = lays[k].own(new, ctx.rank, ctx.size)
        ws[k] = new
        check(s, ws, "after component assignment", "setitem")
        check(t, hs, "other operand", "operand")
    elif kind == "chain":
        env, vals = [s, t], [gs, hs]
        for st in range(c["steps"]):
            i, j = int(rng.integers(2)), int(rng.integers(2))
            op = pick(rng, ["add", "sub", "muls", "neg", "copy", "conj", "axpy"])
            if op == "add":
                r, w = env[i] + env[j], [g + h for g, h in zip(vals[i], vals[j])]
            elif op == "sub":
                r, w = env[i] - env[j], [g - h for g, h in zip(vals[i], vals[j])]
            elif op == "muls":
                r, w = env[i] * a, [g * a for g in vals[i]]
            elif op == "neg":
                r, w = -env[i], [-g for g in vals[i]]
            elif op == "copy":
                r, w = env[i].copy(), [g.copy() for g in vals[i]]
            elif op == "conj":
                r, w = env[i].conj(), [g.conj() for g in vals[i]]
            else:
                r, w = env[i] + a * env[j], [g + a * h for g, h in zip(vals[i], vals[j])]
            check(r, w, f"step {st} {op}", "chain")
            if max(np.max(np.abs(x)) for x in w) < 1e5:
                env[j], vals[j] = r, w
        full(env[0], vals[0], "after the chain")
    elif kind == "reject":
        extra = mk(ctx, rdata(rng, (3,), dt))
        more = StackedDistributedArray(list(t.distarrays) + [extra], **ctx.kw())
        other = [rdata(rng, tuple(np.array(g.shape) + (1 if k == len(gs) - 1 else 0)), dt) for k, g in enumerate(gs)]
        bad = StackedDistributedArray([mk(ctx, g, Lay(l.part, l.axis)) for g, l in zip(other, lays)], **ctx.kw())
        for nm, w in (("more components", more), ("another shape", bad)):
            ctx.rejects(lambda: s + w, ("ValueError",), "reject", f"{nm} add")
            ctx.rejects(lambda: s - w, ("ValueError",), "reject", f"{nm} sub")
            ctx.rejects(lambda: s * w, ("ValueError",), "reject", f"{nm} mul")
            ctx.rejects(lambda: s.dot(w), ("ValueError",), "reject", f"{nm} dot")
            ctx.rejects(lambda: s.iadd(w), ("ValueError",), "reject", f"{nm} iadd")
        check(s, gs0, "stack after rejected operations", "reject-modified")
        check(s + t, [g + h for g, h in zip(gs, hs)], "sum after rejected operations", "add")
