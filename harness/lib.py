"""Helpers shared by the suites: case context, layouts, reference arithmetic."""
import hashlib

import numpy as np
import pylops_mpi
from pylops_mpi import DistributedArray, StackedDistributedArray, Partition

S, B, U = Partition.SCATTER, Partition.BROADCAST, Partition.UNSAFE_BROADCAST
PART = {"S": S, "B": B, "U": U}
# shares of special data sets (set by the worker from the suite)
WIDE = 0.                   # far from unit magnitude (suites whose oracles are relative)
STRUCT = 0.                 # vectors that vanish on a stretch or everywhere, or with a single non-zero element, or constant
INTX = 0.                   # small integers over their whole range, extremes included
NONFIN = 0.                 # with infinite, NaN, subnormal, huge or negative-zero elements


class Base:
    def __init__(self, world, priv, mon, tier, seed, P, rank, suite):
        self.world, self.priv, self.mon, self.tier, self.seed, self.P, self.rank, self.suite = \
            world, priv, mon, tier, seed, P, rank, suite


def digest(v):
    """Bitwise identity of a value (arrays: dtype, shape, bytes)."""
    if isinstance(v, np.ndarray):
        h = hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:16]
        prev = np.array2string(v.ravel()[:4], precision=6) if v.size else ""
        return f"{v.dtype.str}{v.shape}#{h} {prev}"
    if isinstance(v, (np.generic,)):
        return f"{v.dtype.str}:{v!r}:{v.tobytes().hex()}"
    if isinstance(v, float):
        return f"float:{v!r}:{v.hex()}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(digest(x) for x in v) + "]"
    return repr(v)


def same_part(a, b, t):
    return (a == b) | np.isnan(a) & np.isnan(b) | (np.abs(np.subtract(a, b, dtype=float)) <= t)


def tol_for(*dts):
    m = 1e-9
    for d in dts:
        d = np.dtype(d)
        if d in (np.dtype(np.float32), np.dtype(np.complex64)):
            m = max(m, 3e-4)
        if d == np.dtype(np.float16):
            m = max(m, 2e-2)
    return m


class Ctx:
    def __init__(self, base, case, idx, rng):
        self.base, self.case, self.idx, self.rng = base, case, idx, rng
        self.world, self.P, self.wrank, self.tier = base.world, base.P, base.rank, base.tier
        self.mon = base.mon
        self.comm = base.world
        self.rank, self.size = base.rank, base.P
        self.sub = False
        self.fails, self.reps, self.warned, self.notes = [], [], [], []
        self.checks = 0
        self.check_trace = True
        self.check_warn = True
        self.expect_same_reps = True

    # communicator in use -------------------------------------------------
    def use(self, comm):
        self.comm = comm
        self.rank, self.size = comm.Get_rank(), comm.Get_size()
        self.sub = True

    def kw(self):
        return {"base_comm": self.comm} if self.sub else {}

    # oracles --------------------------------------------------------------
    def fail(self, key, msg):
        if len(self.fails) < 20:
            self.fails.append((key, str(msg)[:600]))

    def true(self, cond, key, msg=""):
        self.checks += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def eq(self, got, want, key, what=""):
        self.checks += 1
        if not (got == want):
            self.fail(key, f"{what}: got {got!r}, expected {want!r}")
            return False
        return True

    def bits(self, got, want, key, what="", dtype=True):
        """Bit-for-bit equality of arrays (NaN equal to NaN)."""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f"{what}: shape {got.shape}, expected {want.shape}")
            return False
        if dtype and got.dtype != want.dtype:
            self.fail(key, f"{what}: dtype {got.dtype}, expected {want.dtype}")
            return False
        if got.tobytes() == want.tobytes():
            return True
        try:
            same = np.array_equal(got, want, equal_nan=got.dtype.kind in "fc")
        except Exception:
            same = False
        if not same:
            self.fail(key, f"{what}: {diff(got, want)}")
        return same

    def close(self, got, want, key, what="", tol=None, scale=None, dtype=False):
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f"{what}: shape {got.shape}, expected {want.shape}")
            return False
        if dtype and got.dtype != want.dtype:
            self.fail(key, f"{what}: dtype {got.dtype}, expected {want.dtype}")
            return False
        if got.size == 0:
            return True
        if tol is None:
            tol = tol_for(got.dtype, want.dtype)
        with np.errstate(all="ignore"):
            m = np.max(np.abs(want), initial=0, where=np.isfinite(want)) if scale is None else scale
            m = max(float(m), 1e-30) if np.isfinite(m) else 1.0
            bad = ~(np.abs(got.astype(np.complex128) - want.astype(np.complex128)) <= tol * m)
        if np.any(bad):
            both_nan = np.isnan(got.astype(np.complex128)) & np.isnan(want.astype(np.complex128))
            bad &= ~both_nan
            # equal infinities, real and imaginary parts on their own
            with np.errstate(all="ignore"):
                bad &= ~(same_part(got.real, want.real, tol * m) & same_part(got.imag, want.imag, tol * m))
                if got.dtype.kind == "c":
                    # a complex product of non-finite or overflowing factors: which part becomes
                    # infinite and which NaN depends on contraction (fused multiply-add or not)
                    bad &= np.isfinite(got) | np.isfinite(want)
            if np.any(bad):
                self.fail(key, f"{what}: {diff(got, want)} (tol {tol:g} scale {m:g})")
                return False
        return True

    def rep(self, name, value):
        """A value that must be bitwise identical on all ranks (compared at the end of the case)."""
        self.reps.append((name, digest(value)))

    def outcome(self, fn):
        """Run fn; returns ('ok', value) or ('exc', type name, text)."""
        try:
            return ("ok", fn())
        except Exception as e:                       # noqa
            return ("exc", type(e).__name__, str(e)[:200])

    def rejects(self, fn, types, key, what):
        """fn must raise one of types (names) on this rank; the type is compared across ranks."""
        self.checks += 1
        o = self.outcome(fn)
        self.rep(f"{what} outcome", o[0] if o[0] == "ok" else o[1])
        if o[0] == "ok":
            self.fail(key, f"{what}: accepted instead of raising {types}")
        elif types and o[1] not in types:
            self.fail(key, f"{what}: raised {o[1]} ({o[2][:80]}), expected {types}")
        return o

    def note(self, s):
        self.notes.append(s)


def diff(got, want):
    try:
        g, w = np.atleast_1d(got).ravel(), np.atleast_1d(want).ravel()
        with np.errstate(all="ignore"):
            ne = np.nonzero(~((g == w) | ((g != g) & (w != w))))[0]
            if len(ne):
                e = np.abs(g[ne].astype(np.complex128) - w[ne].astype(np.complex128))
                j = int(ne[int(np.nanargmax(e))]) if not np.all(np.isnan(e)) else int(ne[0])
                return f"{len(ne)} of {len(g)} elements differ, e.g. [{j}] got {g[j]!r} expected {w[j]!r}"
        return "equal values"
    except Exception as e:
        return f"got {got!r:.100} expected {want!r:.100} ({e})"


# ---------------------------------------------------------------- layouts
def balanced(n, P):
    return [n // P + (1 if r < n % P else 0) for r in range(P)]


def rand_sizes(rng, n, P, minimum=0):
    """Random composition of n into P parts (>= minimum), often with zeros."""
    n0 = n - minimum * P
    assert n0 >= 0
    mode = int(rng.integers(4))
    if mode == 0:
        cuts = np.sort(rng.integers(0, n0 + 1, P - 1))
        s = np.diff(np.concatenate([[0], cuts, [n0]]))
    elif mode == 1:
        s = np.zeros(P, int)
        for _ in range(n0):
            s[int(rng.integers(P))] += 1
    elif mode == 2:                      # everything on one or two ranks
        s = np.zeros(P, int)
        k = int(rng.integers(P))
        s[k] = n0 // 2
        s[int(rng.integers(P))] += n0 - n0 // 2
    else:                                # balanced, slightly perturbed
        s = np.array(balanced(n0, P))
        for _ in range(int(rng.integers(1, 3))):
            i, j = rng.integers(P), rng.integers(P)
            if s[i] > 0:
                s[i] -= 1
                s[j] += 1
    return [int(x) + minimum for x in s]


def rdata(rng, shape, dtype, special=False):
    dtype = np.dtype(dtype)
    if dtype.kind in "iu":
        if INTX and dtype.itemsize < 4 and rng.random() < INTX:
            i = np.iinfo(dtype)
            x = rng.integers(i.min, i.max + 1, shape)
            return np.where(rng.random(shape) < .2, rng.choice([i.min, i.max, 0], shape), x).astype(dtype)
        return rng.integers(-9, 10, shape).astype(dtype)
    if dtype.kind == "b":
        return rng.integers(0, 2, shape).astype(bool)
    x = rng.standard_normal(shape)
    if dtype.kind == "c":
        x = x + 1j * rng.standard_normal(shape)
    if WIDE and rng.random() < WIDE:                 # far from unit magnitude
        x = x * 10. ** (rng.choice([-9, -6, 6, 9]) if np.finfo(dtype).eps < 1e-10 else rng.choice([-3, 3]))
    x = np.asarray(x).astype(dtype)
    if special and x.size:
        m = rng.random(shape)
        x = np.where(m < 0.15, np.zeros((), dtype), x).astype(dtype)
    if STRUCT and x.size and x.ndim == 1 and rng.random() < STRUCT:
        structure(rng, x)
    if NONFIN and x.size and rng.random() < NONFIN:
        f = np.finfo(dtype)
        for _ in range(int(rng.integers(1, 4))):
            v = [np.inf, -np.inf, np.nan, np.nan, -0., float(f.tiny) / 4, float(f.max) / 4][int(rng.integers(7))]
            x.flat[int(rng.integers(x.size))] = v
    return x


def structure(rng, x):
    n = x.size
    k = int(rng.integers(5))
    a, b = sorted(int(v) for v in rng.integers(0, n + 1, 2))
    if k == 0:                                       # a stretch of zeros
        x[a:b] = 0
    elif k == 1:                                     # zero except on a stretch
        x[:a] = 0
        x[b:] = 0
    elif k == 2:
        v = x[0].copy()
        x[:] = 0
        x[int(rng.integers(n))] = v
    elif k == 3:
        x[:] = x[0]
    else:
        x[:] = 0


def vdt(rng, dt, p=.2):
    """Element type of a vector that an operator of type dt can take: its own, or a simpler one of the same precision."""
    dt = np.dtype(dt).str[1:]
    if rng.random() >= p:
        return dt
    return pick(rng, {"c16": ["f8", "f8", "i8", "i4"], "f8": ["i8", "i4", "i2"], "c8": ["f4", "f4", "i2"], "f4": ["i2"]}.get(dt, [dt]))


def block(g, sizes, axis, rank):
    """Own computation of the block of g a rank must hold."""
    o = int(sum(sizes[:rank]))
    sl = [slice(None)] * g.ndim
    sl[axis] = slice(o, o + sizes[rank])
    return g[tuple(sl)]


def lshapes(shape, sizes, axis):
    out = []
    for s in sizes:
        t = list(shape)
        t[axis] = int(s)
        out.append(tuple(t))
    return out


class Lay:
    """Layout descriptor: partition letter, axis, sizes (None: default split), mask."""

    def __init__(self, part="S", axis=0, sizes=None, mask=None):
        self.part, self.axis, self.sizes, self.mask = part, axis, sizes, mask

    def eff(self, shape, P):
        return self.sizes if self.sizes is not None else balanced(shape[self.axis], P)

    def own(self, g, rank, P):
        if self.part != "S":
            return g
        return block(g, self.eff(g.shape, P), self.axis, rank)


def mk(ctx, g, lay=None, via=None):
    """Distributed array holding the global array g (same on all ranks)."""
    lay = lay or Lay()
    kw = dict(ctx.kw())
    if lay.sizes is not None and lay.part == "S":
        kw["local_shapes"] = lshapes(g.shape, lay.sizes, lay.axis)
    if lay.mask is not None:
        kw["mask"] = list(lay.mask)
    if via == "ctor":
        d = DistributedArray(global_shape=g.shape, partition=PART[lay.part], axis=lay.axis, dtype=g.dtype, **kw)
        d[:] = lay.own(g, ctx.rank, ctx.size)
        return d
    return DistributedArray.to_dist(x=g, partition=PART[lay.part], axis=lay.axis, **kw)


def is_da(x):
    return isinstance(x, DistributedArray)


def check_layout(ctx, d, shape, lay, key, what):
    """Metadata of d agree with the layout and with the data held."""
    P = ctx.size
    ctx.eq(tuple(int(x) for x in d.global_shape), tuple(shape), key, what + " global_shape")
    ctx.eq(d.partition, PART[lay.part], key, what + " partition")
    ctx.eq(d.axis, lay.axis, key, what + " axis")
    exp = lshapes(shape, lay.eff(shape, P), lay.axis) if lay.part == "S" else [tuple(shape)] * P
    ctx.eq(tuple(int(v) for v in d.local_shape), exp[ctx.rank], key, what + " local_shape")
    ctx.eq(tuple(d.local_array.shape), exp[ctx.rank], key, what + " shape of the data held")
    ctx.eq(d.mask is None, lay.mask is None, key, what + " mask presence")
    if lay.mask is not None and d.mask is not None:
        ctx.eq(list(d.mask), list(lay.mask), key, what + " mask")
    ctx.eq(d.rank, ctx.rank, key, what + " rank")
    ctx.eq(d.size, ctx.size, key, what + " size")
    ctx.eq(d.ndim, len(shape), key, what + " ndim")
    ctx.true(np.dtype(d.dtype) == d.local_array.dtype, key, f"{what}: dtype {d.dtype} but data {d.local_array.dtype}")


def gather_priv(ctx, arr):
    """Gather local parts without using the library (private communicator of the world; world cases only)."""
    return ctx.base.priv.allgather(arr)


def gather(ctx, d):
    """Global content of a distributed array, gathered without asarray()."""
    if d.partition is not S:
        return d.local_array
    comm = ctx.comm
    ctx.mon.M.quiet = True
    try:
        parts = comm.allgather(np.array(d.local_array))
    finally:
        ctx.mon.M.quiet = False
    return np.concatenate(parts, axis=d.axis)


def shares(a, b):
    return a.size > 0 and b.size > 0 and np.shares_memory(a, b)


def arrays_of(x):
    if isinstance(x, DistributedArray):
        return [x.local_array]
    if isinstance(x, StackedDistributedArray):
        return [a for d in x.distarrays for a in arrays_of(d)]
    if isinstance(x, np.ndarray):
        return [x]
    return []


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def rand_mask(rng, P):
    mode = int(rng.integers(4))
    if mode == 0:
        return [0] * P
    if mode == 1:
        k = int(rng.integers(1, P + 1))
        return [r * k // P for r in range(P)]
    if mode == 2:
        return [int(x) for x in rng.integers(0, max(2, P // 2 + 1), P)]
    return [r % 2 for r in range(P)]
