"""C26: work on a communicator involves exactly its ranks: nothing on other communicators, groups independent, results right."""
import numpy as np
from programs import *      # noqa
from programs import Prog

EACH = ARRAY + ["op", "expr", "sexpr", "realign", "dottest", "cg", "cgls", "reject"]
KINDS = ["split", "split", "idle", "grid", "dup", "nested", "self", "same"] + ["each-" + n for n in EACH] + \
        ["split-delay", "idle-delay", "grid-delay"] + ["op-" + n for n in PLAIN + STACKED] + ["comm-of"] * 2
COMMS = {}


def colors(P):
    """Ways of splitting the world: name -> (colour, key) per rank; colour None = takes no part."""
    d = {"halves": [(r * 2 // P, r) for r in range(P)], "interleaved": [(r % 2, r) for r in range(P)],
         "reversed": [(0, -r) for r in range(P)], "thirds": [(r % 3, r) for r in range(P)],
         "first-out": [(0 if r else 1, r) for r in range(P)], "halves-reversed": [(r * 2 // P, -r) for r in range(P)],
         "rotated": [(0, (r + 1) % P) for r in range(P)], "zero-idle": [(0 if r else None, r) for r in range(P)],
         "last-idle": [(0 if r < P - 1 else None, r) for r in range(P)], "odd-idle": [(0 if r % 2 == 0 else None, -r) for r in range(P)],
         "rows": [(r // 2, r) for r in range(P)], "columns": [(r % 2, -r) for r in range(P)]}
    return d


def setup(base):
    from mpi4py import MPI
    M, P, r = base.mon.M, base.P, base.rank
    for name, cl in colors(P).items():
        c, k = cl[r]
        comm = base.world.Split(MPI.UNDEFINED if c is None else c, k)
        COMMS[name] = (None, None) if c is None else (comm, c)
    COMMS["dup"] = (base.world.Dup(), 0)
    h, c = COMMS["halves"]
    s = h.Split(h.Get_rank() % 2, -h.Get_rank())
    COMMS["nested"] = (s, 10 * c + h.Get_rank() % 2)
    COMMS["self"] = (base.world.Split(r, 0), r)
    for comm, _ in COMMS.values():
        if comm is not None:
            M.register(comm._mon_cid, comm)


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    base = kind.split("-")[0]
    names = list(colors(P))
    if base == "idle":
        w = pick(rng, ["zero-idle", "last-idle", "odd-idle"])
    elif base in ("dup", "nested", "self"):
        w = base
    else:
        w = pick(rng, names)
    if P == 1 and base == "idle":
        w = "reversed"
    if P == 1 and w in ("zero-idle", "last-idle", "odd-idle"):
        w = "dup"
    return {"kind": kind, "which": w, "ds": int(rng.integers(1 << 30)), "n": int(rng.integers(1, 4)),
            "sync": bool(rng.random() < .3), "delay": .001 if "delay" in kind else 0}


def progs(kind, c, color):
    """The steps of a group: different ones in every group, except kind same."""
    rng = np.random.default_rng([c["ds"], 0 if kind == "same" else color])
    if kind.startswith("each-"):
        return [kind[5:]] * 2
    return random_names(rng, c["n"])


def compare(ctx, comm, out):
    """Replicated observations agree within the group."""
    M = ctx.mon.M
    M.quiet = True
    try:
        allr = comm.allgather([(n, v.tobytes()) for n, v in out])
    finally:
        M.quiet = False
    ctx.true(all(a == allr[0] for a in allr), "group-differ",
             lambda: "replicated results differ within the group: " + next(str(x[0]) for a in allr for x, y in zip(a, allr[0]) if x != y) if all(len(a) == len(allr[0]) for a in allr) else "observations")


class GProg(Prog):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.rout = []

    def emit(self, name, value, replicated=True):
        v = np.array(value)
        self.out.append((name, v))
        if replicated:
            self.rout.append((name, v))

    def vec(self, name, y):
        super().vec(name, y)
        for d in (y.distarrays if isinstance(y, StackedDistributedArray) else [y]):
            self.ctx.true(d.base_comm == self.ctx.comm, "communicator-of-result", f"{name}: result lives on another communicator than its operands")


def run(ctx, c):
    kind, M = c["kind"], ctx.mon.M
    ctx.expect_same_reps = False
    which = ["rows", "columns"] if kind.startswith("grid") else [c["which"]]
    here = {}
    for w in which:
        comm, color = COMMS[w]
        if comm is not None:
            here[w] = (comm, color, GProg(ctx, np.random.default_rng([c["ds"], 0 if kind == "same" else color, len(w)])))
    order = []
    if kind.startswith("grid"):
        order = [int(k) for k in np.random.default_rng(c["ds"]).integers(0, 2, 4)]
        order = [which[k] for k in order]
    else:
        order = which
    for w in order:
        if w not in here:
            continue
        comm, color, p = here[w]
        ctx.use(comm)
        if kind.startswith("op-"):
            rng = p.rng
            dt = pick(rng, ["f8", "c16"])
            e = leaf(zoo(ctx, rng, kind[3:], dt))
            if kind == "op-mdc":
                ctx.check_warn, dt = False, "f8"
            p.both(e, dt, kind)
        elif kind == "comm-of":
            comm_of(ctx, p.rng)
        elif kind.startswith("grid"):
            p.go(random_names(p.rng, 1))
        else:
            p.go(progs(kind, c, color))
    for w, (comm, color, p) in here.items():
        compare(ctx, comm, p.rout)
    own = {1} - {comm._mon_cid for comm, _, _ in here.values()}
    foreign = [e for e in M.events if e[1] in own]
    ctx.true(not foreign, "world-used", lambda: f"{len(foreign)} MPI calls on the default communicator by work on '{c['which']}', e.g. {foreign[0][2]}")
    ctx.note(f"{which} {[comm.Get_size() for comm, _, _ in here.values()]}")


def comm_of(ctx, rng):
    """Everything derived from an array or operator of the communicator stays on it."""
    dt = pick(rng, ["f8", "c16"])
    P = ctx.size
    shape = tuple(int(v) for v in rng.integers(1, 3 * P + 2, int(rng.integers(1, 3))))
    lay = Lay(pick(rng, ["S", "S", "B", "U"]), int(rng.integers(len(shape))))
    g = rdata(rng, shape, dt)
    x, y = mk(ctx, g, lay), mk(ctx, g, lay)
    st = StackedDistributedArray([x.copy(), y.copy()], **ctx.kw())
    d = {"to_dist": DistributedArray.to_dist(g, partition=PART[lay.part], axis=lay.axis, **ctx.kw()), "sum": x + y, "difference": x - y, "product": x * y, "scaled": x * 2,
         "rscaled": 2 * x, "negative": -x, "conj": x.conj(), "copy": x.copy(), "zeros_like": x.zeros_like(), "ravel": x.ravel()}
    for s, v in (("sum", st + st), ("difference", st - st), ("product", st * st), ("scaled", 2 * st), ("negative", -st), ("conj", st.conj()), ("copy", st.copy())):
        for k in range(v.narrays):
            d[f"stacked {s}[{k}]"] = v[k]
    for n, v in d.items():
        ctx.true(v.base_comm == ctx.comm, "communicator-of-result", f"{n} lives on another communicator")
        ctx.eq((v.rank, v.size), (ctx.rank, ctx.size), "communicator-of-result", f"rank and size of {n}")
    for n, v in (("itself", x), ("stack", st), ("stacked sum", st + st), ("stacked copy", st.copy()), ("stacked conj", st.conj())):
        ctx.eq((v.rank, v.size), (ctx.rank, ctx.size), "rank-size", f"rank and size of {n}")
        ctx.true(v.base_comm == ctx.comm, "communicator-of-result", f"{n} lives on another communicator")
    e = leaf(zoo(ctx, rng, pick(rng, ["blockdiag", "vstack", "hstack", "local", "first", "second", "laplacian", "fredholm"]), dt))
    ctx.eq((e.op.rank, e.op.size), (ctx.rank, ctx.size), "rank-size", f"rank and size of operator {e.txt}")
    for n, o in (("itself", e.op), ("H", e.op.H), ("T", e.op.T), ("conj", e.op.conj()), ("scaled", 2 * e.op), ("sum", e.op + e.op), ("product", e.op * e.op.H), ("negative", -e.op), ("power", e.op.H * e.op), ("adjoint of transpose", e.op.T.H)):
        ctx.true(o.base_comm == ctx.comm, "communicator-of-result", f"{n} of {e.txt} lives on another communicator")
