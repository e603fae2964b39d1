"""C24: the same program gives the same bits in every schedule, and replicated values are the same on all ranks."""
import numpy as np
from programs import *      # noqa

SCHED = ["plain", "delays", "sync", "sync+delays", "one slow rank"]
KINDS = ["mix", "mix", "array", "oper", "solve", "mix", "reduce", "bcast", "rerun"]


def gen(rng, P, i, tier):
    return {"kind": KINDS[i % len(KINDS)], "ds": int(rng.integers(1 << 30)), "n": int(rng.integers(2, 6)), "slow": int(rng.integers(P))}


def schedule(ctx, name, slow, seed):
    M = ctx.mon.M
    M.sync = "sync" in name
    M.delay = None
    if "delays" in name:
        M.delay = (np.random.default_rng([seed, ctx.wrank]), .06, .002)
    if name == "one slow rank" and ctx.wrank == slow:
        M.delay = (np.random.default_rng([seed, 99]), .1, .002)


def run(ctx, c):
    kind = c["kind"]
    rng = np.random.default_rng(c["ds"])
    pool = {"array": ARRAY, "oper": OPER, "solve": SOLVE, "reduce": ["reduce", "masked", "stacked"], "bcast": ["broadcast", "setitem", "op"]}.get(kind)
    names = random_names(rng, 2 if kind == "solve" else c["n"], pool)
    scheds = ["plain"] + [SCHED[1 + int(k)] for k in rng.permutation(4)[:2]]
    if kind == "rerun":
        scheds = ["plain", "plain", "sync+delays"]
    M = ctx.mon.M
    ref = None
    warned = list(ctx.reps)
    try:
        for s in scheds:
            schedule(ctx, s, c["slow"], c["ds"])
            p = Prog(ctx, np.random.default_rng([c["ds"], 5]))
            ctx.reps = list(warned)
            out = p.go(names)
            if ref is None:
                ref = out
                continue
            ctx.eq([n for n, _ in out], [n for n, _ in ref], "schedule", f"observations under {s}")
            for (n, a), (_, b) in zip(out, ref):
                ctx.checks += 1
                if a.dtype != b.dtype or a.shape != b.shape or (a.tobytes() != b.tobytes() and not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")):
                    ctx.fail("schedule", f"{n} under '{s}' differs from the same program under '{scheds[0]}': {a.ravel()[:3]} / {b.ravel()[:3]}")
                elif a.tobytes() != b.tobytes() and not np.any(a != a):
                    pass                         # zeros of different sign
    finally:
        M.sync, M.delay = False, None
    ctx.note(" ".join(names)[:60] + " | " + " | ".join(scheds))
