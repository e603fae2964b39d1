"""C23: every call completes under rendezvous sends and delays; collectives agree; messages are all consumed."""
import numpy as np
from programs import *      # noqa

EACH = ARRAY + ["op", "expr", "sexpr", "realign", "dottest", "cg", "cgls", "reject"]
STRUCT = .08
KINDS = ["mix"] * 4 + ["each-" + n for n in EACH] + ["big"] * 4 + ["mix-delay"] * 4 + ["ops-" + n for n in PLAIN + STACKED] + ["ghosts", "ghosts", "big-ghost"]


def gen(rng, P, i, tier):
    kind = KINDS[i % len(KINDS)]
    u = rng.random()
    return {"kind": kind, "ds": int(rng.integers(1 << 30)), "n": int(rng.integers(2, 7)),
            "sync": bool(rng.random() < .85) or "ghost" in kind, "delay": .001 if u < .35 or "delay" in kind else 0}


def run(ctx, c):
    rng = np.random.default_rng(c["ds"])
    kind = c["kind"]
    p = Prog(ctx, rng, big=kind.startswith("big"))
    if kind.startswith("each-"):
        names = [kind[5:]] * 2
    elif kind.startswith("ops-"):
        dt = pick(rng, ["f8", "c16"])
        e = leaf(zoo(ctx, rng, kind[4:], dt))
        if kind == "ops-mdc":
            ctx.check_warn, dt = False, "f8"
        p.both(e, dt, kind)
        p.both(e, dt, kind)
        names = []
    elif kind == "ghosts":
        names = ["ghost"] * 5
    elif kind == "big-ghost":
        names = ["ghost"] * 3 + ["gather", "realign"]
    elif kind == "big":
        names = random_names(rng, 3, ARRAY + ["realign"])
    else:
        names = random_names(rng, c["n"])
    out = p.go(names)
    ctx.note(" ".join(names)[:80])
    ctx.true(len(out) >= 0, "ran")
