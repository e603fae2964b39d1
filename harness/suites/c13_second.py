"""C13: distributed second derivative equals the serial second derivative."""
import pylops
from pylops_mpi import MPISecondDerivative
from suites import c12_first as base

WIDE = .06
STRUCT = .08
CONF = [(k, e) for k in ("forward", "backward", "centered") for e in (False, True)]


def need(kind, edge):
    return 3 if edge and kind == "centered" else 2


def minn_(c):
    """least number of points at all (one process needs no neighbours' rows)"""
    return 3 if c == ("centered", True) else 1


def gen(rng, P, i, tier):
    return base.gen(rng, P, i, tier, conf=CONF, need=need, minn=minn_)


def make(ctx, c):
    kind, edge = c["cf"]
    dims = tuple(c["dims"])
    d = dims if len(dims) > 1 or c["ds"] % 2 else dims[0]
    op = base.build(base.np.random.default_rng(c["ds"]), MPISecondDerivative, "second", dict(dims=d, sampling=c["samp"], kind=kind, edge=edge, dtype=c["dt"], **ctx.kw()))
    s = pylops.SecondDerivative(dims=dims, axis=0, sampling=c["samp"], kind=kind, edge=edge, dtype=c["dt"])
    return op, s, need(kind, edge) if ctx.size > 1 else minn_((kind, edge))


def run(ctx, c):
    base.run(ctx, c, make=make, power=2)
