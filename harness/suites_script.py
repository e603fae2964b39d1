"""Run a shipped example or tutorial with plotting stubbed out, and collect the distributed arrays it leaves behind."""
import contextlib
import io
import os
import runpy
import sys
import types
from unittest.mock import MagicMock

import numpy as np


def subplots(nrows=1, ncols=1, **kw):
    a = np.empty((nrows, ncols), object)
    for i in range(nrows):
        for j in range(ncols):
            a[i, j] = MagicMock()
    a = a if kw.get("squeeze") is False else a.squeeze()
    return MagicMock(), a if a.ndim else a.item()


def stub():
    m = types.ModuleType("matplotlib")
    p = types.ModuleType("matplotlib.pyplot")

    def ga(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "subplots":
            return subplots
        return lambda *a, **k: MagicMock()
    p.__getattr__ = ga
    m.__getattr__ = ga
    m.pyplot = p
    return m, p


def execute(repo, f):
    keep = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
    lp = sys.modules.get("pylops_mpi.plotting.plotting")
    old = getattr(lp, "plt", None)
    m, p = stub()
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = m, p
    if lp is not None:
        lp.plt = p
    cwd = os.getcwd()
    path = os.path.join(repo, f)
    os.chdir(os.path.dirname(path))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return runpy.run_path(path)
    finally:
        os.chdir(cwd)
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if lp is not None:
            lp.plt = old


def arrays(ns):
    import pylops_mpi
    return {k: v.asarray() for k, v in sorted(ns.items()) if not k.startswith("_") and isinstance(v, (pylops_mpi.DistributedArray, pylops_mpi.StackedDistributedArray))}
