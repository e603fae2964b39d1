"""One rank of one world: runs the cases of one suite under the monitors.

usage: worker.py SUITE SEED TIER OUTDIR START COUNT TIMECAP [SYNC]
"""
import ctypes
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True
try:
    ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)
except Exception:
    pass
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import importlib
import json
import time
import traceback
import warnings
import zlib

import numpy as np
import mon
from mon import M, MPI

SUITE, SEED, TIER, OUT, START, COUNT, CAP = (sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4],
                                              int(sys.argv[5]), int(sys.argv[6]), float(sys.argv[7]))
WORLD, PRIV = mon.install(OUT)
_log = open(os.path.join(OUT, f"stdout.{M.rank}"), "w")
os.dup2(_log.fileno(), 1)
import pylops                                                   # noqa: E402,F401
import pylops.optimization.basesolver, pylops.signalprocessing, pylops.waveeqprocessing   # noqa: E402,E401,F401
sys.pycache_prefix = os.path.join(OUT, "pyc")                   # never trust cached bytecode of the code under test

if SUITE != "c29_plot":                                         # matplotlib is slow to import and only C29 needs it
    import types
    for _m in ("matplotlib", "matplotlib.pyplot"):
        _s = types.ModuleType(_m)
        _s.__getattr__ = lambda name: (_ for _ in ()).throw(AttributeError(name)) if name.startswith("__") else (lambda *a, **k: None)
        sys.modules[_m] = _s
    sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]
try:
    import pylops_mpi                                           # noqa: E402
except Exception:
    for _m in [m for m in sys.modules if m.split(".")[0] in ("matplotlib", "pylops_mpi")]:
        del sys.modules[_m]
    import pylops_mpi                                           # noqa: E402
assert os.path.realpath(pylops_mpi.__file__).startswith(os.path.realpath(REPO)), pylops_mpi.__file__
import lib                                                      # noqa: E402

suite = importlib.import_module("suites." + SUITE)
P = WORLD.Get_size()
rank = M.rank


def trace_summary():
    colls, sends, recvs = {}, {}, {}
    for kind, cid, name, sig, peer, tag in M.events:
        if kind == mon.COLL:
            colls.setdefault(cid, []).append(sig)
        elif kind == mon.SEND:
            k = (cid, peer, tag)
            sends[k] = sends.get(k, 0) + 1
        elif kind == mon.RECV:
            k = (cid, peer, tag)
            recvs[k] = recvs.get(k, 0) + 1
    return ({c: (len(v), zlib.crc32("\n".join(v).encode()), v[:40] if len(v) <= 40 else v[-40:]) for c, v in colls.items()},
            sends, recvs)


_members = {1: list(range(P))}


def check_trace(allsum, members):
    """Rank 0: same collectives per communicator on all members; all messages consumed."""
    out = []
    cids = set()
    for c, s, r in allsum:
        cids |= set(c)
    for cid in cids:
        have = {r: allsum[r][0][cid] for r in range(P) if cid in allsum[r][0]}
        mem = members.get(cid) or sorted(have)
        ref = None
        for r in mem:
            h = have.get(r, (0, 0, []))
            if ref is None:
                ref = (r, h)
            elif h[:2] != ref[1][:2]:
                out.append(("collective-mismatch",
                            f"communicator {'world' if cid == 1 else hex(cid)} members {mem}: rank {ref[0]} issued {ref[1][0]} collectives {ref[1][2][-6:]}, "
                            f"rank {r} issued {h[0]} {h[2][-6:]}"))
                break
        for r in have:
            if r not in mem:
                out.append(("foreign-communicator", f"rank {r} used a communicator it does not belong to"))
    bal = {}
    for r in range(P):
        c, s, rc = allsum[r]
        for (cid, peer, tag), n in s.items():
            mem = members.get(cid)
            dst = mem[peer] if mem else peer
            bal[(cid, r, dst, tag)] = bal.get((cid, r, dst, tag), 0) + n
        for (cid, peer, tag), n in rc.items():
            mem = members.get(cid)
            src = mem[peer] if mem else peer
            bal[(cid, src, r, tag)] = bal.get((cid, src, r, tag), 0) - n
    for k, n in bal.items():
        if n:
            out.append(("message-balance", f"messages {k[1]}->{k[2]} tag {k[3]}: sent minus received = {n}"))
    return out


def load_members():
    d = {1: list(range(P))}
    for r in range(P):
        try:
            for line in open(os.path.join(OUT, f"comms.{r}")):
                cid, mem = json.loads(line)
                if mem is not None:
                    d[cid] = mem
        except Exception:
            pass
    return d


def barrier():
    """Barrier on the private communicator: spins briefly, then sleeps."""
    req = PRIV.Ibarrier()
    n = 0
    while not req.Test():
        n += 1
        if n > 2000:
            time.sleep(0.0005)


def main():
    out = open(os.path.join(OUT, "cases.jsonl"), "a") if rank == 0 else None
    t0 = time.monotonic()
    ctxbase = lib.Base(WORLD, PRIV, mon, TIER, SEED, P, rank, suite)
    M.quiet = True
    lib.WIDE, lib.STRUCT, lib.NONFIN, lib.INTX = (getattr(suite, k, 0.) for k in ("WIDE", "STRUCT", "NONFIN", "INTX"))
    if hasattr(suite, "setup"):
        suite.setup(ctxbase)
    M.quiet = False
    stop = False
    idx = START
    end = START + COUNT
    members_cache = {}
    while idx < end and not stop:
        g = np.random.default_rng([SEED, P, idx, zlib.crc32(SUITE.encode())])
        case = suite.gen(g, P, idx, TIER)
        if case is None:
            idx += 1
            continue
        if M.board.n > mon.MAXREC:
            pass
        M.events = []
        M.sync = bool(case.get("sync"))
        M.delay = None
        if case.get("delay"):
            M.delay = (np.random.default_rng([SEED, idx, rank]), 0.25, float(case["delay"]))
        ctx = lib.Ctx(ctxbase, case, idx, np.random.default_rng([SEED, P, idx, 7]))
        M.board.start_case(idx)
        exc = None
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            try:
                suite.run(ctx, case)
            except BaseException as e:                       # noqa
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                exc = (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
        for w in wl:
            if "ComplexWarning" in w.category.__name__:
                ctx.warned.append(f"{w.category.__name__} at {os.path.basename(str(w.filename))}:{w.lineno}")
        M.sync = False
        M.delay = None
        if exc:
            with open(os.path.join(OUT, f"exc.{rank}"), "w") as fe:
                json.dump([idx, exc], fe)
        M.board.set_state(mon.DONE)
        barrier()
        M.board.set_state(mon.PRIV)
        M.total_events += len(M.events)
        ev = len(M.events)
        payload = (exc, ctx.fails, ctx.reps, trace_summary(), ctx.checks, ev, ctx.warned, ctx.notes)
        allp = PRIV.allgather(payload)
        leftover = False
        try:
            leftover = mon.RAW_WORLD.Iprobe(MPI.ANY_SOURCE, MPI.ANY_TAG)
        except Exception:
            pass
        left = PRIV.allgather(bool(leftover)) if any(p[3][1] for p in allp) else [False]
        if rank == 0:
            viol = []
            excs = [(r, p[0]) for r, p in enumerate(allp) if p[0]]
            if excs:
                kinds = {e[0] for _, e in excs}
                if len(excs) == P and len(kinds) == 1:
                    viol.append(["exception", f"{excs[0][1][0]}: {excs[0][1][1]} on all ranks", excs[0][1][2]])
                else:
                    viol.append(["divergent-exception", "; ".join(f"rank {r}: {e[0]}: {e[1][:120]}" for r, e in excs)
                                 + f" ({len(excs)} of {P} ranks)", excs[0][1][2]])
            for r, p in enumerate(allp):
                for k, m in p[1][:6]:
                    viol.append([k, f"rank {r}: {m}", ""])
            names = [[n for n, _ in p[2]] for p in allp]
            if not excs:
                if ctx.expect_same_reps and any(n != names[0] for n in names):
                    viol.append(["replication-order", f"ranks made different observations: {names[0][-3:]} / {[n for n in names if n != names[0]][0][-3:]}", ""])
                else:
                    for j in range(len(names[0]) if ctx.expect_same_reps else 0):
                        vals = [p[2][j][1] for p in allp]
                        if any(v != vals[0] for v in vals):
                            bad = [r for r in range(P) if vals[r] != vals[0]]
                            viol.append(["replicated-differ", f"{names[0][j]} differs between rank 0 ({vals[0][:80]}) and ranks {bad} ({vals[bad[0]][:80]})", ""])
            if ctx.check_trace:
                anysub = any(c != 1 for p in allp for c in p[3][0])
                mem = load_members() if anysub or any(p[3][1] for p in allp) else {1: list(range(P))}
                for k, m in check_trace([p[3] for p in allp], mem):
                    viol.append([k, m, ""])
                if any(left):
                    viol.append(["leftover-message", f"undelivered messages for ranks {[r for r, x in enumerate(left) if x]}", ""])
            if ctx.check_warn:
                for r, p in enumerate(allp):
                    for w in p[6][:2]:
                        viol.append(["complex-warning", f"rank {r}: imaginary part discarded: {w}", ""])
            rec = {"i": idx, "P": P, "kind": case.get("kind", ""), "key": zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()),
                   "ev": sum(p[5] for p in allp), "checks": sum(p[4] for p in allp), "reps": sum(len(p[2]) for p in allp),
                   "notes": allp[0][7], "sub": len({c for p in allp for c in p[3][0]})}
            if viol:
                rec["viol"] = viol[:8]
                rec["case"] = case
            elif idx < START + 3:
                rec["case"] = case
            out.write(json.dumps(rec, default=str) + "\n")
            out.flush()
            stop = time.monotonic() - t0 > CAP
            if CAP < 0:
                stop = False
        stop = PRIV.bcast(stop)
        idx += 1
    M.board.case = idx
    M.board.set_state(mon.EXITED)
    if rank == 0:
        out.write(json.dumps({"end": idx, "complete": idx >= end}) + "\n")
        out.flush()
    barrier()
    sys.stderr.flush()


try:
    main()
except BaseException:
    traceback.print_exc()
    sys.stderr.flush()
    mon.RAW_WORLD.Abort(99)
