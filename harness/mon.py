"""Monitors installed in every rank process before pylops_mpi is imported.

* MonComm: recording (and perturbing) subclass of MPI.Intracomm, installed as MPI.COMM_WORLD.
* Event log: one memory-mapped file per rank, readable by the driver while the rank is blocked.
* Poisoned numpy.empty: uninitialised memory shows as NaN / huge integers.
"""
import json
import mmap
import os
import struct
import time
import zlib

import numpy as np
from mpi4py import MPI

HDR = struct.Struct("<QqIId")          # seq, case, state, nrec, time
REC = struct.Struct("<HBBIiiIf")       # op, phase, kind, comm, peer, tag, sig, dt
HDR_SIZE = 64
MAXREC = 200000
RUN, DONE, EXITED, PRIV = 0, 1, 2, 3
COLL, SEND, RECV, CTL, WAIT = 0, 1, 2, 3, 4

OPS = ["?"]
OPIDX = {}


def opidx(name):
    i = OPIDX.get(name)
    if i is None:
        i = OPIDX[name] = len(OPS)
        OPS.append(name)
    return i


class Board:
    def __init__(self, path, create=True):
        size = HDR_SIZE + MAXREC * REC.size
        if create:
            with open(path, "wb") as f:
                f.truncate(size)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), size)
        self.seq = 0
        self.case = -1
        self.state = RUN
        self.n = 0
        self.t0 = time.monotonic()

    def hdr(self):
        self.seq += 1
        HDR.pack_into(self.m, 0, self.seq, self.case, self.state, self.n, time.monotonic())

    def start_case(self, case):
        self.case, self.n, self.state = case, 0, RUN
        self.t0 = time.monotonic()
        self.hdr()

    def set_state(self, s):
        self.state = s
        self.hdr()

    def enter(self, op, kind, cid, peer, tag, sig):
        i = self.n
        if i < MAXREC:
            REC.pack_into(self.m, HDR_SIZE + i * REC.size, op, 0, kind, cid, peer, tag, sig,
                          time.monotonic() - self.t0)
        self.n = i + 1
        self.hdr()
        return i

    def leave(self, i, peer=None, tag=None):
        if i < MAXREC:
            o = HDR_SIZE + i * REC.size
            struct.pack_into("<B", self.m, o + 2, 1)
            if peer is not None:
                struct.pack_into("<ii", self.m, o + 8, peer, tag)
        self.hdr()


class Mon:
    """Per-process monitor state."""

    def __init__(self):
        self.board = None
        self.rank = 0
        self.events = []            # (kind, cid, name, sig, peer, tag) of the current case
        self.commfile = None
        self.known = set()
        self.created = 0
        self.freed = 0
        self.live = {}
        self.sync = False
        self.delay = None           # (rng, prob, maxdelay)
        self.total_events = 0
        self.quiet = False
        self.budget = 150000

    def register(self, cid, comm):
        if cid in self.known:
            return
        self.known.add(cid)
        try:
            g = comm.Get_group()
            w = RAW_WORLD.Get_group()
            members = MPI.Group.Translate_ranks(g, list(range(g.Get_size())), w)
            members = [int(x) for x in members]
            g.Free()
            w.Free()
        except Exception:
            members = None
        if self.commfile:
            self.commfile.write(json.dumps([cid, members]) + "\n")
            self.commfile.flush()


class Runaway(RuntimeError):
    pass


M = Mon()
RAW_WORLD = MPI.COMM_WORLD
_OPNAMES = {}


def _opname(op):
    k = id(op)
    v = _OPNAMES.get(k)
    if v is None:
        v = getattr(op, "__name__", "op")
        for n in ("SUM", "MAX", "MIN", "PROD", "LAND", "LOR", "BAND", "BOR", "MAXLOC", "MINLOC"):
            if op == getattr(MPI, n):
                v = n
        if len(_OPNAMES) < 100:
            _OPNAMES[k] = v
            _OPNAMES[("keep", k)] = op
    return v


def _cid(s):
    return zlib.crc32(s.encode()) & 0xFFFFFFFF


def _perturb():
    d = M.delay
    if d is not None:
        rng, prob, mx = d
        if rng.random() < prob:
            time.sleep(rng.random() * mx)


class MonComm(MPI.Intracomm):
    """Recording communicator.  Attributes are per Python object; children are re-wrapped."""

    def __new__(cls, comm=None):
        return super().__new__(cls, comm)

    def __init__(self, comm=None):
        self._mon_id = "w"
        self._mon_cid = 1
        self._mon_n = 0

    def _child(self, comm, how, color=0):
        key = f"{self._mon_id}/{self._mon_n}.{how}.{color}"
        self._mon_n += 1
        if comm is None or comm == MPI.COMM_NULL:
            return comm
        c = MonComm(comm)
        c._mon_id = key if len(key) < 60 else f"h{_cid(key)}"
        c._mon_cid = _cid(key)
        c._mon_n = 0
        M.created += 1
        if not M.quiet:
            M.register(c._mon_cid, c)
        return c


def _buf_sig(b):
    if isinstance(b, np.ndarray):
        return f"{b.size}{b.dtype.str}"
    return ""


def _coll_sig(name, args, kw):
    """What must agree on all ranks: root, reduction, and for buffers the element count and type."""
    low = name.lower().lstrip("i") if name[0] == "I" else name.lower()
    parts = [name]
    if low in ("bcast", "gather", "scatter", "reduce", "gatherv", "scatterv"):
        pos = {"bcast": 1, "gather": 2, "scatter": 2, "gatherv": 2, "scatterv": 2, "reduce": 3}
        if name == "reduce":
            p = 2
        elif name in ("gather", "scatter"):
            p = 1
        else:
            p = pos[low]
        root = kw.get("root", args[p] if len(args) > p else 0)
        parts.append(f"r{root}")
    if low in ("reduce", "allreduce", "scan", "exscan", "reduce_scatter", "reduce_scatter_block"):
        op = kw.get("op")
        if op is None:
            for a in args[1:]:
                if isinstance(a, MPI.Op):
                    op = a
        parts.append(_opname(op) if op is not None else "SUM")
    if name[0].isupper():
        if low in ("bcast",):
            parts.append(_buf_sig(args[0] if args else kw.get("buf")))
        elif low in ("allreduce", "reduce", "scan", "exscan", "allgather"):
            b = args[0] if args else kw.get("sendbuf")
            parts.append(_buf_sig(b))
    return "|".join(parts)


COLLS = ["barrier", "bcast", "gather", "scatter", "allgather", "alltoall", "reduce", "allreduce", "scan", "exscan",
         "Barrier", "Bcast", "Gather", "Gatherv", "Scatter", "Scatterv", "Allgather", "Allgatherv", "Alltoall",
         "Alltoallv", "Alltoallw", "Reduce", "Allreduce", "Reduce_scatter", "Reduce_scatter_block", "Scan", "Exscan",
         "Ibarrier", "Ibcast", "Igather", "Igatherv", "Iscatter", "Iscatterv", "Iallgather", "Iallgatherv",
         "Ialltoall", "Ialltoallv", "Ireduce", "Iallreduce"]
CTLS = ["Split", "Dup", "Create", "Split_type", "Clone", "Create_group"]


def _budget():
    if len(M.events) > M.budget:
        raise Runaway("more than %d MPI calls in one case" % M.budget)


def _wrap_coll(name):
    base = getattr(MPI.Intracomm, name, None) or getattr(MPI.Comm, name)
    idx = opidx(name)

    def f(self, *args, **kw):
        sig = _coll_sig(name, args, kw)
        if not M.quiet:
            _perturb()
            M.events.append((COLL, self._mon_cid, name, sig, -1, -1))
            _budget()
        i = M.board.enter(idx, COLL, self._mon_cid, -1, -1, _cid(sig))
        try:
            r = base(self, *args, **kw)
        finally:
            M.board.leave(i)
        if isinstance(r, MPI.Request):
            r = MonRequest(r)
        return r
    f.__name__ = name
    setattr(MonComm, name, f)


def _wrap_ctl(name):
    base = getattr(MPI.Intracomm, name, None) or getattr(MPI.Comm, name)
    idx = opidx(name)

    def f(self, *args, **kw):
        if M.quiet:
            return self._child(base(self, *args, **kw), name, args[0] if args and name == "Split" else kw.get("color", 0))
        _perturb()
        color = 0
        if name == "Split":
            color = kw.get("color", args[0] if args else 0)
        kind = CTL if name == "Create_group" else COLL
        M.events.append((kind, self._mon_cid, name, name, -1, -1))
        _budget()
        i = M.board.enter(idx, kind, self._mon_cid, -1, -1, _cid(name))
        try:
            r = base(self, *args, **kw)
        finally:
            M.board.leave(i)
        return self._child(r, name, color)
    f.__name__ = name
    setattr(MonComm, name, f)


def _free(name):
    base = getattr(MPI.Comm, name)

    def f(self):
        M.freed += 1
        return base(self)
    f.__name__ = name
    setattr(MonComm, name, f)


class MonRequest(MPI.Request):
    def __new__(cls, req=None):
        return super().__new__(cls, req)


def _wrap_wait(name):
    base = getattr(MPI.Request, name)
    idx = opidx("Request." + name)

    def f(self, *a, **k):
        i = M.board.enter(idx, WAIT, 0, -1, -1, 0)
        try:
            return base(self, *a, **k)
        finally:
            M.board.leave(i)
    setattr(MonRequest, name, f)


def _wrap_send(name):
    sync = {"send": "ssend", "isend": "issend", "Send": "Ssend", "Isend": "Issend"}.get(name, name)
    b0 = getattr(MPI.Comm, name)
    b1 = getattr(MPI.Comm, sync)
    idx = opidx(name)

    def f(self, *args, **kw):
        base = b1 if M.sync else b0
        if M.quiet:
            return base(self, *args, **kw)
        dest = kw["dest"] if "dest" in kw else args[1]
        tag = kw["tag"] if "tag" in kw else (args[2] if len(args) > 2 else 0)
        if dest == MPI.PROC_NULL:
            return base(self, *args, **kw)
        _perturb()
        M.events.append((SEND, self._mon_cid, name, "", dest, tag))
        _budget()
        i = M.board.enter(idx, SEND, self._mon_cid, dest, tag, 0)
        try:
            r = base(self, *args, **kw)
        finally:
            M.board.leave(i)
        if isinstance(r, MPI.Request):
            r = MonRequest(r)
        return r
    f.__name__ = name
    setattr(MonComm, name, f)


def _wrap_recv(name):
    base = getattr(MPI.Comm, name)
    idx = opidx(name)
    nonblock = name[0] in "iI"

    def f(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        if M.quiet:
            return base(self, buf, source, tag) if nonblock else base(self, buf, source, tag, status)
        if source == MPI.PROC_NULL:
            return base(self, buf, source, tag) if nonblock else base(self, buf, source, tag, status)
        _perturb()
        i = M.board.enter(idx, RECV, self._mon_cid, source, tag, 0)
        p, t = source, tag
        try:
            if nonblock:
                r = MonRequest(base(self, buf, source, tag))
            else:
                st = MPI.Status() if status is None else status
                r = base(self, buf, source, tag, st)
                p, t = st.Get_source(), st.Get_tag()
        except BaseException:
            M.board.leave(i)
            raise
        M.board.leave(i, p, t)
        M.events.append((RECV, self._mon_cid, name, "", p, t))
        _budget()
        return r
    f.__name__ = name
    setattr(MonComm, name, f)


def _sendrecv(name):
    base = getattr(MPI.Comm, name)
    idx = opidx(name)

    def f(self, sendobj, dest, sendtag=0, recvbuf=None, source=MPI.ANY_SOURCE, recvtag=MPI.ANY_TAG, status=None):
        if M.quiet:
            return base(self, sendobj, dest, sendtag, recvbuf, source, recvtag, status)
        _perturb()
        st = MPI.Status() if status is None else status
        if dest != MPI.PROC_NULL:
            M.events.append((SEND, self._mon_cid, name, "", dest, sendtag))
            i0 = M.board.enter(idx, SEND, self._mon_cid, dest, sendtag, 0)
            M.board.leave(i0)
        i = M.board.enter(idx, RECV, self._mon_cid, source, recvtag, 0)
        try:
            r = base(self, sendobj, dest, sendtag, recvbuf, source, recvtag, st)
        finally:
            M.board.leave(i)
        if source != MPI.PROC_NULL:
            M.events.append((RECV, self._mon_cid, name, "", st.Get_source(), st.Get_tag()))
        return r
    f.__name__ = name
    setattr(MonComm, name, f)


for _n in COLLS:
    if hasattr(MPI.Intracomm, _n):
        _wrap_coll(_n)
for _n in CTLS:
    _wrap_ctl(_n)
for _n in ("Free", "Disconnect"):
    _free(_n)
for _n in ("wait", "Wait"):
    _wrap_wait(_n)
for _n in ("send", "ssend", "bsend", "isend", "issend", "Send", "Ssend", "Bsend", "Isend", "Issend"):
    _wrap_send(_n)
for _n in ("recv", "Recv", "irecv", "Irecv"):
    _wrap_recv(_n)
for _n in ("sendrecv", "Sendrecv"):
    _sendrecv(_n)

# ---------------------------------------------------------------- poison
_real_empty = np.empty


def _poison_empty(*args, **kw):
    a = _real_empty(*args, **kw)
    try:
        k = a.dtype.kind
        if k in "fc":
            a.fill(np.nan)
        elif k in "iu":
            a.fill(np.iinfo(a.dtype).max // 3)
        elif k == "b":
            a.fill(True)
    except Exception:
        pass
    return a


def install(board_dir):
    """Replace COMM_WORLD and np.empty.  Must run before pylops_mpi is imported."""
    global RAW_WORLD
    RAW_WORLD = MPI.COMM_WORLD
    M.rank = RAW_WORLD.Get_rank()
    M.board = Board(os.path.join(board_dir, f"ev.{M.rank}"))
    with open(os.path.join(board_dir, f"pid.{M.rank}"), "w") as f:
        f.write(str(os.getpid()))
    M.commfile = open(os.path.join(board_dir, f"comms.{M.rank}"), "w")
    with open(os.path.join(board_dir, f"ops.{M.rank}"), "w") as f:
        json.dump(OPS, f)
    priv = RAW_WORLD.Dup()
    w = MonComm(RAW_WORLD)
    M.known.add(1)
    M.commfile.write(json.dumps([1, list(range(RAW_WORLD.Get_size()))]) + "\n")
    M.commfile.flush()
    MPI.COMM_WORLD = w
    np.empty = _poison_empty
    return w, priv
