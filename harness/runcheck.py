#!/usr/bin/env python3
"""Driver: runs the worlds of one property's suite, watches for deadlock, writes evidence, gives the verdict.

usage: runcheck.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--verbose]
exit 0 held, 1 violation (VIOLATION line), 3 inconclusive
"""
import argparse
import json
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from plan import PLAN                                           # noqa: E402

PY = "/opt/venv/bin/python"
HDR = struct.Struct("<QqIId")
REC = struct.Struct("<HBBIiiIf")
HDR_SIZE, MAXREC = 64, 200000
RUN, DONE, EXITED, PRIV = 0, 1, 2, 3
COLL, SEND, RECV, CTL, WAIT = 0, 1, 2, 3, 4
STALL = 1.5            # seconds without any event before the logs are analysed
UNKNOWN_STALL = 90.0   # nothing moves and the logs do not explain why: inconclusive


class World:
    def __init__(self, prop, suite, P, seed, tier, start, count, cap, scratch):
        self.prop, self.suite, self.P, self.seed, self.tier = prop, suite, P, seed, tier
        self.start, self.end, self.cap = start, start + count, cap
        self.scratch = scratch
        self.viol = []          # dicts
        self.stats = []         # per case records
        self.proc = None
        self.done = False
        self.hangs = 0
        self.note = []
        self.gen = 0
        self.incon = None
        self.t_start = time.monotonic()

    def launch(self, start=None):
        if start is not None:
            self.start = start
        self.gen += 1
        self.dir = os.path.join(self.scratch, f"w{self.P}_{self.gen}")
        os.makedirs(self.dir)
        os.makedirs(self.dir + "/tmp")
        env = dict(os.environ)
        env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   TMPDIR=self.dir + "/tmp", PYTHONHASHSEED="0",)
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONPYCACHEPREFIX", None)
        left = max(1.0, self.cap - (time.monotonic() - self.t_start))
        cmd = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(self.P),
               "--mca", "btl", "self,vader", "--mca", "btl_vader_single_copy_mechanism", "none",
               "--mca", "mpi_yield_when_idle", "1",
               PY, os.path.join(HERE, "worker.py"), self.suite, str(self.seed), self.tier, self.dir,
               str(self.start), str(self.end - self.start), str(left)]
        self.err = open(self.dir + "/stderr", "w")
        self.proc = subprocess.Popen(cmd, stdout=self.err, stderr=self.err, env=env, stdin=subprocess.DEVNULL,
                                     start_new_session=True, cwd=self.dir)
        self.maps = {}
        self.last = None
        self.last_t = time.monotonic()
        self.read = 0
        self.complete = False
        self.next = self.start

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGTERM)
            except ProcessLookupError:
                pass
            try:
                self.proc.wait(1.0)
            except subprocess.TimeoutExpired:
                pass
            # ranks run in process groups of their own: each one left its pid in the world directory
            for r in range(self.P):
                try:
                    pid = int(open(f"{self.dir}/pid.{r}").read())
                    if self.dir.encode() in open(f"/proc/{pid}/cmdline", "rb").read():
                        os.kill(pid, signal.SIGKILL)
                except (OSError, ValueError):
                    pass
            try:
                self.proc.wait(5)
            except subprocess.TimeoutExpired:
                os.killpg(self.proc.pid, signal.SIGKILL)
                self.proc.wait()
        if self.proc:
            self.err.close()

    # -------------------------------------------------------------- reading
    def pump(self):
        p = self.dir + "/cases.jsonl"
        if not os.path.exists(p):
            return
        with open(p) as f:
            f.seek(self.read)
            while True:
                pos = f.tell()
                line = f.readline()
                if not line.endswith("\n"):
                    self.read = pos
                    break
                d = json.loads(line)
                if "end" in d:
                    self.complete = True
                    self.next = d["end"]
                    self.full = d["complete"]
                    continue
                self.next = d["i"] + 1
                self.stats.append(d)
                for key, msg, tb in d.get("viol", []):
                    self.viol.append({"i": d["i"], "kind": d["kind"], "key": key, "msg": msg, "tb": tb, "case": d.get("case")})

    def headers(self):
        out = []
        for r in range(self.P):
            m = self.maps.get(r)
            if m is None:
                p = f"{self.dir}/ev.{r}"
                if not os.path.exists(p) or os.path.getsize(p) < HDR_SIZE + REC.size * MAXREC:
                    return None
                f = open(p, "rb")
                m = self.maps[r] = mmap.mmap(f.fileno(), 0, prot=mmap.PROT_READ)
                f.close()
            out.append(HDR.unpack_from(m, 0))
        return out

    def records(self, r, n):
        m = self.maps[r]
        return [REC.unpack_from(m, HDR_SIZE + i * REC.size) for i in range(min(n, MAXREC))]

    def members(self):
        d = {}
        for r in range(self.P):
            try:
                for line in open(f"{self.dir}/comms.{r}"):
                    cid, mem = json.loads(line)
                    d[cid] = mem
            except Exception:
                pass
        return d

    def analyse(self, hdr):
        """Nothing has moved: ('deadlock', text) if provably no blocked call can complete, else (None, why)."""
        ops = json.load(open(f"{self.dir}/ops.0"))
        mem = self.members()
        recs, blocked, text = {}, {}, []
        case = max(h[1] for h in hdr)
        for r, (seq, c, st, n, t) in enumerate(hdr):
            if c != case and st != DONE:
                return None, f"rank {r} in case {c}, others in {case}"
            recs[r] = self.records(r, n)
            if st == DONE or (c < case):
                text.append(f"rank {r}: finished the case")
                continue
            if st != RUN:
                return None, f"rank {r} state {st}"
            if not recs[r] or recs[r][-1][1] != 0:
                return None, f"rank {r} is computing outside MPI"
            blocked[r] = recs[r][-1]
            o = recs[r][-1]
            text.append(f"rank {r}: blocked in {ops[o[0]]} on {'world' if o[3] == 1 else hex(o[3])}"
                        + (f" peer {o[4]} tag {o[5]}" if o[2] in (SEND, RECV) else "")
                        + f" (call {len(recs[r])} of the case)")
        if not blocked:
            return None, "all ranks finished"
        colls = {r: {} for r in recs}
        for r, rr in recs.items():
            for o in rr:
                if o[2] == COLL:
                    colls[r].setdefault(o[3], []).append(o)
        for r, o in blocked.items():
            if o[2] in (WAIT, CTL):
                return None, f"rank {r} waits on a request"
            cid = o[3]
            m = mem.get(cid)
            if m is None:
                return None, "unknown communicator"
            if o[2] == COLL:
                k = len(colls[r][cid])
                cnt = {q: len(colls[q].get(cid, [])) for q in m}
                if all(v >= k for v in cnt.values()):
                    sigs = {q: colls[q][cid][k - 1] for q in m}
                    s0 = sigs[m[0]]
                    if all(s[0] == s0[0] and s[6] == s0[6] for s in sigs.values()):
                        return None, f"rank {r}: collective can complete"
                    text.append(f"collective number {k} differs: " + ", ".join(f"rank {q}: {ops[s[0]]}" for q, s in sigs.items()))
            else:
                me = m.index(r)
                if o[2] == RECV:
                    if o[4] < 0 or o[5] < 0:
                        return None, "wildcard receive"
                    src = m[o[4]]
                    sent = sum(1 for x in recs[src] if x[2] == SEND and x[3] == cid and x[4] == me and x[5] == o[5])
                    got = sum(1 for x in recs[r] if x[2] == RECV and x[1] == 1 and x[3] == cid and x[4] == o[4] and x[5] == o[5])
                    if sent > got:
                        return None, f"rank {r}: message available"
                else:
                    dst = m[o[4]]
                    sent = sum(1 for x in recs[r] if x[2] == SEND and x[3] == cid and x[4] == o[4] and x[5] == o[5])
                    posted = sum(1 for x in recs[dst] if x[2] == RECV and x[3] == cid and x[4] in (me, -1, -2) and x[5] in (o[5], -1, -2))
                    if posted >= sent:
                        return None, f"rank {r}: matching receive posted"
        for r in range(self.P):
            try:
                i, e = json.load(open(f"{self.dir}/exc.{r}"))
                if i == case:
                    text.append(f"rank {r} had raised {e[0]}: {e[1][:150]}")
            except Exception:
                pass
        return "deadlock", "; ".join(text)

    def poll(self):
        """One watch step; returns True when the world is finished."""
        if self.done:
            return True
        self.pump()
        rc = self.proc.poll()
        if rc is not None:
            self.pump()
            self.err.close()
            if self.complete:
                self.done = True
                return True
            err = open(self.dir + "/stderr").read()[-3000:]
            self.note.append(f"world P={self.P} died rc={rc} at case {self.next}: {err}")
            self.died = True
            self.incon = f"world P={self.P} died (rc={rc}) at case {self.next}"
            self.done = True
            return True
        now = time.monotonic()
        hdr = self.headers()
        sig = None if hdr is None else tuple(h[0] for h in hdr)
        if sig != self.last:
            self.last, self.last_t, self.why = sig, now, None
            return False
        idle = now - self.last_t
        if hdr is not None and idle > STALL and not self.complete:
            res, why = self.analyse(hdr)
            if res:
                # confirm on a second, unchanged snapshot
                time.sleep(0.3)
                h2 = self.headers()
                if tuple(h[0] for h in h2) != sig:
                    return False
                i = max(h[1] for h in hdr)
                self.hangs += 1
                self.pump()
                self.viol.append({"i": i, "kind": None, "key": "deadlock", "msg": why, "tb": "", "case": None})
                self.kill()
                if self.hangs >= 3 or i + 1 >= self.end:
                    self.done = True
                    return True
                self.launch(i + 1)
                return False
            self.why = why
        if idle > UNKNOWN_STALL:
            self.incon = f"world P={self.P}: no progress for {UNKNOWN_STALL:.0f} s ({getattr(self, 'why', None)})"
            self.kill()
            self.done = True
            return True
        return False


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


def classify(v, known):
    for k in known:
        if re.search(k["kind"], str(v["kind"])) and re.search(k["key"], v["key"]) and re.search(k.get("msg", ""), v["msg"], re.S):
            return k
    return None


def case_of(suite, seed, P, i, tier):
    """Case parameters (regenerated in a short-lived process so that the driver never imports MPI)."""
    code = f"import sys,json,zlib;sys.path.insert(0,{HERE!r});sys.path.insert(0,'/repo');sys.dont_write_bytecode=True;import numpy as np,importlib;" \
           f"s=importlib.import_module('suites.{suite}');g=np.random.default_rng([{seed},{P},{i},zlib.crc32({suite!r}.encode())]);" \
           f"print('CASE'+json.dumps(s.gen(g,{P},{i},{tier!r}),default=str))"
    try:
        o = subprocess.run([PY, "-c", code], capture_output=True, text=True, timeout=60).stdout
        return json.loads(o.split("CASE", 1)[1])
    except Exception:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violations")
    ap.add_argument("--worlds", help="only these P, comma separated")
    ap.add_argument("--count", type=int)
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    plan = PLAN[prop]
    suite = plan["suite"]
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    stop_sig = {"s": False}
    signal.signal(signal.SIGTERM, lambda *x: stop_sig.__setitem__("s", True))
    worlds = []
    try:
        rp = None
        if a.replay:
            rp = json.load(open(a.replay))
            seed, tier = rp["seed"], rp["tier"]
            batches = [[(rp["P"], rp["case_index"], 1)]]
            cap, deadline = 300, 320
        else:
            conf = plan[tier]
            batches = [[(P, 0, a.count or n) for P, n in b] for b in conf["batches"]]
            if a.worlds:
                want = [int(x) for x in a.worlds.split(",")]
                batches = [[t for t in b if t[0] in want] for b in batches]
                batches = [b for b in batches if b]
            cap, deadline = conf["cap"], conf["deadline"]
        known = load_known(prop)
        stopped = False
        for b in batches:
            ws = [World(prop, suite, P, seed, tier, st, n, cap, scratch) for P, st, n in b]
            worlds += ws
            for w in ws:
                w.launch()
            while not all([w.poll() for w in ws]):
                new = [v for w in worlds for v in w.viol if not classify_lazy(v, known, suite, seed, w, tier)]
                if (len({(v["i"]) for v in new}) >= 5 or sum(1 for v in new if v["key"] == "deadlock") >= 2) and not a.all:
                    stopped = True
                if time.monotonic() - t0 > deadline or stop_sig["s"]:
                    stopped = True
                    for w in ws:
                        if not w.done:
                            w.note.append("deadline reached")
                if stopped:
                    for w in ws:
                        if not w.done:
                            w.kill()
                            w.pump()
                            w.done = True
                    break
                time.sleep(0.04)
            if stopped:
                break
        # ------------------------------------------------------------ verdict
        viols = []
        kf = {}
        for w in worlds:
            for v in w.viol:
                k = classify_lazy(v, known, suite, seed, w, tier)
                if k:
                    kf.setdefault(k["id"], (k, []))[1].append(v)
                else:
                    viols.append((w, v))
        # a world that died while violations were found elsewhere does not matter; alone it is inconclusive
        incon = [w.incon for w in worlds if w.incon]
        stats = [(w.P, d) for w in worlds for d in w.stats]
        distinct = {(P, d["key"]) for P, d in stats if d["checks"] + d["reps"] > 0 and (d["ev"] > 0 or P == 1 or not plan.get("need_events", True))}
        kinds = {}
        for P, d in stats:
            kinds[d["kind"]] = kinds.get(d["kind"], 0) + 1
        samples = [{"P": P, "case": d["case"], "mpi_events": d["ev"], "checks": d["checks"]} for P, d in stats if "case" in d][:6]
        cov = {"evaluations": len(stats), "distinct_nontrivial": len(distinct),
               "rule": plan.get("rule", "cases are drawn from a seeded generator (round-robin over the kinds listed); distinct = different parameters or "
                                        "process count; non-trivial = at least one oracle comparison was evaluated and at least one MPI call was observed (or P=1)"),
               "samples": samples,
               "oracle_comparisons": sum(d["checks"] for _, d in stats),
               "replicated_values_compared": sum(d["reps"] for _, d in stats),
               "mpi_events_observed": sum(d["ev"] for _, d in stats),
               "communicators_seen": sum(d.get("sub", 0) for _, d in stats),
               "process_counts": {str(w.P): len(w.stats) for w in worlds},
               "kinds": kinds, "deadlock_stalls": sum(w.hangs for w in worlds),
               "known_finding_hits": {k: len(v[1]) for k, v in kf.items()},
               "worlds_complete": all(getattr(w, "full", False) for w in worlds)}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": plan.get("assumptions", []) + ["NumPy/SciPy/serial PyLops results are taken as the reference; Open MPI delivers messages correctly"],
              "wall_s": round(time.monotonic() - t0, 2), "violations": len(viols)}
        evd = os.environ.get("VP_EVIDENCE_DIR", os.path.join(ROOT, "evidence"))
        os.makedirs(evd, exist_ok=True)
        if not a.replay:
            with open(os.path.join(evd, f"{prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        for kid, (k, vs) in kf.items():
            print(f"KNOWN-FINDING: property={prop} {k['text']} [{len(vs)} occurrence(s)]")
        if viols:
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            uniq, seen = [], set()
            for w, v in viols:                       # one per case first, then distinct keys
                k = (w.P, v["i"], v["key"])
                if k not in seen:
                    seen.add(k)
                    uniq.append((w, v))
            for n, (w, v) in enumerate(uniq[:25 if a.all or a.verbose else 4]):
                if v["case"] is None:
                    v["case"] = case_of(suite, seed, w.P, v["i"], tier)
                path = os.path.join(rd, f"{prop}_{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": prop, "suite": suite, "seed": seed, "tier": tier, "P": w.P, "case_index": v["i"],
                               "case": v["case"], "key": v["key"], "message": v["msg"], "traceback": v["tb"],
                               "how": f"python3 harness/runcheck.py {prop} --replay {path}"}, f, indent=1, default=str)
                print(f"  P={w.P} case {v['i']} kind={v['kind']} [{v['key']}] {v['msg'][:700]}")
                if a.verbose:
                    print("   ", json.dumps(v["case"], default=str)[:800])
                    print("   ", v["tb"][-900:])
                print(f"VIOLATION property={prop} replay={path}", flush=True)
            return 1
        for w in worlds:
            for nt in w.note:
                print("note:", nt[-1500:])
        print(f"{prop} {tier} seed={seed}: {len(stats)} cases ({len(distinct)} distinct non-trivial), {cov['oracle_comparisons']} comparisons, "
              f"{cov['mpi_events_observed']} MPI events, P={cov['process_counts']}, {ev['wall_s']} s")
        if a.replay:
            print("replayed case held")
            return 0
        if incon:
            print("INCONCLUSIVE:", "; ".join(incon)[:2000])
            return 3
        planned = sum(n for b in batches for _, _, n in b)
        if len(stats) < planned * 0.2 or len(distinct) < min(20, planned * 0.2):
            print(f"INCONCLUSIVE: only {len(stats)} of {planned} cases ran, {len(distinct)} non-trivial")
            return 3
        return 0
    finally:
        for w in worlds:
            try:
                w.kill()
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def classify_lazy(v, known, suite, seed, w, tier):
    if not known:
        return None
    if v["kind"] is None:
        v["case"] = v["case"] or case_of(suite, seed, w.P, v["i"], tier)
        v["kind"] = (v["case"] or {}).get("kind", "?")
    return classify(v, known)


if __name__ == "__main__":
    sys.exit(main())
