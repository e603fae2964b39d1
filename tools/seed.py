#!/usr/bin/env python3
"""Development tool: plant the bugs of tools/seedbugs.py one at a time into a scratch clone of /repo, confirm each (original lines only,
builds, 304 stable tests pass, demo 0 on the clean tree and nonzero with the bug) and write /verif/seeded/<id>/.
usage: seed.py make [ids...]   |   seed.py catch [ids...]   (quick check of the property on the bugged tree)"""
import json, os, subprocess, sys, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "fb3ea2e"
sys.path.insert(0, ROOT + "/tools")
PRE = '''import os, sys, traceback
import numpy as np
from mpi4py import MPI
import pylops
import pylops_mpi
from pylops_mpi import DistributedArray, StackedDistributedArray, Partition
comm = MPI.COMM_WORLD
rank, size = comm.rank, comm.size


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.allclose(a, b, rtol=tol, atol=tol), (a, b)


def raises(exc, f):
    try:
        f()
    except exc:
        return
    raise AssertionError("not raised: %s" % (exc,))


def main():
@BODY@

try:
    main()
    comm.Barrier()
except BaseException:
    traceback.print_exc()
    sys.stderr.flush()
    comm.Abort(1)
'''
SH = '''#!/bin/bash
# run in /repo: exit 0 if the property holds for this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
timeout -k 5 %d mpiexec --allow-run-as-root --oversubscribe --bind-to none -n %d \\
  --mca btl self,vader --mca btl_vader_single_copy_mechanism none \\
  /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def blame_ok(repo, files):
    bad = []
    for f in files:
        own = set()
        for l in sh(f"git -C {repo} blame -s HEAD -- {f}").stdout.splitlines():
            if not l.lstrip("^").startswith(BASE[:7]):
                own.add(l.split(")", 1)[1][1:])
        for l in sh(f"git -C {repo} diff -U0 -- {f}").stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in own:
                bad.append(l)
    return bad


TESTENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def make(b):
    """everything happens in a scratch clone of /repo"""
    top = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    repo, d = top + "/repo", top + "/seed"
    os.mkdir(d)
    try:
        sh(f"git clone -q {REPO} {repo}")
        body = "\n".join("    " + l if l.strip() else "" for l in b["demo"].strip("\n").splitlines())
        open(d + "/demo.py", "w").write(PRE.replace("@BODY@", body))
        open(d + "/demo.sh", "w").write(SH % (b.get("timeout", 60), b.get("n", 3)))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", cwd=repo)
        if r.returncode != 0:
            return "DEMO-FAILS-CLEAN\n" + (r.stdout + r.stderr)[-1500:]
        files = []
        for f, old, new in b["edits"]:
            p = f"{repo}/pylops_mpi/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"EDIT-NOT-UNIQUE {f} {s.count(old)}"
            open(p, "w").write(s.replace(old, new))
            files.append(f"pylops_mpi/{f}")
        diff = sh(f"git -C {repo} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        bad = blame_ok(repo, set(files))
        if bad:
            return "TOUCHES-OWN-LINES " + " | ".join(bad)
        r = sh(f"bash {d}/demo.sh", cwd=repo)
        if r.returncode == 0:
            return "DEMO-PASSES-BUGGED"
        try:
            t = sh("timeout 150 mpiexec --allow-run-as-root --oversubscribe --bind-to none -n 3 --mca btl self,vader --mca btl_vader_single_copy_mechanism none "
                   "/opt/venv/bin/python -m pytest tests -q --with-mpi -p no:cacheprovider", cwd=repo, env=TESTENV)
        except Exception as e:
            return f"TESTS {e!r}"
        out = t.stdout
        if t.returncode or out.count("304 passed") != 3 and not out.count("304 passed"):
            return "TESTS-CATCH rc=%d %s" % (t.returncode, [l for l in out.splitlines() if l.startswith("FAILED") or " passed" in l][:3])
        dst = f"{ROOT}/seeded/{b['id']}"
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return "KEPT (demo rc %d)" % r.returncode
    finally:
        shutil.rmtree(top, ignore_errors=True)


CATCH = ROOT + "/tools/catch.json"


def catch(i, prop, extra=""):
    """quick check of prop on a scratch worktree of /repo with seed i applied"""
    w = tempfile.mkdtemp(prefix="catch_", dir="/tmp")
    try:
        sh(f"mkdir {w}/repo && git -C {REPO} archive HEAD | tar -x -C {w}/repo")
        r = sh(f"git apply {ROOT}/seeded/{i}/patch.diff", cwd=w + "/repo")
        if r.returncode:
            return "APPLY " + r.stderr
        t = time.time()
        env = dict(os.environ, VP_REPO=f"{w}/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick",
                   VP_EVIDENCE_DIR=w + '/ev')
        r = sh(f"bash harness/run.sh {prop} --tier quick {extra}", cwd=ROOT, env=env)
        first = ""
        vs = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
        try:
            q = json.load(open(vs[0].split("replay=")[1]))
            first = f"{q.get('key')} (P={q.get('P')}, {q.get('case', {}).get('kind')})"
        except Exception as e:
            first = "" if not vs else repr(e)
        m = json.load(open(CATCH)) if os.path.exists(CATCH) else {}
        m[i] = {"property": prop, "rc": r.returncode if vs or r.returncode != 1 else "1 without line", "s": round(time.time() - t), "first": first}
        json.dump(m, open(CATCH, "w"), indent=1, sort_keys=True)
        return f"rc={r.returncode} {time.time()-t:.0f}s {first} {'' if r.returncode == 1 else r.stdout[-300:]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == "make":
        from seedbugs import BUGS
        sys.path.insert(0, ROOT + "/tools")
        assert len({b["id"] for b in BUGS}) == len(BUGS)
        for b in BUGS:
            if ids and not any(b["id"].startswith(i) for i in ids):
                continue
            if not ids and os.path.isdir(f"{ROOT}/seeded/{b['id']}"):
                continue
            print(b["id"], make(b), flush=True)
    else:
        for i in sorted(os.listdir(ROOT + "/seeded")):
            if ids and not any(i.startswith(x) for x in ids):
                continue
            p = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
            print(i, p, catch(i, p), flush=True)
