#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/plan.py and the suites present."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/harness")
from plan import PLAN
TECH = {
    "C23": "runtime monitoring: MPI call tracing, rendezvous-send and delay injection, logical deadlock analysis of live event logs",
    "C24": "runtime monitoring: delay injection, bitwise digests compared between schedules and ranks",
    "C26": "runtime monitoring: per-communicator MPI event log, containment oracle, reference runs on plain worlds",
    "C30": "runtime monitoring: communicator creation/free counters over long runs",
    "C04": "runtime monitoring: memory snapshots and sharing checks of every operand before/after each operation",
    "C27": "runtime monitoring: bitwise history replay of operators under interleaved use",
    "C22": "runtime monitoring: counters and recorders on operator applications and callbacks, offline check of the history",
    "C29": "runtime monitoring: drawn artists inspected on every rank",
}
DEFAULT = "runtime monitoring: recorded MPI worlds of 1-7 ranks, online reference-model oracle (serial NumPy/PyLops), rank-agreement and trace oracles"
NOTE = ("Held on the executions observed (randomised inputs, layouts, process counts 1,2,3,4,5,7; counts in the evidence file). "
        "Trusts NumPy/serial PyLops as reference, Open MPI and mpi4py; NumPy engine only (no CuPy here).")
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/harness/suites/{PLAN[i]['suite']}.py"):
        checks.append({"property": i, "quick_cmd": f"bash harness/run.sh {i} --tier quick",
                       "thorough_cmd": f"bash harness/run.sh {i} --tier thorough",
                       "technique": TECH.get(i, DEFAULT), "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "bash harness/setup.sh",
       "hooks": {"guard": "none (no hooks in /repo: monitors are installed from the harness at import time)",
                 "enable": "nothing to enable: checks import /repo's working tree directly", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Known findings and repaired defects: known_findings.json. Replay a witness: bash harness/run.sh ID --replay FILE"}
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
