#!/usr/bin/env python3
"""Development tool: systematic small mutations of pylops_mpi, run against the checks to find what no check notices.
usage: mutate.py list | run [--shard K/N] [--files re] [--out FILE]
Every mutant is applied to a scratch copy of /repo under /tmp; survivors (no check notices) are then run through the repository's tests."""
import argparse, ast, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FILES = {
    "DistributedArray.py": "C01 C03 C05 C02 C06 C08 C25 C07 C04 C28 C09 C26 C30 C23",
    "LinearOperator.py": "C17 C25 C28 C04 C26 C27 C19",
    "StackedLinearOperator.py": "C18 C25 C28 C04 C26 C27 C19",
    "basicoperators/BlockDiag.py": "C10 C28 C25 C06 C18 C26 C09 C27 C04",
    "basicoperators/VStack.py": "C11 C28 C25 C18 C26 C09 C27 C04",
    "basicoperators/HStack.py": "C11 C28 C25 C09 C26 C04",
    "basicoperators/FirstDerivative.py": "C12 C14 C25 C28 C09 C26 C27",
    "basicoperators/SecondDerivative.py": "C13 C14 C25 C28 C09 C26 C27",
    "basicoperators/Gradient.py": "C14 C25 C28 C18 C26 C04",
    "basicoperators/Laplacian.py": "C14 C25 C28 C31 C26 C04",
    "signalprocessing/Fredholm1.py": "C15 C25 C28 C16 C26 C27 C04",
    "waveeqprocessing/MDC.py": "C16 C25 C28 C31 C26",
    "optimization/basic.py": "C22 C20 C21 C25",
    "optimization/cls_basic.py": "C20 C21 C22 C06 C28 C23 C04 C26",
    "plotting/plotting.py": "C29 C25",
    "utils/dottest.py": "C19 C25",
    "utils/decorators.py": "C09 C10 C11 C25 C26 C28",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}
DROPCALL = {"conj", "copy", "astype", "ravel", "conjugate", "real"}


SRC = {}


def mutants(fn):
    SRC[fn] = src = open(f"{REPO}/pylops_mpi/{fn}").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, what):
        s, e = span(n)
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            return
        if m != src:
            out.append({"file": fn, "line": n.lineno, "what": what, "s": s, "e": e, "new": new, "old": seg(n)})
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                skip |= {id(x) for x in ast.walk(n.body[0])}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef):
            for x in [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs]:
                if x is not None:
                    skip |= {id(y) for y in ast.walk(x)}
            if n.name in ("__str__", "__repr__"):
                skip |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(y) for y in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise):
            skip |= {id(y) for y in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(y) for y in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            add(n, f"{l} {CMP[type(n.ops[0])]} {r}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "bin")
            if isinstance(n.op, (ast.Sub, ast.Div)):
                add(n, f"({seg(n.right)} {'-' if isinstance(n.op, ast.Sub) else '/'} {seg(n.left)})", "swap")
        elif isinstance(n, ast.UnaryOp):
            add(n, f"({seg(n.operand)})", "unary")
        elif isinstance(n, ast.BoolOp):
            new = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + new.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(v) + ")" for i, v in enumerate(n.values) if i != k) + ")", f"bool-drop{k}")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, repr(not v), "const")
            elif v is None:
                pass
            elif isinstance(v, (int, float)):
                add(n, repr(v + 1), "const+")
                if v:
                    add(n, repr(v - 1) if v - 1 >= 0 else f"({v - 1})", "const-")
            elif isinstance(v, str) and v:
                add(n, repr(v + "x"), "str")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f"not ({seg(n.test)})", "not")
            if isinstance(n, ast.If):
                add(n.test, "False", "never")
                add(n.test, "True", "always")
        elif isinstance(n, ast.IfExp):
            add(n, f"({seg(n.body)})", "then")
            add(n, f"({seg(n.orelse)})", "else")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROPCALL:
                add(n, seg(n.func.value), "dropcall")
            for k in n.keywords:
                if k.arg:
                    s0 = span(n)[0]
                    a, e = span(k)
                    t = b[s0:span(n)[1]]
                    t2 = t[:a - s0] + t[e - s0:]
                    t2 = re.sub(rb",\s*,", b",", t2)
                    t2 = re.sub(rb"\(\s*,\s*", b"(", t2)
                    t2 = re.sub(rb",\s*\)", b")", t2)
                    add(n, t2.decode(), f"dropkw-{k.arg}")
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s0, e0 = span(n)
                (a, a2), (c, c2) = span(n.args[0]), span(n.args[1])
                add(n, (b[s0:a] + b[c:c2] + b[a2:c] + b[a:a2] + b[c2:e0]).decode(), "swapargs")
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            alt = {"_rmatvec": "_matvec", "_matvec": "_rmatvec", "rmatvec": "matvec", "matvec": "rmatvec", "local_shape": "global_shape", "global_shape": "local_shape",
                   "nops": "mops", "mops": "nops", "nlocalops": "mlocalops", "SCATTER": "BROADCAST", "BROADCAST": "SCATTER", "UNSAFE_BROADCAST": "BROADCAST", "sub_comm": "base_comm",
                   "SUM": "MAX", "MAX": "MIN", "MIN": "MAX", "shape": "shape[::-1]", "real": "imag"}.get(n.attr)
            if alt:
                add(n, f"{seg(n.value)}.{alt}", f"attr-{n.attr}")
        elif isinstance(n, ast.Slice):
            if n.lower:
                add(n.lower, f"({seg(n.lower)}) + 1", "slice-lo")
            if n.upper:
                add(n.upper, f"({seg(n.upper)}) - 1", "slice-hi")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, "pass", "delstmt")
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, f"{seg(n.target)} {BIN[type(n.op)]}= {seg(n.value)}", "aug")
    spans = [(x.lineno, x.end_lineno, x.name) for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]
    for m in out:
        m["fun"] = ([n for a, z, n in sorted(spans) if a <= m["line"] <= z] or ["-"])[-1]
        m["id"] = hashlib.sha1(f"{fn}{m['s']}{m['e']}{m['new']}".encode()).hexdigest()[:10]
    return out


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


def apply(m, repo):
    p = f"{repo}/pylops_mpi/{m['file']}"
    b = SRC[m["file"]].encode()
    open(p, "w").write((b[:m["s"]] + m["new"].encode() + b[m["e"]:]).decode())
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--files", default="")
    ap.add_argument("--out", default="/tmp/mut")
    ap.add_argument("--count", default="40")
    ap.add_argument("--worlds", default="3,4")
    ap.add_argument("--sample", type=float, default=1.)
    ap.add_argument("--again", action="store_true", help="only the survivors of earlier runs, with full counts")
    a = ap.parse_args()
    ms = [m for f in FILES if re.search(a.files, f) for m in mutants(f)]
    if a.mode == "list":
        for m in ms:
            print(m["id"], m["file"], m["line"], m["what"], "|", m["old"][:60].replace("\n", " "), "->", m["new"][:60].replace("\n", " "))
        print(len(ms))
        return
    os.makedirs(a.out, exist_ok=True)
    k, n = (int(x) for x in a.shard.split("/"))
    random.Random(1).shuffle(ms)
    r = random.Random(2)
    ms = [m for m in ms if m["what"] != "dropkw-engine" and "engine" not in m["old"][:60] and r.random() < a.sample * (.35 if "Derivative" in m["file"] else 1)][k::n]
    if a.again:
        old = [json.loads(l) for f in glob.glob(a.out + "/shard*.jsonl") for l in open(f)]
        old = {m["id"] for m in old if m["killer"] is None and m["tests"] == "pass"}
        ms = [m for f in FILES for m in mutants(f) if m["id"] in old][k::n]
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    repo = w + "/repo"
    sh(f"mkdir {repo} && git -C {REPO} archive HEAD | tar -x -C {repo}")
    env = dict(os.environ, VP_REPO=repo, VP_EVIDENCE_DIR=w + "/ev", VERIF_SEED="1", VERIF_TIER="quick")
    tenv = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    log = f"{a.out}/{'again' if a.again else 'shard'}{k}.jsonl"
    done = set()
    if os.path.exists(log):
        done = {json.loads(l)["id"] for l in open(log)}
    hist = {}
    for m in ms:
        if m["id"] in done:
            continue
        t = time.time()
        p = apply(m, repo)
        killer = None
        odd = []
        rc, o = sh(f"cd {repo} && /opt/venv/bin/python -c 'import pylops_mpi'", 60, env=dict(tenv, PYTHONPATH=repo))
        if rc:
            killer = "import"
        else:
            cs = FILES[m["file"]].split()
            for c in sorted(cs, key=lambda q: (-hist.get((m["file"], m["fun"], q), 0), cs.index(q))):
                rc, o = sh(f"python3 {ROOT}/harness/runcheck.py {c}" + ("" if a.again else f" --count {a.count} --worlds {a.worlds}"), 300, env=env)
                if rc == 1:
                    killer = c
                    hist[m["file"], m["fun"], c] = hist.get((m["file"], m["fun"], c), 0) + 1
                    break
                if rc:
                    odd.append((c, rc, o[-300:]))
        tests = None
        if killer is None:
            rc, o = sh(f"cd {repo} && timeout -k 5 120 mpiexec --allow-run-as-root --oversubscribe --bind-to none -n 3 --mca btl self,vader --mca btl_vader_single_copy_mechanism none "
                       "/opt/venv/bin/python -m pytest tests -q -x --with-mpi -p no:cacheprovider", 150, env=tenv)
            tests = "pass" if rc == 0 else f"fail {rc}"
        m.update(killer=killer, odd=odd, tests=tests, t=round(time.time() - t, 1))
        open(log, "a").write(json.dumps(m) + "\n")
        open(p, "w").write(SRC[m["file"]])
    shutil.rmtree(w)


if __name__ == "__main__":
    main()
