#!/usr/bin/env python3
"""Sample small syntactic changes of one source file, keep those the existing tests accept, and see which checks notice them.

usage: mutate.py FILE CHECKS [--tests t1,t2] [--n 30] [--seed 1] [--jobs 4] [--workers 2] [--lines a-b] [--out OUT.jsonl]
Everything happens in scratch copies of /repo and /verif. The result is a list to read: a survivor is a harmless change, a change no
property speaks about, or a gap in a check.
"""
import argparse, ast, difflib, json, os, random, shutil, subprocess, sys, tempfile, threading, queue

PY = "/opt/venv/bin/python"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n

    def sp(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, z = sp(n)
        return b[a:z].decode()

    out = []

    def rep(n, new, kind):
        a, z = sp(n)
        out.append((kind, n.lineno, (b[:a] + new.encode() + b[z:]).decode()))

    for n in ast.walk(tree):
        anc, x, skip = [], n, False
        while x in par:
            p = par[x]
            if isinstance(p, ast.Raise) or (isinstance(p, ast.Assert) and x is p.msg) or isinstance(p, ast.JoinedStr):
                skip = True
            if isinstance(p, (ast.FunctionDef, ast.arguments)) and isinstance(p, ast.arguments):
                skip = skip or False
            if isinstance(p, ast.AnnAssign) and x is p.annotation or isinstance(p, ast.arg):
                skip = True
            if isinstance(p, ast.FunctionDef) and (x is p.returns or x in p.decorator_list):
                skip = True
            if isinstance(p, ast.If) and "__main__" in text(p.test):
                skip = True
            if isinstance(p, ast.FunctionDef) and (p.name.startswith("draw") or p.name in ("__repr__",)) :
                skip = skip or p.name == "__repr__"
            x = p
        if skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + w.join(text(v) for v in n.values) + ")", "bool")
            for v in n.values:
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(text(u) for u in n.values if u is not v) + ")", "boolsub")
        elif isinstance(n, ast.UnaryOp):
            rep(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and not isinstance(par.get(n), ast.Expr):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const")
                if v > 0:
                    rep(n, str(v - 1), "const")
            elif isinstance(v, float):
                rep(n, repr(v * 2 + 0.5), "const")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in ("deepcopy", "list", "dict", "set", "sorted", "tuple", "float", "int", "copy", "abs") and len(n.args) == 1 and not isinstance(n.args[0], ast.GeneratorExp):
                rep(n, f"({text(n.args[0])})", "unwrap")
            elif isinstance(f, ast.Attribute) and name in ("clone", "copy", "coalesce", "detach", "contiguous", "t", "cpu", "double", "float", "long", "abs", "flatten", "strip", "squeeze", "keys", "items", "to", "fill_diagonal_", "sqrt", "softmax"):
                rep(n, f"{text(f.value)}", "unwrap")
            for k in n.keywords:
                if k.arg:
                    a, z = sp(k)
                    zz = z
                    while b[zz:zz + 1] in (b" ", b",", b"\n"):
                        zz += 1
                    out.append(("kwdrop", k.value.lineno, (b[:a] + b[zz:]).decode()))
            if len(n.args) == 2 and not n.keywords:
                rep(n, f"{text(f)}({text(n.args[1])}, {text(n.args[0])})", "argswap")
            if name in ("max", "min"):
                rep(n, f"{text(f)[:-3]}{'min' if name == 'max' else 'max'}({', '.join(text(a) for a in n.args)})", "minmax")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "del")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            rep(n, "pass", "del")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "cond")
            rep(n.test, "False", "cond")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "del")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", "filter")
        elif isinstance(n, ast.Raise):
            rep(n, "pass", "delraise")
        elif isinstance(n, ast.ExceptHandler):
            pass
        if isinstance(n, ast.Assert):
            rep(n, "pass", "delassert")
    ok, seen = [], {src}
    for k, l, s in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            if ast.dump(ast.parse(s)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        ok.append((k, l, s))
    return ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("checks"); ap.add_argument("--tests", default="")
    ap.add_argument("--n", type=int, default=30); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4); ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--lines", default=""); ap.add_argument("--out", default="/tmp/mut.jsonl"); ap.add_argument("--kinds", default="")
    a = ap.parse_args()
    src = open(os.path.join("/repo", a.file)).read()
    ms = mutants(src)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= m[1] <= hi]
    if a.kinds:
        ms = [m for m in ms if m[0] in a.kinds.split(",")]
    total = len(ms)
    random.Random(a.seed).shuffle(ms)
    ms = ms[: a.n]
    print(f"{a.file}: {total} possible, {len(ms)} tried", flush=True)
    q, lock, stat = queue.Queue(), threading.Lock(), {}
    for m in ms:
        q.put(m)

    def worker(k):
        wt = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            rep, ver = f"{wt}/repo", f"{wt}/verif"
            subprocess.run(["cp", "-a", "/repo", rep]); os.makedirs(ver)
            subprocess.run("cp -a /verif/run.sh /verif/dst_main.py /verif/dst /verif/checks /verif/known_findings.txt /verif/properties.jsonl " + ver, shell=True)
            subprocess.run(f"find {rep} -name __pycache__ -prune -exec rm -rf {{}} +", shell=True)
            env = dict(os.environ, PYTHONPATH=rep, DST_REPO=rep, DST_WORKERS=str(a.workers), DST_MIN_S="1", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_SEED="1", VERIF_TIER="quick", DST_RUN_WALL="40")
            tests = (a.tests or "tests").split(",")
            while True:
                try:
                    kind, line, s = q.get_nowait()
                except queue.Empty:
                    return
                open(f"{rep}/{a.file}", "w").write(s)
                d = "".join(l for l in difflib.unified_diff(src.splitlines(True), s.splitlines(True), n=0) if not l.startswith(("---", "+++")))
                res = None
                try:
                    r = subprocess.run([PY, "-m", "pytest", *tests, "--ignore=tests/data", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=rep, env=env, capture_output=True, text=True, timeout=400)
                    if r.returncode not in (0, 5):
                        res = "tests"
                except subprocess.TimeoutExpired:
                    res = "tests"
                notes = []
                if not res:
                    for c in a.checks.split(","):
                        try:
                            r = subprocess.run(["bash", f"{ver}/run.sh", "check", c], cwd=ver, env=env, capture_output=True, text=True, timeout=2400)
                        except subprocess.TimeoutExpired:
                            notes.append(f"{c}:timeout"); continue
                        if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                            res = c; break
                        if r.returncode:
                            notes.append(f"{c}:rc{r.returncode}")
                res = res or "SURVIVED"
                with lock:
                    stat[res] = stat.get(res, 0) + 1
                    open(a.out, "a").write(json.dumps({"file": a.file, "line": line, "kind": kind, "res": res, "notes": notes, "diff": d}) + "\n")
                    if res != "tests":
                        print(f"[{res}{' ' + ','.join(notes) if notes else ''}] {kind}\n{d}", flush=True)
        finally:
            shutil.rmtree(wt, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(f"{a.file}: {stat}", flush=True)


main()
