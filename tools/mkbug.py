#!/usr/bin/env python3
"""Turn bug descriptions into /verif/seeded/<id>/, after confirming them in a scratch copy of /repo.

usage: mkbug.py SPEC.py [...]     a spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source)
Confirms: the patch applies, everything imports, the stable tests still pass, the demo passes on /repo and fails with the patch.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="4")
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\n"
SH = '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw.pop("env", {})), capture_output=True, text=True, **kw)


def main(path):
    s = runpy.run_path(path)
    wt = tempfile.mkdtemp(prefix="bugwt.")
    rep = os.path.join(wt, "repo")
    try:
        sh(["cp", "-a", "/repo", rep], "/")
        for f, old, new in s["EDITS"]:
            t = open(os.path.join(rep, f)).read()
            assert t.count(old) == 1, f"{path}: {f}: {t.count(old)} matches of {old[:60]!r}"
            open(os.path.join(rep, f), "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], rep).stdout
        out = f"/verif/seeded/{s['ID']}"
        tmp = os.path.join(wt, "out")
        os.makedirs(tmp)
        open(os.path.join(tmp, "patch.diff"), "w").write(diff)
        open(os.path.join(tmp, "demo.py"), "w").write(PRE + s["DEMO"].lstrip("\n"))
        open(os.path.join(tmp, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(tmp, "demo.sh")], "/repo")
        if r.returncode != 0:
            return f"FAIL {path}: demo fails on /repo:\n{r.stdout[-1500:]}{r.stderr[-1500:]}"
        r = sh(["bash", os.path.join(tmp, "demo.sh")], rep)
        if r.returncode == 0:
            return f"FAIL {path}: demo passes with the bug"
        note = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh([PY, "-c", "import pkgutil,importlib,dhg,os\nassert os.path.realpath(dhg.__file__).startswith(os.getcwd())\n[importlib.import_module(m.name) for m in pkgutil.walk_packages(dhg.__path__,'dhg.')]"], rep, env={"PYTHONPATH": rep})
        if r.returncode:
            return f"FAIL {path}: import {r.stderr[-800:]}"
        os.makedirs(os.path.join(rep, "tmp"), exist_ok=True)
        x = os.path.join(wt, "j.xml")
        r = sh([PY, "-m", "pytest", "tests", "--ignore=tests/data", "-q", "-p", "no:cacheprovider", "--timeout=300", "--junitxml", x, "-o", "junit_family=xunit2"], rep, env={"PYTHONPATH": rep})
        base = json.load(open("/opt/vp/BASELINE.json"))
        sh(["/usr/bin/python3", "/opt/vp/results.py", os.path.join(wt, "o.json"), "junit:" + x], "/")
        res = json.load(open(os.path.join(wt, "o.json")))
        stable = base.get("stable") or base.get("passed") or base.get("stable_passing") or []
        ok = set(res.get("passed", res.get("pass", [])))
        bad = [t for t in stable if t not in ok]
        if bad or not stable:
            return f"FAIL {path}: tests {bad[:5]} stable={len(stable)} keys={list(base)} {list(res)} {r.stdout[-600:]}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return f"OK {s['ID']} ({note})"
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        def one(p):
            try:
                return main(p)
            except Exception as e:
                return f"FAIL {p}: {e!r}"
        for m in ex.map(one, sys.argv[1:]):
            print(m, flush=True)
