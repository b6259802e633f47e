"""Which planted bugs change a line of the original repository (not only lines added by the fix commits)."""
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
fixes = subprocess.run(["git", "-C", REPO, "log", "--format=%H", "--grep=^fix:"], capture_output=True, text=True).stdout.split()
fixes = {h for h in fixes}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    p = os.path.join(V, "seeded", i, "patch.diff")
    orig = total = 0
    f = ln = None
    blame = {}
    for line in open(p):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            out = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.split("\n")
            blame = {k + 1: x.split(" ")[0].lstrip("^") for k, x in enumerate(out) if x}
            continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            ln = int(m.group(1))
            continue
        if ln is None or line.startswith("+++"):
            continue
        if line.startswith("-"):
            total += 1
            h = blame.get(ln, "")
            if line[1:].strip() and not line[1:].strip().startswith("#") and not any(x.startswith(h[:39]) for x in fixes):
                orig += 1
            ln += 1
        elif line.startswith("+"):
            pass
        else:
            ln += 1
    print(("ok   " if orig else "NONE ") + i, f"{orig} of {total} removed lines are original")
