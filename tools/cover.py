"""Which lines of the library the runs of a check execute: cover.py Cnn N OUTDIR (development aid, not part of any check)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from dst import core, sched  # noqa

sched.install_locks()
sys.path.insert(0, core.REPO)
pid, n, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
mod = importlib.import_module("checks." + pid.lower())
import torch  # noqa

torch.set_num_threads(1)
import dhg  # noqa

mod.prepare()
inner = core.execute_here


def execute_here(*a):
    m, hit = sys.monitoring, set()
    m.use_tool_id(3, "cover")

    def line(code, no):
        fn = code.co_filename
        if "/dhg/" in fn:
            hit.add((fn[fn.rindex("/dhg/") + 1:], no))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    try:
        return inner(*a)
    finally:
        m.set_events(3, 0)
        with open(os.path.join(out, f"{pid}.{os.getpid()}"), "w") as f:
            json.dump(sorted(hit), f)


core.execute_here = execute_here
from dst import disk  # noqa

os.makedirs(out, exist_ok=True)
res, bad = core.batch(mod, 1, "quick", list(range(n)))
core.cleanup()
acc = set()
for f in os.listdir(out):
    if f.startswith(pid + ".") and not f.endswith(".json"):
        acc |= {tuple(x) for x in json.load(open(os.path.join(out, f)))}
        os.unlink(os.path.join(out, f))
json.dump(sorted(acc), open(os.path.join(out, pid + ".json"), "w"))
print(pid, len(res), "runs", len(acc), "lines", sum(bool(r["violation"] or r["error"]) for r in res), "bad")
os._exit(0)
