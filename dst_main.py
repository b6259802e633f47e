import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import core

def load(pid):
    from dst import sched
    sched.install_locks()
    sys.path.insert(0, core.REPO)
    mod = importlib.import_module("checks." + pid.lower())
    import torch
    torch.set_num_threads(1)
    import dhg
    if not os.path.realpath(dhg.__file__).startswith(os.path.realpath(core.REPO) + "/"):
        print("HARNESS-ERROR: dhg imported from", dhg.__file__); sys.exit(3)
    mod.prepare()
    return mod

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "hashes", "plan", "run"])
    ap.add_argument("pid")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--idx", default="")
    a = ap.parse_args()
    mod = load(a.pid)
    code = 3
    try:
        if a.cmd == "check": code = core.cmd_check(mod, a.tier, a.seed)
        elif a.cmd == "replay": code = core.cmd_replay(mod, a.file)
        elif a.cmd == "hashes": core.cmd_hashes(mod, a.seed, a.tier, [int(x) for x in a.idx.split(",") if x]); code = 0
        elif a.cmd == "plan":
            import json; print(json.dumps(core.make_plan(mod, a.seed, int(a.idx), a.tier), indent=1)); code = 0
        elif a.cmd == "run":
            import json, shutil, tempfile
            plan = core.make_plan(mod, a.seed, int(a.idx), a.tier)
            os.environ["DST_KEEP_LOG"] = "1"
            res = core.run_forked(mod, plan, a.tier)
            print("\n".join(res.pop("log", []))); print(json.dumps(res, indent=1)); code = 0
    finally:
        core.cleanup()
    sys.stdout.flush()
    os._exit(code)
main()
