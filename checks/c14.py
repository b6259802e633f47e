"""C14: an experiment's directory, log and results are never mixed with another run's."""
import os
import random

from dst import clock, disk, expworld as X
from dst.core import Violation
from dst.sched import Sched

ID = "C14"
RUNS = {"quick": 600, "thorough": 18000}
LEVEL = "exploration"
TECH = "seeded sequences of experiments on one work directory with disk errors in the cache files, process death and restart, failing trials, clock jumps and pairs of experiments in interleaved threads; every directory, log and result is checked against what each experiment itself did"
NOTE = ("The real task classes, studies, loggers and files; the disk, the clock, process death and the thread switches are simulated. The disk is a process-crash model. A clean batch is evidence, not proof.")
RULE = ("A run holds 2-5 experiments (some sharing name, data or evaluator, some in parallel threads) over one directory with 0-3 faults; non-trivial: an experiment that finished after another one had left its traces; distinct by event log.")
MEASURE = "distinct (session kinds and names, how each run ended) histories"
REAL = ["dhg.experiments task classes", "dhg models, structures, evaluators, loaders", "optuna study and TPE sampler", "logging with real log files", "real files in a scratch directory"]
STUB = ["disk seam (faults in cache files, directories)", "process death", "clock", "thread scheduler", "validation scores and pruning decisions (scripted)"]
ASSUMPTIONS = ["what a dead process had written survives (no power loss)", "two experiments that run at the same time have different names", "log lines themselves are written without errors (logging reports such errors on stderr by design)"]
SHRINK = ["groups", "switches"]


def prepare():
    from checks.c08 import warm_torch
    disk.install()
    warm_torch()
    X.install()
    import dhg.experiments  # noqa


def gen_fault(rng):
    where = rng.choice(["model", "structure", "structure", "any"])
    if where == "any":
        return dict(on=rng.choice(["unlink", "rmdir", "mkdir"]), n=rng.choice([1, 1, 2, 3]), k=rng.choice(["eio", "eacces", "crash"]), len=rng.choice([0, 0, 1000]))
    k = rng.choice(["eio", "eio", "enospc", "short", "torn", "crash", "crash"])
    on = dict(eio=["write", "close", "create", "read", "open", "rename"], enospc=["write"], short=["write", "read"], torn=["write"], crash=["write", "close", "create", "read", "open", "unlink", "rename"])[k]
    return dict(on=rng.choice(on), n=rng.choice([1, 1, 1, 2, 3]), k=k, len=rng.choice([0, 0, 1000]), path=where, frac=rng.randrange(3))


def generate(rng, tier, i):
    groups, first = [], None
    for g in range(rng.choice([2, 2, 3, 4])):
        par = rng.random() < 0.3
        grp = []
        for k in range(2 if par else 1):
            s = X.gen_session(rng, stress=0.0 if par else 0.06, names=("s0", "s0", "s1", None, None))
            s["own_data"] = rng.random() < 0.5
            if first is not None and rng.random() < 0.6:
                fam = dict(g=["graph", "graphB"], h=["hyper", "hyperB"], r=["ui", "uiB", "mf"])[X.data_key(first)[0]]
                s.update(kind=rng.choice(fam), n=first["n"], ni=first["ni"], data=first["data"], metrics=first["metrics"], own_data=False)
            first = first or s
            s["share_ev"] = not par and rng.random() < 0.5
            s["faults"] = [gen_fault(rng)] if rng.random() < 0.35 else []
            if par:
                s["faults"] = [f for f in s["faults"] if f["k"] not in ("crash", "torn")]
                s["runs"] = s["runs"][:1]
            s["die"] = rng.choice([1, 2, 3, 5, 8]) if not par and rng.random() < 0.15 else None
            s["junk"] = rng.random() < 0.3
            s["nolog"] = s["name"] is not None and not par and rng.random() < 0.2
            grp.append(s)
        if par and grp[0]["name"] is not None and grp[0]["name"] == grp[1]["name"]:
            grp[1]["name"] = None
            grp[1]["data"] &= ~1  # no study_name argument or None: both
        groups.append(grp)
    jumps = [[rng.randrange(1, 300), rng.choice([-86400, -3, -1, 1, 5, 601])] for _ in range(rng.choice([0, 1, 2]))]
    return dict(groups=groups, clock=dict(t0=1.7e9, step=rng.choice([0.00005, 0.0005, 0.01, 0.3]), jumps=jumps), seed=rng.choice([None, 7]), torch=rng.randrange(1 << 30), buf=rng.choice([1, 64, 512, 8192]),
                mkroot=rng.random() < 0.5, sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.02, 0.1, 0.4])))


class Session:
    def __init__(self, spec, group):
        self.spec, self.group, self.task, self.dir, self.over, self.ended = spec, group, None, None, False, []
        self.snap = None


def tree(root):
    """rel path -> bytes of everything below root."""
    out = {}
    with disk.off():
        for dp, dn, fn in os.walk(root):
            for f in dn:
                out[os.path.relpath(os.path.join(dp, f), root) + "/"] = None
            for f in fn:
                with open(os.path.join(dp, f), "rb") as h:
                    out[os.path.relpath(os.path.join(dp, f), root)] = h.read()
    return out


def execute(plan, ctx):
    import random as pyrandom

    import numpy as np
    import torch

    import dhg
    torch.manual_seed(plan["torch"])
    pyrandom.seed(plan["torch"])
    np.random.seed(plan["torch"] % (1 << 32))
    c = clock.Clock(**plan["clock"])
    clock.install(c)
    root = os.path.join(ctx.scratch, "root")
    if not plan["mkroot"]:
        os.mkdir(root)
    d = disk.mount(disk.Disk(ctx.scratch, ctx, bufsize=plan["buf"]))
    d.quiet = "log.txt"
    world = X.World(ctx)
    world.disk = d
    if plan["seed"] is not None:
        dhg.random.set_seed(plan["seed"])
    datas, evs, sessions = {}, {}, []
    switches = plan.get("switches")
    trace = []

    def data_for(spec):
        k = X.data_key(spec)
        if k not in datas:
            dt = X.make_data(spec)
            datas[k] = (dt, X.content(dt.get("structure")))
        if spec["own_data"]:
            return X.make_data(spec), datas[k][1]
        return datas[k]

    def ev_for(spec):
        if not spec["share_ev"]:
            return X.make_evaluator(spec)
        k = (X.data_key(spec)[0], spec["metrics"])
        if k not in evs:
            evs[k] = X.make_evaluator(spec)
        return evs[k]

    def others_unchanged(group, when):
        """Directories of earlier sessions that no session of this group owns are as they were left."""
        mine = {s.dir for s in group if s.dir is not None} | {os.path.join(root, s.spec["name"]) for s in group if s.spec["name"]}
        last = {}
        for s in sessions:
            if s.snap is not None and s.dir is not None:
                last[s.dir] = s
        for dr, s in last.items():
            if dr in mine:
                continue
            now = tree(dr)
            ctx.check(now == s.snap, "other-study-changed", lambda: f"{when}: directory of session '{s.spec['name']}' changed: {sorted(set(k for k in set(now) | set(s.snap) if now.get(k, 0) != s.snap.get(k, 0)))}")

    def session(s):
        spec = s.spec
        proc = d.proc()
        ctx.event("session", spec["kind"], spec["name"], "over" if spec["over"] else "keep")
        dt, st = data_for(spec)
        if spec.get("nolog") and os.path.isdir(root):
            # a run that died before it had a log, or whose log was removed
            with disk.off():
                sr = os.path.join(root, spec["name"])
                os.makedirs(os.path.join(sr, "cache"), exist_ok=True)
                if os.path.exists(os.path.join(sr, "log.txt")):
                    os.unlink(os.path.join(sr, "log.txt"))
                for f in ("cache/7_model.pth", "cache/0_structure.dhg", "notes.txt"):
                    with open(os.path.join(sr, f), "wb") as h:
                        h.write(b"left by somebody")
            ctx.count("fault:leftovers-without-log")
        exists = spec["name"] is not None and os.path.isdir(os.path.join(root, spec["name"]))
        before = tree(os.path.join(root, spec["name"])) if exists else {}
        if exists and spec["junk"]:
            with disk.off():
                cr = os.path.join(root, spec["name"], "cache")
                if os.path.isdir(cr):
                    for f in ("7_model.pth", "0_structure.dhg", "1_structure.dhg", "11_model.pth", "note.txt"):
                        if not os.path.exists(os.path.join(cr, f)):
                            with open(os.path.join(cr, f), "wb") as h:
                                h.write(b"left by somebody")
        known = {x.dir for x in sessions if x.dir}
        try:
            task = s.task = X.make_task(world, spec, dt, ev_for(spec), root, st)
        except BaseException as e:
            if isinstance(e, Violation) or not (proc.dead or [f for f in proc.fired if f[0] != "short"]):
                raise
            s.ended.append("crash" if proc.dead else "setup-failed")
            if spec["name"] is not None:
                s.dir = os.path.join(root, spec["name"])
            return
        s.dir = os.path.join(root, str(task.study_name))
        ctx.check(os.path.realpath(str(task.study_root)) == s.dir and os.path.isdir(s.dir), "study-root-wrong", lambda: f"{task.study_root}")
        if spec["name"] is None:
            ctx.check(s.dir not in known, "directory-shared", lambda: f"an experiment without a name got directory {os.path.basename(s.dir)}, which another one uses")
        else:
            ctx.check(task.study_name == spec["name"], "study-root-wrong", str(task.study_name))
        keep = exists and not spec["over"]
        prefix = before.get("log.txt", b"").decode("utf8") if keep else ""
        if not keep:
            t0 = tree(s.dir)
            ctx.check(set(t0) == {"log.txt", "cache/"}, "study-not-empty", lambda: f"{X.tag(task)} starts with {sorted(t0)}")
        lines, finished = [], 0
        for run in spec["runs"]:
            how = X.do_run(world, task, run)
            s.ended.append(how)
            ctx.event("run", spec["kind"], spec["name"], run["dir"], how, [r.scores for r in task.recs.values()])
            if how == "crash":
                return
            lines += X.trial_lines(task)
            if how == "ok":
                finished += 1
                b, best, r, m, res = X.verify_results(ctx, task, run, task.recs, dt)
                X.verify_cache(ctx, task, b, m, r.structure)
                X.verify_log(ctx, task, lines, prefix, finished, res)
                if sum(1 for x in sessions if x.ended) > 1 or len(s.ended) > 1:
                    ctx.nontrivial = True
                if not keep:
                    top = {k for k in tree(s.dir) if not k.startswith("cache/")}
                    ctx.check(top == {"log.txt"}, "study-not-empty", lambda: f"{X.tag(task)} ends with {sorted(top)}")
        X.verify_log(ctx, task, lines, prefix, finished, None)

    for gi, grp in enumerate(plan["groups"]):
        group = [Session(s, gi) for s in grp]
        sessions.extend(group)
        if len(group) == 1:
            s = group[0]
            d.main.faults = [dict(f) for f in s.spec["faults"]]
            d.main.counts, d.main.total, d.main.fired = {}, 0, []
            world.callbacks, world.die_at = 0, s.spec["die"]
            try:
                session(s)
            except disk.SimCrash:
                if not d.main.dead:
                    raise
                s.ended.append("crash")
            world.die_at = None
            d.main.faults = []
            if d.main.dead:
                ctx.count("fault:restart")
                X.drop_handlers()
                d.main = disk.Proc("main")
                evs.clear()
                for k in list(datas):
                    del datas[k]
                # nothing of the dead process lives on
                if hasattr(X, "_main"):
                    X._main["task"] = None
        else:
            sw = switches[str(gi)] if isinstance(switches, dict) and str(gi) in switches else switches if switches is not None else None
            sc = Sched(seed=plan["sched"]["seed"] + gi, p=plan["sched"]["p"], switches=sw, files=(os.path.join(X_dhg(), "experiments"), os.path.join(X_dhg(), "random", "_seed.py")))
            for k, s in enumerate(group):
                t = sc.spawn(lambda s=s: session(s), f"exp{k}")
                t.data["proc"] = disk.Proc(f"t{k}", s.spec["faults"])
            tasks = sc.run()
            trace = sc.trace
            ctx.count("fault:thread-switch", len(sc.trace))
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
        others_unchanged(group, f"after group {gi}")
        for s in group:
            if s.dir is not None:
                s.snap = tree(s.dir)
        ctx.event("group", [s.ended for s in group])
    ctx.sched_trace = trace or None
    ctx.sig([(s.spec["kind"], s.spec["name"], s.spec["over"], s.ended) for s in sessions])
    ctx.count("fault:clock-jump", c.hit)
    ctx.sim_time += c.span()
    # what finished experiments hold in memory is still theirs
    for s in sessions:
        if s.task is not None and s.ended and s.ended[-1] == "ok":
            task = s.task
            ctx.check(X.same_res(task.test(), task.tests[0][1]), "test-result-wrong", lambda: f"{X.tag(task)}: asked again after the other experiments")


def X_dhg():
    from dst.core import DHG
    return DHG
