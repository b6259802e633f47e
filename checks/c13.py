"""C13: experiments end with the model, structure and score of their best epoch."""
import math
import os
import random

from dst import clock, disk, expworld as X
from dst.core import Violation

ID = "C13"
RUNS = {"quick": 700, "thorough": 20000}
LEVEL = "exploration"
TECH = "seeded experiments with scripted validation scores (ties, NaN, infinities), pruning, failing trials and a simulated clock that jumps; every epoch's model is recorded and the experiment's choice compared with an independent selection"
NOTE = ("The real task classes, models, optimisers, evaluators and optuna studies run; only scores, pruning decisions, failures of the user's callbacks and the clock come from the plan. A clean batch is evidence, not proof.")
RULE = ("A run is one experiment object with 1-3 calls of run(), each of 1-5 trials of 1-6 epochs; non-trivial: a finished run with at least two completed epochs; distinct by event log.")
MEASURE = "distinct (direction, trial states, scores) of finished runs"
REAL = ["dhg.experiments task classes", "dhg models, structures, evaluators, loaders", "optuna study and TPE sampler", "torch optimisers and schedulers", "logging"]
STUB = ["clock", "validation scores and pruning decisions (scripted)", "failures of user callbacks", "disk seam without faults"]
ASSUMPTIONS = ["one trial at a time (optuna n_jobs=1, as the code runs it)", "at least one epoch per trial"]
SHRINK = ["runs"]


def prepare():
    from checks.c08 import warm_torch
    disk.install()
    warm_torch()
    X.install()
    import dhg.experiments  # noqa


def generate(rng, tier, i):
    s = X.gen_session(rng, stress=0.04, names=("s0", None))
    s["runs"] = [X.gen_run(rng, 0.04) for _ in range(rng.choice([1, 1, 2, 3]))]
    if tier == "thorough" and rng.random() < 0.3:
        s["runs"][0]["trials"] += [dict(t, prune=None, boom=None) for t in s["runs"][0]["trials"] * 3]
    jumps = [[rng.choice([rng.randrange(1, 60), rng.randrange(1, 600)]), rng.choice([-86400, -3, 1, 5, 599, 601, 1e6])] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    return dict(session=s, runs=s.pop("runs"), clock=dict(t0=rng.choice([1.7e9, 1.7e9 + 0.99, 9.99e8]), step=rng.choice([0.0005, 0.01, 0.3, 0.9, 20.0]), jumps=jumps), seed=rng.choice([None, 0, 1, rng.randrange(1 << 31)]),
                torch=rng.randrange(1 << 30), replay=rng.random() < 0.4, retest=rng.randrange(1 << 30))


class Clock(clock.Clock):
    lo = hi = None

    def tick(self):
        super().tick()
        self.hi = self.t if self.hi is None else max(self.hi, self.t)
        self.lo = self.t if self.lo is None else min(self.lo, self.t)


def execute(plan, ctx):
    import random as pyrandom

    import numpy as np
    import torch

    import dhg
    spec = plan["session"]
    torch.manual_seed(plan["torch"])
    pyrandom.seed(plan["torch"])
    np.random.seed(plan["torch"] % (1 << 32))
    c = Clock(**plan["clock"])
    clock.install(c)
    d = disk.mount(disk.Disk(ctx.scratch, ctx))
    world = X.World(ctx)
    world.disk = d
    if plan["seed"] is not None:
        dhg.random.set_seed(plan["seed"])
    data = X.make_data(spec)
    structure = X.content(data.get("structure"))
    task = X.make_task(world, spec, data, X.make_evaluator(spec), os.path.join(ctx.scratch, "root"), structure)
    lines, finished = [], 0
    for run in plan["runs"]:
        c.lo = c.hi = None
        start = c.t
        how = X.do_run(world, task, run)
        ntr = len(task.study.get_trials(deepcopy=False))
        ctx.event("run", run["dir"], run["epochs"], how, [(t.number, t.state.name, t.value) for t in task.study.get_trials(deepcopy=False)], [r.scores for r in task.recs.values()])
        lines += X.trial_lines(task)
        if how != "ok":
            ctx.check(how in ("scripted", "none"), "run-ended-badly", how)
            continue
        finished += 1
        ctx.check(ntr == len(run["trials"]) or c.hi - min(c.lo, start) >= 600, "trials-missing", lambda: f"{ntr} of {len(run['trials'])} trials ran within {c.hi - start:.0f} s")
        if ntr < len(run["trials"]):
            ctx.count("fault:time-limit")
        b, best, r, m, res = X.verify_results(ctx, task, run, task.recs, data)
        X.verify_cache(ctx, task, b, m, r.structure)
        own = X.verify_log(ctx, task, lines, "", finished, res)
        seed = X.seed_logged(own)
        s = X._samplers.get(id(task.study.sampler))
        ctx.check(s is None or s[1] == seed, "logged-seed-wrong", lambda: f"the log says {seed}, the sampler was seeded with {s[1]}")
        if plan["seed"] is not None:
            ctx.check(seed == plan["seed"], "logged-seed-wrong", lambda: f"the log says {seed}, set was {plan['seed']}")
        if plan["replay"] and seed is not None:
            want = X.replay_search(seed, run, task.recs, None)
            got = {t.number: dict(t.params) for t in task.study.get_trials(deepcopy=False)}
            ctx.check(want == got, "logged-seed-wrong", lambda: f"a search with the logged seed {seed} proposes {want}, the experiment tried {got}")
            ctx.count("searches-replayed")
        # testing again, with the data given and with another structure
        ctx.check(X.same_res(task.test(), res), "test-result-wrong", "asked again")
        other = dict(data)
        if r.structure is not None:
            other["structure"] = X.make_structure(spec["kind"].rstrip("B"), spec, random.Random(plan["retest"]))
        want = X.score_of(spec, m, other.get("structure"), other, "test_mask", X.make_evaluator(spec))
        got = task.test(dict(other), None)
        ctx.check(X.same_res(got, want), "test-result-wrong", lambda: f"on given data: {got}, expected {want}")
        ctx.nontrivial |= sum(len(x.scores) for x in task.recs.values()) >= 2
        ctx.sig(run["dir"], [(t.state.name, task.recs[t.number].scores) for t in task.study.get_trials(deepcopy=False)])
    ctx.count("fault:clock-jump", c.hit)
    ctx.sim_time += c.span()
