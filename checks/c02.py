"""C02: threads that only read one structure get the answers a lone reader gets."""
import copy as _copy
import random

import torch

from dst import structs as S
from dst.core import DHG, Violation
from dst.sched import Deadlock, Sched

S.allow_zero()
S.sizes(0.04)
ID = "C02"
RUNS = {"quick": 6000, "thorough": 40000}
LEVEL = "exploration"
TECH = "seeded line- and bytecode-level interleavings of reader threads on one shared structure, against a reference model"
NOTE = ("Seeded search over interleavings at every source line (and in part of the runs every bytecode) of the library and of copy.deepcopy; each answer and, afterwards, every view is "
        "compared with a reference model. Tensor kernels run atomically; a clean batch is evidence, not proof.")
RULE = ("A run is 2-4 reader threads with 1-6 reads each on one shared structure (cold or part-warm caches), interleaved by the seeded scheduler at line or bytecode granularity, then an "
        "audit of all views; non-trivial: at least two threads ran and at least one hand-over happened inside a library call; distinct by event log.")
MEASURE = "distinct interleavings (hash of the sequence of hand-overs with the views under way)"
REAL = ["dhg.Graph, dhg.DiGraph, dhg.BiGraph, dhg.Hypergraph", "copy.deepcopy", "torch"]
STUB = ["thread scheduler (real threads, one runs at a time, hand-over decided by the seed)", "locks made by the library (cooperative)"]
ASSUMPTIONS = ["CPU only", "a tensor kernel call is atomic", "reads are those of the public API that do not modify the structure, cloning included"]
SHRINK = ["ops", "warm", "switches"]


def prepare():
    pass


def gen_pace(rng, ps):
    """Hand-overs everywhere, or few and then a long stall of the one who was interrupted."""
    if rng.random() < 0.65:
        return dict(p=rng.choice(ps), hold=0)
    return dict(p=rng.choice([0.005, 0.02, 0.05]), hold=rng.choice([100, 1000, 100000]))


def generate(rng, tier, i):
    plan = gen_plan(rng)
    if sum(plan["spec"]["size"]) > 16:
        plan["sched"].update(gran="line", copy=False)
    return plan


def gen_plan(rng):
    spec = S.gen_new(rng)
    if spec["edges"] is None and rng.random() < 0.8:
        spec["edges"] = S.gen_edges(rng, spec["kind"], spec["size"], k=3)
    warm = []
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        warm.append(dict(t="view", v=S.gen_view(rng, spec)) if rng.random() < 0.6 else dict(t="edit", op=S.gen_edit(rng, spec)))
    if rng.random() < 0.2 and sum(spec["size"]) <= 16:  # much was asked before, but not what somebody asks now
        full = S.all_views(rng, spec)
        half = rng.random() < 0.75  # one computes half of all views while the others are stalled somewhere inside one that is already there
        cold = rng.sample(full, len(full) // 2) if half else [rng.choice(full) for _ in range(rng.choice([1, 2, 3]))]
        warm += [dict(t="view", v=v) for v in full if v[0] not in [c[0] for c in cold] and rng.random() < 0.8]
        n = rng.choice([3, 4]) if half else rng.choice([2, 3])
        ops = [dict(c=0, v=v) for v in cold] + [dict(c=c, v=S.gen_view(rng, spec)) for c in range(1, n) for _ in range(rng.choice([3, 6, 10]))]
        hot = [w["v"] for w in warm if w["t"] == "view"]
        if half and hot:
            ops = ops[:len(cold)] + [dict(c=c, v=rng.choice(hot)) for c in range(1, n) for _ in range(rng.choice([6, 15, 30]))]
        pace = dict(p=rng.choice([0.02, 0.05, 0.2]), hold=0, steady=0) if half else gen_pace(rng, [0.02, 0.08, 0.2, 0.5])
        return dict(spec=spec, warm=warm, ops=ops, n=n, sched=dict(seed=rng.randrange(1 << 40), **pace, gran="line" if half else rng.choice(["line", "line", "line", "opcode"]), copy=False),
                    audit=rng.randrange(1 << 30))
    n = rng.choice([2, 2, 3, 4])
    hot = [S.gen_view(rng, spec) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    if rng.random() < 0.45:  # duel: everybody computes the same views at the same time, from cold caches
        warm = [] if rng.random() < 0.8 else warm[:1]
        n = rng.choice([2, 2, 3])
        hot = [S.gen_view(rng, spec) for _ in range(rng.choice([1, 2, 2]))]
        for c in range(n):
            ops += [dict(c=c, v=v) for v in (hot if rng.random() < 0.8 else hot[::-1])]
        return dict(spec=spec, warm=warm, ops=ops, n=n, sched=dict(seed=rng.randrange(1 << 40), **gen_pace(rng, [0.1, 0.3, 0.5, 0.7]), gran=rng.choice(["line", "line", "line", "opcode"]), copy=rng.random() < 0.2),
                    audit=rng.randrange(1 << 30))
    for c in range(n):
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            ops.append(dict(c=c, v=["clone"] if r < 0.06 else rng.choice(hot) if r < 0.55 else S.gen_view(rng, spec)))
    return dict(spec=spec, warm=warm, ops=ops, n=n, sched=dict(seed=rng.randrange(1 << 40), **gen_pace(rng, [0.02, 0.08, 0.2, 0.5]), gran=rng.choice(["line", "line", "line", "opcode"]),
                                                               copy=rng.random() < 0.6), audit=rng.randrange(1 << 30))


def execute(plan, ctx):
    g, m = S.build(plan["spec"])
    ctx.event("new", plan["spec"])
    for op in plan["warm"]:
        ctx.event(op)
        if op["t"] == "view":
            S.check_view(g, m, op["v"])
        else:
            S.apply_edit(g, m, op["op"])
    sp = plan["sched"]
    sched = Sched(sp["seed"], sp["p"], plan.get("switches"), sp["gran"], (DHG, _copy.__file__) if sp["copy"] else (DHG,), hold=sp.get("hold", 0), steady=sp.get("steady"), max_steps=4_000_000)
    under = {}
    path = []

    def reader(c, views):
        def run():
            for v in views:
                under[c] = S.vname(v)
                try:
                    if v[0] == "clone":
                        h = g.clone()
                        for w in S.all_views(random.Random(5), plan["spec"])[:12]:
                            S.check_view(h, m, w, why="clone-view-mismatch")
                    else:
                        S.check_view(g, m, v, why="reader-mismatch")
                except Violation:
                    raise
                except Exception as e:
                    import traceback
                    raise Violation(f"reader-raised:{m.kind}.{S.vname(v)}:{type(e).__name__}", f"{v} on {m.state()}: " + traceback.format_exc()[-900:])
                under[c] = None
        return run

    for c in range(plan["n"]):
        views = [o["v"] for o in plan["ops"] if o["c"] == c]
        if views:
            sched.spawn(reader(c, views), f"reader{c}")
    if not sched.tasks:
        return
    sched.on_switch = lambda a, b: path.append((a.idx, b.idx, under.get(a.idx), under.get(b.idx)))
    try:
        sched.run()
    finally:
        ctx.sched_trace = sched.trace
        ctx.sim_time += sched.step * 1e-6
    ctx.count("scheduler_steps", sched.step)
    ctx.count("fault:preemption_inside_call", len(path))
    for t in sched.tasks:
        ctx.event("reader", t.idx, "ended", type(t.exc).__name__ if t.exc else "ok")
    ctx.event("switches", sched.trace)
    ctx.sig(path)
    for t in sched.tasks:
        if t.exc is not None:
            raise t.exc
    ctx.count("reads", len(plan["ops"]))
    for v in S.all_views(random.Random(plan["audit"]), plan["spec"]):
        S.check_view(g, m, v, why="after-readers-mismatch")
    ctx.nontrivial = len(sched.tasks) > 1 and len(path) > 0


def simplify(plan):
    if plan.get("switches") is None:
        return
    if plan["spec"]["edges"] and len(plan["spec"]["edges"]) > 1:
        sp = plan["spec"]
        for j in range(len(sp["edges"])):
            yield dict(plan, spec=dict(sp, edges=sp["edges"][:j] + sp["edges"][j + 1:], weights=(sp["weights"][:j] + sp["weights"][j + 1:]) if sp["weights"] else None))
