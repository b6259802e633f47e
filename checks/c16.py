"""C16: evaluating a model is free of side effects and of chance."""
import copy
import random

import numpy as np
import torch

from dst import alloc, rngops, structs as S
from dst.core import DHG, Violation
from dst.sched import Sched

ID = "C16"
RUNS = {"quick": 1100, "thorough": 30000}
LEVEL = "exploration"
TECH = "seeded histories of training, evaluation, edits, generator states and failing allocations, then interleaved evaluating threads; every evaluation is compared with a newly built model and structure that have the same parameters and content and no history"
NOTE = ("The real models, layers and structures run; the oracle is the same library without history: a new model loaded with the parameters, a structure built from the reference model's content, other generator states. A clean batch is evidence, not proof.")
RULE = ("A run holds 1-3 models over 1-2 structures of each kind and 6-20 operations, then optionally 2-3 threads; non-trivial: an evaluation after a training step, edit or other evaluation of the same model; distinct by event log.")
MEASURE = "distinct (model, structure content, inputs, results)"
REAL = ["all models in dhg.models and their layers", "dhg structures and message passing", "torch optimisers and autograd"]
STUB = ["generator states", "allocation (fails on demand)", "thread scheduler"]
ASSUMPTIONS = ["CPU, one torch thread", "nobody trains or edits what is being evaluated at the same time", "HyperGCN's evaluation is compared under equal generator states, and with its fast mode after the same first structure"]
SHRINK = ["ops", "threads", "switches"]
ALL = rngops.G_MODELS + rngops.HG_MODELS + rngops.UI_MODELS + rngops.BI_MODELS


def prepare():
    from checks.c08 import warm_torch
    alloc.install()
    warm_torch()
    import dhg.models  # noqa


def sk_of(name):
    return "Graph" if name in rngops.G_MODELS else "Hypergraph" if name in rngops.HG_MODELS else "BiGraph"


def gen_x(rng):
    return dict(salt=rng.choice([0, 1, 2, 5, 9]), grad=rng.random() < 0.2, zero=rng.random() < 0.08)


def generate(rng, tier, i):
    n, nu, nv = rng.choice([3, 4, 5, 6]), rng.choice([2, 3, 4]), rng.choice([2, 3, 5])
    models = []
    big = rng.random() < 0.05
    if big:
        n, nu, nv = rng.choice([12, 33, 65, 130]), rng.choice([9, 20, 65]), rng.choice([11, 33, 70])
    for _ in range(rng.choice([1, 1, 2, 3]) if not big else 1):
        models.append(dict(model=rng.choice(ALL), d=rng.choice([2, 3, 3, 9] if not big else [1, 3, 9, 16]), bn=rng.random() < 0.4, heads=rng.choice([1, 2] if not big else [1, 2, 4]), fast=rng.random() < 0.5, med=rng.random() < 0.5, p=rng.choice([0.2, 0.5, 0.9]),
                           aggr="mean", seed=rng.randrange(1 << 20)))
    kinds = sorted({sk_of(m["model"]) for m in models})
    structs = []
    for k in kinds:
        for _ in range(rng.choice([1, 2])):
            sp = S.gen_new(rng, k)
            sp["size"] = [nu, nv] if k == "BiGraph" else [n]
            sp["edges"] = S.gen_edges(rng, k, sp["size"], k=rng.choice([2, 4, 6, 8] if not big else [n, 2 * n, n + nv]))
            if k == "Hypergraph":
                if any(m["model"] == "HyperGCN" for m in models):
                    sp["edges"] = [rng.sample(range(n), rng.choice([2, 3])) for _ in sp["edges"]]
                if sp["vw"]:
                    sp["vw"] = [rng.choice(S.WS) for _ in range(n)]
            if sp["weights"]:
                sp["weights"] = [rng.choice(S.WS) for _ in sp["edges"]]
            structs.append(sp)

    def pick():
        k = rng.randrange(len(models))
        js = [j for j, s in enumerate(structs) if s["kind"] == sk_of(models[k]["model"])]
        return dict(at=k, on=rng.choice(js), x=gen_x(rng))
    ops = []
    for _ in range(rng.randrange(6, 21) if not big else 6):
        r = rng.random()
        if r < 0.45:
            ops.append(dict(t="eval", **pick(), nograd=rng.random() < 0.5, seed=rng.randrange(1 << 20), spoil=rng.random() < 0.3, oom=rng.choice([1, 2, 3, 4, 5, 8]) if rng.random() < 0.12 else 0))
        elif r < 0.65:
            ops.append(dict(t="train", **pick(), seed=rng.randrange(1 << 20), backward=rng.random() < 0.8, oom=rng.choice([1, 2, 4, 7]) if rng.random() < 0.15 else 0))
        elif r < 0.8:
            j = rng.randrange(len(structs))
            ops.append(dict(t="edit", on=j, op=S.gen_edit(rng, structs[j])))
        elif r < 0.86:
            j = rng.randrange(len(structs))
            ops.append(dict(t="view", on=j, v=S.gen_view(rng, structs[j])))
        elif r < 0.92:
            ops.append(dict(t="reload", at=rng.randrange(len(models)), seed=rng.randrange(1 << 20)))
        elif r < 0.96:
            ops.append(dict(t="param", at=rng.randrange(len(models)), f=rng.choice([0.5, -1.0, 2.0])))
        else:
            ops.append(dict(t="copy", at=rng.randrange(len(models))))
    ops += [dict(t="eval", **pick(), nograd=True, seed=rng.randrange(1 << 20), spoil=False, oom=0) for _ in range(2)]
    if rng.random() < 0.4:  # the same model on the same structure, of which only a weight changed
        one = dict(t="eval", **pick(), nograd=True, seed=rng.randrange(1 << 20), spoil=False, oom=0)
        e = rng.choice(structs[one["on"]]["edges"]) if structs[one["on"]]["edges"] else None
        if e is not None:
            edit = dict(t="add", edges=[list(e)], weights=[rng.choice([2.0, 5.0])], op="sum", form="list")
            if structs[one["on"]]["kind"] == "Hypergraph":
                edit["group"] = "main"
            ops += [one, dict(t="edit", on=one["on"], op=edit), dict(one, seed=rng.randrange(1 << 20))]
    threads = []
    if rng.random() < 0.4:
        hot = [pick() for _ in range(2)]
        for _ in range(rng.choice([2, 2, 3])):
            threads.append([dict(rng.choice(hot) if rng.random() < 0.6 else pick()) for _ in range(rng.choice([1, 2]))])
    return dict(n=n, nu=nu, nv=nv, models=models, structs=structs, ops=ops, threads=threads, cold=rng.random() < 0.5, sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.02, 0.1, 0.3])))


def seed_all(s):
    random.seed(s)
    np.random.seed(s % (1 << 32))
    torch.manual_seed(s)


class Pool:
    def __init__(self, g):
        self.g = self.h = self.b = g


def make_x(spec, plan, x):
    d = spec["d"]
    if spec["model"] in rngops.UI_MODELS:
        return None
    if spec["model"] in rngops.BI_MODELS:
        out = (rngops.feats(plan["nu"], d, x["salt"]), rngops.feats(plan["nv"], d + 1, x["salt"] + 2))
    else:
        out = (rngops.feats(plan["n"], d, x["salt"]),)
    if x["zero"]:
        out = tuple(t * 0 for t in out)
    if x["grad"]:
        out = tuple(t.requires_grad_() for t in out)
    return out if len(out) > 1 else out[0]


def outs(y):
    return list(y) if isinstance(y, tuple) else [y]


def forward(m, spec, g, x, seed):
    """Outcome of one evaluation: the output tensors or the type of the error."""
    seed_all(seed)
    try:
        return outs(rngops.model_forward(m, spec, Pool(g), x))
    except (RuntimeError, ValueError, AssertionError, IndexError) as e:
        return type(e).__name__


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return len(a) == len(b) and all(p.shape == q.shape and torch.allclose(p.detach(), q.detach(), rtol=1e-4, atol=1e-5, equal_nan=True) for p, q in zip(a, b))


def content(g, kind):
    if kind == "Hypergraph":
        return [(n, g.e_of_group(n)) for n in sorted(g.group_names)], list(g.v_weight)
    return g.e, getattr(g, "num_e")


def execute(plan, ctx):
    base = dict(n=plan["n"], nu=plan["nu"], nv=plan["nv"])
    models, firsts, seen = [], [], []
    for s in plan["models"]:
        seed_all(s["seed"])
        models.append(rngops.make_model(s, base))
        firsts.append(None)
        seen.append(0)
    structs = [S.build(s) for s in plan["structs"]]

    def fresh(k, j, x, seed):
        """The same evaluation without history."""
        s = plan["models"][k]
        seed_all(s["seed"] + 1)
        m = rngops.make_model(s, base)
        m.load_state_dict(copy.deepcopy(models[k].state_dict()))
        m.eval()
        hyper = s["model"] == "HyperGCN"
        if hyper and s["fast"] and firsts[k] is not None:
            fm, fx, fs = firsts[k]
            forward(m, s, S.rebuild(fm), fx, fs)
        with torch.no_grad():
            return forward(m, s, S.rebuild(structs[j][1]), x, seed if hyper else seed + 12345)

    def note_first(k, j, x, seed):
        s = plan["models"][k]
        if s["model"] == "HyperGCN" and s["fast"] and firsts[k] is None and getattr(models[k], "cached_g", None) is not None:
            firsts[k] = (structs[j][1].copy(), make_x(s, plan, dict(x, grad=False)), seed)

    def snapshot(k, j, x):
        xs = x if isinstance(x, tuple) else () if x is None else (x,)
        return ({n: t.detach().clone() for n, t in models[k].state_dict().items()}, [t.detach().clone() for t in xs], repr(content(structs[j][0], structs[j][1].kind)))

    def unchanged(k, j, x, snap, what):
        name = plan["models"][k]["model"]
        st = models[k].state_dict()
        for n, t in snap[0].items():
            ctx.check(n in st and torch.equal(t, st[n]) or n in st and torch.isnan(t).any() and torch.allclose(t, st[n], equal_nan=True), "parameters-changed", lambda: f"{name}: {n} changed during {what}")
        xs = x if isinstance(x, tuple) else () if x is None else (x,)
        for a, b in zip(snap[1], xs):
            ctx.check(torch.equal(a, b), "input-changed", lambda: f"{name}: the input features changed during {what}")
        now = repr(content(structs[j][0], structs[j][1].kind))
        ctx.check(now == snap[2], "structure-changed", lambda: f"{name}: {what} changed the structure from {snap[2]} to {now}")

    for q, op in enumerate(plan["ops"]):
        ctx.event(op["t"], op.get("at"), op.get("on"), op.get("seed"))
        if op["t"] == "edit":
            g, m = structs[op["on"]]
            try:
                S.apply_edit(g, m, op["op"])
            except Violation:
                raise
            continue
        if op["t"] == "view":
            S.check_view(*structs[op["on"]], op["v"])
            continue
        k = op["at"]
        s, m = plan["models"][k], models[k]
        if op["t"] == "reload":
            seed_all(op["seed"])
            m.load_state_dict(rngops.make_model(s, base).state_dict())
        elif op["t"] == "param":
            with torch.no_grad():
                for p in m.parameters():
                    p.mul_(op["f"])
        elif op["t"] == "copy":
            models[k] = copy.deepcopy(m)
        elif op["t"] == "train":
            j = op["on"]
            x = make_x(s, plan, op["x"])
            m.train()
            seed_all(op["seed"])
            if s["model"] in rngops.BI_MODELS and op["seed"] % 3 == 0:  # their own way of training
                try:
                    with alloc.oom_at(op["oom"] or 1 << 40):
                        m.train_with_cascaded(*(t.detach() for t in x), structs[j][0], 0.01, 1e-4, 1 + op["seed"] % 2)
                    ctx.count("cascaded-training")
                except (RuntimeError, ValueError, AssertionError, IndexError, alloc.SimOOM) as e:
                    ctx.count("fault:allocation-failure" if isinstance(e, alloc.SimOOM) else "training-error")
                seen[k] += 1
                continue
            opt = torch.optim.SGD(m.parameters(), lr=0.05)
            opt.zero_grad()
            try:
                if op["oom"]:
                    with alloc.oom_at(op["oom"]) as o:
                        ys = outs(rngops.model_forward(m, s, Pool(structs[j][0]), x))
                else:
                    ys = outs(rngops.model_forward(m, s, Pool(structs[j][0]), x))
                if op["backward"]:
                    sum((y * y).mean() for y in ys).backward()
                    torch.nn.utils.clip_grad_value_(m.parameters(), 1.0)
                    opt.step()
            except (RuntimeError, ValueError, AssertionError, IndexError, alloc.SimOOM) as e:
                ctx.count("fault:allocation-failure" if isinstance(e, alloc.SimOOM) else "training-error")
            note_first(k, j, op["x"], op["seed"])
            seen[k] += 1
        elif op["t"] == "eval":
            j = op["on"]
            x = make_x(s, plan, op["x"])
            m.eval()
            snap = snapshot(k, j, x)
            want = fresh(k, j, make_x(s, plan, dict(op["x"], grad=False)), op["seed"])
            if op["oom"]:
                try:
                    with alloc.oom_at(op["oom"]) as o:
                        seed_all(op["seed"])
                        rngops.model_forward(m, s, Pool(structs[j][0]), x)
                except alloc.SimOOM:
                    ctx.count("fault:allocation-failure")
                except (RuntimeError, ValueError, AssertionError, IndexError):
                    pass
                unchanged(k, j, x, snap, "an evaluation that ran out of memory")
                note_first(k, j, op["x"], op["seed"])
            if op["nograd"]:
                with torch.no_grad():
                    got = forward(m, s, structs[j][0], x, op["seed"])
            else:
                got = forward(m, s, structs[j][0], x, op["seed"])
            note_first(k, j, op["x"], op["seed"])
            ctx.check(same(got, want), "evaluation-depends-on-history", lambda: f"operation {q}: {s} on {structs[j][1].state()} gives {got}, without history {want}")
            if op["spoil"] and not isinstance(got, str):
                with torch.no_grad():
                    for y in got:
                        y.fill_(7.0)
            unchanged(k, j, x, snap, "an evaluation" + (" whose output the caller overwrote" if op["spoil"] else ""))
            if seen[k]:
                ctx.nontrivial = True
            seen[k] += 1
            ctx.sig(s["model"], structs[j][1].state(), op["x"], got if isinstance(got, str) else [np.round(y.detach().numpy().astype(float), 3).tolist() for y in want])
            ctx.check(torch.is_grad_enabled(), "grad-mode-changed", lambda: s["model"])
    if plan["threads"]:
        if plan["cold"]:
            structs = [(S.rebuild(m), m) for _, m in structs]
        calls = []
        for th in plan["threads"]:
            row = []
            for c in th:
                s = plan["models"][c["at"]]
                if s["model"] == "HyperGCN" and (not s["fast"] or firsts[c["at"]] is None):
                    continue
                x = make_x(s, plan, dict(c["x"], grad=False))
                row.append((c, x, fresh(c["at"], c["on"], x, 1)))
            calls.append(row)
        for m in models:
            m.eval()
        snaps = {(c["at"], c["on"]): snapshot(c["at"], c["on"], None) for row in calls for c, _, _ in row}
        sc = Sched(plan["sched"]["seed"], plan["sched"]["p"], plan.get("switches"), "line", (DHG,))

        def body(row):
            with torch.no_grad():  # the gradient mode belongs to the thread
                for c, x, want in row:
                    s = plan["models"][c["at"]]
                    try:
                        got = outs(rngops.model_forward(models[c["at"]], s, Pool(structs[c["on"]][0]), x))
                    except (RuntimeError, ValueError, AssertionError, IndexError) as e:
                        got = type(e).__name__
                    ctx.check(same(got, want), "evaluation-depends-on-threads", lambda: f"{s} on {structs[c['on']][1].state()} gives {got}, alone {want}")
        for row in calls:
            if row:
                sc.spawn(lambda row=row: body(row))
        if len(sc.tasks) > 1:
            try:
                sc.run()
            finally:
                ctx.sched_trace = sc.trace
            ctx.count("fault:preemption_inside_call", len(sc.trace))
            ctx.event("threads", sc.trace)
            for t in sc.tasks:
                if t.exc is not None:
                    raise t.exc
            for (k, j), snap in snaps.items():
                unchanged(k, j, None, (snap[0], [], snap[2]), "concurrent evaluations")
    for (g, m), sp in zip(structs, plan["structs"]):
        for v in S.all_views(random.Random(3), sp)[:14]:
            S.check_view(g, m, v, why="structure-damaged")
