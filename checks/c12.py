"""C12: evaluators, where an epoch's result depends only on that epoch's samples."""
import copy

import numpy as np
import torch

from dst import alloc
from dst.core import Violation

ID = "C12"
RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded interleavings of validation and test epochs of several evaluators, with rejected batches, failing allocations and reused buffers, against a list-of-samples model"
NOTE = ("The oracle is the mean of the metric over the single samples of the epoch, each evaluated on its own by the library's metric function. A clean batch is evidence, not proof.")
RULE = ("A run interleaves 8-40 operations on 1-4 evaluators (batches cut and ordered by the seed, epoch results, repeated questions, rejected and failing batches); non-trivial: at least one epoch of two or more batches; distinct by event log.")
MEASURE = "distinct (configuration, epoch cut) pairs"
REAL = ["dhg.metrics evaluators", "dhg.metrics.recommender and retrieval functions"]
STUB = ["tensor allocation (fails on demand)"]
ASSUMPTIONS = ["a metric of one sample alone is the sample's contribution", "predicted scores without ties", "batches are not empty"]
SHRINK = ["ops"]
REC = ["ndcg", "precision", "recall", {"ndcg": {"k": 2}}, {"recall": {"k": 3}}, {"precision": {"k": 2}}, {"precision": {"k": 9}}, {"recall": {"ratio": 0.3}}, {"ndcg": {"ratio": 0.5}}, {"precision": {"ratio": 0.4}}]
RET = REC + ["map", "mrr", "pr_curve", {"map": {"k": 2, "method": "legacy"}}, {"mrr": {"k": 3}}, {"pr_curve": {"method": "legacy"}}, {"pr_curve": {"n_points": 5}}]
CLS = ["accuracy", "f1_score", {"f1_score": {"average": "micro"}}, "confusion_matrix"]


def prepare():
    alloc.install()


def fname(c):
    return c if isinstance(c, str) else list(c)[0]


def gen_rows(rng, n, bad):
    rows = []
    long = rng.choice([20, 70, 130]) if rng.random() < 0.03 else 0
    if not long and rng.random() < 0.02:
        n = rng.choice([17, 40, 130])
    for _ in range(n):
        t = long or rng.choice([3, 4, 6])
        rows.append(dict(y=None, p=None, t=t))
    t = rows[0]["t"]
    graded = rng.random() < 0.1
    for r in rows:
        dens = rng.choice([0.0, 0.2, 0.5, 0.5, 0.8, 1.0])
        r["y"] = [int(rng.random() < dens) for _ in range(t)]
        r["p"] = rng.sample(range(1, 60 if t < 20 else 40 * t), t)
        del r["t"]
    if bad and graded:
        rows[rng.randrange(n)]["y"][rng.randrange(t)] = rng.choice([2, 5])
    return rows


def generate(rng, tier, i):
    evs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        task = rng.choice(["recommender", "recommender", "retrieval", "retrieval", "classification"])
        pool = dict(recommender=REC, retrieval=RET, classification=CLS)[task]
        cfg = rng.sample(pool, rng.choice([1, 2, 3, 5]) if task != "classification" else rng.choice([1, 2, 3]))
        ok = [k for k, c in enumerate(cfg) if fname(c) not in ("pr_curve",)]
        if not ok:
            cfg[0], ok = "ndcg" if task == "retrieval" else cfg[0], [0]
        evs.append(dict(task=task, cfg=cfg, vi=rng.choice(ok)))
    if rng.random() < 0.4 and len(evs) > 1:  # two evaluators with the same configuration
        evs[1] = copy.deepcopy(evs[0])
    ops = []
    for _ in range(rng.randrange(8, 41)):
        r, at = rng.random(), rng.randrange(len(evs))
        side = rng.choice(["val", "test"])
        if evs[at]["task"] == "classification":
            n = rng.choice([1, 2, 5, 9])
            ops.append(dict(t="cls", at=at, y=[rng.randrange(3) for _ in range(n)], p=[[rng.randrange(50) / 50 for _ in range(3)] for _ in range(n)], two=rng.random() < 0.5, side=side, bad=rng.random() < 0.1))
        elif r < 0.7:
            ops.append(dict(t="add", at=at, side=side, rows=gen_rows(rng, rng.choice([1, 1, 2, 3, 5, 7]), rng.random() < 0.5), form=rng.choice(["long", "float", "bool", "grad"]), one=rng.random() < 0.3,
                            shape=rng.random() < 0.06, oom=rng.choice([1, 2, 3, 4, 6]) if rng.random() < 0.12 else 0, wipe=rng.random() < 0.3))
        else:
            ops.append(dict(t="epoch", at=at, side=side, again=rng.random() < 0.4))
    at = rng.randrange(len(evs))
    if rng.random() < 0.04 and evs[at]["task"] != "classification":  # an epoch of very many batches
        side = rng.choice(["val", "test", "test"])
        few = [dict(t="add", at=at, side=side, rows=gen_rows(rng, rng.choice([1, 1, 3]), False), form="float", one=False, shape=False, oom=0, wipe=False) for _ in range(7)]
        ops = ops[:8] + [few[min(int(j / 40), 6)] for j in range(rng.choice([70, 140, 280]))] + ops[8:]
    for at in range(len(evs)):
        ops += [dict(t="epoch", at=at, side=s, again=True) for s in ("val", "test")] if evs[at]["task"] != "classification" else []
    return dict(evs=evs, ops=ops)


class Ev:
    def __init__(self, spec):
        import dhg.metrics as dm
        import dhg.metrics.classification as mc
        import dhg.metrics.recommender as mr
        import dhg.metrics.retrieval as mt
        self.spec, task = spec, spec["task"]
        cfg = copy.deepcopy(spec["cfg"])
        self.ev = dm.UserItemRecommenderEvaluator(cfg, spec["vi"]) if task == "recommender" else dm.RetrievalEvaluator(cfg, spec["vi"]) if task == "retrieval" else dm.GraphVertexClassificationEvaluator(cfg, spec["vi"])
        mod = dict(recommender=mr, retrieval=mt, classification=mc)[task]
        self.fs = [(getattr(mod, fname(c)), {} if isinstance(c, str) else dict(c[fname(c)])) for c in spec["cfg"]]
        self.cur = {"val": [], "test": []}  # contributions of the running epoch
        self.cuts = {"val": [], "test": []}
        self.last = {"val": None, "test": None}


def tensors(rows, form, one):
    y = torch.tensor([r["y"] for r in rows], dtype=torch.long if form == "long" else torch.float32)
    p = torch.tensor([r["p"] for r in rows], dtype=torch.float32) / 64
    if form == "bool" and y.max() <= 1:
        y = y.bool()
    if form == "grad":
        p = (p.requires_grad_() * 1.0)
    if one and len(rows) == 1:
        y, p = y[0], p[0]
    return y, p


def single(f, kw, row):
    """A sample's own value, or None when the metric rejects it. Binary relevances are always valid, except that a precision-recall curve needs a positive one."""
    y, p = torch.tensor([row["y"]], dtype=torch.float32), torch.tensor([row["p"]], dtype=torch.float32) / 64
    try:
        return np.asarray(f(y, p, **kw), dtype=np.float64)
    except Exception as e:
        if max(row["y"]) <= 1 and (f.__name__ != "pr_curve" or sum(row["y"])):
            raise Violation("good-sample-rejected", f"{f.__module__}.{f.__name__}({row['y']}, {row['p']}, {kw}): {e!r}")
        return None


def same(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64), rtol=1e-4, atol=1e-6, equal_nan=True)


def do_add(ctx, E, op):
    side, fs = op["side"], E.fs if op["side"] == "test" else [E.fs[E.spec["vi"]]]
    vals = [[single(f, kw, r) for f, kw in fs] for r in op["rows"]]
    bad = op["shape"] or any(x is None for v in vals for x in v)
    y, p = tensors(op["rows"], op["form"], op["one"])
    if op["shape"]:
        p = torch.cat([p, p], dim=-1)
    add = E.ev.test_add_batch if side == "test" else E.ev.validate_add_batch
    ctx.event("add", side, len(op["rows"]), "bad" if bad else "", op["oom"])
    y0 = y.clone()
    try:
        if op["oom"]:
            with alloc.oom_at(op["oom"]):
                add(y, p)
        else:
            add(y, p)
    except alloc.SimOOM:
        ctx.count("fault:allocation-failure")
        return True
    except Exception as e:
        ctx.check(bad, "good-batch-rejected", lambda: f"{E.spec} rejected rows {op['rows']} ({op['form']}): {e!r}")
        ctx.count("fault:rejected-batch")
        return True
    if bad:
        ctx.event("accepted")
        return False  # the contribution of such a batch is undefined: end the run
    ctx.check(torch.equal(y, y0), "input-changed", "the batch was changed")
    E.cur[side] += vals
    E.cuts[side].append(len(op["rows"]))
    if op["wipe"]:  # the caller reuses its buffers
        with torch.no_grad():
            y.fill_(0), p.fill_(0)
        ctx.count("fault:buffer-reuse")
    return True


def do_epoch(ctx, E, side, kept):
    ask = E.ev.test_epoch_res if side == "test" else E.ev.validate_epoch_res
    if not E.cur[side] and E.last[side] is None:
        try:
            r = ask()
        except Exception:
            return
        ctx.check(r == {} or r is None, "result-without-batch", lambda: f"{E.spec} answered {r} before any batch")
        return
    r = ask()
    if E.cur[side]:
        exp = [np.mean([v[k] for v in E.cur[side]], axis=0) for k in range(len(E.fs) if side == "test" else 1)]
        E.last[side] = exp
        ctx.sig(E.spec, E.cuts[side])
        if len(E.cuts[side]) > 1:
            ctx.nontrivial = True
        E.cur[side], E.cuts[side] = [], []
    exp = E.last[side]
    ctx.event("epoch", side, np.round([float(np.nansum(x)) for x in exp], 4).tolist())
    if side == "val":
        ctx.check(same(r, exp[0]), "wrong-validation-result", lambda: f"{E.spec}: {r} instead of {exp[0]}")
    else:
        ctx.check(len(r) == len(exp), "wrong-test-result", lambda: f"{E.spec}: {r}")
        for (name, x), y in zip(r.items(), exp):
            ctx.check(same(x, y), "wrong-test-result", lambda: f"{E.spec}: {name} is {x} instead of {y.tolist()}")
        kept.append((r, copy.deepcopy(r)))


def do_cls(ctx, E, op):
    y = torch.tensor(op["y"])
    p = torch.tensor(op["p"]) if op["two"] else torch.tensor(op["p"]).argmax(1)
    call = E.ev.validate if op["side"] == "val" else E.ev.test
    ctx.event("cls", op["side"], op["bad"])
    if op["bad"]:
        try:
            call(y, p[:-1])
        except Exception:
            ctx.count("fault:rejected-batch")
        return
    r = call(y, p)
    for k, (f, kw) in enumerate(E.fs):
        if op["side"] == "val" and k != E.spec["vi"]:
            continue
        exp = f(y, p, **kw)
        x = r if op["side"] == "val" else list(r.values())[k]
        ctx.check(same(x, exp), "wrong-classification-result", lambda: f"{E.spec}: {x} instead of {exp}")


def execute(plan, ctx):
    evs, kept = [Ev(s) for s in plan["evs"]], []
    for op in plan["ops"]:
        E = evs[op["at"] % len(evs)]
        if op["t"] == "add":
            if not do_add(ctx, E, op):
                return
        elif op["t"] == "cls":
            do_cls(ctx, E, op)
        else:
            do_epoch(ctx, E, op["side"], kept)
            if op["again"]:
                do_epoch(ctx, E, op["side"], kept)
        for r, c in kept:
            ctx.check(repr(r) == repr(c), "old-result-changed", lambda: f"a test result that was {c} is now {r}")
