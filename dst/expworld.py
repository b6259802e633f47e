"""Hyper-parameter experiments under simulation: the real task classes, real models and real optuna studies; scores, pruning and failures come from the plan."""
import copy
import logging
import math
import os
import random
import re
import shutil

import numpy as np
import optuna
import torch
import torch.nn as nn

from . import disk, sched
from .core import Violation

ODD = ["nan", "inf", "-inf"]
_samplers = {}  # id(sampler) -> seed it was made with
_prune = None


def install():
    """Seams on optuna: who is pruned, and which seed a sampler was given."""
    optuna.logging.disable_default_handler()
    optuna.logging.disable_default_handler = lambda: None
    import warnings
    warnings.simplefilter("ignore")

    def should_prune(self):
        t = sched.current_task()
        task = (t.data.get("task") if t is not None else None) or _main["task"]
        return task.plan_prune(self.number) if task is not None else False
    optuna.trial.Trial.should_prune = should_prune
    real = optuna.samplers.TPESampler.__init__

    def init(self, *a, seed=None, **k):
        _samplers[id(self)] = (self, seed)
        real(self, *a, seed=seed, **k)
    optuna.samplers.TPESampler.__init__ = init


_main = {"task": None}


class Scripted(RuntimeError):
    """The user's code failed, as the plan says."""


def num(x):
    return float(x)


# ------------------------------------------------------------------ plans
def gen_scores(rng, n):
    mode = rng.random()
    if n > 6 and rng.random() < 0.5:  # nothing better for a long time
        out = [0.5 - round(rng.random() / 4, 3) for _ in range(n)]
        out[rng.randrange(3)], out[-rng.randrange(1, 4)] = 0.75, rng.choice([0.75, 0.8])
    elif mode < 0.25:
        out = [round(rng.random(), 3) for _ in range(n)]
    elif mode < 0.45:
        out = sorted(round(rng.random(), 3) for _ in range(n))
        if rng.random() < 0.5:
            out.reverse()
    elif mode < 0.5:  # no two the same, but close
        out = [rng.choice([0.5, -3.0]) + rng.randrange(-3, 4) * 1e-9 for _ in range(n)]
    elif mode < 0.65:  # ties
        out = [rng.choice([0.25, 0.5, 0.5, 0.75]) for _ in range(n)]
    elif mode < 0.8:
        out = [rng.choice([-1.5, -0.5, 0.0, 0.0, 1e-9, 3.0, 1e30]) for _ in range(n)]
    else:
        out = [rng.choice(ODD + [0.1, 0.9]) for _ in range(n)]
    return out


def gen_run(rng, stress):
    epochs, trials = rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([1, 2, 2, 3, 4, 5])
    if rng.random() < 0.06:
        epochs, trials = 1, rng.choice([11, 12, 13])
    elif rng.random() < 0.06:
        epochs, trials = rng.choice([10, 14, 25, 60, 110]), rng.choice([1, 1, 2])
    tr = []
    for _ in range(trials):
        t = dict(scores=gen_scores(rng, epochs), prune=None, cut=None, boom=None)
        r = rng.random()
        if r < 0.2:
            t["prune"] = rng.randrange(epochs)
        elif r < 0.25:
            t["cut"] = rng.randrange(epochs)  # the training code prunes the trial itself
        elif r < 0.25 + stress:
            t["boom"] = [rng.choice(["build", "train", "validate", "load"]), rng.randrange(epochs)]
        tr.append(t)
    return dict(epochs=epochs, dir=rng.choice(["maximize", "maximize", "minimize"]), trials=tr, real=rng.random() < 0.25)


def gen_session(rng, stress=0.0, names=("s0", "s0", "s1", None)):
    kind = rng.choice(["graph", "hyper", "graphB", "hyperB", "ui", "uiB", "mf"])
    n = rng.choice([4, 5, 6])
    return dict(kind=kind, n=n, ni=rng.choice([4, 5]), data=rng.randrange(1 << 30), runs=[gen_run(rng, stress) for _ in range(rng.choice([1, 1, 1, 2]))], name=rng.choice(names), over=rng.random() < 0.6,
                bn=rng.random() < 0.3, opt=rng.choice(["sgd", "adam"]), sched=rng.random() < 0.3, form=rng.choice(["str", "path"]), metrics=rng.choice([0, 1, 2]), own_data=rng.random() < 0.7)


CLS = [["accuracy"], ["f1_score", "accuracy", {"f1_score": {"average": "micro"}}], ["accuracy", "confusion_matrix"]]
REC = [["ndcg"], ["recall", {"ndcg": {"k": 2}}], [{"precision": {"k": 2}}, "ndcg", {"recall": {"k": 3}}]]


# ------------------------------------------------------------------ the user's side
class MF(nn.Module):
    """Matrix factorisation: a recommender that needs no structure."""

    def __init__(self, nu, ni, d):
        super().__init__()
        self.u, self.i = nn.Embedding(nu, d), nn.Embedding(ni, d)

    def forward(self):
        return self.u.weight, self.i.weight


class BPR(nn.Module):
    def forward(self, emb_u, emb_i, users, pos, neg, model=None):
        s = lambda i: (emb_u[users] * emb_i[i]).sum(1)
        return -(s(pos) - s(neg)).sigmoid().log().mean()


def gnm(rng, n, kind):
    if kind == "hyper":
        return [rng.sample(range(n), rng.choice([2, 2, 3])) for _ in range(n)], [rng.choice([0.5, 1.0, 2.0]) for _ in range(n)]
    return [[rng.randrange(n), rng.randrange(n)] for _ in range(2 * n)], None


def make_structure(kind, spec, rng):
    import dhg
    n = spec["n"]
    if kind == "graph":
        e = [[a, b] for a in range(n) for b in range(a + 1, n) if rng.random() < 0.5] or [[0, 1]]
        return dhg.Graph(n, e, [rng.choice([0.5, 1.0, 2.0]) for _ in e])
    if kind == "hyper":
        e, w = gnm(rng, n, "hyper")
        return dhg.Hypergraph(n, e, w)
    return dhg.BiGraph(n, spec["ni"], [[u, i] for u in range(n) for i in range(spec["ni"]) if rng.random() < 0.5] or [[0, 0]])


def content(g):
    """The structure's content as its public views show it."""
    if g is None:
        return None
    e = g.e
    if type(g).__name__ == "Hypergraph":
        return ("Hypergraph", g.num_v, sorted((list(x), float(w)) for x, w in zip(*e)), [float(x) for x in g.v_weight])
    sz = (g.num_u, g.num_v) if type(g).__name__ == "BiGraph" else (g.num_v,)
    return (type(g).__name__, sz, sorted((list(x), float(w)) for x, w in zip(*e)))


def make_data(spec):
    rng = random.Random(spec["data"])
    n = spec["n"]
    base = spec["kind"].rstrip("B")
    if base in ("graph", "hyper"):
        g = torch.Generator().manual_seed(spec["data"])
        d = dict(features=torch.rand(n, 3, generator=g), labels=torch.tensor([rng.randrange(2) for _ in range(n)]))
        for k, name in enumerate(("train_mask", "val_mask", "test_mask")):
            m = torch.tensor([rng.random() < 0.6 for _ in range(n)])
            m[(spec["data"] + k) % n] = True
            d[name] = m
        if has_structure(spec):
            d["structure"] = make_structure(base, spec, rng)
        return d
    from torch.utils.data import DataLoader
    from dhg.utils import UserItemDataset
    ni = spec["ni"]
    tr = [(u, i) for u in range(n) for i in range(ni) if rng.random() < 0.4]
    for u in range(n):
        if not any(x == u for x, _ in tr):
            tr.append((u, rng.randrange(ni)))
        if sum(x == u for x, _ in tr) == ni:
            tr.remove(next(p for p in tr if p[0] == u))
    te = [(u, rng.choice([i for i in range(ni) if (u, i) not in tr])) for u in range(n)]
    tro = UserItemDataset(n, ni, tr)
    teo = UserItemDataset(n, ni, te, train_user_item_list=tr, phase="test")
    d = dict(train_loader=DataLoader(tro, batch_size=4, shuffle=True), test_loader=Loader(DataLoader(teo, batch_size=rng.choice([2, 3, n]))))
    if has_structure(spec):
        d["structure"] = make_structure("ui", spec, rng)
    return d


def has_structure(spec):
    return spec["kind"] in ("graph", "hyper", "ui") or spec["kind"] != "mf" and spec["data"] % 2 == 1


def data_key(spec):
    return (dict(graph="g", hyper="h").get(spec["kind"].rstrip("B"), "r"), has_structure(spec), spec["n"], spec["ni"], spec["data"])


class Loader:
    """The test loader, which may fail part of the way."""

    def __init__(self, inner):
        self.inner, self.fail = inner, None

    def __iter__(self):
        k = 0
        for b in self.inner:
            if self.fail is not None and k >= self.fail:
                self.fail = None
                raise Scripted("loader")
            k += 1
            yield b
        if self.fail is not None:
            self.fail = None
            raise Scripted("loader")


def make_evaluator(spec):
    import dhg.metrics as dm
    if spec["kind"].startswith("graph"):
        return dm.GraphVertexClassificationEvaluator(copy.deepcopy(CLS[spec["metrics"]]), 0)
    if spec["kind"].startswith("hyper"):
        return dm.HypergraphVertexClassificationEvaluator(copy.deepcopy(CLS[spec["metrics"]]), 0)
    return dm.UserItemRecommenderEvaluator(copy.deepcopy(REC[spec["metrics"]]), 0)


def build_model(spec, hid):
    import dhg.models as M
    b = spec["kind"].rstrip("B")
    if b == "graph":
        return M.GCN(3, hid, 2, use_bn=spec["bn"])
    if b == "hyper":
        return M.HGNN(3, hid, 2, use_bn=spec["bn"])
    if b == "ui":
        return M.LightGCN(spec["n"], spec["ni"], hid, num_layers=2, drop_rate=0.3 if spec["bn"] else 0.0)
    return MF(spec["n"], spec["ni"], hid)


class Rec:
    """What the simulator saw of one trial."""

    def __init__(self, number):
        self.number, self.scores, self.models, self.structure, self.structs, self.suggests, self.trains = number, [], [], None, [], [], 0


class World:
    """One simulated process and its disk; faults at callbacks are decided by the plan."""

    def __init__(self, ctx):
        self.ctx, self.callbacks, self.die_at, self.disk = ctx, 0, None, None

    def at_callback(self, task):
        self.callbacks += 1
        if self.die_at is not None and self.callbacks >= self.die_at:
            self.die_at = None
            self.disk.main.dead = True
            self.ctx.count("fault:process_death")
            raise disk.SimCrash("main")


def do_run(world, task, run):
    """One call of run(); returns how it ended: ok, scripted, none (no completed trial), disk, crash."""
    ctx = world.ctx
    task.run_plan, task.recs, task.tests = run, {}, []
    t = sched.current_task()
    if t is not None:
        t.data["task"] = task
        proc = t.data.get("proc")
    else:
        _main["task"] = task
        proc = world.disk.main if world.disk is not None else None
    task.started += 1
    try:
        task.run(run["epochs"], len(run["trials"]), run["dir"])
    except Violation:
        raise
    except BaseException as e:
        if proc is not None and proc.dead:
            return "crash"
        hard = proc is not None and [f for f in proc.fired if f[0] != "short"]
        if isinstance(e, Scripted):
            return "scripted"
        if isinstance(e, ValueError) and task.study is not None and not any(x.state == optuna.trial.TrialState.COMPLETE for x in task.study.get_trials(deepcopy=False)):
            return "none"
        if hard and isinstance(e, (OSError, RuntimeError, EOFError, ValueError)) and not isinstance(e, AttributeError):
            return "disk"
        raise
    if proc is not None and proc.dead:
        return "crash"
    return "ok"


def trial_lines(task):
    """The messages the study of the last run must have left in the log."""
    out = []
    for t in (task.study.get_trials(deepcopy=False) if task.study is not None else []):
        s = t.state.name
        if s == "COMPLETE":
            out.append([t.number, "finished", t.value])
        elif s == "PRUNED":
            out.append([t.number, "pruned", None])
        elif s == "FAIL":
            out.append([t.number, "failed", None])
    return out


def make_task(world, spec, data, evaluator, root, structure):
    """The real task class with recording callbacks."""
    import dhg.experiments as E
    kind = spec["kind"]
    cls = E.GraphVertexClassificationTask if kind == "graph" else E.HypergraphVertexClassificationTask if kind == "hyper" else E.VertexClassificationTask if kind in ("graphB", "hyperB") else E.UserItemRecommenderTask

    def suggest(trial, how, *a):
        v = getattr(trial, how)(*a)
        if task_box and task_box[0].cur is not None and isinstance(trial, optuna.trial.Trial):
            task_box[0].cur.suggests.append([how, list(a)])
        return v
    task_box = []

    def boom(trial, stage, epoch=None):
        t = task_box[0]
        if t.run_plan is None or not isinstance(trial, (int, optuna.trial.Trial)):
            return
        n = trial if isinstance(trial, int) else trial.number
        p = t.run_plan["trials"][n] if n < len(t.run_plan["trials"]) else None
        if p and p["boom"] and p["boom"][0] == stage and (epoch is None or epoch == p["boom"][1]):
            world.ctx.count("fault:trial-exception")
            raise Scripted(f"{stage} {epoch}")

    def model_builder(trial):
        hid = suggest(trial, "suggest_int", "hid", 2, 4)
        boom(trial, "build")
        return build_model(spec, hid)

    def train_builder(trial, model):
        lr = suggest(trial, "suggest_float", "lr", 0.05, 0.5)
        opt = (torch.optim.SGD if spec["opt"] == "sgd" else torch.optim.Adam)(model.parameters(), lr=lr)
        out = dict(optimizer=opt, criterion=BPR() if kind in ("ui", "uiB", "mf") else nn.CrossEntropyLoss())
        if spec["sched"]:
            out["scheduler"] = torch.optim.lr_scheduler.StepLR(opt, 1, 0.5)
        return out

    def structure_builder(trial):
        seed = suggest(trial, "suggest_int", "graph", 0, 50)
        s = make_structure(kind[:-1], spec, random.Random(seed))
        if task_box and task_box[0].cur is not None:
            task_box[0].cur.structure = content(s)
        return s

    class Task(cls):
        cur, run_plan, runs_seen, plan_epoch, tests = None, None, None, 0, None

        def experiment(self, trial):
            r = self.cur = Rec(trial.number)
            if self.recs is not None:
                self.recs[trial.number] = r
            if kind[-1] != "B":
                r.structure = self.user_structure
            self.plan_epoch = -1
            return super().experiment(trial)

        def plan_prune(self, n):
            p = self.run_plan["trials"][n]
            r = p["prune"] is not None and p["prune"] == len(self.recs[n].scores) - 1
            if r:
                world.ctx.count("fault:pruned")
            return r

        def train(self, data, model, optimizer, criterion):
            r = self.cur
            r.trains += 1
            n, ep = r.number, len(r.scores)
            world.at_callback(self)
            boom(n, "train", ep)
            super().train(data, model, optimizer, criterion)
            p = self.run_plan["trials"][n]
            if p["cut"] == ep:
                world.ctx.count("fault:pruned")
                raise optuna.exceptions.TrialPruned()

        def validate(self, data, model):
            r = self.cur
            p, ep = self.run_plan["trials"][r.number], len(r.scores)
            world.at_callback(self)
            ld = self.data.get("test_loader")
            if p["boom"] and p["boom"][0] == "load" and p["boom"][1] == ep and ld is not None:
                world.ctx.count("fault:loader-exception")
                ld.fail = 1
            boom(r.number, "validate", ep)
            real = super().validate(data, model)
            if ld is not None:
                ld.fail = None
            m = copy.deepcopy(model)
            score = real if self.run_plan["real"] else num(p["scores"][ep])
            want = score_of(spec, m, data.get("structure"), data, "val_mask", make_evaluator(spec))
            world.ctx.check(near(real, want), "validation-score-wrong", lambda: f"{tag(self)}: trial {r.number} epoch {ep} validates to {real}, its model on its structure gives {want}")
            got = content(data.get("structure"))
            world.ctx.check(got == r.structure, "trial-used-other-structure", lambda: f"{tag(self)}: trial {r.number} was built with {r.structure} and validated with {got}")
            r.scores.append(float(score))
            r.models.append(m)
            return score

        def test(self, data=None, model=None):
            res = super().test(data, model)
            self.tests.append([data is None, res])
            return res
    kw = {}
    if kind[-1] == "B":
        kw["structure_builder"] = structure_builder
    if spec["name"] is not None or spec["data"] % 2:
        kw["study_name"] = spec["name"]
    root = root if spec["form"] == "str" else __import__("pathlib").Path(root)
    obj = Task.__new__(Task)
    task_box.append(obj)
    obj.recs, obj.tests, obj.spec, obj.started, obj.user_structure = None, [], spec, 0, structure
    obj.__init__(root, data, model_builder, train_builder, evaluator, torch.device("cpu"), overwrite=spec["over"], **kw)
    return obj


def tag(t):
    return f"{t.spec['kind']} session '{t.spec['name']}'"


def near(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-5, atol=1e-6, equal_nan=True)


def score_of(spec, model, structure, data, mask, ev):
    """The evaluator's verdict on a model, computed outside the task."""
    with torch.no_grad():
        model.eval()
        if "test_loader" in data:
            u, i = model(structure) if structure is not None else model()
            for users, train_mask, true in data["test_loader"].inner:
                (ev.validate_add_batch if mask == "val_mask" else ev.test_add_batch)(true, u[users] @ i.t() + train_mask)
            return ev.validate_epoch_res() if mask == "val_mask" else ev.test_epoch_res()
        out = model(data["features"], structure)
        m = data[mask]
        return (ev.validate if mask == "val_mask" else ev.test)(data["labels"][m], out[m])


# ------------------------------------------------------------------ the oracles
def expected_value(r, direction):
    v = [s for s in r.scores if s == s]
    if not v:
        return None
    return max(v) if direction == "maximize" else min(v)


def verify_results(ctx, task, run, recs, data):
    """A finished run: score, model, structure and test result belong to the best epoch."""
    T = optuna.trial.TrialState
    trials = task.study.get_trials(deepcopy=False)
    ctx.check(len(trials) <= len(run["trials"]), "too-many-trials", lambda: f"{len(trials)} trials, asked for {len(run['trials'])}")
    done = {}
    for t in trials:
        r, p = recs[t.number], run["trials"][t.number]
        states = ",".join(x.state.name for x in trials)
        cut = p["prune"] is not None or p["cut"] is not None
        exp = expected_value(r, run["dir"])
        want = T.PRUNED if cut else T.FAIL if exp is None else T.COMPLETE
        ctx.check(t.state == want, "trial-state-wrong", lambda: f"{tag(task)}: trial {t.number} with scores {r.scores} ended as {t.state.name} ({states})")
        ctx.check(len(t.intermediate_values) == len(r.scores) and all(near(t.intermediate_values.get(k), s) for k, s in enumerate(r.scores)), "reported-scores-wrong", lambda: f"{tag(task)}: trial {t.number} reported {t.intermediate_values}, validated {r.scores}")
        if want == T.COMPLETE:
            ctx.check(len(r.scores) == run["epochs"] == r.trains, "wrong-number-of-epochs", lambda: f"trial {t.number}: {r.trains} trained and {len(r.scores)} validated epochs of {run['epochs']}")
            ctx.check(t.value == exp, "trial-value-wrong", lambda: f"{tag(task)}: trial {t.number} has value {t.value}, its validation scores were {r.scores} ({run['dir']})")
            done[t.number] = exp
    assert done, "run finished without a completed trial"
    best = max(done.values()) if run["dir"] == "maximize" else min(done.values())
    bt = task.best_trial
    ctx.check(bt.number in done and done[bt.number] == best and bt.value == best and task.study.best_value == best, "best-trial-wrong", lambda: f"{tag(task)}: best trial {bt.number} value {bt.value}, completed trials {done} ({run['dir']})")
    r = recs[bt.number]
    st = task.best_model.state_dict()
    ok = [k for k, s in enumerate(r.scores) if s == best]
    hit = [k for k, m in enumerate(r.models) if same_state(m.state_dict(), st)]
    ctx.check(set(hit) & set(ok), "best-model-wrong", lambda: f"{tag(task)}: best model has the parameters of epochs {hit} of trial {bt.number} "
              f"(other trials: {[(n, k) for n, x in recs.items() for k, m in enumerate(x.models) if n != bt.number and same_state(m.state_dict(), st)]}), the score {best} belongs to epochs {ok} of {r.scores} ({run['dir']})")
    got = content(task.best_structure)
    ctx.check(got == r.structure, "best-structure-wrong", lambda: f"{tag(task)}: best trial {bt.number} used {r.structure}, the experiment keeps {got}")
    # the final test
    m = copy.deepcopy(r.models[ok[0] if ok[0] in hit else next(iter(set(hit) & set(ok)))])
    want = score_of(task.spec, m, task.best_structure, data, "test_mask", make_evaluator(task.spec))
    ctx.check(task.tests and same_res(task.tests[-1][1], want), "test-result-wrong", lambda: f"{tag(task)}: final test gave {task.tests[-1:]}, the best model on the best structure gives {want}")
    return bt.number, best, r, m, want


def same_state(a, b):
    return list(a) == list(b) and all(a[k].shape == b[k].shape and a[k].dtype == b[k].dtype and torch.equal(a[k], b[k]) for k in a)


def same_res(a, b):
    return isinstance(a, dict) and list(a) == list(b) and all(near(a[k], b[k]) for k in a)


def verify_cache(ctx, task, number, model, structure):
    """The cache holds the best trial's files and nothing else."""
    with disk.off():
        names = sorted(os.listdir(task.cache_root))
        want = sorted([f"{number}_model.pth"] + ([f"{number}_structure.dhg"] if structure is not None else []))
        ctx.check(names == want, "cache-wrong", lambda: f"{tag(task)}: cache holds {names}, expected {want}")
        sd = torch.load(os.path.join(task.cache_root, f"{number}_model.pth"))
        ctx.check(same_state(sd, model.state_dict()), "cached-model-wrong", f"{tag(task)}: trial {number}")
        if structure is not None:
            import dhg
            g = dhg.load_structure(os.path.join(task.cache_root, f"{number}_structure.dhg"))
            ctx.check(content(g) == structure, "cached-structure-wrong", lambda: f"{tag(task)}: {content(g)} instead of {structure}")


LINE = re.compile(r"Trial (\d+) (finished with value: (\S+) and|pruned|failed)")


def verify_log(ctx, task, runs_log, prefix, finished, res):
    """The log holds the earlier log (if kept), then exactly this task's messages."""
    with disk.off():
        text = open(task.log_file, encoding="utf8").read()
    ctx.check(text.startswith(prefix), "earlier-log-lost", lambda: f"{tag(task)}: the log no longer starts with the {len(prefix)} characters it had when the study was opened again")
    own = text[len(prefix):]
    got = []
    for ln in own.split("\n"):
        m = LINE.search(ln)
        if m and not ("failed" in m.group(2) and "failed with parameters" in ln):
            got.append([int(m.group(1)), m.group(2).split()[0], float(m.group(3)) if m.group(3) else None])
    ctx.check(got == runs_log, "log-wrong", lambda: f"{tag(task)}: the log tells of trials {got}, this study ran {runs_log}")
    n = own.count("Final test results")
    ctx.check(n == finished, "log-wrong", lambda: f"{tag(task)}: {n} final test results in the log of {finished} finished runs")
    n = own.count("A new study created")
    ctx.check(n == task.started, "log-wrong", lambda: f"{tag(task)}: {n} studies in the log of {task.started} runs")
    if res is not None:
        tail = own[own.rfind("Final test results"):].split("\n")[1:]
        for k, v in res.items():
            t = [ln for ln in tail if re.search(r"\s" + re.escape(k) + r"\s*\|->", ln)]
            ctx.check(len(t) == 1 and (not isinstance(v, float) or f"{v:.3f}" in t[0]), "logged-result-wrong", lambda: f"{tag(task)}: {k} is {v}, the log says {t}")
    return own


def seed_logged(own):
    m = re.findall(r"[Ss]eed\D*?(\d+)", own)
    return int(m[-1]) if m else None


def drop_handlers():
    """Process death: the log files of the dead process are closed."""
    lg = logging.getLogger("optuna")
    names = [lg] + [x for n, x in list(lg.manager.loggerDict.items()) if n.startswith("optuna") and isinstance(x, logging.Logger)]
    for g in names:
        for h in list(g.handlers):
            if isinstance(h, logging.FileHandler):
                g.removeHandler(h)
                try:
                    h.stream and os.close(h.stream.fileno())
                except (OSError, ValueError, BaseException):
                    pass
                h.stream = None


def replay_search(seed, run, recs, order):
    """The parameters a search with `seed` proposes for the same scores."""
    out = {}
    s = optuna.create_study(direction=run["dir"], sampler=optuna.samplers.TPESampler(seed=seed))

    def obj(t):
        out[t.number] = dict()
        r = recs[t.number]
        for how, a in r.suggests:
            getattr(t, how)(*a)
        out[t.number] = dict(t.params)
        for k, v in enumerate(r.scores):
            t.report(v, k)
        p = run["trials"][t.number]
        if p["prune"] is not None or p["cut"] is not None:
            raise optuna.exceptions.TrialPruned()
        v = expected_value(r, run["dir"])
        return float("nan") if v is None else v
    s.optimize(obj, n_trials=len(recs))
    return out
