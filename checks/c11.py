"""C11: dataset splits and negative samples are sound for every random source."""
import copy
import random
from collections import Counter

import numpy as np
import torch

from checks.c10 import log_tail
from dst import advrng
from dst import structs as S
from dst.core import Violation

S.sizes(0.03)
ID = "C11"
RUNS = {"quick": 3000, "thorough": 100000}
LEVEL = "exploration"
TECH = "seeded programs of splits and samplings on changing inputs with every draw answered by an adversarial source; set-level oracle per class and user, frequencies under a fair source"
NOTE = ("The random source is the environment: zeros, largest values, repeats and fair words as the seed decides; loops that stop only by luck are found by a budget of draws. A clean batch is evidence, not proof.")
RULE = ("A run makes 4-12 calls of splits and of datasets kept across the run (train and test phase), with edits of the graph in between, or measures frequencies; non-trivial: a split with two non-empty parts or a valid negative sample; distinct by event log.")
MEASURE = "distinct (input, split or sample) pairs"
REAL = ["dhg.utils split_by_num, split_by_ratio and their bipartite forms", "dhg.utils.UserItemDataset", "random.Random algorithms over the simulated words"]
STUB = ["the words returned by the random generators"]
ASSUMPTIONS = ["labels are non-negative integers, at least two vertices", "an adversarial source is fair after a finite number of draws"]
SHRINK = ["ops"]
RATIOS = [0.0, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.99]


def prepare():
    pass


def gen_labels(rng):
    n = rng.choice([2, 3, 5, 8, 13, 20, 40]) if rng.random() < 0.95 else rng.choice([70, 130, 300])
    base = rng.choice([[0], [0, 1], [0, 1, 2], [1, 2, 3], [1], [0, 2], [0, 1, 5], [2, 3], [1, 3], [0, 7], [3], [0, 300], list(range(12))])
    if rng.random() < 0.3:  # unbalanced
        return [rng.choice(base[:1] * 6 + base) for _ in range(n)]
    return [rng.choice(base) for _ in range(n)]


def gen_op(rng, size):
    r = rng.random()
    if r < 0.2:
        return dict(t="num", lbl=gen_labels(rng), form=rng.choice(["list", "tensor", "array", "column", "float"]), train=rng.choice([0, 1, 1, 2, 3, 5, 50]), val=rng.choice([None, 0, 1, 2, 4, 60]), test=rng.choice([None, None, 0, 1, 3, 60]))
    if r < 0.4:
        a, b, c = rng.choice(RATIOS), rng.choice([None, 0] + RATIOS), rng.choice([None, None] + RATIOS + ["rest"])
        if c == "rest":
            c = max(0.0, round(1 - a - (b or 0), 6))
        if (c is None and a + (b or 0) >= 1) or (c is not None and a + (b or 0) + c > 1):
            a, b, c = 0.6, 0.2, rng.choice([None, 0.2, 0.1])
        return dict(t="ratio", lbl=gen_labels(rng), form=rng.choice(["list", "tensor", "array", "column", "float"]), train=a, val=b, test=c)
    if r < 0.5:
        return dict(t="ui_num", train=rng.choice([0, 1, 2, 3, 50]))
    if r < 0.6:
        return dict(t="ui_ratio", train=rng.choice(RATIOS + [1.0]))
    if r < 0.66:
        return dict(t="edit", seed=rng.randrange(1 << 30))
    return dict(t="ds", how=rng.choice(["item", "item", "neg", "triplet", "nonstrict", "test", "test", "len"]), i=rng.randrange(1 << 20), at=rng.randrange(8))


def gen_ds(rng):
    nu, ni = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4, 8, 16])
    if rng.random() < 0.04:
        nu, ni = rng.choice([1, 4, 20, 70]), rng.choice([30, 70, 130])
    e = []
    for u in range(nu):
        k = rng.choice([0, 1, 1, 2, 3, ni - 1, ni, ni])
        e += [[u, i] for i in rng.sample(range(ni), max(0, min(k, ni)))]
    if e and rng.random() < 0.25:
        e += [rng.choice(e) for _ in range(rng.randrange(1, 4))]
    rng.shuffle(e)
    cut = rng.randrange(len(e) + 1)
    return dict(nu=nu, ni=ni, train=e[:cut] if rng.random() < 0.6 else e, test=e[cut:] if rng.random() < 0.7 else e, tup=rng.random() < 0.5)


def gen_sizes(rng):
    n = rng.choice([4, 6, 9, 4, 6, 9, 20, 70, 130])
    return dict(n=n, k=rng.choice([1, 2, 3]) if n < 10 else rng.choice([n // 4, n // 2, n - 3]))


def generate(rng, tier, i):
    spec = S.gen_new(rng, "BiGraph")
    if spec["edges"] is None:
        spec["edges"] = S.gen_edges(rng, "BiGraph", spec["size"], k=8)
    if rng.random() < 0.06:
        return dict(mode="freq", what=rng.choice(["num", "ratio", "ui_num", "ui_ratio", "neg", "pos"]), seed=rng.randrange(1 << 40), reps=rng.choice([300, 600]), ops=[], **gen_sizes(rng))
    return dict(mode="adv", spec=spec, ds=gen_ds(rng), ops=[gen_op(rng, spec["size"]) for _ in range(rng.randrange(4, 13))], seed=rng.randrange(1 << 40),
                prefix=advrng.gen_prefix(rng, 80) + [["f", rng.randrange(1, 9)]] + advrng.gen_prefix(rng, 80))


# ------------------------------------------------------------------ vertex splits
def form_of(lbl, form):
    if form == "list":
        return list(lbl)
    if form == "tensor":
        return torch.tensor(lbl)
    if form == "float":
        return torch.tensor(lbl, dtype=torch.float32)
    a = np.array(lbl)
    return a.reshape(-1, 1) if form == "column" else a


def same(a, b):
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (a == b).all()
    return a == b


def check_vertex_split(ctx, op, f):
    lbl, n = op["lbl"], len(op["lbl"])
    arg = form_of(lbl, op["form"])
    before = arg.clone() if isinstance(arg, torch.Tensor) else copy.deepcopy(arg)
    r = f(n, arg, op["train"], op["val"], op["test"])
    what = f"split_by_{op['t']}({lbl}, {op['train']}, {op['val']}, {op['test']})"
    ctx.check(same(arg, before), "labels-changed", lambda: f"{what} changed its labels to {arg}")
    two = len(r) == 2
    ctx.check(len(r) in (2, 3) and (two or op["val"] is not None) and (not two or not op["val"]), "wrong-parts", lambda: f"{what} returned {len(r)} masks")
    ctx.check(all(isinstance(x, torch.Tensor) and x.dtype == torch.bool and tuple(x.shape) == (n,) for x in r), "wrong-parts", lambda: f"{what} returned {r}")
    tr, te = r[0].tolist(), r[-1].tolist()
    va = r[1].tolist() if not two else [False] * n
    for v in range(n):
        ctx.check(tr[v] + va[v] + te[v] <= 1, "overlap", lambda: f"{what}: vertex {v} is in more than one of train {tr}, val {va}, test {te}")
    for c in sorted(set(lbl)):
        vs = [v for v in range(n) if lbl[v] == c]
        k = len(vs)
        got = [sum(m[v] for v in vs) for m in (tr, va, te)]
        if op["t"] == "num":
            a = min(k, op["train"])
            b = min(k - a, op["val"] or 0)
            t = k - a - b if op["test"] is None else min(k - a - b, op["test"])
            ctx.check(got == [a, b, t], "wrong-size", lambda: f"{what}: class {c} of {k} vertices was split into {got} instead of {[a, b, t]}")
        else:
            for x, ratio in zip(got, (op["train"], op["val"] or 0, op["test"])):
                if ratio is None:
                    ctx.check(sum(got) == k, "wrong-size", lambda: f"{what}: class {c} of {k} vertices was split into {got}")
                else:
                    ctx.check(abs(x - k * ratio) < 1 and x <= k * ratio + 1e-6, "wrong-size", lambda: f"{what}: class {c} of {k} vertices was split into {got}")
    ctx.event(what, tr, va, te)
    ctx.sig(lbl, tr, va, te)
    if sum(tr) and sum(te):
        ctx.nontrivial = True


# ------------------------------------------------------------------ bipartite splits
def check_ui_split(ctx, op, g, m):
    from dhg import utils
    f = utils.split_by_num_for_UI_bigraph if op["t"] == "ui_num" else utils.split_by_ratio_for_UI_bigraph
    r = f(g, op["train"])
    what = f"{op['t']}({op['train']}) of {m.state()}"
    ctx.check(isinstance(r, tuple) and len(r) == 2, "wrong-parts", what)
    parts = []
    for adj in r:
        d = {}
        for row in adj:
            u = int(row[0])
            ctx.check(u not in d and 0 <= u < m.nu, "wrong-rows", lambda: f"{what}: rows {adj}")
            d[u] = [int(x) for x in row[1:]]
        parts.append(d)
    for u in range(m.nu):
        items = sorted(v for (x, v) in m.E if x == u)
        a, b = parts[0].get(u, []), parts[1].get(u, [])
        ctx.check(sorted(a + b) == items, "lost-or-repeated", lambda: f"{what}: user {u} with items {items} got train {a} and test {b}")
        k = len(items)
        if op["t"] == "ui_num":
            ctx.check(len(a) == min(k, op["train"]), "wrong-size", lambda: f"{what}: user {u} with {k} items got {len(a)} for training")
        else:
            ctx.check(abs(len(a) - k * op["train"]) < 1 and len(a) <= k * op["train"] + 1e-6, "wrong-size", lambda: f"{what}: user {u} with {k} items got {len(a)} for training")
        if a and b:
            ctx.nontrivial = True
    ctx.event(what, r)
    ctx.sig(m.state(), r)
    for d in r:
        for row in d:
            row.append(-5)  # whatever the caller does with the lists, the graph is its own
    rng = random.Random(len(ctx.log))
    for v in [["e"], ["B"], ["nbr_v", rng.randrange(m.nu)], ["deg_u"], ["L_GCN"]]:
        S.check_view(g, m, v, why="graph-changed")


# ------------------------------------------------------------------ datasets
class DS:
    def __init__(self, spec):
        from dhg.utils import UserItemDataset
        mk = (lambda es: [tuple(e) for e in es]) if spec["tup"] else (lambda es: [list(e) for e in es])
        self.spec, self.tr, self.te = spec, mk(spec["train"]), mk(spec["test"])
        nu, ni = spec["nu"], spec["ni"]
        self.known = {u: {i for x, i in spec["train"] if x == u} for u in range(nu)}
        self.true = {u: {i for x, i in spec["test"] if x == u} for u in range(nu)}
        self.train = UserItemDataset(nu, ni, self.tr)
        self.loose = UserItemDataset(nu, ni, self.tr, strict_link=False)
        self.test = UserItemDataset(nu, ni, self.te, train_user_item_list=self.tr, phase="test")

    def intact(self, ctx):
        ctx.check([list(e) for e in self.tr] == self.spec["train"] and [list(e) for e in self.te] == self.spec["test"], "interactions-changed", "the lists given to the dataset were changed")


def check_neg(ctx, ds, u, neg, what):
    ctx.check(isinstance(neg, int) and 0 <= neg < ds.spec["ni"], "negative-out-of-range", lambda: f"{what}: {neg}")
    ctx.check(neg not in ds.known[u], "negative-is-known", lambda: f"{what}: item {neg} is one of user {u}'s items {sorted(ds.known[u])}")
    ctx.nontrivial = True


def do_ds(ctx, op, ds):
    sp, how = ds.spec, op["how"]
    full = [u for u in range(sp["nu"]) if len(ds.known[u]) >= sp["ni"]]
    ctx.event("ds", how, op["i"])
    if how == "len":
        ctx.check((len(ds.train), len(ds.loose), len(ds.test)) == (len(sp["train"]), len(sp["train"]), sp["nu"]), "wrong-length", f"{len(ds.train)}, {len(ds.loose)}, {len(ds.test)}")
        return
    if how == "test":
        u = op["i"] % sp["nu"]
        for again in range(2):
            idx, mask, rating = ds.test[u]
            exp_m = [float("-inf") if i in ds.known[u] else 0.0 for i in range(sp["ni"])]
            exp_r = [1.0 if i in ds.true[u] else 0.0 for i in range(sp["ni"])]
            ctx.check(idx == u and mask.tolist() == exp_m, "wrong-mask", lambda: f"user {u}: mask {mask.tolist()} instead of {exp_m}")
            ctx.check(rating.tolist() == exp_r, "wrong-rating", lambda: f"user {u}: rating {rating.tolist()} instead of {exp_r}")
            mask.fill_(7), rating.fill_(7)
        ctx.sig(sp, u)
        return
    if how == "neg":
        u = op["i"] % sp["nu"]
        try:
            neg = ds.train.sample_neg_item(u)
        except Exception as e:
            ctx.check(u in full, "negative-refused", lambda: f"user {u} with {len(ds.known[u])} of {sp['ni']} items: {e!r}")
            ctx.event("refused")
            return
        ctx.check(u not in full, "negative-invented", lambda: f"user {u} has every item, but {neg} was sampled")
        check_neg(ctx, ds, u, neg, "sample_neg_item")
    elif how == "item":
        if not sp["train"]:
            return
        j = op["i"] % len(sp["train"])
        eu, ei = sp["train"][j]
        try:
            u, pos, neg = ds.train[j]
        except Exception as e:
            ctx.check(eu in full, "negative-refused", lambda: f"item {j} (user {eu} with {len(ds.known[eu])} of {sp['ni']} items): {e!r}")
            ctx.event("refused")
            return
        ctx.check((u, pos) == (eu, ei), "wrong-positive", lambda: f"item {j} is {(u, pos)} instead of {(eu, ei)}")
        check_neg(ctx, ds, u, neg, f"item {j}")
    else:
        if not sp["train"] or len(full) == len([u for u in ds.known if ds.known[u]]):
            return
        try:
            u, pos, neg = ds.loose[op["i"] % len(sp["train"])] if how == "nonstrict" else ds.train.sample_triplet()
        except Exception as e:
            ctx.check(full, "triplet-refused", lambda: f"{how} on {sp}: {e!r}")
            ctx.event("refused")
            return
        ctx.check(0 <= u < sp["nu"] and pos in ds.known[u], "wrong-positive", lambda: f"{how}: {pos} is not an item of user {u}")
        check_neg(ctx, ds, u, neg, how)
        neg = [u, pos, neg]
    ctx.event("sampled", neg)
    ctx.sig(sp["train"], neg)


# ------------------------------------------------------------------ frequencies
def do_freq(ctx, plan):
    from dhg import BiGraph, utils
    what, n, k, reps = plan["what"], plan["n"], plan["k"], plan["reps"]
    cnt, pool, val = Counter(), None, Counter()
    for _ in range(reps):
        if what in ("num", "ratio"):
            lbl = [j // 2 % 2 for j in range(2 * n)] if plan["seed"] % 2 and n % 2 == 0 else [0] * n + [1] * (n + 1)
            r = utils.split_by_num(len(lbl), lbl, k, 1) if what == "num" else utils.split_by_ratio(len(lbl), lbl, (k + 0.5) / n)
            pool, take = [v for v in range(len(lbl)) if lbl[v] == 0], k
            cnt.update(v for v in pool if r[0][v])
            if what == "num":
                val.update(v for v in pool if r[1][v])
        elif what.startswith("ui"):
            g = BiGraph(2, n + 2, [(0, i) for i in range(n)] + [(1, i) for i in range(2, n + 2)])
            r = utils.split_by_num_for_UI_bigraph(g, k) if what == "ui_num" else utils.split_by_ratio_for_UI_bigraph(g, (k + 0.5) / n)
            pool, take = list(range(n)), k
            cnt.update([row for row in r[0] if row[0] == 0][0][1:])
        else:
            if _ == 0:
                rng = random.Random(plan["seed"] + 1)
                ni = rng.choice([n + 2, 2 * n, 3 * n, 8 * n])
                known = rng.sample(range(ni), n) if rng.random() < 0.5 else [(j + n // 2) % ni for j in range(n)] if rng.random() < 0.5 else list(range(n))
                rng.shuffle(known)
                d = utils.UserItemDataset(1, ni, [(0, i) for i in known])
            u, p, q = d.sample_triplet()
            pool, take = (known, 1) if what == "pos" else ([i for i in range(ni) if i not in known], 1)
            cnt[p if what == "pos" else q] += 1
    ctx.check(set(cnt) <= set(pool), "wrong-frequency", lambda: f"{what}: {cnt} from {pool}")
    for v in pool:
        ctx.check(log_tail(reps, take / len(pool), cnt[v]) > -33, "wrong-frequency", lambda: f"{what}: {v} was drawn {cnt[v]} times in {reps} calls, expected about {reps * take / len(pool):.0f}")
        ctx.check(what != "num" or log_tail(reps, 1 / len(pool), val[v]) > -33, "wrong-frequency", lambda: f"{what}: {v} was drawn {val[v]} times for validation in {reps} calls, expected about {reps / len(pool):.0f}")
    ctx.event("freq", what, n, k, sorted(cnt.items()))
    ctx.count("frequency-samples", reps)
    ctx.nontrivial = True


def execute(plan, ctx):
    import dhg.utils as utils
    src = advrng.install(advrng.Source(plan.get("prefix", []), plan["seed"], 100000 if plan["mode"] != "freq" else 1 << 40))
    if plan["mode"] == "freq":
        return do_freq(ctx, plan)
    g, m = S.build(plan["spec"])
    ds = DS(plan["ds"])
    # a second data set of the same numbers of users and items, with other interactions
    sp, twins = plan["ds"], [ds]
    if plan["seed"] % 2:
        flip = lambda es: [[u, sp["ni"] - 1 - i] for u, i in es]
        twins.append(DS(dict(sp, train=flip(sp["train"]), test=flip(sp["test"]))))
    for op in plan["ops"]:
        t, ds = op["t"], twins[op.get("i", 0) // 7 % len(twins)]
        if t in ("num", "ratio"):
            check_vertex_split(ctx, op, utils.split_by_num if t == "num" else utils.split_by_ratio)
        elif t in ("ui_num", "ui_ratio"):
            check_ui_split(ctx, op, g, m)
        elif t == "edit":
            e = S.gen_edit(random.Random(op["seed"]), dict(kind="BiGraph", size=[m.nu, m.nv]))
            try:
                ctx.event("edit", S.apply_edit(g, m, e))
            except Exception as x:
                raise Violation("edit-failed", f"{e} on {m.state()}: {x!r}")
        else:
            do_ds(ctx, op, ds)
    for ds in twins:
        ds.intact(ctx)
    ctx.count("fault:adversarial-draw", src.forced)
    ctx.count("draws", src.n)
