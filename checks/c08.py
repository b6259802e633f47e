"""C08: a fixed seed makes every random operation of the library reproducible."""
import gc
import os
import random

from dst import alloc, clock, peer, rngops

ID = "C08"
RUNS = {"quick": 450, "thorough": 14000}
LEVEL = "exploration"
TECH = "seeded programs of random library operations replayed under different simulated clocks, entropy, process histories, failing allocations and a second interpreter with another hash seed; exact digests compared"
NOTE = ("Each program runs in three worlds that share only the seed and the program; every result must be bit-identical. A clean batch is evidence, not proof.")
RULE = ("A run is a program of 3-10 random operations (generators, dropping, splits, sampling, conversions, model initialisation and training, layouts), with failed operations and re-seeding in it, executed in a "
        "clean world, in a world with another history, clock and entropy, and in another interpreter; non-trivial: at least two operations that draw; distinct by event log.")
MEASURE = "distinct programs of operations with their results"
REAL = ["dhg.random, dropping, smoothing dropout, dataset splits and sampling, HyperGCN conversion, all models, layouts", "random, numpy.random and torch generators"]
STUB = ["clock", "operating-system entropy", "allocation (fails on demand)"]
ASSUMPTIONS = ["CPU, one torch thread", "both worlds run the same library versions on the same machine"]
SHRINK = ["ops", "pre"]
PEER = None


def warm_torch():
    """Load the parts of torch, numpy and scikit-learn that the operations reach, without touching the library."""
    import numpy as np
    import torch
    from sklearn.metrics import euclidean_distances
    lin = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.BatchNorm1d(2), torch.nn.Dropout(0.5), torch.nn.LeakyReLU())
    for opt in (torch.optim.SGD(lin.parameters(), lr=0.1), torch.optim.Adam(lin.parameters(), lr=0.1)):
        opt.zero_grad()
        x = torch.sparse.mm(torch.eye(3).to_sparse().coalesce(), lin(torch.ones(3, 2)))
        (x * x).sum().backward()
        opt.step()
    torch.sparse.softmax(torch.eye(3).to_sparse(), dim=1)
    torch.nn.functional.binary_cross_entropy(torch.sigmoid(torch.ones(2, 1)), torch.ones(2, 1))
    euclidean_distances(np.zeros((2, 2)))
    from sklearn.manifold import TSNE
    TSNE(n_components=2, init="pca").fit_transform(np.arange(128.0).reshape(32, 4) % 7)


def prepare():
    global PEER
    alloc.install()
    warm_torch()
    import dhg.visualization  # noqa
    PEER = peer.start("c08", 4711)


def prepare_peer(warm):
    alloc.install()
    warm_torch()
    import dhg.visualization  # noqa


def generate(rng, tier, i):
    base = rngops.gen_base(rng)
    seed = rng.choice([0, 1, 42, rng.randrange(1 << 31), rng.randrange(1 << 31)])
    light = rng.random() < 0.8

    def op():
        while True:
            o = rngops.gen_op(rng, base)
            if light and o["t"] in ("layout", "bilayout", "featvis"):
                continue
            return o
    ops = []
    for _ in range(rng.randrange(3, 11)):
        o = op()
        if rng.random() < 0.12:
            o = dict(o, oom=rng.choice([1, 2, 3, 5]))
        ops.append(o)
        if rng.random() < 0.1:
            ops.append(dict(t="seed", v=rng.choice([0, 1, 7, 2022, seed, seed, rng.randrange(1 << 31)])))
        if rng.random() < 0.15:  # the same operation again: it draws on, or repeats after a re-seed
            ops.append(dict(ops[0]))
    names = [t for t in ("graph_Gnp", "hypergraph_Gnm", "drop", "path_drop", "split_num", "split_ui_num", "uidataset", "model", "normal_features", "drop_gen", "hypergcn_conv")]
    pre = []
    for _ in range(rng.randrange(1, 7)):
        r = rng.random()
        if r < 0.2:
            pre.append(dict(t="seed", v=rng.choice([seed, rng.randrange(1 << 31)])))
        elif r < 0.3:
            pre.append(dict(t=rng.choice(["raw_random", "raw_numpy", "raw_torch", "gc", "gauss"])))
        else:
            # a generator, a memo or a counter of an operation's own shows when the same kind of operation ran before
            same = [o for o in ops if o["t"] not in ("seed", "layout", "bilayout", "featvis")]
            o = dict(rng.choice(same)) if same and rng.random() < 0.5 else rngops.gen_op(rng, base, names)
            o.pop("oom", None)
            if rng.random() < 0.4 and o in same:
                o = rngops.gen_op(rng, base, [o["t"]])
            if rng.random() < 0.3:
                o["oom"] = rng.choice([1, 2, 4])
            pre.append(o)
    if rng.random() < 0.4:  # everything ran before
        same = [{k: v for k, v in o.items() if k != "oom"} for o in ops if o["t"] not in ("seed", "layout", "bilayout", "featvis")]
        rng.shuffle(same)
        pre = same[:8] + pre[:2]
    return dict(base=base, seed=seed, ops=ops, pre=pre, warm=rng.random() < 0.5 and not any(o.get("oom") for o in ops), entropy=rng.randrange(1 << 30),
                clocks=[dict(t0=1.7e9, step=0.0), dict(t0=rng.uniform(1e9, 2e9), step=rng.choice([0.3, 1.0, 77.0]), jumps=[[rng.randrange(1, 6), rng.choice([-3600, 86400])]]),
                        dict(t0=rng.uniform(1e9, 2e9), step=rng.choice([0.001, 1.0]), jumps=[])])


def step(op, pool, c):
    import numpy as np
    import torch
    import dhg
    t = op["t"]
    if t == "seed":
        dhg.random.set_seed(op["v"])
        return "seed", dhg.random.seed()
    if t == "raw_random":
        return "x", str(random.random())
    if t == "raw_numpy":
        return "x", str(np.random.rand())
    if t == "raw_torch":
        return "x", str(float(torch.rand(1)))
    if t == "gauss":  # leaves a cached second value behind
        return "x", str([random.gauss(0, 1), float(np.random.randn(1)[0]), float(torch.randn(1))])
    if t == "gc":
        gc.collect()
        return "x", ""
    try:
        if op.get("oom"):
            with alloc.oom_at(op["oom"]) as o:
                v = rngops.run_op(op, pool)
        else:
            v = rngops.run_op(op, pool)
    except (Exception, alloc.SimOOM) as e:
        return "err", type(e).__name__
    return "ok", rngops.canon(v)


def perform(base, seed, ops, pre, warm, clk, entropy):
    """One world: returns the results of the program."""
    import dhg
    c = clock.Clock(**clk)
    clock.install(c)
    os.urandom = random.Random(entropy).randbytes
    random._urandom = os.urandom
    junk = [object() for _ in range(entropy % 997)]
    pool = rngops.Pool(base)
    keep = []
    for o in pre:
        keep.append(step(o, pool, c))
    if warm:
        for s in (pool.g, pool.d, pool.b):
            s.A, s.e
        pool.g.L_GCN, pool.b.L_GCN, pool.h.L_HGNN, pool.h.H, pool.h.e
    else:
        pool = rngops.Pool(base)
    dhg.random.set_seed(seed)
    out = [["seed", dhg.random.seed()]]
    cur = seed
    for o in ops:
        r = step(o, pool, c)
        if o["t"] == "seed":
            cur = o["v"]
        s = dhg.random.seed()
        out.append([r[0], r[1], s == cur])
    del junk, keep
    return dict(out=out, reads=c.reads, hit=c.hit, span=c.span())


def execute(plan, ctx):
    args = dict(base=plan["base"], seed=plan["seed"], ops=plan["ops"])
    # the second world runs in a fork, so that the worlds share nothing but their inputs
    res = [fork_perform(ctx, dict(args, pre=[], warm=False, clk=plan["clocks"][0], entropy=plan["entropy"])),
           fork_perform(ctx, dict(args, pre=plan["pre"], warm=plan["warm"], clk=plan["clocks"][1], entropy=plan["entropy"] + 1)),
           peer.call(PEER, "perform", **dict(args, pre=plan["pre"][::-1], warm=False, clk=plan["clocks"][2], entropy=plan["entropy"] + 2))]
    a = res[0]["out"]
    names = ["seed"] + [o["t"] + (":" + o["model"] if "model" in o else "") + (":" + o["on"] if "on" in o else "") for o in plan["ops"]]
    drew = 0
    for w, r in enumerate(res):
        r = r["out"]
        ctx.check(r[0][1] == plan["seed"], "seed-not-reported", lambda: f"set {plan['seed']}, reported {r[0][1]} (world {w})")
        for j, x in enumerate(r[1:], 1):
            ctx.check(x[2], "seed-not-reported", lambda: f"after {names[j]} the library reports another seed than the one set (world {w})")
        for j in range(len(a)):
            ctx.check(r[j] == a[j], "not-reproducible", lambda: f"operation {j} ({names[j]}) of the program gave {a[j]} in the clean world and {r[j]} in world {w} "
                      f"({'another history, clock and entropy' if w == 1 else 'another interpreter and hash seed'})")
    for j, x in enumerate(a):
        ctx.event(names[j], *x)
        drew += x[0] == "ok" and names[j] != "seed"
        if x[0] == "err" and plan["ops"][j - 1].get("oom"):
            ctx.count("fault:allocation-failure")
    ctx.count("fault:other-hash-seed")
    ctx.count("fault:clock-jump", res[1]["hit"])
    ctx.count("fault:other-history", len(plan["pre"]))
    ctx.count("clock-reads", sum(r["reads"] for r in res))
    ctx.sim_time += sum(r["span"] for r in res)
    ctx.sig(a)
    ctx.nontrivial = drew >= 2


def fork_perform(ctx, args):
    import json
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = dict(ok=perform(**args))
            except BaseException:
                out = dict(harness=traceback.format_exc()[-2000:])
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    d = json.loads(data)
    if "harness" in d:
        raise RuntimeError(d["harness"])
    return d["ok"]
