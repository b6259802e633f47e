"""C10: random dropping removes only what it should, and nothing permanently."""
import math
import random
from collections import Counter

import numpy as np

from dst import advrng, alloc
from dst import structs as S
from dst.core import Violation
from dst.refmodel import inv, propagate, row_softmax

S.sizes(0.03)
ID = "C10"
RUNS = {"quick": 2600, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded histories of edits, queries and droppings with every draw answered by an adversarial source and allocations failing, against reference models; frequencies under a fair source"
NOTE = ("The random source is the environment: it returns zeros, largest values, repeats and fair words as the seed decides, and allocations fail inside droppings. Frequencies are tested on fair runs at a "
        "false-alarm chance below 1e-10 each. A clean batch is evidence, not proof.")
RULE = ("A run edits and reads one structure and drops from it (and from the results) 3-8 times, or passes messages with dropout 4-10 times, or measures one operation's frequencies; "
        "non-trivial: at least one operation kept some and dropped some; distinct by event log.")
MEASURE = "distinct (content, kept part) pairs"
REAL = ["drop_edges, drop_hyperedges, drop_hyperedges_of_group", "message passing and smoothing with drop_rate", "sparse_dropout"]
STUB = ["the words returned by the random generators", "tensor allocation (fails on demand)"]
ASSUMPTIONS = ["CPU only", "an adversarial source is fair after a finite number of draws"]
SHRINK = ["ops"]
RATES = [0, 0.0, 1, 1.0, 5e-324, 1e-300, 1e-9, 0.1, 0.3, 0.5, 0.5, 0.7, 0.9, 1 - 2 ** -53, 0.999]
PATHS = {"Graph": ["gcn", "v2v"], "DiGraph": ["v2v"], "BiGraph": ["gcn", "u2v", "v2u"], "Hypergraph": ["hgnn", "v2e", "e2v", "v2v", "v2e_aggregation", "e2v_aggregation"]}


def prepare():
    alloc.install()


def generate(rng, tier, i):
    r = rng.random()
    mode = "drop" if r < 0.5 else "path" if r < 0.95 else "freq"
    spec = S.gen_new(rng)
    if mode == "freq":
        kind = spec["kind"]
        n = 30
        spec.update(size=[n, n] if kind == "BiGraph" else [n], edges=S.gen_edges(rng, kind, [n, n], k=24), weights=None, extra=False, vw=None)
        return dict(mode=mode, spec=spec, rate=rng.choice([0.1, 0.25, 0.5, 0.5, 0.8, 0.95]), what=rng.choice(["drop", "drop"] + PATHS[kind]), grp=rng.random() < 0.4, seed=rng.randrange(1 << 40),
                    more=[S.gen_edges(rng, "Hypergraph", [n], k=rng.choice([6, 24])) for _ in range(rng.choice([0, 1, 2]))] if kind == "Hypergraph" else None,
                    reps=300, aggr=rng.choice(S.AGGR), ops=[], prefix=[])
    if spec["edges"] is None:
        spec["edges"] = S.gen_edges(rng, spec["kind"], spec["size"], k=4)
    ops = []
    for _ in range(rng.randrange(6, 16)):
        q, at = rng.random(), rng.randrange(16)
        if q < 0.25:
            ops.append(dict(t="edit", at=at, seed=rng.randrange(1 << 30)))
        elif q < 0.5:
            ops.append(dict(t="view", at=at, seed=rng.randrange(1 << 30)))
        elif mode == "drop":
            ops.append(dict(t="drop", at=at, rate=rng.choice(RATES), grp=rng.choice([None, None] + S.GROUPS), ord=rng.random() < 0.05, oom=rng.choice([1, 2, 3]) if rng.random() < 0.1 else 0))
        else:
            ops.append(dict(t="path", at=at, what=rng.choice(PATHS[spec["kind"]]), rate=rng.choice(RATES), aggr=rng.choice(S.AGGR), w=rng.random() < 0.5, grp=rng.choice([None, None] + S.GROUPS),
                            dir=rng.choice(["dst2src", "src2dst"]), seed=rng.randrange(1 << 30), rates=[rng.choice([None, 0.0, 1.0]), rng.choice([None, 0.0, 1.0])],
                            oom=rng.choice([1, 2, 3, 5]) if rng.random() < 0.1 else 0))
    return dict(mode=mode, spec=spec, ops=ops, seed=rng.randrange(1 << 40), prefix=advrng.gen_prefix(rng, 60) + [["f", rng.randrange(1, 9)]] + advrng.gen_prefix(rng, 60), audit=rng.randrange(1 << 30))


# ------------------------------------------------------------------ dropping structures
def kept_model(g, m, grp=None, why="dropped"):
    """The model of `m` restricted to what `g` still has, after checking that `g` has nothing else."""
    r = m.copy()
    if m.kind == "Hypergraph":
        names = set(g.group_names)
        if not names <= set(m.G):
            raise Violation(f"{why}-invented", f"groups {sorted(names)} from {sorted(m.G)}")
        for name in list(m.G):
            if name not in names:
                if m.G[name] and grp not in (None, name):
                    raise Violation(f"{why}-other-group", f"group {name} is gone after dropping from {grp}")
                if m.G[name]:
                    r.G[name] = {}
                if name not in names:
                    r.G.pop(name)
                continue
            e, w = S.edges_of(g, m, name)
            obs = {tuple(sorted(k)): x for k, x in zip(e, w)}
            if len(obs) != len(e) or any(k not in m.G[name] or abs(m.G[name][k] - x) > 1e-6 * (1 + abs(x)) for k, x in obs.items()):
                raise Violation(f"{why}-invented", f"group {name}: {sorted(obs.items())} from {sorted(m.G[name].items())}")
            if grp not in (None, name) and len(obs) != len(m.G[name]):
                raise Violation(f"{why}-other-group", f"dropping from {grp} left {sorted(obs)} of {sorted(m.G[name])} in {name}")
            r.G[name] = {k: w for k, w in m.G[name].items() if k in obs}
        return r
    e, w = g.e
    obs = sorted(((int(s), int(d)) if m.kind != "Graph" or s <= d else (int(d), int(s))) + (float(x),) for (s, d), x in zip(e, w))
    cnt = Counter((s, d) for s, d, _ in obs)
    r.E = {k: x for k, x in m.E.items() if cnt[k]}
    if m.kind != "BiGraph":
        r.S = {v: x for v, x in m.S.items() if cnt[(v, v)] > int(m.extra)}
    if not S.wedges_close(obs, r.edges()):
        raise Violation(f"{why}-invented", f"{obs} is not part of {m.edges()} (extra self-loops {getattr(m, 'extra', None)})")
    return r


def nkept(m, grp=None):
    if m.kind == "Hypergraph":
        return sum(len(m.G[x]) for x in ([grp] if grp else m.G) if x in m.G)
    return len(m.E) + (len(m.S) if m.kind != "BiGraph" else 0)


def drop(g, m, rate, grp, **kw):
    if m.kind != "Hypergraph":
        return g.drop_edges(rate, **kw)
    return g.drop_hyperedges(rate, **kw) if grp is None else g.drop_hyperedges_of_group(grp, rate, **kw)


def do_drop(ctx, fam, op):
    g, m = fam[op["at"] % len(fam)]
    grp = op["grp"] if m.kind == "Hypergraph" and op["grp"] in m.G else None
    if op["ord"]:
        try:
            drop(g, m, op["rate"], grp, ord="backwards")
        except ValueError:
            ctx.event("rejected")
            return
        ctx.fail("unknown-order-accepted", "ord='backwards' was accepted")
    if op["oom"]:
        try:
            with alloc.oom_at(op["oom"]):
                c = drop(g, m, op["rate"], grp)
        except alloc.SimOOM:
            ctx.count("fault:allocation-failure")
            ctx.event("drop failed", op["oom"])
            return
    else:
        c = drop(g, m, op["rate"], grp)
    ctx.check(c is not g and type(c) is type(g), "not-a-new-structure", lambda: f"dropping returned {c!r}")
    cm = kept_model(c, m, grp)
    a, b = nkept(m, grp), nkept(cm, grp)
    if op["rate"] == 0:
        ctx.check(a == b, "rate-zero-dropped", lambda: f"rate 0 kept {b} of {a} edges of {m.state()}")
    if op["rate"] == 1:
        ctx.check(b == 0, "rate-one-kept", lambda: f"rate 1 kept {b} of {a} edges of {m.state()}")
    ctx.event("drop", m.kind, op["rate"], grp, f"{b}/{a}")
    ctx.sig(m.state(), cm.state())
    if 0 < b < a:
        ctx.nontrivial = True
    if len(fam) < 5:
        fam.append((c, cm))
    look(ctx, c, cm, op["at"] * 7 + b, 6)
    look(ctx, g, m, op["at"] * 5 + a, 4)


def spec_of(m):
    return dict(kind=m.kind, size=[m.nu, m.nv] if m.kind == "BiGraph" else [m.n])


def look(ctx, g, m, seed, n):
    rng = random.Random(seed)
    for _ in range(n):
        v = S.gen_view(rng, spec_of(m))
        try:
            S.check_view(g, m, v)
        except Exception as e:
            raise Violation(f"view-mismatch:{m.kind}.{S.vname(v)}", f"{v} of {m.state()}: {e!r}")


# ------------------------------------------------------------------ message paths
def path_call(g, m, op):
    """(function of the drop rate that returns the output for the identity input, receive matrix P, path mask, how the mean normalises) or None."""
    what, ag, weighted, xs = op["what"], op["aggr"], op["w"], op["seed"]
    if m.kind == "Hypergraph":
        return hyper_call(g, m, op)
    kw = {}
    if what == "gcn":
        M = m.L_GCN()
        return (lambda r: S.dense(g.smoothing_with_GCN(S.T(np.eye(len(M))), drop_rate=r))), M, M != 0, "sum", None
    if m.kind == "BiGraph":
        B = m.B()
        if weighted:
            u, v = g.e_u.tolist(), g.e_v.tolist()
            w = S.rnd_w(len(u), xs)
            B = np.zeros_like(B)
            B[u, v] = w
            kw["e_weight"] = S.T(w)
        P = B.T if what == "u2v" else B
        return (lambda r: S.dense(getattr(g, what)(S.T(np.eye(P.shape[1])), aggr=ag, drop_rate=r, **kw))), P, P != 0, ag, None if weighted else P.sum(1)
    P = m.A()
    if weighted:
        s, d = g.e_src.tolist(), g.e_dst.tolist()
        w = S.rnd_w(len(s), xs)
        P = np.zeros_like(P)
        P[s, d] = w
        if not m.directed:
            P = P.T
        kw["e_weight"] = S.T(w)
    if m.directed:
        kw["direction"] = op["dir"]
        if op["dir"] == "src2dst":
            P = P.T
    return (lambda r: S.dense(g.v2v(S.T(np.eye(m.n)), aggr=ag, drop_rate=r, **kw))), P, P != 0, ag, None if weighted else P.sum(1)


def hyper_call(g, m, op):
    what, ag, weighted, xs = op["what"], op["aggr"], op["w"], op["seed"]
    grp = op["grp"] if op["grp"] in m.G else None
    if not (m.G[grp] if grp else m.num_e):
        return None
    order, w = S.edges_of(g, m, grp)
    H, wa, de, dv = m.mats(order, w)

    def call(name, *a, **k):
        return getattr(g, name)(*a, **k) if grp is None else getattr(g, name + "_of_group")(grp, *a, **k)

    def attr(name):
        return getattr(g, name) if grp is None else getattr(g, name + "_of_group")(grp)
    if what == "hgnn":
        M = m.L_HGNN(order, w)
        return (lambda r: S.dense(call("smoothing_with_HGNN", S.T(np.eye(m.n)), drop_rate=r))), M, np.abs(M) > 1e-12, "sum", None
    kw, P, norm = {}, H, None
    if what.startswith("v2e"):
        norm = de
        if weighted:
            v, e = attr("v2e_src").tolist(), attr("v2e_dst").tolist()
            x = S.rnd_w(len(v), xs)
            P, norm = np.zeros_like(H), None
            P[v, e] = x
            kw["v2e_weight"] = S.T(x)
        post = wa[:, None] if what == "v2e" else 1.0
        return (lambda r: S.dense(call(what, S.T(np.eye(m.n)), aggr=ag, drop_rate=r, **kw)) / post), P.T, H.T != 0, ag, norm
    if what.startswith("e2v"):
        norm = dv
        if weighted:
            e, v = attr("e2v_src").tolist(), attr("e2v_dst").tolist()
            x = S.rnd_w(len(v), xs)
            P, norm = np.zeros_like(H), None
            P[v, e] = x
            kw["e2v_weight"] = S.T(x)
        return (lambda r: S.dense(call(what, S.T(np.eye(len(order))), aggr=ag, drop_rate=r, **kw))), P, H != 0, ag, norm
    # v2v: only the limits of the two rates have one expected output each
    X = np.eye(m.n)
    a = wa[:, None] * propagate(H.T, H.T != 0, X, ag)

    def full(drop1, drop2):
        if drop1 or drop2:
            return np.zeros((m.n, m.n))
        return inv(dv, -1)[:, None] * (H @ a) if ag == "mean" else propagate(H, H != 0, a, ag)
    return ("v2v", lambda r, r1, r2: S.dense(call("v2v", S.T(X), aggr=ag, drop_rate=r, v2e_drop_rate=r1, e2v_drop_rate=r2)), full)


def do_path(ctx, fam, op):
    g, m = fam[op["at"] % len(fam)]
    pc = path_call(g, m, op)
    if pc is None:
        return
    name = f"{m.kind}.{op['what']}"
    if pc[0] == "v2v":
        lim = [0.0, 1.0]
        r = op["rate"] if op["rate"] in lim else 1.0
        r1, r2 = op["rates"]
        out = pc[1](r, r1, r2)
        exp = pc[2]((r if r1 is None else r1) == 1, (r if r2 is None else r2) == 1)
        ctx.check(S.close(out, exp), f"wrong-paths:{name}", lambda: f"drop_rate={r}, v2e_drop_rate={r1}, e2v_drop_rate={r2}, {op['aggr']}: {out} instead of {exp} on {m.state()}")
        again = pc[1](0.0, None, None)
        ctx.check(S.close(again, pc[2](0, 0)), f"dropped-for-good:{name}", lambda: f"after a call with dropout: {again} instead of {pc[2](0, 0)} on {m.state()}")
        ctx.event("v2v", op["aggr"], r, r1, r2)
        return
    f, P, mask, ag, norm = pc
    rate = op["rate"]
    if op["oom"]:
        try:
            with alloc.oom_at(op["oom"]):
                f(rate)
        except alloc.SimOOM:
            ctx.count("fault:allocation-failure")
    out = f(rate)
    kept = np.abs(out) > 1e-9
    ctx.check(not (kept & ~mask).any(), f"path-invented:{name}", lambda: f"output {out} has entries outside the paths {P} of {m.state()}")

    def expected(k):
        Q = P * k
        if ag == "sum":
            return Q
        if ag == "mean":
            return inv(norm if norm is not None else Q.sum(1), -1)[:, None] * Q
        return row_softmax(Q, k & mask)
    ctx.check(S.close(out, expected(kept)), f"wrong-weights:{name}", lambda: f"rate {rate}, {op['aggr']}, weights {op['w']}: output {out.tolist()} where the kept paths give {expected(kept).tolist()} on {m.state()}")
    n, k = int(mask.sum()), int(kept.sum())
    if rate == 0:
        ctx.check(k == n, f"rate-zero-dropped:{name}", lambda: f"rate 0 kept {k} of {n} paths on {m.state()}")
    if rate == 1:
        ctx.check(k == 0, f"rate-one-kept:{name}", lambda: f"rate 1 kept {k} of {n} paths on {m.state()}")
    again = f(0.0)
    ctx.check(S.close(again, expected(mask)), f"dropped-for-good:{name}", lambda: f"after a call with drop rate {rate} the full result is {again.tolist()} instead of {expected(mask).tolist()} on {m.state()}")
    ctx.event("path", name, op["aggr"], rate, f"{k}/{n}")
    ctx.sig(m.state(), name, kept.tolist())
    if 0 < k < n:
        ctx.nontrivial = True


# ------------------------------------------------------------------ frequencies
def log_tail(n, p, k):
    """log of min(P(X <= k), P(X >= k)) for X ~ Binomial(n, p)."""
    def lp(i):
        return math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + (i * math.log(p) if i else 0) + ((n - i) * math.log1p(-p) if n - i else 0)

    def ls(r):
        v = [lp(i) for i in r]
        mx = max(v)
        return mx + math.log(sum(math.exp(x - mx) for x in v))
    return min(ls(range(0, k + 1)), ls(range(k, n + 1)))


def do_freq(ctx, plan, g, m):
    rate, what, reps = plan["rate"], plan["what"], plan["reps"]
    if what == "v2v" and m.kind == "Hypergraph":
        what = "v2e"
    name = f"{m.kind}.{what}"
    count, total, extreme = Counter(), 0, 0
    pairs, last, runs = None, None, 0
    if what != "drop":
        op = dict(at=0, what=what, rate=rate, aggr=plan["aggr"], w=False, grp="main" if plan["grp"] else None, dir="dst2src", seed=5)
        f, P, mask, ag, norm = path_call(g, m, op)
        keys = [tuple(x) for x in np.argwhere(mask)]
    else:
        if m.kind == "Hypergraph" and plan.get("more"):  # hyperedges of different groups are dropped independently as well
            for k, es in enumerate(plan["more"]):
                e = dict(t="add", edges=es, group=f"x{k}", weights=None, merge="mean")
                g.add_hyperedges(es, group_name=e["group"])
                m.G[e["group"]] = {tuple(sorted(set(x))): 1.0 for x in es}
        only = ["main"] if plan["grp"] else [x for x in getattr(m, "G", {})]
        keys = list(m.E) + [(v, v) for v in getattr(m, "S", {})] if m.kind != "Hypergraph" else [(x,) + e for x in only for e in m.G[x]]
    for _ in range(reps):
        if what == "drop":
            cm = kept_model(drop(g, m, rate, "main" if plan["grp"] else None), m)
            kept = list(cm.E) + [(v, v) for v in getattr(cm, "S", {})] if m.kind != "Hypergraph" else [(x,) + e for x in only for e in cm.G.get(x, {})]
        else:
            kept = [tuple(x) for x in np.argwhere(np.abs(f(rate)) > 1e-9)]
        count.update(kept)
        ks = set(kept)
        x = np.array([k in ks for k in keys], dtype=np.int64)
        pairs = np.outer(x, x) if pairs is None else pairs + np.outer(x, x)
        if last is not None:
            runs = runs + last * x
        last = x
        extreme += len(kept) in (0, len(keys))
    n, total = len(keys), sum(count.values())
    p = 1 - rate
    lim = -30.0 - math.log(n + 2)
    ctx.check(log_tail(n * reps, p, total) > lim, f"wrong-frequency:{name}", lambda: f"rate {rate}: kept {total} of {n * reps}")
    for k in keys:
        ctx.check(log_tail(reps, p, count[k]) > lim, f"wrong-frequency:{name}", lambda: f"rate {rate}: {k} was kept {count[k]} times in {reps} calls")
    pe = min(1 - 1e-15, p ** n + rate ** n)
    if extreme > reps * pe:
        ctx.check(log_tail(reps, pe, extreme) > lim, f"not-independent:{name}", lambda: f"rate {rate}: {extreme} of {reps} calls kept all or none of {n} edges")
    lp = lim - 2 * math.log(n + 2)
    # an edge kept in two consecutive calls: the odd and the even pairs each are independent trials, so the bound is twice that of half the calls
    for i in range(n):
        k, h = int(runs[i]), reps - 1
        sd = math.sqrt(h * (p * p * (1 - p * p) + 2 * p ** 3 * (1 - p)))
        ctx.check(abs(k - h * p * p) < 9 * sd + 4, f"calls-not-independent:{name}", lambda: f"rate {rate}: {keys[i]} was kept in {k} of {h} pairs of consecutive calls")
    for i in range(n):
        for j in range(i):
            if abs(pairs[i, j] - reps * p * p) > 4 * math.sqrt(reps * p * p * (1 - p * p)):
                ctx.check(log_tail(reps, p * p, int(pairs[i, j])) > lp, f"not-independent:{name}", lambda: f"rate {rate}: {keys[i]} and {keys[j]} were kept together {pairs[i, j]} times in {reps} calls")
    ctx.event("freq", name, rate, total, n * reps)
    ctx.sig(name, rate, plan["seed"])
    ctx.count("frequency-samples", n * reps)
    ctx.nontrivial = True


def execute(plan, ctx):
    src = advrng.install(advrng.Source(plan["prefix"], plan["seed"], 20000000 if plan["mode"] == "freq" else 200000))
    g, m = S.build(plan["spec"])
    if plan["mode"] == "freq":
        return do_freq(ctx, plan, g, m)
    fam = [(g, m)]
    for op in plan["ops"]:
        if op["t"] == "edit":
            i = op["at"] % len(fam)
            g, m = fam[i]
            e = S.gen_edit(random.Random(op["seed"]), spec_of(m))
            ctx.event("edit", i, e["t"])
            try:
                ctx.event("edit", i, S.apply_edit(g, m, e))
            except Exception as x:
                raise Violation("edit-failed", f"{e} on {m.state()}: {x!r}")
        elif op["t"] == "view":
            g, m = fam[op["at"] % len(fam)]
            look(ctx, g, m, op["seed"], 2)
        elif op["t"] == "drop":
            do_drop(ctx, fam, op)
        else:
            do_path(ctx, fam, op)
    for i, (g, m) in enumerate(fam):
        rng = random.Random(plan["audit"] + i)
        look(ctx, g, m, plan["audit"] + i, 12)
        a, b = nkept(kept_model(g, m, why="audit")), nkept(m)
        ctx.check(a == b, "audit-lost", lambda: f"member {i} has {a} of {b} edges of {m.state()}")
    ctx.count("fault:adversarial-draw", src.forced)
    ctx.count("draws", src.n)
