"""C18: converting between structure kinds follows the present content, and the result stands on its own."""
import random

import numpy as np
import torch

from dst import advrng, alloc, structs as S
from dst.core import DHG, Violation
from dst.refmodel import RBiGraph, RDiGraph, RGraph, RHypergraph
from dst.sched import Sched

S.allow_zero()
S.sizes(0.04)
ID = "C18"
RUNS = {"quick": 1500, "thorough": 30000}
LEVEL = "exploration"
TECH = "seeded histories of edits, views and conversions in a growing pool of structures, with allocation failures inside conversions, several threads that convert one source under a controlled schedule, and an adversarial random source; oracle: the documented expansion computed from a reference model"
NOTE = ("After every conversion the result is compared with the documented edges and weights, through all its views; the source is compared with its own model. Results stay in the pool and are edited on. "
        "A clean batch is evidence, not proof.")
RULE = "A run starts with 1-3 structures and mixes 5-16 edits, views, conversions, extensions and parallel conversions; non-trivial: a conversion of a structure that was read and then edited, or that was itself converted; distinct by event log."
MEASURE = "distinct (conversion, options, source content, result content)"
REAL = ["from_hypergraph_star, _clique, _hypergcn, BiGraph.from_hypergraph, Hypergraph.from_graph, from_graph_kHop, from_bigraph, from_feature_kNN, add_hyperedges_from_*, from_adj_list", "the four structures and all their views", "scipy KD-tree", "torch"]
STUB = ["allocation (the n-th tensor-building call may fail)", "thread scheduler", "random generators (hypergcn projection)"]
ASSUMPTIONS = ["weights are positive", "hypergcn is asked only for hyperedges of two vertices or more (it rejects others)", "structures have at most 30 vertices"]
SHRINK = ["ops"]


def prepare():
    alloc.install()


def generate(rng, tier, i):
    n = rng.choice([2, 3, 4, 5, 6, 8])
    big = rng.random() < 0.04
    if big:
        n = rng.choice([12, 26, 33, 65, 130])
    sizes = [n, n, rng.choice([1, 2, 3, 5] if not big else [5, 11, 40])]
    pool = []
    for _ in range(rng.choice([1, 2, 2, 3]) if not big else 1):
        k = rng.choice(["Hypergraph", "Hypergraph", "Graph", "BiGraph"])
        sp = S.gen_new(rng, k)
        sp["size"] = [n] if k != "BiGraph" else [n, sizes[2]] if rng.random() < 0.5 else [sizes[2], n]
        if sp["edges"] is not None:
            sp["edges"] = S.gen_edges(rng, k, sp["size"], k=len(sp["edges"]) if not big else rng.choice([n, 2 * n]), selfloops=rng.random() < 0.3)
            if sp["weights"]:
                sp["weights"] = [rng.choice(S.WS) for _ in sp["edges"]]
        if sp["vw"]:
            sp["vw"] = [rng.choice(S.WS) for _ in range(n)]
        pool.append(sp)
    ops = []
    for _ in range(rng.randrange(5, 17 if tier == "quick" else 26) if not big else 4):
        r = rng.random()
        op = dict(at=rng.randrange(64), seed=rng.randrange(1 << 30))
        if r < 0.28:
            op.update(t="edit", swap=rng.random() < 0.35)
        elif r < 0.42:
            op["t"] = "view"
        elif r < 0.78:
            op.update(t="conv", keep=rng.random() < 0.6, again=rng.random() < 0.35)
        elif r < 0.88:
            op.update(t="ext", to=rng.randrange(64))
        elif r < 0.94:
            op.update(t="make", n=n if rng.random() < 0.85 else rng.choice([12, 26, 33, 60]), keep=rng.random() < 0.5)
        else:
            op.update(t="par", k=rng.choice([2, 2, 3]), p=rng.choice([0.02, 0.1, 0.3, 0.5]))
        if op["t"] in ("conv", "ext", "make") and rng.random() < 0.25:
            op["oom"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 14])
        ops.append(op)
    ops.append(dict(t="audit", seed=rng.randrange(1 << 30)))
    return dict(pool=pool, ops=ops, rng=dict(prefix=advrng.gen_prefix(rng, 60), seed=rng.getrandbits(62)))


def spec_of(m):
    return dict(kind=m.kind, size=[m.nu, m.nv] if m.kind == "BiGraph" else [m.n])


def has_loop_edge(m):
    return m.kind == "Hypergraph" and any(len(set(e)) < len(e) for e, _ in m.edges())


# ------------------------------------------------------------------ what is converted, and how
def choose(rng, m, par=False):
    """A conversion that applies to m, or None."""
    if m.kind == "Hypergraph":
        c = [["star", rng.random() < 0.5, rng.choice(["sum", "mean", "max"])], ["clique", rng.random() < 0.6, rng.choice([1.0, 1.0, 0.5, 2.0, 1.5])],
             ["bi", rng.random() < 0.5, rng.random() < 0.6]]
        if m.num_e == 0:
            c = c[:2]  # a bipartite graph has no empty vertex set
        if not par and all(len(e) > 1 for e, _ in m.edges()):
            f = rng.choice(["line", "line", "plane", "same"])
            t = [rng.randrange(-6, 7) / 4 for _ in range(m.n)]
            if f == "line":  # the same extremes whatever the projection
                u = [rng.choice([0.5, 1.0, 2.0]) for _ in range(rng.choice([1, 2, 3]))]
                X = [[x * y for y in u] for x in t]
            elif f == "plane":
                X = [[rng.randrange(-8, 9) / 4 for _ in range(2)] for _ in range(m.n)]
            else:
                X = [[1.0, 2.0]] * m.n
            c += [["hypergcn", X, rng.random() < 0.5, rng.random() < 0.7, f]] * 2
        return rng.choice(c)
    if m.kind == "Graph":
        k = rng.choice([1, 1, 2, 2, 3, 4])
        return rng.choice([["graph"], ["khop", k, rng.random() < 0.4]])
    if m.kind == "BiGraph":
        return ["bigraph", rng.random() < 0.5]
    return None


def features(rng, n):
    X = features_near_zero(rng, n)
    at, pad = rng.choice([0, 0, 0, 0, 50, 1000, 4000]), rng.choice([0, 0, 0, 0, 0, 1, 8])
    return [[at + x for x in row] + [float(at)] * pad for row in X]


def features_near_zero(rng, n):
    k = rng.choice(["grid", "grid", "twins", "same", "line", "spread"])
    if k == "same":
        return [[1.0, 1.0]] * n
    if k == "twins":
        p = [[rng.randrange(-4, 5) / 2, rng.randrange(-4, 5) / 2] for _ in range(max(1, n // 3))]
        return [rng.choice(p) for _ in range(n)]
    if k == "line":
        return [[rng.randrange(0, 20) / 2] for _ in range(n)]
    if k == "spread":
        return [[float(v ** 2), 0.0] for v in rng.sample(range(n), n)]
    return [[rng.randrange(-4, 5) / 2, rng.randrange(-4, 5) / 2] for _ in range(n)]


def convert(g, how):
    import dhg
    c = how[0]
    if c == "star":
        return dhg.Graph.from_hypergraph_star(g, weighted=how[1], merge_op=how[2])
    if c == "clique":
        return dhg.Graph.from_hypergraph_clique(g, weighted=how[1], miu=how[2])
    if c == "hypergcn":
        return dhg.Graph.from_hypergraph_hypergcn(g, torch.tensor(how[1]), with_mediator=how[2], remove_selfloop=how[3])
    if c == "bi":
        return dhg.BiGraph.from_hypergraph(g, vertex_as_U=how[1], weighted=how[2])
    if c == "graph":
        return dhg.Hypergraph.from_graph(g)
    if c == "khop":
        return dhg.Hypergraph.from_graph_kHop(g, how[1], only_kHop=how[2])
    if c == "bigraph":
        return dhg.Hypergraph.from_bigraph(g, U_as_vertex=how[1])
    raise AssertionError(how)


def edges_khop(m, k, only):
    B = m.links().astype(int)
    P, R = B.copy(), B.copy()
    for _ in range(k - 1):
        P = ((P @ B) != 0).astype(int)
        R |= P
    Q = P if only else R
    return [sorted({v} | set(np.nonzero(Q[v])[0].tolist())) for v in range(m.n)]


def edges_bi(m, u_as_vertex):
    B = m.links()
    out = [np.nonzero(B[:, v])[0].tolist() for v in range(m.nv)] if u_as_vertex else [np.nonzero(B[u])[0].tolist() for u in range(m.nu)]
    return [e for e in out if e]


def order_of(g, m):
    """The source's edges in its own order, which must be those of its model."""
    if m.kind == "Hypergraph":
        e, w = S.edges_of(g, m)
        ok = S.wedges_close(sorted(zip(e, w)), m.edges())
        return e, w, ok
    S.check_view(g, m, ["e"], why="source-changed")
    e, w = g.e
    return [tuple(int(v) for v in x) for x in e], [float(x) for x in w], True


def expected(plan, g, m, how, cap, ctx):
    """The model of the result, or None if the random projection leaves the extremes open."""
    c = how[0]
    if m.kind in ("Hypergraph", "Graph"):
        order, w, ok = order_of(g, m)
        ctx.check(ok, "source-changed:e", lambda: f"{sorted(zip(order, w))} should be {m.edges()}")
    if c == "star":
        r = RGraph(m.n + len(order))
        r.add([(v, m.n + j) for j, e in enumerate(order) for v in e], None, "sum")
        return r
    if c == "clique":
        r = RGraph(m.n)
        for e in order:
            for a in e:
                for b in e:
                    if a < b:
                        r.E[(a, b)] = r.E.get((a, b), 0.0) + how[2] if how[1] else 1.0
        return r
    if c == "bi":
        r = RBiGraph(m.n, len(order)) if how[1] else RBiGraph(len(order), m.n)
        for j, (e, x) in enumerate(zip(order, w)):
            for v in e:
                r.E[(v, j) if how[1] else (j, v)] = x if how[2] else 1.0
        return r
    if c == "graph":
        r = RHypergraph(m.n)
        r.add(order, w, "mean", "main")
        return r
    if c == "khop":
        r = RHypergraph(m.n)
        r.add(edges_khop(m, how[1], how[2]), None, "mean", "main")
        return r
    if c == "bigraph":
        r = RHypergraph(m.nu if how[1] else m.nv)
        r.add(edges_bi(m, how[1]), None, "mean", "main")
        return r
    if c == "hypergcn":
        return hypergcn(plan, m, order, how, cap)
    raise AssertionError(how)


def hypergcn(plan, m, order, how, cap):
    X, mediator, drop, f = np.asarray(how[1], dtype=np.float64), how[2], how[3], how[4]
    if cap is None and (f != "line" or plan["rng"]["prefix"]):
        return None  # the projection is not known
    if cap is not None and f == "line" and np.min(np.abs(cap)) < 1e-4:
        return None
    p = X[:, 0] if f == "line" else X @ cap
    r = RGraph(m.n)
    for e in order:
        e = list(e)
        q = p[e]
        hi, lo = [v for v, x in zip(e, q) if x > q.max() - 1e-5], [v for v, x in zip(e, q) if x < q.min() + 1e-5]
        if len(hi) > 1 or len(lo) > 1:
            return None  # tied extremes: any of them may be taken
        a, b = hi[0], lo[0]
        if not mediator:
            new, x = [(a, b)], 1.0 / len(e)
        else:
            new, x = [(y, v) for v in e if v not in (a, b) for y in (a, b)], 1.0 / (2 * len(e) - 3)
        r.add(new, [x] * len(new), "sum")
    return r


def hypergcn_open(ctx, real, m, order, how):
    """What holds whichever of the tied extremes were taken."""
    mediator, drop = how[2], how[3]
    e, w = real.e
    ctx.check(real.num_v == m.n, "converted:num_v", real.num_v)
    total = sum(1.0 / len(x) if not mediator else 2 * (len(x) - 2) / (2 * len(x) - 3) for x in order)
    more = sum((2 * len(x) - 2) / (2 * len(x) - 3) for x in order) if mediator else total
    got = sum(w)
    ctx.check(got <= more + 1e-4, "converted:hypergcn-weight", f"{e} {w} of {order}")
    if not drop:
        ctx.check(got >= total - 1e-4, "converted:hypergcn-weight", f"{e} {w} of {order}")
    for a, b in e:
        ctx.check(any(a in x and b in x for x in order), "converted:hypergcn-edge", f"({a}, {b}) is in none of {order}")
        ctx.check(not (drop and a == b), "converted:hypergcn-selfloop", f"({a}, {b})")
    r = RGraph(m.n)
    r.add([tuple(sorted(x)) for x in e], list(w), "sum")
    return r


def snap(real, m):
    """Take over the observed weights where they are equal up to rounding."""
    if m.kind == "Hypergraph":
        return
    e, w = real.e
    for (a, b), x in zip(e, w):
        for D, k in ((m.E, (a, b)), (m.E, (b, a)), (getattr(m, "S", {}), a if a == b else None)):
            if k in D and abs(D[k] - x) <= 1e-6 * (1 + abs(x)) and (m.kind != "DiGraph" or k != (b, a)):
                D[k] = float(x)


LIGHT = [["e"], ["num_e"], ["num_v"], ["group_names"], ["state_dict"]]


def check_all(ctx, g, m, rng, why, few=None):
    views = LIGHT if has_loop_edge(m) else S.all_views(rng, spec_of(m))
    if few and len(views) > few:
        views = rng.sample(views, few)
    for v in views:
        read(ctx, g, m, v, why)


def read(ctx, g, m, v, why):
    try:
        S.check_view(g, m, v, why=why)
    except Violation:
        raise
    except Exception:
        import traceback
        ctx.fail(f"{why}-raised:{m.kind}.{S.vname(v)}", f"{v} of {m.state()}: " + traceback.format_exc()[-700:])


def knn_ok(X, i, e, k, p=2):
    """Is e a set of i and k-1 nearest others?"""
    if i not in e or len(set(e)) != k:
        return False
    d = (np.abs(X - X[i]) ** p).sum(1) ** (1 / p)
    out = [d[v] for v in range(len(X)) if v not in e]
    return not out or max(d[v] for v in e) <= min(out) + 1e-3


def knn_edges(ctx, es, X, k):
    for i in range(len(X)):
        ctx.check(any(knn_ok(X, i, e, k) for e in es), "knn:center-without-neighbourhood", lambda: f"vertex {i}, k={k}, features {X.tolist()}: {es}")
    for e in es:
        ctx.check(any(knn_ok(X, i, e, k) for i in e), "knn:not-a-neighbourhood", lambda: f"{e}, k={k}, features {X.tolist()}")


def execute(plan, ctx):
    import dhg
    draws = []
    advrng.install(advrng.Source(plan["rng"]["prefix"], plan["rng"]["seed"]))
    rand0 = torch.rand

    def rand(*a, **k):
        x = rand0(*a, **k)
        draws.append(x.detach().double().numpy().reshape(-1))
        return x
    torch.rand = rand
    pool = [list(S.build(s)) + [0] for s in plan["pool"]]  # real, model, stage (1: read, 2: edited since)
    past = {}  # how each structure was converted before
    ctx.event("pool", plan["pool"])

    def attempt(op, fn, why):
        """Run a conversion, perhaps with a failing allocation first; returns its result."""
        if op.get("oom"):
            cm = alloc.oom_at(op["oom"])
            try:
                with cm:
                    r = fn()
                if not cm.fired:
                    return r
            except MemoryError:
                pass
            except Exception as e:
                ctx.check(cm.fired, f"conversion-raised:{why}", repr(e))
            ctx.count("fault:allocation_failure")
            ctx.event("oom")
        del draws[:]
        try:
            return fn()
        except Exception:
            import traceback
            ctx.fail(f"conversion-raised:{why}", traceback.format_exc()[-900:])

    def verify(g, m, how, r, cap, rng):
        if how[0] == "star":
            r, mask = r
        exp = expected(plan, g, m, how, cap, ctx)
        if exp is None:
            exp = hypergcn_open(ctx, r, m, order_of(g, m)[0], how)
            ctx.count("tied_projections")
        ctx.check(type(r).__name__ == exp.kind, "converted:kind", type(r).__name__)
        nm = how[0]
        S.check_view(r, exp, ["e"], why=f"converted:{nm}")
        snap(r, exp)
        if how[0] == "star":
            ctx.check([bool(x) for x in mask.tolist()] == [True] * m.n + [False] * (exp.n - m.n), "converted:star-mask", mask.tolist())
        check_all(ctx, r, exp, rng, f"converted:{nm}", few=12)
        ctx.sig(how, m.state(), exp.state())
        return r, exp

    def source_ok(g, m, rng, how):
        check_all(ctx, g, m, rng, f"source-after:{how}", few=8)

    for op in plan["ops"]:
        rng = random.Random(op["seed"])
        if op["t"] == "audit":
            for g, m, _ in pool:
                check_all(ctx, g, m, rng, "audit")
            continue
        if op["t"] == "make":
            made = make(ctx, rng, op, attempt)
            if made and op["keep"] and len(pool) < 6:
                pool.append([*made, 1])
            continue
        ent = pool[op["at"] % len(pool)]
        g, m, stage = ent
        if op["t"] == "edit":
            if has_loop_edge(m):
                continue
            es = [S.gen_edit(rng, spec_of(m))]
            if op.get("swap"):
                es = swap(rng, m) or es
            for e in es:
                ctx.event("edit", e, "on", m.state())
                S.apply_edit(g, m, e)
            ent[2] = 2 if stage else 0
        elif op["t"] == "view":
            v = S.gen_view(rng, spec_of(m))
            ctx.event("view", v, m.kind)
            if not has_loop_edge(m):
                read(ctx, g, m, v, "view")
            ent[2] = max(1, stage)
        elif op["t"] == "conv":
            how = choose(rng, m) if not has_loop_edge(m) else None
            if how is None:
                continue
            if op.get("again") and past.get(id(g)):
                old = rng.choice(past[id(g)])
                if (old[0] != "hypergcn" or all(len(e) > 1 for e, _ in m.edges())) and (old[0] != "bi" or m.num_e):
                    how = old
                    ctx.count("repeated_conversions")
            past.setdefault(id(g), []).append(how)
            ctx.event("convert", how, m.state(), op.get("oom"))
            r = attempt(op, lambda: convert(g, how), how[0])
            cap = draws[0] if how[0] == "hypergcn" and len(draws) == 1 and len(draws[0]) == len(how[1][0]) else None
            r, exp = verify(g, m, how, r, cap, rng)
            source_ok(g, m, rng, how[0])
            ctx.count("conversions")
            ctx.count(f"conv:{how[0]}")
            if stage == 2:
                ctx.nontrivial = True
            ent[2] = 1
            if op["keep"] and len(pool) < 6 and (exp.nu + exp.nv if exp.kind == "BiGraph" else exp.n) <= 20:
                pool.append([r, exp, 2])
        elif op["t"] == "ext":
            dst = pool[op["to"] % len(pool)]
            if dst[1].kind != "Hypergraph" or dst is ent or has_loop_edge(dst[1]):
                hs = [x for x in pool if x[1].kind == "Hypergraph" and x is not ent and not has_loop_edge(x[1])]
                if not hs:
                    continue
                dst = hs[op["to"] % len(hs)]
            extend(ctx, rng, op, dst, ent, attempt)
            check_all(ctx, dst[0], dst[1], rng, "extended", few=10)
            if ent[1].kind != "Hypergraph":
                source_ok(g, m, rng, "extend")
        else:  # several threads convert one source
            if has_loop_edge(m):
                continue
            hows = [choose(rng, m, par=True) for _ in range(op["k"])]
            if hows[0] is None:
                continue
            if rng.random() < 0.6:
                hows = [hows[0]] * len(hows)
            if rng.random() < 0.7:  # from cold caches
                g._clear_cache()
            ctx.event("parallel", hows, m.state())
            sched = Sched(op["seed"], op["p"], None, "line", (DHG,))
            out = {}
            for j, how in enumerate(hows):
                def body(j=j, how=how):
                    out[j] = convert(g, how)
                sched.spawn(body)
            sched.run()
            ctx.event("switches", sched.trace)
            ctx.count("fault:preemption", len(sched.trace))
            for t in sched.tasks:
                if t.exc is not None:
                    raise Violation(f"parallel-conversion-raised:{type(t.exc).__name__}", f"{hows} on {m.state()}: {t.exc!r}")
            for j, how in enumerate(hows):
                verify(g, m, how, out[j], None, rng)
                ctx.count("conversions")
            source_ok(g, m, rng, "parallel")
            ctx.nontrivial = True
            ent[2] = 1
    ctx.event("end", [m.state() for _, m, _ in pool])


def swap(rng, m):
    """One edge replaced by another: as many edges as before."""
    if m.kind in ("Graph", "DiGraph"):
        old = sorted({(a, b) for a, b, _ in m.edges() if a != b})
        free = [(a, b) for a in range(m.n) for b in range(a + 1, m.n) if (a, b) not in old]
    elif m.kind == "BiGraph":
        old = sorted((int(u), int(v)) for u, v in zip(*np.nonzero(m.links())))
        free = [(u, v) for u in range(m.nu) for v in range(m.nv) if (u, v) not in old]
    else:
        old = sorted(e for e, _ in m.edges())
        free = [tuple(sorted(rng.sample(range(m.n), rng.randrange(1, m.n + 1)))) for _ in range(8)]
        free = [e for e in free if e not in old]
    if not old or not free:
        return None
    rm = dict(t="remove", pick=[], edges=[list(rng.choice(old))], rev=False, form="list", group=None)
    add = dict(t="add", edges=[list(rng.choice(free))], weights=None, op="mean", form="list", group="main")
    return rng.sample([rm, add], 2)


def extend(ctx, rng, op, dst, src, attempt):
    """dst.add_hyperedges_from_*(src or features)"""
    h, hm, stage = dst
    g, m, _ = src
    grp = rng.choice(S.GROUPS)
    if m.kind == "Graph" and m.n == hm.n:
        how = choose(rng, m)
        if how[0] == "graph" and m.edges() and any(a == b for a, b, _ in m.edges()):
            how = ["khop", 2, False]
        ctx.event("extend", grp, how, hm.state(), m.state(), op.get("oom"))
        if how[0] == "graph":
            attempt(op, lambda: h.add_hyperedges_from_graph(g, group_name=grp), "extend.graph")
            order, w, _ = order_of(g, m)
            before = hm.copy()
            hm.add(order, w, "mean", grp)
            settle(ctx, op, h, hm, before, order, w, grp)
        else:
            attempt(op, lambda: h.add_hyperedges_from_graph_kHop(g, how[1], only_kHop=how[2], group_name=grp), "extend.khop")
            es = edges_khop(m, how[1], how[2])
            before = hm.copy()
            hm.add(es, None, "mean", grp)
            settle(ctx, op, h, hm, before, es, None, grp)
    elif m.kind == "BiGraph" and hm.n in (m.nu, m.nv):
        u = rng.random() < 0.5 if m.nu == m.nv else m.nu == hm.n
        ctx.event("extend", grp, "bigraph", u, hm.state(), m.state(), op.get("oom"))
        attempt(op, lambda: h.add_hyperedges_from_bigraph(g, U_as_vertex=u, group_name=grp), "extend.bigraph")
        es = edges_bi(m, u)
        before = hm.copy()
        hm.add(es, None, "mean", grp)
        settle(ctx, op, h, hm, before, es, None, grp)
    else:
        X = np.asarray(features(rng, hm.n))
        k = rng.randrange(1, hm.n + 1)
        ctx.event("extend", grp, "knn", k, X.tolist(), hm.state(), op.get("oom"))
        old = dict(hm.G.get(grp, {}))
        T = torch.tensor(X, dtype=torch.float32)
        attempt(op, lambda: h.add_hyperedges_from_feature_kNN(T, k, group_name=grp), "extend.knn")
        ctx.check(torch.equal(T, torch.tensor(X, dtype=torch.float32)), "knn:features-changed", lambda: f"{X.tolist()} became {T.tolist()}")
        e, w = h.e_of_group(grp)
        got = {tuple(sorted(int(v) for v in x)): float(y) for x, y in zip(e, w)}
        ctx.check(set(old) <= set(got), "knn:lost-hyperedge", lambda: f"{sorted(set(old) - set(got))}")
        new = [x for x in got if x not in old]
        near = [x for x in got if any(knn_ok(X, i, x, k) for i in x)]
        ctx.check(len(new) <= hm.n, "knn:too-many", lambda: f"{new}")
        knn_edges(ctx, near, X, k)
        for x in new:
            ctx.check(x in near and got[x] == 1.0, "knn:not-a-neighbourhood", lambda: f"{x} weight {got[x]}, k={k}, features {X.tolist()}")
        for x, y in old.items():
            # an existing hyperedge may be merged with the same new one, any number of times
            ok, z = abs(got[x] - y) < 1e-6, y
            for _ in range(hm.n):
                z = (z + 1.0) / 2
                ok = ok or (x in near and abs(got[x] - z) < 1e-6)
            ctx.check(ok, "knn:weight", lambda: f"{x}: {y} became {got[x]}")
        hm.G[grp] = got
    dst[2] = 2 if stage else 0
    ctx.count("extensions")


def settle(ctx, op, h, hm, before, es, w, grp):
    """A failed allocation may have come after the hyperedges were added; then the retry merged them a second time."""
    if not op.get("oom"):
        return
    e, x = S.edges_of(h, hm)
    if S.wedges_close(sorted(zip(e, x)), hm.edges()):
        return
    twice = before.copy()
    twice.add(es, w, "mean", grp)
    twice.add(es, w, "mean", grp)
    if S.wedges_close(sorted(zip(e, x)), twice.edges()):
        hm.G = twice.G


def make(ctx, rng, op, attempt):
    import dhg
    n = op["n"]
    how = rng.choice(["hknn", "dknn", "dknn", "adj", "diadj", "biadj"])
    if how == "hknn":
        X, k = np.asarray(features(rng, n)), rng.randrange(1, n + 1)
        ctx.event("make", how, X.tolist(), k, op.get("oom"))
        T = torch.tensor(X, dtype=torch.float32)
        g = attempt(op, lambda: dhg.Hypergraph.from_feature_kNN(T, k), how)
        ctx.check(torch.equal(T, torch.tensor(X, dtype=torch.float32)), "knn:features-changed", lambda: f"{X.tolist()} became {T.tolist()}")
        e, w = S.edges_of(g, None)
        ctx.check(all(x == 1.0 for x in w), "knn:weight", w)
        ctx.check(len(e) <= n, "knn:too-many", e)
        knn_edges(ctx, e, X, k)
        m = RHypergraph(n)
        m.add(e, w, "max", "main")
    elif how == "dknn":
        X, inc, src, dist, p = np.asarray(features(rng, n)), rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5, rng.choice([1, 2, 2])
        k = rng.randrange(1, n + 1 if inc else n)
        while dist and np.ptp(X, axis=0).sum() > 16:  # no weights that only a double can hold
            X = X / 2
        ctx.event("make", how, X.tolist(), k, inc, src, dist, p, op.get("oom"))
        T = torch.tensor(X, dtype=torch.float32)
        g = attempt(op, lambda: dhg.DiGraph.from_feature_kNN(T, k, p=p, distance2weight=dist, include_center=inc, center_as_src=src), how)
        ctx.check(torch.equal(T, torch.tensor(X, dtype=torch.float32)), "knn:features-changed", lambda: f"{X.tolist()} became {T.tolist()}")
        D = (np.abs(X[:, None] - X[None]) ** p).sum(2) ** (1 / p)
        m = RDiGraph(n, inc)
        e, w = g.e
        loops = [a for a, b in e if a == b]
        ctx.check(sorted(loops) == (list(range(n)) if inc else []), "knn:self-loops", lambda: f"{e} include_center={inc} features {X.tolist()}")
        for (a, b), x in zip(e, w):
            if a != b:
                y = float(np.exp(-D[a, b])) if dist else 1.0
                ctx.check(abs(x - y) < 1e-5, "knn:weight", lambda: f"({a}, {b}): {x} instead of {y}")
                m.E[(a, b)] = float(x)
        for i in range(n):
            nb = [(b if src else a) for a, b in e if a != b and (a if src else b) == i]
            ctx.check(knn_ok(X, i, [i] + nb, k if inc else k + 1, p) and len(nb) == len(set(nb)), "knn:neighbours", lambda: f"vertex {i}: {nb}, k={k}, include_center={inc}, features {X.tolist()}")
    else:
        size = [n, rng.choice([1, 2, 4])] if how == "biadj" else [n]
        lines = [[rng.randrange(n)] + [rng.randrange(size[-1]) for _ in range(rng.choice([0, 1, 2, 3]))] for _ in range(rng.randrange(1, n + 2))]
        if rng.random() < 0.1:
            lines.append([])
        ex = how != "biadj" and rng.random() < 0.3
        ctx.event("make", how, size, lines, ex)
        arg = [list(x) for x in lines]
        if how == "biadj":
            g, m = attempt(op, lambda: dhg.BiGraph.from_adj_list(*size, arg), how), RBiGraph(*size)
        else:
            g = attempt(op, lambda: (dhg.Graph if how == "adj" else dhg.DiGraph).from_adj_list(n, arg, extra_selfloop=ex), how)
            m = (RGraph if how == "adj" else RDiGraph)(n, ex)
        m.add([(x[0], y) for x in lines if x for y in x[1:]], None, "mean")
        ctx.check(arg == lines, "made:argument-changed", arg)
    check_all(ctx, g, m, rng, f"made:{how}", few=12)
    ctx.count(f"make:{how}")
    ctx.sig(how, m.state())
    return g, m


def simplify(plan):
    for k, o in enumerate(plan["ops"]):
        if o.get("oom"):
            p = dict(plan, ops=[dict(x) for x in plan["ops"]])
            p["ops"][k].pop("oom")
            yield p
    if len(plan["pool"]) > 1:
        for k in range(len(plan["pool"])):
            yield dict(plan, pool=plan["pool"][:k] + plan["pool"][k + 1:])
    if plan["rng"]["prefix"]:
        yield dict(plan, rng=dict(plan["rng"], prefix=[]))
