"""C09: random structure generators keep their promise for every random source."""
import itertools
import math
from collections import Counter

from dst import advrng
from dst.core import Budget, Violation

ID = "C09"
RUNS = {"quick": 3000, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded programs of generator calls with every draw of random, numpy and torch answered by an adversarial source (finite hostile prefix, then fair); promises and frequencies checked"
NOTE = ("The random source is the environment here: it returns zeros, largest values, repeats and fair words as the seed decides. Termination is bounded by a budget of draws once the source is fair. "
        "Frequencies are tested at 6.5 standard deviations on fair runs. A clean batch is evidence, not proof.")
RULE = ("A run calls 6-14 generators, each under its own hostile prefix, or measures one generator's frequencies under a fair source; non-trivial: at least one call returned a structure with an edge; distinct by event log.")
MEASURE = "distinct generated structures"
REAL = ["dhg.random generators", "dhg structures", "random.Random algorithms (choice, sample, shuffle) over the simulated words"]
STUB = ["the words returned by the random generators"]
ASSUMPTIONS = ["an adversarial source is fair after a finite number of draws", "no seed of the simulator lands beyond 6.5 standard deviations"]
SHRINK = ["ops"]


def prepare():
    pass


PS = [0, 1, 0.0, 1.0, 1e-300, 5e-324, 1e-17, 1e-12, 1e-6, 0.1, 0.3, 0.5, 0.5, 0.9, 0.999999, 1 - 2 ** -53, 1 - 1e-12]
FNS = ["graph_Gnp", "graph_Gnp_fast", "graph_Gnm", "digraph_Gnp", "digraph_Gnp_fast", "digraph_Gnm", "bigraph_Gnp", "bigraph_Gnm", "uniform_hypergraph_Gnp", "uniform_hypergraph_Gnm", "hypergraph_Gnm", "hypergraph_Gnm"]


def cap_of(fn, a):
    if fn in ("graph_Gnp", "graph_Gnp_fast", "graph_Gnm"):
        return a["n"] * (a["n"] - 1) // 2
    if fn.startswith("digraph"):
        return a["n"] * (a["n"] - 1)
    if fn.startswith("bigraph"):
        return a["u"] * a["n"]
    if fn.startswith("uniform"):
        return math.comb(a["n"], a["k"])
    w = weights_of(a)
    return sum(math.comb(a["n"], k) for k in range(2, a["n"] + 1) if w[k - 2] > 0)


def weights_of(a):
    """Relative weight of each hyperedge size, as documented."""
    n = a["n"]
    if a["method"] == "uniform":
        return [math.comb(n, k) for k in range(2, n + 1)]
    if a["method"] == "low_order_first":
        return [3.0 ** -k for k in range(n - 1)]
    if a["method"] == "high_order_first":
        return [3.0 ** -k for k in range(n - 1)][::-1]
    return a["pk"]


def gen_call(rng, fn=None):
    fn = fn or rng.choice(FNS)
    a = dict(n=rng.choice([2, 2, 3, 4, 5, 6, 8, 12]))
    if fn.startswith("bigraph"):
        a["u"] = rng.choice([2, 3, 5, 8])
    if fn.startswith("uniform"):
        a["n"] = rng.choice([2, 3, 4, 5, 6, 8])
        a["k"] = rng.choice([k for k in (2, 2, 3, 3, 4, a["n"]) if k <= a["n"]])
    if fn == "hypergraph_Gnm":
        a["n"] = rng.choice([2, 3, 4, 5, 6])
        a["method"] = rng.choice(["uniform", "low_order_first", "high_order_first", "custom"])
        a["pk"] = [rng.choice([0, 0, 0.2, 0.5, 1, 3.0]) for _ in range(a["n"] - 1)]
        if rng.random() < 0.2:  # weights need not sum to one
            f = rng.choice([1e-12, 1e-5, 1e6])
            a["pk"] = [x * f for x in a["pk"]]
        if not any(a["pk"]):
            a["pk"][rng.randrange(a["n"] - 1)] = 1
    if fn.endswith(("Gnp", "fast")):
        a["p"] = rng.choice(PS)
    else:
        cap = cap_of(fn, a)
        a["m"] = rng.choice([1, 1, max(1, cap // 2), max(1, cap - 1), cap, min(3, cap)])
        if rng.random() < 0.06:
            a["m"] = cap + rng.choice([1, 2])
        elif fn == "hypergraph_Gnm":  # rare sizes: completing a rare class would need unboundedly many fair draws
            w = weights_of(a)
            if min(x for x in w if x > 0) / sum(w) < 0.01:
                a["m"] = min(a["m"], max(1, cap // 2))
    return dict(fn=fn, a=a, prefix=advrng.gen_prefix(rng), seed=rng.randrange(1 << 40))


def gen_large(rng):
    """A generator at a size where enumerating single edges is no use: degrees and totals are."""
    fn = rng.choice(FNS[:-1])
    if fn == "hypergraph_Gnm":
        a = dict(n=rng.choice([7, 9, 10, 12, 13, 14, 17, 20]), m=1, method=rng.choice(["uniform", "low_order_first", "high_order_first", "custom"]))
        a["pk"] = [rng.choice([0, 0.5, 1, 2]) for _ in range(a["n"] - 1)]
        a["pk"][rng.randrange(a["n"] - 1)] = 1
        return dict(fn=fn, a=a, prefix=[], seed=rng.randrange(1 << 40))
    a = dict(n=rng.choice([16, 30, 33, 50, 65, 101, 140]))
    if fn.startswith("bigraph"):
        a["u"] = rng.choice([4, 17, 60, 130])
    if fn.startswith("uniform"):
        a["n"] = rng.choice([12, 17, 24])
        a["k"] = rng.choice([2, 3])
    if fn.endswith(("Gnp", "fast")):
        a["p"] = rng.choice([0.01, 0.05, 0.2, 0.5, 0.8, 0.97, 0, 1])
    else:
        cap = cap_of(fn, a)
        a["m"] = rng.choice([1, a["n"], min(cap, 3 * a["n"]), cap // 2, cap // 2 + 1, cap * 3 // 4, cap if cap < 2000 else cap // 3])
    return dict(fn=fn, a=a, prefix=advrng.gen_prefix(rng) if rng.random() < 0.5 else [], seed=rng.randrange(1 << 40))


def generate(rng, tier, i):
    if rng.random() < 0.06:
        return dict(mode="large", call=gen_large(rng), reps=rng.choice([1, 3, 10, 20]), ops=[])
    if rng.random() < 0.25:
        c = gen_call(rng)
        while c["fn"] != "hypergraph_Gnm" and c["a"]["n"] > 5 or c["a"].get("u", 0) > 5 or ("m" in c["a"] and c["a"]["m"] > cap_of(c["fn"], c["a"])):
            c = gen_call(rng)
        if "p" in c["a"]:
            c["a"]["p"] = rng.choice([0.1, 0.25, 0.5, 0.6, 0.9])
        elif c["fn"] == "hypergraph_Gnm":
            c["a"]["m"] = 1
        else:
            c["a"]["m"] = max(1, min(c["a"]["m"], cap_of(c["fn"], c["a"]) - 1))
        c["prefix"] = []
        return dict(mode="freq", call=c, reps=rng.choice([300, 600, 1200]), ops=[])
    return dict(mode="adv", ops=[gen_call(rng) for _ in range(rng.randrange(6, 15))])


def call(fn, a):
    import dhg
    R = dhg.random
    if fn in ("graph_Gnp", "graph_Gnp_fast", "digraph_Gnp", "digraph_Gnp_fast"):
        return getattr(R, fn)(a["n"], a["p"])
    if fn in ("graph_Gnm", "digraph_Gnm"):
        return getattr(R, fn)(a["n"], a["m"])
    if fn == "bigraph_Gnp":
        return R.bigraph_Gnp(a["u"], a["n"], a["p"])
    if fn == "bigraph_Gnm":
        return R.bigraph_Gnm(a["u"], a["n"], a["m"])
    if fn == "uniform_hypergraph_Gnp":
        return R.uniform_hypergraph_Gnp(a["k"], a["n"], a["p"])
    if fn == "uniform_hypergraph_Gnm":
        return R.uniform_hypergraph_Gnm(a["k"], a["n"], a["m"])
    pk = list(a["pk"]) if a["method"] == "custom" else None
    g = R.hypergraph_Gnm(a["n"], a["m"], a["method"], pk)
    if pk is not None and pk != list(a["pk"]):
        raise Violation("arguments-changed", f"prob_k_list {a['pk']} became {pk}")
    return g


def edges(g, fn):
    """Edges as reported, each in canonical form; and the raw list."""
    e, w = g.e
    if fn.startswith(("uniform", "hyper")):
        return [tuple(sorted(int(v) for v in x)) for x in e], w
    es = [(int(s), int(d)) for s, d in e]
    return ([tuple(sorted(x)) for x in es] if fn.startswith("graph") else es), w


def examine(g, fn, a, who):
    import dhg
    kind = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph, "u": dhg.Hypergraph, "h": dhg.Hypergraph}[fn[0]]
    bad = lambda k, d: (_ for _ in ()).throw(Violation(f"{k}:{fn}", f"{who}: {d}"))
    if type(g) is not kind:
        bad("wrong-kind", type(g).__name__)
    if g.num_v != a["n"] or ("u" in a and g.num_u != a["u"]):
        bad("wrong-size", f"{g.num_v} vertices, {a['n']} requested")
    es, w = edges(g, fn)
    if len(set(es)) != len(es):
        bad("repeated-edge", es)
    if g.num_e != len(es) or len(w) != len(es) or any(x != 1.0 for x in w):
        bad("inconsistent", f"num_e {g.num_e}, edges {es}, weights {w}")
    if fn[0] == "b":
        if any(not (0 <= u < a["u"] and 0 <= v < a["n"]) for u, v in es):
            bad("vertex-range", es)
    else:
        if any(not 0 <= v < a["n"] for e in es for v in e):
            bad("vertex-range", es)
        if any(len(set(e)) != len(e) for e in es):
            bad("self-loop" if fn[0] in "gd" else "repeated-vertex", es)
    if fn[0] == "u" and any(len(e) != a["k"] for e in es):
        bad("edge-size", f"{es} in a {a['k']}-uniform hypergraph")
    if fn[0] == "h":
        wt = weights_of(a)
        if any(len(e) < 2 or wt[len(e) - 2] <= 0 for e in es):
            bad("edge-size", f"{es} with weights per size {wt}")
    if "m" in a and len(es) != a["m"]:
        bad("edge-count", f"{len(es)} edges, {a['m']} requested")
    if "p" in a:
        if a["p"] == 0 and es:
            bad("probability-zero", es)
        if a["p"] == 1 and len(es) != cap_of(fn, a):
            bad("probability-one", f"{len(es)} of {cap_of(fn, a)} edges")
    return es


def universe(fn, a):
    n = a["n"]
    if fn.startswith("graph"):
        return list(itertools.combinations(range(n), 2))
    if fn.startswith("digraph"):
        return list(itertools.permutations(range(n), 2))
    if fn.startswith("bigraph"):
        return list(itertools.product(range(a["u"]), range(n)))
    return list(itertools.combinations(range(n), a["k"]))


def outside(k, n, p, sigma=6.5):
    """Whether k successes of n at probability p are beyond `sigma` standard deviations (or impossible)."""
    sd = math.sqrt(max(n * p * (1 - p), 0))
    return abs(k - n * p) > sigma * sd + 6  # + 6: the Poisson tail of rare events


def execute(plan, ctx):
    if plan["mode"] == "freq":
        return freq(plan, ctx)
    if plan["mode"] == "large":
        return large(plan, ctx)
    got = 0
    for c in plan["ops"]:
        fn, a = c["fn"], c["a"]
        src = advrng.install(advrng.Source(c["prefix"], c["seed"]))
        who = f"{fn}({a}) with the random source {c['prefix']} then fair"
        full = "m" in a and a["m"] > cap_of(fn, a)
        try:
            g = call(fn, a)
        except Budget:
            raise Violation(f"does-not-terminate:{fn}", f"{who}: {src.n} draws, {src.forced} of them adversarial")
        except Exception as e:
            if full:
                ctx.event("rejected", fn, a)
                ctx.count("rejected")
                continue
            raise Violation(f"valid-request-fails:{fn}", f"{who}: {e!r}")
        ctx.check(not full, f"edge-count:{fn}", lambda: f"{who}: accepted, there are only {cap_of(fn, a)} edges")
        ctx.check(not src.over, f"does-not-terminate:{fn}", who)
        es = examine(g, fn, a, who)
        got += len(es)
        ctx.event(fn, a, sorted(es))
        ctx.count("fault:adversarial-draw", src.forced)
        ctx.count("draws", src.n)
        ctx.sig(fn, a["n"], sorted(es))
    ctx.nontrivial = got > 0


def large(plan, ctx):
    """Degrees and totals of larger structures, over a few of them from one fair stream (after an adversarial start)."""
    c = plan["call"]
    fn, a = c["fn"], c["a"]
    src = advrng.install(advrng.Source(c["prefix"], c["seed"], budget=1 << 40))
    if fn == "hypergraph_Gnm":
        return large_sizes(plan, ctx)
    deg, tot = Counter(), 0
    cap, n = cap_of(fn, a), plan["reps"]
    # how many of all edges touch a vertex
    share = {"g": lambda s: a["n"] - 1, "d": lambda s: a["n"] - 1, "b": lambda s: a["n"] if s == 0 else a["u"], "u": lambda s: math.comb(a["n"] - 1, a["k"] - 1)}[fn[0]]
    for q in range(n):
        es = examine(call(fn, a), fn, a, f"{fn}({a}) with the random source {c['prefix']} then fair")
        tot += len(es)
        for e in es:
            deg.update((s if fn[0] in "db" else 0, v) for s, v in enumerate(e))
    p = a["p"] if "p" in a else a["m"] / cap
    sides = [(0, a["u"]), (1, a["n"])] if fn[0] == "b" else [(0, a["n"]), (1, a["n"])] if fn[0] == "d" else [(0, a["n"])]
    if not c["prefix"]:  # every draw was fair
        ctx.check(not outside(tot, n * cap, p), f"frequency:{fn}", lambda: f"{a}: {tot} edges in {n} structures of up to {cap}, expected a share of {p}")
        for s, size in sides:
            for v in range(size):
                ctx.check(not outside(deg[s, v], n * share(s), p), f"frequency:{fn}", lambda: f"{a}: vertex {v} of side {s} is in {deg[s, v]} edges of {n} structures, expected a share of {p} of {n * share(s)}")
    ctx.event("large", fn, a, tot)
    ctx.count("large-structures", n)
    ctx.count("fault:adversarial-draw", src.forced)
    ctx.count("draws", src.n)
    ctx.sig(fn, a, tot)
    ctx.nontrivial = tot > 0


def large_sizes(plan, ctx):
    """How often each hyperedge size and each vertex is drawn."""
    c = plan["call"]
    fn, a, n = c["fn"], c["a"], 5000
    src = advrng.install(advrng.Source([], c["seed"], budget=1 << 40))
    w = weights_of(a)
    sizes, deg = Counter(), Counter()
    for _ in range(n):
        e, = examine(call(fn, a), fn, a, f"{fn}({a}) with a fair source")
        sizes[len(e)] += 1
        deg.update(e)
    for k in range(2, a["n"] + 1):
        ctx.check(not outside(sizes[k], n, w[k - 2] / sum(w)), f"frequency:{fn}", lambda: f"{a}: size {k} in {sizes[k]} of {n} draws, expected a share of {w[k - 2] / sum(w)}")
    p = sum(k * w[k - 2] for k in range(2, a["n"] + 1)) / sum(w) / a["n"]
    for v in range(a["n"]):
        ctx.check(not outside(deg[v], n, p), f"frequency:{fn}", lambda: f"{a}: vertex {v} is in {deg[v]} of {n} hyperedges, expected a share of {p}")
    ctx.event("sizes", fn, a, sorted(sizes.items()))
    ctx.count("large-structures", n)
    ctx.count("draws", src.n)
    ctx.sig(fn, a)
    ctx.nontrivial = True


def freq(plan, ctx):
    c = plan["call"]
    fn, a = c["fn"], c["a"]
    src = advrng.install(advrng.Source([], c["seed"], budget=1 << 40))
    cnt, sizes, tot = Counter(), Counter(), 0
    pairs, follow, last = Counter(), Counter(), set()
    for _ in range(plan["reps"]):
        es = examine(call(fn, a), fn, a, f"{fn}({a}) with a fair source")
        cnt.update(es)
        sizes.update(len(e) for e in es)
        tot += len(es)
        if len(es) <= 20:
            pairs.update(itertools.combinations(sorted(es), 2))
        follow.update(last & set(es))
        last = set(es)
    n = plan["reps"]
    ctx.event("freq", fn, a, n, tot)
    ctx.count("draws", src.n)
    ctx.count("frequency-tests")
    if fn == "hypergraph_Gnm":
        w = weights_of(a)
        for k in range(2, a["n"] + 1):
            p = w[k - 2] / sum(w)
            ctx.check(not outside(sizes[k], n, p), f"frequency:{fn}", lambda: f"{a}: size {k} in {sizes[k]} of {n} draws, expected a share of {p}")
            sets = list(itertools.combinations(range(a["n"]), k))
            for e in sets:
                ctx.check(not outside(cnt[e], n, p / len(sets)), f"frequency:{fn}", lambda: f"{a}: {e} in {cnt[e]} of {n} draws, expected a share of {p / len(sets)}")
    else:
        U = universe(fn, a)
        p = a["p"] if "p" in a else a["m"] / len(U)
        for e in U:
            ctx.check(not outside(cnt[e], n, p), f"frequency:{fn}", lambda: f"{a}: edge {e} in {cnt[e]} of {n} structures, expected a share of {p}")
            # consecutive calls are independent: odd and even pairs of calls each are n / 2 independent trials
            sd = math.sqrt(n * (p * p * (1 - p * p) + 2 * p ** 3 * (1 - p)))
            ctx.check(abs(follow[e] - (n - 1) * p * p) <= 8 * sd + 6, f"calls-not-independent:{fn}", lambda: f"{a}: edge {e} is in both structures of {follow[e]} of {n - 1} pairs of consecutive calls, expected a share of {p * p}")
        if len(U) <= 20:
            p2 = a["p"] ** 2 if "p" in a else a["m"] * (a["m"] - 1) / (len(U) * (len(U) - 1)) if len(U) > 1 else 0
            for x in itertools.combinations(sorted(U), 2):
                ctx.check(not outside(pairs[x], n, p2), f"not-independent:{fn}", lambda: f"{a}: edges {x} are both in {pairs[x]} of {n} structures, expected a share of {p2}")
        if "p" in a:
            ctx.check(not outside(tot, n * len(U), p), f"frequency:{fn}", lambda: f"{a}: {tot} edges in {n} structures of up to {len(U)}, expected a share of {p}")
    ctx.sig(fn, a)
    ctx.nontrivial = tot > 0


def simplify(plan):
    for k, c in enumerate(plan["ops"]):
        for j in range(len(c["prefix"])):
            ops = [dict(x) for x in plan["ops"]]
            ops[k]["prefix"] = c["prefix"][:j] + c["prefix"][j + 1:]
            yield dict(plan, ops=ops)
