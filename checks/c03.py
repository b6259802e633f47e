"""C03: copies and derived structures start exact and stay independent."""
import random

from dst import alloc
from dst import structs as S
from dst.core import Violation
from dst.refmodel import RHypergraph
from dst.sched import Sched

S.allow_zero()
S.sizes(0.04)
ID = "C03"
RUNS = {"quick": 2400, "thorough": 50000}
LEVEL = "exploration"
TECH = "seeded histories over a family of derived structures edited by interleaved client threads, with failing allocations, against one model per member"
NOTE = ("Seeded search: after every derivation and edit, views of every member of the family are compared with its own reference model; in the threaded phase each member is owned by one "
        "simulated thread and the hand-overs are line-level decisions of the seed. A clean batch is evidence, not proof.")
RULE = ("A run grows a family from one structure by cloning, state restore, sub-hypergraph, vertex-set switch and rate-zero dropping, mixed with edits and reads (some with a failing "
        "allocation), then lets 2-3 threads edit different members concurrently; non-trivial: at least one derivation from a structure with warm caches and a later edit of parent or child; distinct by event log.")
MEASURE = "distinct (derivation path, contents of the family) states"
REAL = ["dhg.Graph, dhg.DiGraph, dhg.BiGraph, dhg.Hypergraph", "torch"]
STUB = ["thread scheduler", "tensor allocation (fails on demand)"]
ASSUMPTIONS = ["CPU only", "where two hyperedges of one group coincide in a sub-hypergraph, any of their weights or a documented merge of them is accepted", "state is restored from at once after it is exported"]
SHRINK = ["ops", "tops", "switches"]
DERIVE = {"Graph": ["clone", "clone", "state", "drop0"], "DiGraph": ["clone", "clone", "state", "drop0"], "BiGraph": ["clone", "state", "switch", "drop0"],
          "Hypergraph": ["clone", "clone", "state", "sub", "sub", "drop0", "dropg0"]}


def prepare():
    alloc.install()


def generate(rng, tier, i):
    spec = S.gen_new(rng)
    if spec["edges"] is None:
        spec["edges"] = S.gen_edges(rng, spec["kind"], spec["size"], k=4)
    faulty = rng.random() < 0.4
    ops = []
    hot = [S.gen_view(rng, spec) for _ in range(3)]
    for _ in range(rng.randrange(8, 26)):
        r, at = rng.random(), rng.randrange(64)
        if r < 0.18:
            ops.append(dict(t="derive", at=at, how=rng.choice(DERIVE[spec["kind"]]), keep=[rng.randrange(64) for _ in range(rng.choice([1, 2, 3, 5, 8]))], one=rng.random() < 0.5,
                            group=rng.choice(S.GROUPS)))
        elif r < 0.5:
            ops.append(dict(t="edit", at=at, seed=rng.randrange(1 << 30), bad=rng.choice([0, 0, 0.3])))
        elif r < 0.55 and spec["kind"] == "Hypergraph":
            ops.append(dict(t="poke", at=at, v=rng.randrange(64)))
        else:
            op = dict(t="view", at=at, seed=rng.randrange(1 << 30))
            if faulty and rng.random() < 0.3:
                op["oom"] = rng.choice([1, 2, 3, 5, 8])
            ops.append(op)
    tops = [dict(c=rng.randrange(3), t=rng.choice(["edit", "view", "view"]), seed=rng.randrange(1 << 30)) for _ in range(rng.choice([0, 0, 4, 8, 12]))]
    return dict(spec=spec, ops=ops, tops=tops, sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.05, 0.2])), audit=rng.randrange(1 << 30))


def spec_of(m):
    size = [m.nu, m.nv] if m.kind == "BiGraph" else [m.n]
    return dict(kind=m.kind, size=size)


def sub_model(m, vs, keep_one, real, ctx):
    """The induced sub-hypergraph, the weights of coinciding hyperedges taken from `real` when they are legitimate."""
    r = RHypergraph(len(vs), [m.vw[v] for v in vs])
    mp = {v: k for k, v in enumerate(vs)}
    for grp, es in m.G.items():
        cand = {}
        for e, w in es.items():
            k = tuple(sorted(mp[v] for v in e if v in mp))
            if len(k) >= (1 if keep_one else 2):
                cand.setdefault(k, []).append(w)
        r.G[grp] = {}
        obs = {}
        if grp in real.group_names:
            e, w = real.e_of_group(grp)
            obs = {tuple(sorted(int(v) for v in x)): float(y) for x, y in zip(e, w)}
        for k, ws in cand.items():
            if len(ws) == 1:
                r.G[grp][k] = ws[0]
            else:
                ctx.count("coinciding_hyperedges")
                o = obs.get(k)
                mean = ws[0]
                for w in ws[1:]:
                    mean = (mean + w) / 2
                ok = ws + [sum(ws), max(ws), mean, sum(ws) / len(ws)]
                ctx.check(o is not None and min(abs(o - x) for x in ok) < 1e-5, "derived-content:sub", f"hyperedge {k} of group {grp} weighs {o}, from {ws}")
                r.G[grp][k] = o
    return r


def derive(g, m, op, ctx):
    import dhg
    how = op["how"]
    if how == "clone":
        return g.clone(), m.copy()
    if how == "state":
        return type(g).from_state_dict(g.state_dict), m.copy()
    if how == "switch":
        return g.switch_uv(), m.switch()
    if how == "drop0":
        return (g.drop_hyperedges(0.0) if m.kind == "Hypergraph" else g.drop_edges(0.0)), m.copy()
    if how == "dropg0":
        if op["group"] not in m.G:
            return None
        return g.drop_hyperedges_of_group(op["group"], 0.0), m.copy()
    vs = sorted({k % m.n for k in op["keep"]})
    lst = list(vs)
    random.Random(len(vs)).shuffle(lst)
    h = g.subgraph(lst, op["one"])
    return h, sub_model(m, vs, op["one"], h, ctx)


def look(ctx, g, m, seed, who, n=1, why="member-mismatch"):
    rng = random.Random(seed)
    sp = spec_of(m)
    vs = [S.gen_view(rng, sp) for _ in range(n)] if n < 10 else S.all_views(rng, sp)
    for v in vs:
        try:
            S.check_view(g, m, v, why=why)
        except Exception as e:
            raise Violation(f"{why}:{m.kind}.{S.vname(v)}", f"{who}: {v} of {m.state()}: {e!r}")


def poke_lists(ctx, basic, g, m, fam, v):
    """Edges and weights written into the lists a member handed out must not reach the others."""
    asks = [lambda: g.e]
    if hasattr(g, "e_of_group"):
        asks += [lambda n=n: g.e_of_group(n) for n in g.group_names]
    others = [x for x in fam if x[0] is not g]
    for ask in asks:
        got = ask()
        if not isinstance(got, tuple) or not got:
            continue
        for lst in got:
            if not isinstance(lst, list) or not lst:
                continue
            k = v % len(lst)
            old = lst[k]
            lst[k] = 77.5 if isinstance(old, float) else (0,) * 5
            lst.append(old)
            try:
                for g2, m2, n2 in others:
                    basic(g2, m2, n2, "edit-leaked")
                    for name in getattr(g2, "group_names", []):
                        S.check_view(g2, m2, ["@", name, "e"], why="edit-leaked")
            finally:
                lst.pop()
                lst[k] = old
            ctx.count("edge_lists_written")


def execute(plan, ctx):
    g, m = S.build(plan["spec"])
    fam = [(g, m, "root")]
    ctx.event("new", plan["spec"])
    warm, stage = set(), 0
    arng = random.Random(plan["audit"])

    def audit(n, why):
        for k, (g, m, name) in enumerate(fam):
            look(ctx, g, m, arng.randrange(1 << 30), name, n, why)

    def basic(g, m, name, why):
        for v in (["e"], ["num_e"], ["state_dict"]) + ((["v_weight"], ["group_names"]) if m.kind == "Hypergraph" else ()):
            try:
                S.check_view(g, m, v, why=why)
            except Exception as e:
                raise Violation(f"{why}:{m.kind}.{v[0]}", f"{name}: {e!r}")

    for op in plan["ops"]:
        k = op["at"] % len(fam)
        g, m, name = fam[k]
        if op["t"] == "derive":
            if len(fam) >= 6:
                continue
            ctx.event("derive", op["how"], "from", name, m.state())
            r = derive(g, m, op, ctx)
            if r is None:
                continue
            h, hm = r
            nm = f"{op['how']}({name})"
            fam.append((h, hm, nm))
            # the sub-hypergraph content was fixed by the model; everything the child reports must agree with it
            basic(h, hm, nm, "derived-content")
            basic(g, m, name, "parent-changed")
            look(ctx, h, hm, arng.randrange(1 << 30), nm, 4, "derived-content")
            ctx.count("derive_" + op["how"])
            if k in warm:
                stage = max(stage, 1)
        elif op["t"] == "edit":
            e = S.gen_edit(random.Random(op["seed"]), spec_of(m), op["bad"])
            ctx.event("edit", name, e)
            S.apply_edit(g, m, e)
            ctx.count("fault:rejected_edit" if e["t"] == "bad" else "edits")
            if stage == 1:
                stage = 2
            for g2, m2, n2 in fam:
                basic(g2, m2, n2, "edit-leaked" if g2 is not g else "edit-result")
            audit(1, "edit-leaked")
        elif op["t"] == "poke":  # a vertex weight written in the list a member handed out must not reach the others
            poke_lists(ctx, basic, g, m, fam, op["v"])
            w = g.v_weight
            if not isinstance(w, list) or len(w) != m.n:
                continue
            v = op["v"] % m.n
            old = w[v]
            w[v] = old + 3.5
            for g2, m2, n2 in fam:
                if g2 is not g:
                    basic(g2, m2, n2, "edit-leaked")
            w[v] = old
            ctx.event("poke", name, v)
            ctx.count("weight_lists_written")
        else:
            ctx.event("view", name, op["seed"], op.get("oom"))
            if op.get("oom"):
                cm = alloc.oom_at(op["oom"])
                try:
                    with cm:
                        look(ctx, g, m, op["seed"], name)
                except BaseException:
                    if not cm.fired:
                        raise
                if cm.fired:
                    ctx.count("fault:allocation_failure")
            else:
                look(ctx, g, m, op["seed"], name)
            warm.add(k)
        ctx.sig([(n, x.state()) for _, x, n in fam])
    if plan["tops"] and len(fam) > 1:
        sp = plan["sched"]
        sched = Sched(sp["seed"], sp["p"], plan.get("switches"))
        owned = {}
        for c in range(min(3, len(fam))):
            mine = [o for o in plan["tops"] if o["c"] == c]
            if not mine:
                continue
            g, m, name = fam[-1 - c]
            owned[c] = name

            def body(g=g, m=m, name=name, mine=mine):
                for o in mine:
                    if o["t"] == "edit":
                        S.apply_edit(g, m, S.gen_edit(random.Random(o["seed"]), spec_of(m)))
                    else:
                        look(ctx, g, m, o["seed"], name, 1, "concurrent-edit-leaked")
            sched.spawn(body, name)
        if sched.tasks:
            try:
                sched.run()
            finally:
                ctx.sched_trace = sched.trace
            ctx.event("threads", sched.trace, [type(t.exc).__name__ for t in sched.tasks])
            ctx.count("fault:preemption", len(sched.trace))
            for t in sched.tasks:
                if t.exc is not None:
                    raise t.exc
            stage = 2 if stage else stage
    audit(12, "final-mismatch")
    ctx.event("end", [m.state() for _, m, _ in fam])
    ctx.nontrivial = stage == 2 and len(fam) > 1
