"""C17: layouts and drawings always finish, with one finite position per vertex."""
import random
import sys

import numpy as np

from dst import advrng, structs as S
from dst.core import Budget, DHG, Violation

ID = "C17"
RUNS = {"quick": 240, "thorough": 8000}
LEVEL = "exploration"
TECH = "seeded histories of edits, layouts and drawings with every initial position and every jitter answered by an adversarial random source, under a budget of steps; positions read back from the drawing"
NOTE = ("The random source is the environment: it puts vertices on top of each other, on a line, on a lattice or at the border, before it becomes fair. Drawings go through matplotlib's Agg backend and the positions are read from the patches. A clean batch is evidence, not proof.")
RULE = "A run holds 2-5 layouts or drawings of one structure with edits between them; non-trivial: at least one placed two vertices; distinct by event log."
MEASURE = "distinct (structure content, initial position pattern, final positions)"
REAL = ["dhg.visualization.structure (layout, simulator, hulls, drawing)", "dhg structures", "matplotlib (Agg), scikit-learn distances, scipy hulls"]
STUB = ["the words returned by the random generators"]
ASSUMPTIONS = ["strengths are finite and not negative", "the source is fair after a finite number of draws", "structures have at most 40 vertices"]
SHRINK = ["ops"]
CALLS = 200000
Q = 1 << 62


def prepare():
    import matplotlib
    import sklearn
    matplotlib.use("Agg")
    sklearn.set_config(skip_parameter_validation=True)  # three times faster
    import matplotlib.pyplot as plt
    import dhg.visualization  # noqa
    fig, ax = plt.subplots(figsize=(6, 6))
    ax.text(.5, .5, "a", fontfamily="sans-serif")
    fig.tight_layout()
    plt.close("all")


def gen_init(rng, n):
    """Moves for the first positions of n vertices."""
    w = lambda: rng.getrandbits(64)  # noqa
    k = rng.choice(["fair", "fair", "same", "pairs", "vertical", "horizontal", "diagonal", "lattice", "border", "twins", "near", "rest-same"])
    if k == "fair":
        ws = []
    elif k == "same":
        x, y = w(), w()
        ws = [x, y] * n
    elif k == "pairs":
        ws = [v for _ in range((n + 1) // 2) for v in [w(), w()] for v in [v]]
        ws = [v for i in range(0, len(ws), 2) for v in ws[i:i + 2] * 2]
    elif k == "vertical":
        x = w()
        ws = [v for _ in range(n) for v in (x, w())]
    elif k == "horizontal":
        y = w()
        ws = [v for _ in range(n) for v in (w(), y)]
    elif k == "diagonal":
        ws = [v for x in [w() for _ in range(n)] for v in (x, x)]
    elif k == "lattice":
        ws = [rng.choice([0, Q, 2 * Q, 3 * Q]) for _ in range(2 * n)]
    elif k == "border":
        ws = [rng.choice([0, advrng.M64]) for _ in range(2 * n)]
    elif k == "near":
        x, y = w() | 1 << 40, w() | 1 << 40
        ws = [v for _ in range(n) for v in (x ^ rng.choice([0, 1 << 11, 1 << 12, 1 << 30]), y ^ rng.choice([0, 1 << 11, 1 << 20]))]
    elif k == "twins":
        ps = [[w(), w()] for _ in range(2)]
        ws = [v for _ in range(n) for v in rng.choice(ps)]
    else:
        ws = [w(), w()] + [w(), w()] * (n - 1)
        ws = ws[:2] + ws[2:4] * (n - 1)
    return dict(k=k, words=ws[:2 * n])


def gen_strength(rng, names):
    return {n: rng.choice([0.5, 1.0, 1.0, 2.0, 5.0, 0.0, 1, 2]) for n in names if rng.random() < 0.3}


GNAMES = ["push_v_strength", "push_e_strength", "pull_e_strength", "pull_center_strength"]
BNAMES = ["push_u_strength", "push_v_strength", "push_e_strength", "pull_e_strength", "pull_u_center_strength", "pull_v_center_strength"]


def generate(rng, tier, i):
    sp = S.gen_new(rng)
    kind = sp["kind"]
    if rng.random() < 0.15:
        huge = rng.random() < 0.15
        sp["size"] = [rng.choice([12, 20, 30]), rng.choice([5, 20] if not huge else [40, 70])] if kind == "BiGraph" else [rng.choice([12, 20, 40] if not huge else [65, 101, 130])]
        sp["edges"] = S.gen_edges(rng, kind, sp["size"], k=rng.choice([5, 15, 30] if not huge else [1, 30, 150]))
        sp["weights"] = sp["vw"] = None
    n = sum(sp["size"])
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        while rng.random() < 0.35:
            ops.append(dict(t="edit", op=S.gen_edit(rng, sp)))
        r = rng.random()
        names = BNAMES if kind == "BiGraph" else GNAMES
        rnd = dict(init=gen_init(rng, n), more=advrng.gen_prefix(rng, 60) if rng.random() < 0.3 else [], seed=rng.getrandbits(48))
        if r < 0.5:
            kw = gen_strength(rng, names)
            if rng.random() < 0.2 and kind in ("Graph", "DiGraph"):
                kw["e_style"] = rng.choice(["line", "circle"] if kind == "Graph" else ["line"])
            lab = rng.random() < 0.15
            ops.append(dict(t="draw", kw=kw, lab=lab, rnd=rnd, bad=rng.random() < 0.07))
        elif r < 0.9:
            st = [rng.choice([0.006, 0.006, 0.03, 1, 0.0]) for _ in names]
            if rng.random() < 0.5:
                st[names.index("push_e_strength")] = None
            ops.append(dict(t="layout", st=st, rnd=rnd, edgeless=rng.random() < 0.15, form=rng.choice(["tuple", "tuple", "list", "list", "reversed", "shuffled"])))
        elif r < 0.92:
            ops.append(dict(t="gather", rnd=dict(rnd, init=dict(k="fair", words=[]), more=[]), nu=rng.choice([1, 2, 3, 5, 9]), nv=rng.choice([3, 4, 6, 10]), su=rng.choice([0.03, 0.1, 0.3]), sv=rng.choice([0.0, 0.03, 0.1, 0.3]), draw=rng.random() < 0.4))
        elif r < 0.95:
            ops.append(dict(t="steps", rnd=dict(rnd, init=dict(k="fair", words=[]), more=[]), bi=rng.random() < 0.3, n=rng.choice([8, 17, 24, 40, 60]), m=rng.choice([1, 5, 20, 40]), s=rng.choice([50.0, 500.0, 1e4])))
        else:
            ops.append(dict(t="pull", rnd=dict(rnd, init=dict(k="fair", words=[]), more=[]), a=rng.randrange(1 << 16), b=rng.randrange(1 << 16), n=rng.choice([5, 6, 8]), u=rng.choice([2, 3, 4]), s=rng.choice([0.02, 0.045, 0.1])))
            if rng.random() < 0.4:
                ops[-1].update(t="cross", a=rng.randrange(1 << 16))
    return dict(struct=sp, ops=ops)


class Limit:
    """At most `CALLS` calls of functions of the visualisation code."""

    def __enter__(self):
        self.left, m, self.by = CALLS, sys.monitoring, {}
        m.use_tool_id(4, "limit")
        m.register_callback(4, m.events.PY_START, self.start)
        m.set_events(4, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(4, 0)
        m.register_callback(4, m.events.PY_START, None)
        m.free_tool_id(4)

    def start(self, code, off):
        if "/dhg/visualization/" not in code.co_filename:
            return sys.monitoring.DISABLE
        self.left -= 1
        self.by[code] = self.by.get(code, 0) + 1
        if self.left < 0:
            self.left = 1 << 60
            raise Budget(f"more than {CALLS} calls in the visualisation code, last {code.co_name}")

    def steps(self):
        """Times the rarest repeated function was called: what happens once per step, whatever it is called."""
        return min((k for k in self.by.values() if k > 50), default=0)


def drawn_positions(num):
    """Centres of the vertex circles of the current figure, in drawing order."""
    import matplotlib.pyplot as plt
    from matplotlib.collections import PatchCollection
    ax = plt.gcf().axes[0]
    cols = [c for c in ax.collections if isinstance(c, PatchCollection)]
    if len(cols) != 1:
        raise Violation("vertices-not-drawn", f"{len(cols)} collections of vertices")
    out = []
    for p in cols[0].get_paths():
        v = np.asarray(p.vertices)
        v = v[np.isfinite(v).all(1)] if np.isfinite(v).any() else v
        out.append((v.max(0) + v.min(0)) / 2 if len(v) and np.isfinite(v).all() else np.array([np.nan, np.nan]))
    return np.array(out), ax


def snap(g, m):
    return repr(g.state_dict["raw_groups"] if m.kind == "Hypergraph" else g.e) + repr(getattr(g, "v_weight", None))


def execute(plan, ctx):
    import matplotlib.pyplot as plt
    from dhg.visualization.structure.layout import bipartite_force_layout, force_layout
    g, m = S.build(plan["struct"])
    src = advrng.install(advrng.Source([], 1))
    bi = m.kind == "BiGraph"

    def arm(r):
        ws = r["init"]["words"]
        src.runs = [[w, 1] for w in ws] + [list(x) for x in r["more"]]
        src.fair, src.n, src.budget, src.over = random.Random(r["seed"]), 0, 3_000_000, False
        ctx.count("fault:positions-" + r["init"]["k"]) if ws else None
        ctx.count("fault:hostile-jitter", 1 if r["more"] else 0)
        return not r["more"]

    def judge(pos, n, what, distinct):
        pos = np.asarray(pos, dtype=float)
        ctx.check(pos.shape == (n, 2), "wrong-number-of-positions", lambda: f"{what}: shape {pos.shape} for {n} vertices")
        ctx.check(np.isfinite(pos).all(), "position-not-finite", lambda: f"{what}: {pos.tolist()}")
        ctx.check((pos >= -1e-9).all() and (pos <= 1 + 1e-9).all(), "position-outside-the-drawing", lambda: f"{what}: {pos.tolist()}")
        if distinct and n > 1:
            d = np.linalg.norm(pos[:, None] - pos[None], axis=2) + np.eye(n)
            ctx.check(d.min() > 1e-7, "vertices-on-top-of-each-other", lambda: f"{what}: {pos.tolist()}")
        if n > 1:
            ctx.nontrivial = True
        ctx.event("positions", np.round(pos, 6).tolist())
        ctx.sig(what, np.round(pos, 3).tolist())

    for q, op in enumerate(plan["ops"]):
        ctx.event(op["t"], q)
        if op["t"] == "edit":
            S.apply_edit(g, m, op["op"])
            continue
        n = m.nu + m.nv if bi else m.n
        fair = arm(op["rnd"])
        before = snap(g, m)
        what = f"{op['t']} {q} of {m.state()} from {op['rnd']['init']['k']} positions"
        with Limit():
            if op["t"] == "draw":
                kw = dict(op["kw"])
                if op["lab"]:
                    if bi:
                        kw.update(u_label=[f"u{i}" for i in range(m.nu)], v_label=[f"v{i}" for i in range(m.nv)], u_font_size=1.0)
                        kw.pop("u_label") if False else None
                    else:
                        kw["v_label"] = [str(i) for i in range(n)]
                if op["bad"]:
                    kw["e_style"] = "wavy"
                try:
                    if g.num_e == 0 or op["bad"]:
                        try:
                            g.draw(**kw)
                        except (AssertionError, ValueError):
                            ctx.count("rejected")
                        else:
                            ctx.fail("invalid-drawing-accepted", what)
                    else:
                        g.draw(**kw)
                        pos, ax = drawn_positions(n)
                        judge(pos, n, what, fair and all(kw.get(k, 1.0) for k in kw if k.startswith("push")))
                        ctx.check(plt.gcf() is ax.figure, "no-figure", what)
                        plt.gcf().canvas.draw() if q % 7 == 0 else None
                finally:
                    plt.close("all")
            elif op["t"] == "layout":
                el = [] if op["edgeless"] else [tuple(e) for e in g.e[0]] if g.num_e else []
                form, lr = op.get("form", "tuple"), random.Random(q)
                if bi:
                    names = dict(zip(BNAMES, op["st"]))
                    el = [(u, v + m.nu) for u, v in el]
                el = [e if form == "tuple" else list(e) if form == "list" else list(e)[::-1] if form == "reversed" else lr.sample(list(e), len(e)) for e in el]
                given = [type(e)(e) for e in el]
                if bi:
                    pu, pv = bipartite_force_layout(m.nu, m.nv, el, **names)
                    ctx.check(len(pu) == m.nu and len(pv) == m.nv, "wrong-number-of-positions", lambda: f"{what}: {len(pu)} and {len(pv)}")
                    pos = np.vstack([pu, pv])
                else:
                    names = dict(zip(GNAMES, op["st"]))
                    pos = force_layout(n, el, **names)
                ctx.check(el == given and [type(e) for e in el] == [type(e) for e in given], "edge-list-changed", lambda: f"{what}: {given} became {el}")
                judge(pos, n, what + f" {op['st']}", fair and all(v for k, v in names.items() if k in ("push_v_strength", "push_u_strength")))
            elif op["t"] == "steps":
                pass
            elif op["t"] == "gather":
                gather(op, ctx, what, src)
            elif op["t"] == "cross":
                cross(op, ctx, what, src)
            else:
                pull(op, ctx, what, src)
        if op["t"] == "steps":
            steps(op, ctx, arm)
        ctx.check(snap(g, m) == before, "structure-changed", lambda: what)
    for v in S.all_views(random.Random(3), plan["struct"])[:12]:
        S.check_view(g, m, v, why="structure-damaged")


def steps(op, ctx, arm):
    """A layout that never comes to rest takes the same fixed number of steps whatever the size."""
    from dhg.visualization.structure.layout import bipartite_force_layout, force_layout
    rng, got = random.Random(op["rnd"]["seed"]), []
    for n, m in ((4, 1), (op["n"], op["m"])):
        arm(op["rnd"])
        with Limit() as lim:
            if op["bi"]:
                el = [(rng.randrange(n), n + rng.randrange(n)) for _ in range(m)]
                bipartite_force_layout(n, n, el, 0.0, 0.0, None, 0.0, op["s"], op["s"])
            else:
                el = [tuple(rng.sample(range(n), 2)) for _ in range(m)]
                force_layout(n, el, 0.0, None, 0.0, op["s"])
        got.append(lim.steps())
    ctx.check(got[1] <= got[0], "number-of-steps-not-fixed", lambda: f"{got[0]} steps for 4 vertices and one edge, {got[1]} for {op['n']} vertices and {op['m']} edges")
    ctx.event("steps", got)
    ctx.nontrivial = True


def gather(op, ctx, what, src):
    """With the pull of the two centres as the only force, each vertex set gathers at its centre, whatever their sizes."""
    import dhg
    import matplotlib.pyplot as plt
    from dhg.visualization.structure.layout import bipartite_force_layout
    nu, nv, su, sv = op["nu"], op["nv"], op["su"], op["sv"]
    tap = []
    orig = src.u64
    src.u64 = lambda *k: (tap.append(orig(*k)), tap[-1])[1]
    try:
        if op["draw"]:
            kw = {k: 0.0 for k in BNAMES}
            kw.update(pull_u_center_strength=su * 25, pull_v_center_strength=sv * 25)
            dhg.BiGraph(nu, nv, [(0, 0)]).draw(**kw)
            pos, _ = drawn_positions(nu + nv)
        else:
            pos = np.vstack(bipartite_force_layout(nu, nv, [], 0.0, 0.0, None, 0.0, su, sv))
    finally:
        src.u64 = orig
        plt.close("all")
    U, V = pos[:nu], pos[nu:]
    say = lambda: f"{what}: {nu} and {nv} vertices pulled with {su} and {sv} end at {U.tolist()} and {V.tolist()}"
    ctx.check(np.ptp(U[:, 0]) < 0.06, "set-not-at-its-centre", say)
    if sv:
        ctx.check(np.ptp(V[:, 0]) < 0.06 and abs(U[:, 0].mean() - V[:, 0].mean()) > 0.5, "set-not-at-its-centre", say)
    elif len(tap) >= 2 * (nu + nv):  # nothing pulls the second set: it stays where it started
        start = np.array([(w >> 11) * 2.0 ** -53 for w in tap[:2 * (nu + nv)]]).reshape(-1, 2)[nu:]
        for ax in (0, 1):
            if np.ptp(start[:, ax]) > 0.05:
                fit = np.polyval(np.polyfit(start[:, ax], V[:, ax], 1), start[:, ax])
                ctx.check(np.abs(fit - V[:, ax]).max() < 1e-3 and V[start[:, ax].argmax(), ax] > V[start[:, ax].argmin(), ax], "vertex-without-force-moved", say)
    ctx.nontrivial = True
    ctx.sig("gather", nu, nv, np.round(pos, 3).tolist())


def cross(op, ctx, what, src):
    """With attraction as the only force, the ends of each edge approach each other, also while the edges have the same centre (or are the same two vertices)."""
    import dhg
    import matplotlib.pyplot as plt
    n = max(op["n"], 6)
    r = random.Random(op["a"])
    t, d = r.uniform(0, 3.14), r.uniform(0.2, 0.45)
    f, q = np.array([np.cos(t), np.sin(t)]) * d, np.array([-np.sin(t), np.cos(t)]) * r.uniform(0.2, 0.45)
    start = np.array([[0.5, 0.5] + f, [0.5, 0.5] - f, [0.5, 0.5] + q, [0.5, 0.5] - q] + [[r.random(), r.random()] for _ in range(n - 4)])
    words = [int(x * 2 ** 53) << 11 for x in start.ravel()]
    g = (dhg.Graph, dhg.DiGraph, dhg.Hypergraph)[op["a"] % 3](n, [(0, 1), (2, 3)])
    orig, k = src.u64, [0]

    def u64(*a):
        k[0] += 1
        return words[k[0] - 1] if k[0] <= len(words) else orig(*a)
    src.u64 = u64
    try:
        g.draw(**dict({k: 0.0 for k in GNAMES}, pull_e_strength=op["s"] * 20))
        pos, _ = drawn_positions(n)
    finally:
        src.u64 = orig
        plt.close("all")
    if k[0] < 2 * n:
        return
    A = [np.polyfit(pos[4:, ax], start[4:, ax], 1) for ax in (0, 1)]
    back = np.stack([np.polyval(A[ax], pos[:, ax]) for ax in (0, 1)], 1)
    if n > 6:
        ctx.check(np.abs(back[4:] - start[4:]).max() < 1e-3, "vertex-without-edges-moved", lambda: f"{what}: {start.tolist()} became {back.tolist()}")
    for a, b in ((0, 1), (2, 3)):
        d0, d1 = np.linalg.norm(start[a] - start[b]), np.linalg.norm(back[a] - back[b])
        ctx.check(d1 < 0.9 * d0, "edge-does-not-attract", lambda: f"{what}: {type(g).__name__} with the crossing edges (0, 1) and (2, 3): the ends of {(a, b)} were {d0} apart and end {d1} apart")
    ctx.nontrivial = True
    ctx.sig("cross", type(g).__name__, np.round(pos, 3).tolist())


def pull(op, ctx, what, src):
    """With attraction as the only force, vertices without edges stay and the ends of the only edge approach each other."""
    import dhg
    import matplotlib.pyplot as plt
    n, nu = op["n"], op["u"]
    if op["a"] % 2:
        nv = n
        n = nu + nv
        a, b = op["a"] // 2 % nu, op["b"] % nv
        g = dhg.BiGraph(nu, nv, [(a, b)])
        ends = (a, nu + b)
        kw = {k: 0.0 for k in BNAMES}
    else:
        a, b = op["a"] // 2 % n, op["b"] % n
        b = (b + 1) % n if a == b else b
        g = (dhg.Hypergraph, dhg.Graph, dhg.DiGraph)[op["b"] % 3](n, [(a, b)])
        ends = (a, b)
        kw = {k: 0.0 for k in GNAMES}
    kw["pull_e_strength"] = op["s"] * 20
    tap = []
    orig = src.u64
    src.u64 = lambda *k: (tap.append(orig(*k)), tap[-1])[1]
    try:
        g.draw(**kw)
        pos, _ = drawn_positions(n)
    finally:
        src.u64 = orig
        plt.close("all")
    if len(tap) < 2 * n:
        return
    start = np.array([(w >> 11) * 2.0 ** -53 for w in tap[:2 * n]]).reshape(n, 2) * 2 - 1
    start = start * 4.5 + np.array([[5, 0]] * nu + [[-5, 0]] * (n - nu)) if op["a"] % 2 else start * 5
    rest = [i for i in range(n) if i not in ends]
    # the drawing is an axis-wise affine image of the layout; the resting vertices tell which
    A = []
    for ax in (0, 1):
        A.append(np.polyfit(pos[rest, ax], start[rest, ax], 1))
    back = np.stack([np.polyval(A[ax], pos[:, ax]) for ax in (0, 1)], 1)
    err = np.abs(back[rest] - start[rest]).max()
    ctx.check(err < 1e-3, "vertex-without-edges-moved", lambda: f"{what}: {type(g).__name__} with the edge {ends}: vertices {rest} started at {start.tolist()}, ended at {back.tolist()}")
    d0, d1 = np.linalg.norm(start[ends[0]] - start[ends[1]]), np.linalg.norm(back[ends[0]] - back[ends[1]])
    ctx.check(d1 < d0 or d0 < 0.5, "edge-does-not-attract", lambda: f"{what}: the ends of {ends} were {d0} apart and end {d1} apart")
    m0, m1 = start[list(ends)].mean(0), back[list(ends)].mean(0)
    ctx.check(np.abs(m0 - m1).max() < 2e-3, "ends-not-attracted-alike", lambda: f"{what}: {type(g).__name__}: the ends of {ends} started around {m0} and end around {m1}")
    ctx.nontrivial = True
    ctx.sig("pull", type(g).__name__, ends, np.round(pos, 3).tolist())
