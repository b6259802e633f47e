"""C04: a saved structure loads back exactly, and a broken save never loads wrong."""
import os
import random
from pathlib import Path

from dst import disk, peer
from dst import structs as S
from dst.core import Violation
from dst.sched import Sched

S.allow_zero()
S.sizes(0.04)
ID = "C04"
RUNS = {"quick": 2200, "thorough": 40000}
LEVEL = "exploration"
TECH = "seeded histories of edits, saves and loads over a simulated disk with I/O errors, full disk, short and torn writes, process death and restart, and parallel savers; oracle: the set of structures each path may hold"
NOTE = ("Seeded search: every load is compared with the structures acknowledged or attempted at that path; some loads happen in a second interpreter with another hash seed. "
        "The disk is a process-crash model (what was written survives). A clean batch is evidence, not proof.")
RULE = ("A run holds 1-3 structures and 1-3 paths and mixes edits, reads, saves and loads with 0-3 disk faults (and crashes) inside saves and loads, and an optional phase of parallel savers; "
        "non-trivial: at least one completed save whose file was loaded again after a later edit or fault; distinct by event log.")
MEASURE = "distinct (contents each path may hold, structures in memory) states"
REAL = ["dhg save, load, load_structure, state_dict, from_state_dict of all four kinds", "pickle", "real files in a scratch directory"]
STUB = ["disk seam (open, read, write, close, rename ... counted and faulted)", "process death", "thread scheduler"]
ASSUMPTIONS = ["what a dead process had written before it died survives (no power loss)", "no two processes save to one path at the same time"]
SHRINK = ["ops", "par", "switches"]
PEER = None
FAULTS = ["eio", "enospc", "eacces", "short", "torn", "crash"]


def prepare():
    global PEER
    disk.install()
    PEER = peer.start("c04", 77)


def peer_load(path, kind, generic, cands, seed):
    """Load in the second interpreter and compare there; returns the index of the matching candidate, or an error."""
    import dhg
    try:
        g = dhg.load_structure(path) if generic else getattr(dhg, kind).load(path)
    except Exception as e:
        return ["error", repr(e)]
    for k, c in enumerate(cands):
        if matches(g, from_json(c)) is None:
            return ["ok", k]
    return ["wrong", describe(g)]


def to_json(m):
    d = {k: v for k, v in vars(m).items()}
    out = {}
    for k, v in d.items():
        if k == "G":
            out[k] = [[g, [[list(e), w] for e, w in es.items()]] for g, es in v.items()]
        elif isinstance(v, dict):
            out[k] = dict(D=[[list(e) if isinstance(e, tuple) else e, w] for e, w in v.items()])
        else:
            out[k] = v
    return [type(m).__name__, out]


def from_json(c):
    from dst import refmodel
    cls = getattr(refmodel, c[0])
    m = cls.__new__(cls)
    for k, v in c[1].items():
        if k == "G":
            v = {g: {tuple(e): w for e, w in es} for g, es in v}
        elif isinstance(v, dict):
            v = {tuple(e) if isinstance(e, list) else e: w for e, w in v["D"]}
        setattr(m, k, v)
    return m


BASIC = {"Graph": [["e"], ["num_e"], ["state_dict"]], "Hypergraph": [["e"], ["num_e"], ["state_dict"], ["v_weight"], ["group_names"]]}


def describe(g):
    return f"{type(g).__name__} {getattr(g, 'e', None)}"[:600]


def matches(g, m, views=()):
    """None if the real structure is the model, else what differs."""
    if type(g).__name__ != m.kind:
        return f"kind {type(g).__name__}"
    n = (g.num_u, g.num_v) if m.kind == "BiGraph" else (g.num_v,)
    if n != ((m.nu, m.nv) if m.kind == "BiGraph" else (m.n,)):
        return f"size {n}"
    try:
        for v in BASIC.get(m.kind, BASIC["Graph"]) + list(views):
            S.check_view(g, m, v, why="loaded")
    except Violation as v:
        return v.detail
    except Exception as e:
        return f"{e!r}"
    return None


def gen_fault(rng, save):
    k = rng.choice(FAULTS if save else ["eio", "short", "eacces"])
    on = {"eio": ["any", "write", "close", "create"] if save else ["read", "any"], "enospc": ["write", "any"], "eacces": ["any"], "short": ["write"] if save else ["read"], "torn": ["write"], "crash": ["any", "write", "close"]}[k]
    return dict(on=rng.choice(on), n=rng.choice([1, 1, 1, 2, 3, 4]), k=k, len=rng.choice([0, 0, 0, 3, 1000]), frac=rng.randrange(3))


def generate(rng, tier, i):
    nstr, npath = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    specs = [S.gen_new(rng) for _ in range(nstr)]
    if rng.random() < 0.1:  # a file of more than one pickle frame
        specs[0] = dict(kind="Graph", size=[200], edges=[[rng.randrange(200), rng.randrange(200)] for _ in range(4000)], weights=None, op="mean", extra=False, vw=None)
    faulty = rng.random() < 0.7
    ops = []
    if rng.random() < 0.15 and specs[0].get("edges"):  # the same structure with other weights over the file of the first
        nstr, faulty = max(nstr, 2), True
        specs[0]["weights"] = [round(rng.uniform(0.5, 9.5), 3) for _ in specs[0]["edges"]]
        specs[1:2] = [dict(specs[0], weights=[round(rng.uniform(0.5, 9.5), 3) for _ in specs[0]["edges"]])]
        k = rng.randrange(npath)
        for at in rng.choice([[0, 1], [0, 1, 0], [1, 0, 1]]):
            ops.append(dict(at=at, path=k, t="save", form="str", faults=[gen_fault(rng, True)] if ops else []))
            if len(ops) > 1:
                ops.append(dict(at=0, path=k, t="load", how=rng.choice(["class", "generic"]), form="str", seed=rng.randrange(1 << 30), keep=False, faults=[]))
    for _ in range(rng.randrange(5, 18)):
        r = rng.random()
        op = dict(at=rng.randrange(nstr), path=rng.randrange(npath))
        if r < 0.25:
            op.update(t="edit", seed=rng.randrange(1 << 30))
        elif r < 0.35:
            op.update(t="view", seed=rng.randrange(1 << 30))
        elif r < 0.65:
            op.update(t="save", form=rng.choice(["str", "path", "rel"]), faults=[gen_fault(rng, True)] if faulty and rng.random() < 0.5 else [])
        elif r < 0.97:
            op.update(t="load", how=rng.choice(["class", "class", "generic", "generic", "peer"] if rng.random() < 0.5 else ["class", "generic"]), form=rng.choice(["str", "path", "rel"]), seed=rng.randrange(1 << 30),
                      keep=rng.random() < 0.4, faults=[gen_fault(rng, False)] if faulty and rng.random() < 0.25 else [])
        else:
            op.update(t="crash")
        ops.append(op)
    par = []
    if rng.random() < 0.3:
        for c in range(rng.choice([2, 3])):
            par.append(dict(spec=S.gen_new(rng), rounds=rng.choice([1, 2]), seed=rng.randrange(1 << 30), generic=rng.random() < 0.5))
    return dict(specs=specs, npath=npath, ops=ops, buf=rng.choice([1, 7, 64, 512, 8192]), junk=[rng.choice([None, None, "", "junk" * 30]) for _ in range(npath)], par=par,
                sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.05, 0.3])))


def bytes_of(p):
    with disk.off():
        try:
            return Path(p).read_bytes()
        except FileNotFoundError:
            return None


def execute(plan, ctx):
    import dhg
    root = ctx.scratch
    os.chdir(root)
    d = disk.mount(disk.Disk(root, ctx, bufsize=plan["buf"]))
    mem = [S.build(s) for s in plan["specs"]]
    rel = [["a.dhg"], ["sub", "b.dhg"], ["sub", "b.dhg.bak"]][:plan["npath"]]
    paths = [os.path.join(root, *p) for p in rel]
    cands = [[] for _ in paths]   # structures the path may hold
    sure = [None] * len(paths)    # the structure it must hold
    with disk.off():
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        for p, j in zip(paths, plan["junk"]):
            if j is not None:
                Path(p).write_text(j)
    stage = 0

    def form(k, f):
        return paths[k] if f == "str" else Path(paths[k]) if f == "path" else os.path.join(*rel[k])

    def restart():
        nonlocal mem
        d.main = disk.Proc("main")
        mem = [S.build(s) for s in plan["specs"]]
        ctx.count("fault:restart")

    def loader(kind, generic):
        return dhg.load_structure if generic else getattr(dhg, kind).load

    for op in plan["ops"]:
        k, g, m = op["path"], *mem[op["at"]]
        sp = dict(kind=m.kind, size=[m.nu, m.nv] if m.kind == "BiGraph" else [m.n])
        if op["t"] == "edit":
            e = S.gen_edit(random.Random(op["seed"]), sp)
            ctx.event("edit", op["at"], e)
            S.apply_edit(g, m, e)
            if stage == 1:
                stage = 2
        elif op["t"] == "view":
            ctx.event("view", op["at"])
            S.check_view(g, m, S.gen_view(random.Random(op["seed"]), sp))
        elif op["t"] == "crash":
            ctx.event("crash")
            ctx.count("fault:process_death")
            restart()
        elif op["t"] == "save":
            d.main.faults = [dict(f) for f in op["faults"]]
            d.main.counts, d.main.total, d.main.fired = {}, 0, []
            err = None
            ctx.event("save", op["at"], m.kind, "to", k)
            try:
                g.save(form(k, op["form"]))
            except disk.SimCrash:
                err = "crash"
            except OSError as e:
                err = f"OSError {e.errno}"
                if not d.main.fired:
                    raise
            hard = [f for f in d.main.fired if f[0] not in ("short",)]
            ctx.event("saved", err, len(bytes_of(paths[k]) or b""))
            d.main.faults = []
            cands[k].append(m.copy())
            if err is None and not d.main.dead:
                # what it reports as saved must be there, whatever went wrong below
                if hard:
                    ctx.count("save_survived_fault")
                cands[k], sure[k] = [m.copy()], m.copy()
                stage = max(stage, 1)
            else:
                ctx.count("save_failed")
                sure[k] = None
                if stage == 1:
                    stage = 2
            if d.main.dead:
                restart()
            else:
                why = matches(g, m)
                ctx.check(why is None, "save-changed-structure", why)
        else:
            before = bytes_of(paths[k])
            kind = cands[k][-1].kind if cands[k] else m.kind
            generic = op["how"] == "generic"
            if not generic and len({c.kind for c in cands[k]}) > 1:
                generic = True
            ctx.event("load", k, op["how"], kind, [c.state() for c in cands[k]] if len(str(cands[k])) < 10 ** 6 else "")
            if op["how"] == "peer" and len(cands[k]) and cands[k][0].state().__repr__().__len__() < 20000:
                r = peer.call(PEER, "peer_load", path=paths[k], kind=kind, generic=generic, cands=[to_json(c) for c in cands[k]], seed=0)
                ctx.event("peer", r[0])
                ctx.count("loads_in_other_process")
                ctx.check(r[0] != "wrong", "loaded-wrong", f"another process loaded {r[1]}, the path may hold {[c.state() for c in cands[k]]}")
                ctx.check(sure[k] is None or r[0] == "ok", "load-failed", f"another process: {r[1]}")
                if r[0] == "ok" and stage == 2:
                    ctx.nontrivial = True
                continue
            d.main.faults = [dict(f) for f in op["faults"]]
            d.main.counts, d.main.total, d.main.fired = {}, 0, []
            h = None
            try:
                h = loader(kind, generic)(form(k, op["form"]))
            except Violation:
                raise
            except Exception as e:
                ctx.event("load error", type(e).__name__)
                ctx.count("load_errors")
                hard = [f for f in d.main.fired if f[0] != "short"]
                if sure[k] is not None and not hard:
                    raise Violation(f"load-failed:{type(e).__name__}", f"path holds an acknowledged {sure[k].state()}: {e!r}")
            fired = list(d.main.fired)
            d.main.faults = []
            ctx.check(bytes_of(paths[k]) == before, "load-changed-file", paths[k])
            if h is None:
                continue
            ctx.check(cands[k], "loaded-from-nothing", f"no structure was ever saved to {rel[k]} (junk {plan['junk'][k]!r}): {describe(h)}")
            why = [matches(h, c) for c in cands[k]]
            ok = [c for c, w in zip(cands[k], why) if w is None]
            ctx.check(ok, "loaded-wrong", lambda: f"loaded {describe(h)} (faults {fired}), the path may hold {[c.state() for c in cands[k]]}: {why}")
            views = [S.gen_view(random.Random(op["seed"] + j), dict(kind=ok[0].kind, size=[ok[0].nu, ok[0].nv] if ok[0].kind == "BiGraph" else [ok[0].n])) for j in range(3)]
            if op["seed"] % 3 == 0 or len(ok[0].edges()) < 50:
                w = matches(h, ok[-1], views)
                ctx.check(w is None, "loaded-view-wrong", w)
            ctx.count("loads_ok")
            if stage == 2 or fired:
                ctx.nontrivial = True
            if op["keep"]:  # the process goes on with what it loaded
                mem[op["at"]] = (h, ok[-1].copy())
        ctx.sig([[c.state() for c in cs] for cs in cands], [m.state() for _, m in mem])
    d.main.faults = []
    if plan["par"]:
        sp = plan["sched"]
        sched = Sched(sp["seed"], sp["p"], plan.get("switches"))
        for c, w in enumerate(plan["par"]):
            def body(c=c, w=w):
                rng = random.Random(w["seed"])
                g, m = S.build(w["spec"])
                p = os.path.join(root, "sub", f"par{c}.dhg")
                spc = dict(kind=m.kind, size=w["spec"]["size"])
                for _ in range(w["rounds"]):
                    S.apply_edit(g, m, S.gen_edit(rng, spc))
                    g.save(p)
                    h = loader(m.kind, w["generic"])(p)
                    why = matches(h, m)
                    if why is not None:
                        raise Violation("parallel-save-wrong", why)
            sched.spawn(body)
        try:
            sched.run()
        finally:
            ctx.sched_trace = sched.trace
        ctx.event("parallel", sched.trace)
        ctx.count("fault:preemption", len(sched.trace))
        for t in sched.tasks:
            if t.exc is not None:
                raise t.exc
    for k, m in enumerate(sure):
        if m is not None:
            h = dhg.load_structure(paths[k])
            w = matches(h, m)
            ctx.check(w is None, "final-load-wrong", w)
    with disk.off():
        left = sorted(str(p.relative_to(root)) for p in Path(root).rglob("*") if p.is_file())
    ctx.event("end", left)
