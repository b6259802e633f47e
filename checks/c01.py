"""C01: every view of a structure agrees with the edits made so far."""
import random

from dst import alloc
from dst import structs as S

S.allow_zero()
S.sizes(0.04)
ID = "C01"
RUNS = {"quick": 4800, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded histories of client edits and reads with rejected edits and failing allocations, against a reference model"
NOTE = "Seeded search: every view is compared with an independently written model of the documented content after arbitrary histories; a clean batch is evidence, not proof. CPU only, small structures, float tolerance."
RULE = ("A run is a seeded history of 6-40 steps of up to three clients on one structure: edits (valid, or invalid and hence rejected), view reads, reads with the n-th tensor "
        "allocation failing, and audits of all views; non-trivial: at least one view was read, then an edit succeeded, then a view was read again; distinct by event log.")
MEASURE = "distinct (abstract content, set of views read since the last edit) pairs"
REAL = ["dhg.Graph, dhg.DiGraph, dhg.BiGraph, dhg.Hypergraph", "torch, numpy"]
STUB = ["tensor allocation (fails on demand)", "client scheduling (seeded interleaving of client programs)"]
ASSUMPTIONS = ["CPU device only", "positive edge weights", "float32 tolerance 2e-4", "views that combine all groups are not read while a hypergraph has no group"]
SHRINK = ["ops"]


def prepare():
    alloc.install()


def generate(rng, tier, i):
    spec = S.gen_new(rng)
    nclients = rng.choice([1, 1, 2, 3])
    faulty = rng.random() < 0.5
    bad = rng.choice([0.0, 0.0, 0.15, 0.3])
    hot = [S.gen_view(rng, spec) for _ in range(rng.choice([1, 2, 4]))]  # views that are read again and again
    ops = []
    for _ in range(rng.randrange(6, 28 if tier == "quick" else 40)):
        c = rng.randrange(nclients)
        r = rng.random()
        if r < 0.38:
            ops.append(dict(c=c, t="edit", op=S.gen_edit(rng, spec, bad)))
        elif r < 0.94:
            v = rng.choice(hot) if rng.random() < 0.5 else S.gen_view(rng, spec)
            op = dict(c=c, t="view", v=v)
            if faulty and rng.random() < 0.35:
                op["oom"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 9, 13])
            ops.append(op)
        else:
            ops.append(dict(c=c, t="audit", seed=rng.randrange(1 << 30)))
    ops.append(dict(c=0, t="audit", seed=rng.randrange(1 << 30)))
    return dict(spec=spec, ops=ops)


def execute(plan, ctx):
    spec = plan["spec"]
    g, m = S.build(spec)
    ctx.event("new", spec)
    read_since, phase = set(), 0
    held = []
    for op in plan["ops"]:
        if op["t"] == "edit":
            before = m.state()
            ctx.event("client", op["c"], "edit", op["op"], "on", before)
            try:
                S.apply_edit(g, m, op["op"])
            except Exception as e:
                ctx.fail(f"valid-edit-raised:{m.kind}.{op['op']['t']}", f"{op['op']} on {before}: {e!r}")
            if op["op"]["t"] == "bad":
                ctx.count("fault:rejected_edit")
            else:
                ctx.count("edits")
                if phase == 1:
                    phase = 2
            ctx.sig(m.state(), sorted(read_since))
            read_since = set()
        elif op["t"] == "view":
            ctx.event("client", op["c"], "view", op["v"], op.get("oom"))
            if op.get("oom"):
                cm = alloc.oom_at(op["oom"])
                try:
                    with cm:
                        r = S.check_view(g, m, op["v"])
                except MemoryError:
                    r = None
                except Exception as e:
                    ctx.check(cm.fired, f"view-raised:{m.kind}.{S.vname(op['v'])}", repr(e))
                    r = None
                if cm.fired:
                    ctx.count("fault:allocation_failure")
                    ctx.event("oom fired")
            else:
                r = read(ctx, g, m, op["v"])
            ctx.count("views")
            read_since.add(S.vname(op["v"]))
            phase = 1 if phase == 0 else 3 if phase == 2 else phase
        else:
            ctx.event("audit")
            for v in S.all_views(random.Random(op["seed"]), spec):
                read(ctx, g, m, v)
            ctx.count("audits")
            phase = 1 if phase == 0 else 3 if phase == 2 else phase
    ctx.nontrivial = phase == 3
    ctx.event("end", m.state())


def read(ctx, g, m, v):
    from dst.core import Violation
    try:
        return S.check_view(g, m, v)
    except Violation:
        raise
    except Exception as e:
        import traceback
        ctx.fail(f"view-raised:{m.kind}.{S.vname(v)}", f"{v} of {m.state()}: " + traceback.format_exc()[-700:])


def simplify(plan):
    for k, o in enumerate(plan["ops"]):
        if o["t"] == "audit":
            continue
        if o.get("oom"):
            p = dict(plan, ops=[dict(x) for x in plan["ops"]])
            p["ops"][k].pop("oom")
            yield p
        if o["t"] == "edit" and len(o["op"].get("edges") or []) > 1:
            for j in range(len(o["op"]["edges"])):
                p = dict(plan, ops=[dict(x) for x in plan["ops"]])
                ed = dict(o["op"])
                ed["edges"] = ed["edges"][:j] + ed["edges"][j + 1:]
                if ed.get("weights"):
                    ed["weights"] = ed["weights"][:j] + ed["weights"][j + 1:]
                p["ops"][k]["op"] = ed
                yield p
    sp = plan["spec"]
    for j in range(len(sp["edges"] or [])):
        s2 = dict(sp, edges=sp["edges"][:j] + sp["edges"][j + 1:], weights=(sp["weights"][:j] + sp["weights"][j + 1:]) if sp["weights"] else None)
        if s2["edges"]:
            yield dict(plan, spec=s2)
        else:
            yield dict(plan, spec=dict(s2, edges=None, weights=None))
