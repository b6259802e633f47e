"""C05: no dataset content is ever used unless its checksum matches."""
import os
import random
from pathlib import Path

from dst import dataworld as W
from dst import disk
from dst.core import Violation
from dst.sched import Sched

ID = "C05"
RUNS = {"quick": 2600, "thorough": 60000}
LEVEL = "exploration"
TECH = "several simulated processes fetching one dataset over a simulated network and disk under a seeded scheduler (yield points at every I/O step and library line), with network, disk and crash faults and damaged leftovers; oracle: every byte an item loader reads"
NOTE = ("Seeded search: the loader of every item is instrumented below the file object, so each piece it reads is compared with the published bytes at that offset, also when another process "
        "replaces or truncates the file meanwhile. A clean batch is evidence, not proof.")
RULE = ("A run publishes 1-2 datasets, prepares leftovers (valid or damaged, in the current and the old cache) and runs 1-3 rounds of 1-4 processes that access items under net, disk and crash faults, "
        "with files damaged at rest between rounds; non-trivial: at least one fault, damage or preemption and at least one item load; distinct by event log.")
MEASURE = "distinct (state of every file, outcome of every access) histories"
REAL = ["dhg.data.BaseData", "dhg.utils.download (download_file, check_file, download_and_check)", "dhg.datapipe loaders", "requests sessions, responses and urllib3 body decoding", "real files in a scratch directory"]
STUB = ["requests' transport adapter (simulated hosts)", "disk seam", "processes (tasks with their own datasets, pid and crash)", "scheduler", "time.sleep"]
ASSUMPTIONS = ["verified bytes do not rot between the check and the read of one access (rot happens between rounds)", "processes of one user on one file system with atomic rename", "MD5 collisions do not occur"]
SHRINK = ["rounds", "net", "initial", "switches"]


def prepare():
    W.prepare()


def generate(rng, tier, i):
    sets = W.gen_world(rng)
    rounds = []
    same = rng.random() < 0.6  # contention: everybody wants the same item
    hot = [rng.randrange(8), rng.randrange(8)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        procs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            acc = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k, it = hot if same and rng.random() < 0.8 else [rng.randrange(8), rng.randrange(8)]
                acc.append([k, it, rng.choice(["get", "get", "raw", "direct"]), rng.random() < 0.3])
            procs.append(dict(acc=acc, faults=[W.gen_disk_fault(rng)] if rng.random() < 0.35 else []))
        rounds.append(dict(procs=procs, rot=[[rng.randrange(8), rng.randrange(8), rng.choice(W.DAMAGE + ["absent", "absent"]), rng.random() < 0.2] for _ in range(rng.choice([0, 0, 1, 2]))]))
    return dict(sets=sets, initial=[x for x in W.gen_initial(rng, sets) if x[2] != "absent" or x[3] != "absent"], rounds=rounds, net=[W.gen_net_fault(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))], piece=rng.choice([5, 64, 1024]),
                buf=rng.choice([1, 16, 512, 8192]), names=rng.randrange(1 << 30), sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.02, 0.1, 0.3])))


def simplify(plan):
    for r, rd in enumerate(plan["rounds"]):
        for k in range(len(rd["procs"])):
            if len(rd["procs"]) > 1:
                yield dict(plan, rounds=[dict(x, procs=x["procs"][:k] + x["procs"][k + 1:]) if j == r else x for j, x in enumerate(plan["rounds"])])
            p = rd["procs"][k]
            if p["faults"]:
                yield dict(plan, rounds=[dict(x, procs=[dict(q, faults=[]) if n == k else q for n, q in enumerate(x["procs"])]) if j == r else x for j, x in enumerate(plan["rounds"])])
            if len(p["acc"]) > 1:
                for a in range(len(p["acc"])):
                    yield dict(plan, rounds=[dict(x, procs=[dict(q, acc=q["acc"][:a] + q["acc"][a + 1:]) if n == k else q for n, q in enumerate(x["procs"])]) if j == r else x for j, x in enumerate(plan["rounds"])])


def execute(plan, ctx):
    from dhg.utils import check_file, download_and_check
    w = W.World(ctx, plan["sets"], plan["names"], plan["buf"], plan["net"], plan["piece"])
    W.set_initial(w, plan["initial"])
    ctx.event("initial", plan["initial"])
    sp = plan["sched"]
    trace = []
    pk = 0
    outcomes = []
    loads = switches = 0
    base = 0
    for rn, rd in enumerate(plan["rounds"]):
        sw = None
        if plan.get("switches") is not None:
            sw = [x[1:] for x in plan["switches"] if x[0] == rn]
        sched = Sched(sp["seed"] + rn, sp["p"], sw)
        alone = len(rd["procs"]) == 1
        for c, pr in enumerate(rd["procs"]):
            pk += 1
            p = W.proc(f"p{pk}", pk, pr["faults"])

            def body(p=p, pr=pr, alone=alone):
                mine = {}
                for k, it, how, fresh in pr["acc"]:
                    k %= len(w.spec)
                    it %= len(w.spec[k]["items"])
                    ds = mine.get(k)
                    if ds is None or fresh:
                        ds = mine[k] = w.dataset(k, None)
                    try:
                        if how == "direct":
                            cfg = ds._content[f"item{it}"]["upon"][0]
                            path = ds.data_root / cfg["filename"]
                            ok = download_and_check(cfg.get("bk_url") or ds.remote_root + cfg["filename"], path, cfg["md5"])
                            out = "fetched"
                            if alone:
                                if not ok:
                                    raise Violation("fetch-not-true", f"{ok!r}")
                                if w.state(str(path)) != "valid":
                                    raise Violation("fetched-invalid-content", f"download_and_check returned with {w.state(str(path))} content")
                                if not p.fired and check_file(path, cfg["md5"]) is not True:
                                    raise Violation("check-file-wrong", "check_file denies valid content")
                        else:
                            v = ds[f"item{it}"] if how == "get" else ds.raw(f"item{it}")
                            if v != w.expected(k, it):
                                raise Violation("item-built-from-wrong-content", f"{p.name} item{it}: {v!r:.300}")
                            out = "ok"
                    except Exception as e:
                        out = type(e).__name__
                    if p.dead:
                        out = "dead"
                    ctx.event("access", p.name, k, it, how, out)
                    ctx.count("access_" + out)
                    outcomes.append(out)
                    if p.dead:
                        raise disk.SimCrash(p.name)
            t = sched.spawn(body, p.name)
            t.data["proc"] = p
        try:
            sched.run()
        finally:
            trace += [[rn] + x for x in sched.trace]
            ctx.sched_trace = trace
        ctx.event("round", rn, sched.trace)
        ctx.count("fault:preemption", len(sched.trace))
        switches += len(sched.trace)
        for t in sched.tasks:
            if t.exc is not None and not isinstance(t.exc, disk.SimCrash):
                raise t.exc
            if isinstance(t.exc, disk.SimCrash):
                ctx.count("fault:process_death")
        ctx.check(w.wrong is None, "loader-read-unpublished-bytes", w.wrong)
        if alone:  # what a lone round leaves at the place of a file, the library must judge rightly
            for path in w.pub:
                st = w.state(path)
                if st != "absent":
                    with disk.off():
                        ok = check_file(Path(path), W.md5(w.pub[path]))
                    ctx.check(ok == (st == "valid"), "check-file-wrong", f"{st}: {ok}")
        for k, f, how, leg in rd["rot"]:
            s = w.spec[k % len(w.spec)]
            path = str(s["root"] / s["name"] / s["files"][f % len(s["files"])]["name"])
            if leg and path in w.legacy:
                w.put(w.legacy[path], how, path)
            elif not leg:
                w.put(path, how)
            ctx.event("rot", k, f, how, leg)
            ctx.count("fault:rot_" + how)
        ctx.sig([w.state(p) for p in w.pub], outcomes)
    loads = len(w.loads)
    ctx.event("end", [w.state(p) for p in w.pub], w.net.counts, loads)
    ctx.count("loads", loads)
    ctx.nontrivial = loads > 0 and (switches > 0 or bool(plan["initial"]) or any(k.startswith("fault:") for k in ctx.stats))
