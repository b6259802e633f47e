"""C06: once faults stop, a dataset item becomes available again."""
import os
import random
from pathlib import Path

import requests

from dst import dataworld as W
from dst import disk
from dst.core import Violation
from dst.sched import Sched

ID = "C06"
RUNS = {"quick": 3000, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded fault phases (network errors, broken bodies, disk faults, crashes, damaged leftovers) followed by a fault-free phase; oracle: bounded liveness, request accounting per access against the simulated hosts"
NOTE = ("Seeded search: in the fault phase each access is judged by the requests the hosts saw (retry and fallback rules); afterwards every item must become available with at most one failed "
        "access per damaged file it meets. A clean batch is evidence, not proof.")
RULE = ("A run publishes 1-2 datasets, prepares leftovers in both cache locations, performs 2-8 accesses by one or more processes (sometimes two at once) under net and disk faults, then stops all faults and demands "
        "every item from a fresh and from a surviving process; non-trivial: at least one access failed or met a fault or damage, and was recovered from; distinct by event log.")
MEASURE = "distinct (file states, request history) states"
REAL = ["dhg.data.BaseData", "dhg.utils.download", "dhg.datapipe loaders", "requests and urllib3 response handling", "real files in a scratch directory"]
STUB = ["requests' transport adapter (simulated hosts)", "disk seam", "processes", "scheduler", "time.sleep"]
ASSUMPTIONS = ["the hosts serve the published content once faults stop", "an attempt is one request to the main host, with the backup host asked when it fails", "files with their own URL (bk_url) have no backup host"]
SHRINK = ["acc", "net", "initial", "switches"]


def prepare():
    W.prepare()


def generate(rng, tier, i):
    sets = W.gen_world(rng)
    if rng.random() < 0.02:  # a long-lived process that needs a retry at nearly every access
        files = [dict(name="f0.txt", kind="txt", seed=rng.randrange(1 << 30), bk=rng.random() < 0.2)]
        m = rng.choice([30, 80, 150])
        nets = [dict(host=h, n=2 * j + 1, k=rng.choice(["http429", "http500", "http503"]), len=0, frac=0) for j in range(m) for h in ("main", "mirror")] + [dict(host="backup", n=1, k="http503", len=10 ** 6, frac=0)]
        return dict(sets=[dict(name="set0", custom=rng.random() < 0.2, files=files, items=[[0]])], initial=[], net=nets, piece=64, buf=512, names=rng.randrange(1 << 30), sched=dict(seed=0, p=0.1),
                    acc=[dict(k=0, it=0, how=rng.choice(["direct", "direct", "get", "raw"]), proc=0, restart=rng.random() < 0.5, both=False, faults=[], rot=[0, "absent", False]) for _ in range(m)])
    acc = []
    for _ in range(rng.randrange(2, 9)):
        acc.append(dict(k=rng.randrange(8), it=rng.randrange(8), how=rng.choice(["get", "raw", "direct"]), proc=rng.randrange(3), restart=rng.random() < 0.2, both=rng.random() < 0.12,
                        faults=[W.gen_disk_fault(rng)] if rng.random() < 0.25 else [], rot=[rng.randrange(8), rng.choice(W.DAMAGE + ["absent"]), rng.random() < 0.3] if rng.random() < 0.2 else None))
    style = rng.random()
    if style < 0.35:  # a run of error statuses, where the retries are decisive
        n = rng.choice([1, 1, 2, 2, 3])
        nets = [dict(host=h, n=rng.choice([1, 1, 1, 2]), k=rng.choice(["http404", "http403", "http429", "http500", "http503"]), len=n - 1 + rng.choice([0, 0, 0, 1, -1]), frac=0) for h in ("main", "backup", "mirror")]
        if rng.random() < 0.3:
            nets = nets[:1]
    elif style < 0.5:  # the main host is down for good
        nets = [dict(host="main", n=1, k=rng.choice(["refused", "timeout", "http503", "reset", "stall", "truncate"]), len=10 ** 6, frac=rng.randrange(4))]
    else:
        nets = [W.gen_net_fault(rng) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    return dict(sets=sets, initial=[x for x in W.gen_initial(rng, sets) if x[2] != "absent" or x[3] != "absent"] if rng.random() < 0.7 else [], acc=acc, net=nets, piece=rng.choice([5, 64, 1024]), buf=rng.choice([1, 512, 8192]),
                names=rng.randrange(1 << 30), sched=dict(seed=rng.randrange(1 << 40), p=0.1))


def execute(plan, ctx):
    from dhg.utils import download_and_check
    w = W.World(ctx, plan["sets"], plan["names"], plan["buf"], plan["net"], plan["piece"])
    W.set_initial(w, plan["initial"])
    ctx.event("initial", plan["initial"])
    pk = 0
    procs = {}
    trace = []
    rough = False

    def newproc():
        nonlocal pk
        pk += 1
        return dict(p=W.proc(f"p{pk}", pk), ds={})

    def access(P, k, it, how):
        """One access by process P: ('ok'|'fetched'|'dead'|exception, files)"""
        ds = P["ds"].get(k)
        if ds is None:
            ds = P["ds"][k] = w.dataset(k, None)
        try:
            if how == "direct":
                cfg = ds._content[f"item{it}"]["upon"][0]
                download_and_check(cfg.get("bk_url") or ds.remote_root + cfg["filename"], ds.data_root / cfg["filename"], cfg["md5"])
                return "fetched", None
            v = ds[f"item{it}"] if how == "get" else ds.raw(f"item{it}")
            if v != w.expected(k, it):
                raise Violation("item-wrong", f"{v!r:.300}")
            return "ok", None
        except disk.SimCrash:
            return "dead", None
        except Exception as e:
            return type(e).__name__, e

    def files_of(k, it, how):
        """(path, name, host) of the files of the access, in order"""
        s = w.spec[k]
        out = [(str(s["root"] / s["name"] / s["files"][i]["name"]), s["name"] + "/" + s["files"][i]["name"]) for i in s["items"][it]]
        return out[:1] if how == "direct" else out

    def judge(k, it, how, before, legacy, hist, out, exc, fired, cached):
        """The retry, fallback and local-copy rules, for one access of one process that ran alone."""
        fs = files_of(k, it, how)
        local = all(before[p] == "valid" or (before[p] == "absent" and legacy.get(p) == "valid") for p, _ in fs)
        if cached:
            ctx.check(out == "ok" and not hist, "loaded-item-fetched-again", f"{out} {hist}")
            return
        if local:
            ctx.check(not hist, "request-despite-valid-local-copy", f"{fs} {before} {legacy} -> {hist}")
            if not fired:
                ctx.check(out in ("ok", "fetched"), "valid-local-copy-not-used", f"{out} {exc!r} {before} legacy {legacy}")
                ctx.count("served_locally")
        for p, name in dict.fromkeys(fs):
            reqs = [(h, f) for _, h, q, f in hist if q == name]
            for h in ("main", "backup", "mirror"):
                n = sum(1 for x in reqs if x[0] == h)
                times = sum(1 for q, _ in fs if q == p)
                ctx.check(n <= 3 * times, "more-than-three-attempts", f"{name}: {reqs}")
        if fired or out == "dead" or not hist:
            return
        name = hist[-1][2]
        reqs = [(h, f) for _, h, q, f in hist if q == name]
        if out not in ("ok", "fetched"):
            # judged by what the hosts answered, not by the type of the error
            last = hist[-1][3] or ""
            status, conn = last.startswith("http"), last in ("refused", "timeout", "reset", "stall")
            if w.filehost.get(name) == "main":
                if status or conn or isinstance(exc, requests.RequestException):
                    ctx.check(reqs[-1][0] == "backup", "no-fallback-to-backup", f"{name}: gave up with {exc!r} after {reqs}")
                if status:
                    for h in ("main", "backup"):
                        ctx.check(sum(1 for x in reqs if x[0] == h) == 3, "gave-up-before-three-attempts", f"{name}: {exc!r} after {reqs}")
                    ctx.count("gave_up_after_three")
            elif status:
                ctx.check(len(reqs) == 3, "gave-up-before-three-attempts", f"{name}: {exc!r} after {reqs}")
                ctx.count("gave_up_after_three")
        if out in ("ok", "fetched"):
            if any(h == "backup" for h, _ in reqs):
                ctx.count("rescued_by_backup")
            if len(reqs) > 2:
                ctx.count("rescued_by_retry")
            if reqs[0][0] == "main" and len(reqs) == 1:
                ctx.count("first_request_ok")

    def states(k, it, how):
        fs = files_of(k, it, how)
        return {p: w.state(p) for p, _ in fs}, {p: w.state(w.legacy[p]) for p, _ in fs if p in w.legacy}

    for n, a in enumerate(plan["acc"]):
        k = a["k"] % len(w.spec)
        it = a["it"] % len(w.spec[k]["items"])
        if a["rot"]:
            f, how, leg = a["rot"]
            s = w.spec[k]
            path = str(s["root"] / s["name"] / s["files"][f % len(s["files"])]["name"])
            if leg and path in w.legacy:
                w.put(w.legacy[path], how, path)
            elif not leg:
                w.put(path, how)
            ctx.event("rot", a["rot"])
            ctx.count("fault:rot_" + how)
            rough = True
        key = a["proc"]
        if a["restart"] or key not in procs:
            procs[key] = newproc()
        P = procs[key]
        if a["both"]:
            Q = newproc()
            sw = [x[1:] for x in plan["switches"] if x[0] == n] if plan.get("switches") is not None else None
            sched = Sched(plan["sched"]["seed"] + n, plan["sched"]["p"], sw)
            P["p"].faults, Q["p"].faults = [], [dict(f) for f in a["faults"]]
            for X in (P, Q):
                def body(X=X):
                    r = access(X, k, it, a["how"])
                    ctx.event("access", X["p"].name, k, it, a["how"], r[0])
                t = sched.spawn(body, X["p"].name)
                t.data["proc"] = X["p"]
            try:
                sched.run()
            finally:
                trace += [[n] + x for x in sched.trace]
                ctx.sched_trace = trace
            ctx.count("fault:preemption", len(sched.trace))
            for t in sched.tasks:
                if t.exc is not None:
                    raise t.exc
            for X in (P, Q):
                if X["p"].dead:
                    ctx.count("fault:process_death")
            if P["p"].dead:
                del procs[key]
            rough = True
        else:
            p = P["p"]
            p.faults, p.counts, p.total, p.fired = [dict(f) for f in a["faults"]], {}, 0, []
            before, legacy = states(k, it, a["how"])
            cached = a["how"] != "direct" and (k, it) in P.setdefault("loaded", set())
            h0 = len(w.net.history)
            w.disk.main = p
            out, exc = access(P, k, it, a["how"])
            w.disk.main = disk.Proc("main")
            hist = w.net.history[h0:]
            ctx.event("access", p.name, k, it, a["how"], out, sorted(before.values()), sorted(legacy.values()), hist)
            ctx.count("access_" + out)
            if out not in ("ok", "fetched") or hist and any(x[3] for x in hist):
                rough = True
            judge(k, it, a["how"], before, legacy, hist, out, exc, p.fired or p.dead, cached)
            if out == "ok":
                P["loaded"].add((k, it))
            p.faults = []
            if p.dead:
                ctx.count("fault:process_death")
                del procs[key]
        ctx.check(w.wrong is None, "loader-read-unpublished-bytes", w.wrong)
        ctx.sig([w.state(p) for p in w.pub], [w.state(p) for p in w.legacy.values()], w.net.counts)

    # faults stop: everything must be available, from surviving processes and from a fresh one
    w.net.enabled = False
    ctx.event("faults stop", [w.state(p) for p in w.pub])
    todo = [(k, it) for k, s in enumerate(w.spec) for it in range(len(s["items"]))]
    for P in list(procs.values()) + [newproc(), newproc()]:
        last = pk
        for k, it in todo:
            before, legacy = states(k, it, "get")
            allowed = sum(1 for x in list(before.values()) + list(legacy.values()) if x == "damaged")
            tries = []
            w.disk.main = P["p"]
            for _ in range(allowed + 1):
                out, exc = access(P, k, it, "get")
                tries.append(out)
                if out == "ok":
                    break
            w.disk.main = disk.Proc("main")
            ctx.event("recovery", P["p"].name, k, it, tries)
            if tries[-1] != "ok":
                raise Violation("not-available-again", f"item{it} of set{k} ({'custom root' if w.spec[k]['custom'] else 'default root'}): {tries} after faults stopped; files {before}, legacy {legacy}; {exc!r}")
            ctx.count("recovered_after_%d" % (len(tries) - 1))
            if len(tries) > 1:
                rough = True
    h0 = len(w.net.history)
    P = newproc()
    w.disk.main = P["p"]
    for k, it in todo:
        out, exc = access(P, k, it, "get")
        ctx.check(out == "ok" and len(w.net.history) == h0, "request-despite-valid-local-copy", f"after everything was fetched: {out} {exc!r} {w.net.history[h0:]}")
    ctx.event("end")
    ctx.nontrivial = rough
