"""Batch runner: seeded plans, forked runs, violation classification, minimisation, replay, evidence."""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
DHG = os.path.join(REPO, "dhg") + os.sep
RUN_WALL = float(os.environ.get("DST_RUN_WALL", "60"))  # wall limit of one run; a run takes well under a second
LINE_BUDGET = 30_000_000  # traced dhg lines after which a hanging run counts as making no progress


class Violation(BaseException):
    """The property is broken. BaseException so that no `except Exception` in the code under test swallows it."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)


class Budget(BaseException):
    """A step budget ran out (no progress)."""


class Skip(Exception):
    """The generated plan turned out trivial."""


def derive(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Ctx:
    """What a scenario gets while it executes one plan: scratch directory, event log, counters."""

    def __init__(self, scratch, tier):
        self.scratch, self.tier = scratch, tier
        self.log, self.stats, self.sigs = [], Counter(), set()
        self.sim_time = 0.0
        self.nontrivial = False
        self.sched_trace = None  # switches actually taken by the thread scheduler, for replay
        self.last = ""

    def event(self, *a):
        self.last = " ".join(str(x) for x in a)
        self.log.append(self.last)

    def count(self, key, n=1):
        self.stats[key] += n

    def sig(self, *parts):
        self.sigs.add(digest(parts))

    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


def through_dhg(tb):
    """Whether an exception came out of the code under test (any frame below the harness lies in dhg)."""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(DHG) or os.path.realpath(fn).startswith(DHG):
            return True
        tb = tb.tb_next
    return False


def execute_here(mod, plan, scratch, tier):
    """Run one plan in this process; returns a JSON-able result."""
    ctx = Ctx(scratch, tier)
    res = {"violation": None, "error": None}
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        res["violation"] = {"kind": v.kind, "detail": v.detail[:2000]}
    except Skip:
        ctx.nontrivial = False
    except Budget as b:
        res["violation"] = {"kind": "no-progress", "detail": str(b)}
    except BaseException as e:  # noqa: an unexpected exception
        text = "".join(traceback.format_exception(e))
        if through_dhg(e.__traceback__):
            res["violation"] = {"kind": f"unexpected-exception:{type(e).__name__}", "detail": (f"during [{ctx.last}] " + text)[-1800:]}
        else:
            res["error"] = text[-3000:]
    log = "\n".join(ctx.log)
    res.update(loghash=hashlib.sha256(log.encode()).hexdigest()[:16], nlog=len(ctx.log), stats=dict(ctx.stats), sigs=sorted(ctx.sigs),
               sim_time=ctx.sim_time, nontrivial=ctx.nontrivial, sched_trace=ctx.sched_trace, tail=ctx.log[-12:])
    if os.environ.get("DST_KEEP_LOG"):
        res["log"] = ctx.log
    return res


def _trace_budget():
    left = [LINE_BUDGET]

    def tr(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(DHG):
            return None

        def local(frame, ev, arg):
            if ev == "line":
                left[0] -= 1
                if left[0] <= 0:
                    raise Budget(f"more than {LINE_BUDGET} lines of the library executed, last at {frame.f_code.co_filename}:{frame.f_lineno}")
            return local
        return local
    sys.settrace(tr)


def run_forked(mod, plan, tier, wall=None, count_lines=False, want_plan=None):
    """Run one plan in a forked child with its own scratch directory. `plan` may be a callable that generates it."""
    wall = wall or RUN_WALL
    scratch = tempfile.mkdtemp(prefix="run.", dir=scratch_root())
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get("DST_SHOW"):
                os.dup2(dn, 1)
                if not os.environ.get("DST_DEBUG"):
                    os.dup2(dn, 2)
            os.environ["HOME"] = scratch
            if callable(plan):
                plan = plan()
            if count_lines:
                _trace_budget()
            res = execute_here(mod, plan, scratch, tier)
            sys.settrace(None)
            if want_plan or res["violation"] or res["error"]:
                res["plan"] = plan
            data = json.dumps(res, default=str).encode()
            os.write(w, struct.pack("!Q", len(data)))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    buf, deadline, hung = b"", time.monotonic() + wall, False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        if not select.select([r], [], [], left)[0]:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    try:  # a scenario may leave child processes in its group
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if len(buf) >= 8 and len(buf) == 8 + struct.unpack("!Q", buf[:8])[0]:
        return json.loads(buf[8:])
    base = dict(violation=None, error=None, loghash="", nlog=0, stats={}, sigs=[], sim_time=0.0, nontrivial=False, sched_trace=None, tail=[])
    if hung:
        base["hang"] = True
    else:
        base["died"] = status
    return base


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = os.environ.get("DST_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir())
        _scratch = tempfile.mkdtemp(prefix=f"dst-{os.getpid()}-", dir=base)
    return _scratch


def cleanup():
    if _scratch and os.path.basename(_scratch).startswith("dst-"):
        shutil.rmtree(_scratch, ignore_errors=True)


def make_plan(mod, seed, i, tier):
    rng = random.Random(derive(mod.ID, seed, i))
    return mod.generate(rng, tier, i)


def run_plan(mod, plan, tier, want_plan=False):
    """One run, with hangs and deaths resolved into violations or harness errors."""
    res = run_forked(mod, plan, tier, want_plan=want_plan)
    if res.get("hang"):
        res2 = run_forked(mod, plan, tier, wall=RUN_WALL * 6, count_lines=True, want_plan=True)
        if res2.get("hang"):
            res2["error"] = "run exceeded its wall limit without exceeding its step budget"
        elif not res2["violation"] and not res2["error"]:
            res2["slow"] = True
        res = res2
    if "died" in res:
        res2 = run_forked(mod, plan, tier, want_plan=True)
        if "died" in res2:
            sig = os.WTERMSIG(res2["died"]) if os.WIFSIGNALED(res2["died"]) else None
            if sig in (signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS):
                res2["violation"] = {"kind": f"process-died:{sig}", "detail": "the process running the library died"}
            else:
                res2["error"] = f"run process ended abnormally: {res2['died']}"
        res = res2
    if (res["violation"] or res["error"]) and "plan" not in res:
        res["plan"] = plan() if callable(plan) else plan
    return res


def worker(mod, seed, tier, idxs, minfail, out_fd):
    f = os.fdopen(out_fd, "wb")
    for i in idxs:
        if minfail[0] != -1 and i > minfail[0]:
            continue
        res = run_plan(mod, lambda: make_plan(mod, seed, i, tier), tier, want_plan=(i < 3))
        res["i"] = i
        if res["violation"] and not res.get("known") and (minfail[0] == -1 or i < minfail[0]):
            minfail[0] = i
        data = json.dumps(res, default=str).encode()
        f.write(struct.pack("!Q", len(data)) + data)
        f.flush()
    f.close()
    os._exit(0)


def batch(mod, seed, tier, idxs, nworkers=None):
    """Run all indices over forked workers; returns results sorted by index."""
    import mmap
    nworkers = nworkers or int(os.environ.get("DST_WORKERS", "0")) or os.cpu_count() or 1
    nworkers = max(1, min(nworkers, len(idxs)))
    mm = mmap.mmap(-1, 8)
    minfail = memoryview(mm).cast("q")
    minfail[0] = -1
    fds, pids = [], []
    for k in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for o in fds:
                    os.close(o)
                worker(mod, seed, tier, idxs[k::nworkers], minfail, w)
            finally:
                os._exit(1)
        os.close(w)
        fds.append(r)
        pids.append(pid)
    bufs = {fd: b"" for fd in fds}
    results, open_fds = [], set(fds)
    while open_fds:
        for fd in select.select(list(open_fds), [], [])[0]:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_fds.discard(fd)
                os.close(fd)
                continue
            b = bufs[fd] + chunk
            while len(b) >= 8:
                n = struct.unpack("!Q", b[:8])[0]
                if len(b) < 8 + n:
                    break
                results.append(json.loads(b[8:8 + n]))
                b = b[8 + n:]
            bufs[fd] = b
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    results.sort(key=lambda r: r["i"])
    return results, bad


# ---------------------------------------------------------------- minimisation
def _with(plan, key, val):
    p = dict(plan)
    p[key] = val
    return p


def minimise(mod, plan, kind, tier, budget_s=60.0):
    """Shrink the plan while the same kind of violation persists: ddmin over its lists, then the check's own simplifiers."""
    t0, tried = time.monotonic(), 0

    def fails(p):
        nonlocal tried
        tried += 1
        res = run_forked(mod, p, tier, wall=min(RUN_WALL, 30))
        return bool(res["violation"]) and res["violation"]["kind"] == kind

    def over():
        return time.monotonic() - t0 > budget_s

    changed = True
    while changed and not over():
        changed = False
        for key in getattr(mod, "SHRINK", ["ops", "faults"]):
            lst = plan.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            n = 1
            size = len(lst)
            while size >= 1 and not over():
                i, any_cut = 0, False
                while i < len(lst) and not over():
                    cand = lst[:i] + lst[i + size:]
                    if fails(_with(plan, key, cand)):
                        lst = cand
                        plan = _with(plan, key, lst)
                        changed = any_cut = True
                    else:
                        i += size
                if size == 1 and not any_cut:
                    break
                size = max(1, size // 2) if size > 1 else (1 if any_cut else 0)
        if hasattr(mod, "simplify"):
            progress = True
            while progress and not over():
                progress = False
                for cand in mod.simplify(plan):
                    if over():
                        break
                    if cand != plan and fails(cand):
                        plan, progress, changed = cand, True, True
                        break
    return plan, tried


def explicit_schedule(plan, trace):
    """Replace a seeded schedule by the list of switches it took, so that it can be shrunk and replayed."""
    if trace is None:
        return plan
    p = dict(plan)
    p["switches"] = trace
    return p


# ---------------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


# ---------------------------------------------------------------- main entry points
def _fresh(args, hashseed="0", extra=None, timeout=300):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, DST_SCRATCH=scratch_root())
    env.update(extra or {})
    return subprocess.Popen([sys.executable, os.path.join(VERIF, "dst_main.py")] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF)


def cmd_hashes(mod, seed, tier, idxs):
    """Print the event-log hash of each run (for the determinism self-test)."""
    out = {}
    for i in idxs:
        res = run_plan(mod, lambda: make_plan(mod, seed, i, tier), tier)
        out[i] = [res["loghash"], (res["violation"] or {}).get("kind")]
    print("HASHES " + json.dumps(out))


def cmd_replay(mod, path):
    data = json.load(open(path))
    res = run_plan(mod, data["plan"], data.get("tier", "quick"))
    if res["error"]:
        print("HARNESS-ERROR", res["error"])
        return 3
    if res["violation"]:
        print(f"REPRODUCED property={mod.ID} kind={res['violation']['kind']} log={res['loghash']}")
        print(res["violation"]["detail"])
        return 1
    print("NOT-REPRODUCED")
    return 0


def cmd_check(mod, tier, seed):
    t0 = time.monotonic()
    n = mod.RUNS[tier]
    n = int(os.environ.get("DST_RUNS", n))
    print(f"[{mod.ID}] tier={tier} VERIF_SEED={seed} runs={n}", flush=True)
    idxs = list(range(n))
    # determinism self-test, in a fresh interpreter with another hash seed, one worker, running while the batch runs
    rs = random.Random(derive("self", mod.ID, seed))
    sample = sorted(rs.sample(idxs, min(getattr(mod, "SELFTEST", {}).get(tier, 6 if tier == "quick" else 60), n)))
    st = _fresh(["hashes", mod.ID, "--tier", tier, "--seed", str(seed), "--idx", ",".join(map(str, sample))], hashseed="4242")
    results, badw = batch(mod, seed, tier, idxs)
    wall_batch = time.monotonic() - t0
    errors = [r for r in results if r["error"]]
    viol = [r for r in results if r["violation"]]
    known = [k for k in known_findings() if k.get("property") == mod.ID and k.get("status") == "open"]
    known_hit, real = {}, []
    for r in viol:
        sig = r["violation"]["kind"]
        k = next((k for k in known if k["kind"] == sig), None)
        if k:
            known_hit[k["kind"]] = k
        else:
            real.append(r)
    for k in known:
        print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    stats, sigs, sim_time = Counter(), set(), 0.0
    nontrivial = set()
    for r in results:
        stats.update(r["stats"])
        sigs.update(r["sigs"])
        sim_time += r["sim_time"]
        if r["nontrivial"]:
            nontrivial.add(r["loghash"])
    # self-test result
    try:
        so, se = st.communicate(timeout=300)
        line = [l for l in so.decode().splitlines() if l.startswith("HASHES ")]
        other = json.loads(line[-1][7:]) if line else {}
    except subprocess.TimeoutExpired:
        st.kill()
        other, se = {}, b"timeout"
    mine = {str(r["i"]): [r["loghash"], (r["violation"] or {}).get("kind")] for r in results}
    compared = [i for i in other if i in mine]
    mismatch = [i for i in compared if other[i] != mine[i]]
    code, replay = 0, None
    if real:
        r = real[0]
        kind = r["violation"]["kind"]
        print(f"[{mod.ID}] run {r['i']} violates: {kind}: {r['violation']['detail'][:600]}", flush=True)
        plan = r["plan"]
        orig = plan
        if r.get("sched_trace") is not None:
            cand = explicit_schedule(plan, r["sched_trace"])
            rr = run_forked(mod, cand, tier)
            if rr["violation"] and rr["violation"]["kind"] == kind:
                plan = cand
        small, tried = minimise(mod, plan, kind, tier, budget_s=float(os.environ.get("DST_MIN_S", "60" if tier == "quick" else "240")))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{mod.ID}-seed{seed}-run{r['i']}.json")
        final = None
        for p in (small, plan, orig):
            rr = run_forked(mod, p, tier)
            if rr["violation"]:
                with open(replay, "w") as f:
                    json.dump(dict(property=mod.ID, tier=tier, verif_seed=seed, run=r["i"], kind=rr["violation"]["kind"], detail=rr["violation"]["detail"],
                                   plan=p, original_size={k: len(orig.get(k) or []) for k in getattr(mod, "SHRINK", ["ops", "faults"])},
                                   minimiser_runs=tried, events=rr["tail"]), f, indent=1, default=str)
                pr = _fresh(["replay", mod.ID, replay])
                so, se = pr.communicate()
                if pr.returncode == 1:
                    final = rr
                    break
        if final is None:
            with open(replay, "w") as f:
                json.dump(dict(property=mod.ID, tier=tier, verif_seed=seed, run=r["i"], kind=kind, detail=r["violation"]["detail"], plan=orig, note="seen in the batch; did not replay in a fresh process"), f, indent=1, default=str)
            print(f"[{mod.ID}] note: the violation seen in the batch did not replay in a fresh process", flush=True)
        else:
            print(f"[{mod.ID}] minimised: {final['violation']['kind']}: {final['violation']['detail'][:800]}")
        print(f"VIOLATION property={mod.ID} replay={replay}", flush=True)
        code = 1
    elif errors or badw:
        for r in errors[:3]:
            print(f"[{mod.ID}] HARNESS-ERROR in run {r['i']}: {r['error']}", flush=True)
        print(f"[{mod.ID}] {len(errors)} harness errors, {badw} workers ended abnormally", flush=True)
        code = 3
    wall = time.monotonic() - t0
    samples = [dict(run=r["i"], plan=r.get("plan"), events=r["tail"][-5:]) for r in results if r.get("plan") is not None][:2]
    for s in samples:  # keep the file readable
        txt = json.dumps(s, default=str)
        if len(txt) > 6000:
            s["plan"] = json.dumps(s["plan"], default=str)[:5000] + " ..."
    done = len(results)
    extra = mod.coverage_extra(stats) if hasattr(mod, "coverage_extra") else {}
    cov = dict(evaluations=done, distinct_nontrivial=len(nontrivial), rule=mod.RULE, samples=samples,
               runs_per_hour=int(done / max(wall_batch, 1e-9) * 3600), seeds_per_hour=int(done / max(wall_batch, 1e-9) * 3600),
               simulated_seconds=round(sim_time, 3), distinct_states_or_interleavings=len(sigs), state_measure=getattr(mod, "MEASURE", "hash of the event log of a run"),
               faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
               probes={k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
               determinism_selftest=dict(compared=len(compared), mismatches=len(mismatch), other_hash_seed="4242", fresh_interpreter=True),
               components=dict(real=mod.REAL, simulated=mod.STUB), known_findings_hit=sorted(known_hit), harness_errors=len(errors), **extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(dict(property=mod.ID, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
                       wall_s=round(wall, 2), violations=len(real)), f, indent=1, default=str)
    if mismatch:
        print(f"[{mod.ID}] determinism self-test: {len(mismatch)} of {len(compared)} runs differ: {mismatch[:5]}")
    print(f"[{mod.ID}] {done} runs, {len(nontrivial)} distinct non-trivial, {len(sigs)} states, {wall:.1f}s, faults {cov['faults_injected']}, selftest {len(compared)}/{len(mismatch)} -> exit {code}", flush=True)
    return code
