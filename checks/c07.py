"""C07: a dataset item has one value, however and whenever it is asked for."""
import copy
import pickle
import random

import numpy as np
import torch

from dst import alloc, disk, net
from dst import dataworld as W
from dst.core import Violation
from dst.sched import Sched

ID = "C07"
RUNS = {"quick": 2600, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded request histories (orders, repetitions, raw or processed, several threads) on user-defined and all shipped datasets, with failing downloads, disk, loaders, pipes and allocations; oracle: independent recomputation from the published files"
NOTE = ("Seeded search: after every request the returned value is compared with the preprocessing recomputed from the published bytes by reference pipes, at the end every item in both forms; "
        "thread interleavings are line-level decisions of the seed. A clean batch is evidence, not proof.")
RULE = ("A run takes one dataset (user-defined, or one of the shipped ones with synthetic files and checksums), issues 6-24 requests and uses of items, some failing, and optionally 2-3 threads on one dataset object; "
        "non-trivial: an item was requested in both forms or repeatedly, with a failure, a use or a preemption in between; distinct by event log.")
MEASURE = "distinct (which forms are loaded, failures so far) states"
REAL = ["dhg.data.BaseData and all shipped dataset classes", "dhg.datapipe pipes and loaders", "dhg.utils.download"]
STUB = ["requests' transport adapter", "disk seam", "loaders and pipes that fail on demand", "tensor allocation", "scheduler"]
ASSUMPTIONS = ["callers do not themselves modify a returned value in place", "the content tables of the shipped datasets are used with synthetic files of the same names"]
SHRINK = ["ops", "tops", "net", "switches"]


def prepare():
    W.prepare()
    alloc.install()


PIPES = ["to_tensor", "norm1", "norm2", "minmax", "to_long", "to_bool"]
KINDS = {"rows": ["to_tensor", "norm1", "norm2", "minmax"], "ints": ["to_long", "to_bool", "to_tensor"], "bools": ["to_bool", "to_long"], "edges": [], "misc": ["count", "zero", "wrap"], "txt": [], "json": ["wrap"]}


def generate(rng, tier, i):
    shipped = rng.random() < 0.45
    if shipped:
        ds = dict(cls=rng.randrange(1 << 20), seed=rng.randrange(1 << 30))
        nitems = 12
    else:
        items = []
        for j in range(rng.choice([1, 2, 3, 4])):
            k = rng.choice(list(KINDS))
            pipes = None
            if k in ("rows",) and rng.random() < 0.8:
                pipes = ["to_tensor"] + [rng.choice(["norm1", "norm2", "minmax"]) for _ in range(rng.choice([0, 1, 2, 4]))]
            elif KINDS[k] and rng.random() < 0.7:
                pipes = ["to_tensor"] if k == "rows" else [rng.choice(KINDS[k])]
            elif rng.random() < 0.2:
                pipes = []
            form = rng.choice(["list", "array", "csr", "tensor", "tensor"]) if k == "rows" else rng.choice(["list", "list", "array", "tensor"]) if k in ("ints", "bools") else "list"
            if form == "tensor" and k == "rows" and pipes and rng.random() < 0.7:
                pipes = pipes[1:] or [rng.choice(["norm1", "norm2", "minmax"])]
            items.append(dict(kind=k, form=form, seed=rng.randrange(1 << 30), pipes=pipes, files=2 if k in ("misc", "edges") and rng.random() < 0.25 else 1,
                              fail_load=rng.choice([0, 0, 0, 1, 2]), fail_pipe=rng.choice([0, 0, 0, 0, 1, 2]), keys=k == "misc" and rng.random() < 0.3))
        if len(items) > 1 and rng.random() < 0.45:  # several items may come from one file
            j = rng.randrange(1, len(items))
            k = rng.randrange(j)
            a = items[k]
            if rng.random() < 0.5:
                a.update(kind="misc", form="list", keys=True, pipes=rng.choice([None, [], ["wrap"], ["count"]]))
            a["files"] = 1
            a.pop("share", None)
            items[j].update(kind=a["kind"], form=a["form"], seed=a["seed"], keys=a["keys"], files=1, share=k, part=rng.choice(["k", "other"]),
                            pipes=[rng.choice(["norm1", "norm2", "minmax"])] if a["kind"] == "rows" and a["form"] == "tensor" else rng.choice([a["pipes"], None, [], ["count"]]))
        ds = dict(items=items)
        nitems = len(items)
    faulty = rng.random() < 0.5
    ops = []
    for _ in range(rng.randrange(6, 25)):
        r = rng.random()
        op = dict(it=rng.randrange(nitems), obj=rng.choice([0, 0, 0, 1]))
        if r < 0.8:
            op["t"] = rng.choice(["get", "get", "raw"])
            if faulty and rng.random() < 0.25:
                op["faults"] = [W.gen_disk_fault(rng, crash=False)]
            if faulty and rng.random() < 0.15:
                op["oom"] = rng.choice([1, 2, 3])
        elif r < 0.93:
            op["t"] = "use"
        else:
            op["t"] = rng.choice(["plain", "repr", "unknown"])
        ops.append(op)
    tops = [dict(c=rng.randrange(3), it=rng.randrange(nitems), t=rng.choice(["get", "get", "raw"])) for _ in range(rng.choice([0, 0, 3, 6]))]
    return dict(ds=ds, ops=ops, tops=tops, net=[W.gen_net_fault(rng, ("main", "backup")) for _ in range(rng.choice([1, 2]))] if faulty else [], names=rng.randrange(1 << 30), sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.03, 0.15])),
                threads_first=rng.random() < 0.3)


# ---- reference pipes (numpy, double precision)
def arr(x):
    if hasattr(x, "todense"):
        x = np.asarray(x.todense())
    return x.numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def ref_norm(X, o):
    X = np.asarray(arr(X), dtype=np.float64)
    if X.ndim == 1:
        n = np.linalg.norm(X, ord=o)
        return X / n if n else X * 0
    n = np.linalg.norm(X, ord=o, axis=1, keepdims=True)
    return np.where(n == 0, 0, X / np.where(n == 0, 1, n))


def ref_pipe(name, X):
    if name == "to_tensor":
        return ("float", np.asarray(arr(X), dtype=np.float64))
    if name == "to_long":
        return ("long", arr(X).astype(np.int64))
    if name == "to_bool":
        return ("bool", arr(X).astype(bool))
    if name in ("norm1", "norm2"):
        return ("float", ref_norm(X, 1 if name == "norm1" else None))
    if name == "minmax":
        X = np.asarray(arr(X), dtype=np.float64)
        return ("float", (X - X.min()) / (X.max() - X.min()) * 2 - 1)
    if name == "count":
        return ("obj", len(repr(X)))
    if name == "zero":
        return ("obj", 0)
    if name == "wrap":
        return ("obj", {"w": X})
    raise KeyError(name)


def same(v, kind, exp):
    if kind == "float":
        return isinstance(v, torch.Tensor) and v.dtype == torch.float32 and v.shape == exp.shape and np.allclose(v.numpy(), exp, rtol=1e-4, atol=1e-5)
    if kind == "long":
        return isinstance(v, torch.Tensor) and v.dtype == torch.long and v.shape == exp.shape and bool((v.numpy() == exp).all())
    if kind == "bool":
        return isinstance(v, torch.Tensor) and v.dtype == torch.bool and v.shape == exp.shape and bool((v.numpy() == exp).all())
    if isinstance(exp, torch.Tensor):
        return isinstance(v, torch.Tensor) and v.dtype == exp.dtype and torch.equal(v, exp)
    if hasattr(exp, "todense") or isinstance(exp, np.ndarray):
        return type(v) is type(exp) and arr(v).dtype == arr(exp).dtype and np.array_equal(arr(v), arr(exp))
    return type(v) is type(exp) and v == exp


class Injected(Exception):
    pass


def value_of(rng, kind, form="list"):
    n = rng.choice([2, 3, 4])
    if kind == "rows":
        v = [[round(rng.random() * 4, 2) if rng.random() < 0.8 else 0.0 for _ in range(3)] for _ in range(n)]
        v[0][0], v[0][1] = 1.0, 3.0
        if form == "array":
            return np.array(v)
        if form == "csr":
            import scipy.sparse
            return scipy.sparse.csr_matrix(np.array(v))
        if form == "tensor":
            return torch.tensor(v)
        return v
    if kind in ("ints", "bools"):
        v = [rng.randrange(4) if kind == "ints" else rng.random() < 0.5 for _ in range(n)]
        return np.array(v) if form == "array" else torch.tensor(v) if form == "tensor" else v
    if kind == "edges":
        return [[rng.randrange(6), 6 - j, rng.randrange(6)][: rng.choice([2, 2, 3])] for j in range(n)] if rng.random() < 0.5 else [[5 - j, j] for j in range(3)]
    if kind == "txt":
        return [[rng.randrange(30) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
    if kind == "json":
        return {str(j): [rng.randrange(9)] for j in range(n)}
    return rng.choice([{}, [], "", 0, False, {"a": 1}, ["x"], {"k": [1, 2], "m": "y"}])


def pipe_name(p):
    """Reference name of a pipe of a shipped dataset."""
    f = getattr(p, "func", p).__name__
    if f == "norm_ft":
        o = p.keywords.get("ord") if hasattr(p, "keywords") else None
        return "norm1" if o == 1 else "norm2"
    return {"to_tensor": "to_tensor", "to_long_tensor": "to_long", "to_bool_tensor": "to_bool", "min_max_scaler": "minmax"}.get(f)


class Case:
    def __init__(self, plan, ctx):
        import dhg.data as D
        from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt, min_max_scaler, norm_ft, to_bool_tensor, to_long_tensor, to_tensor
        from functools import partial
        self.w = w = W.World(ctx, [], plan["names"], 8192, plan["net"], 1024)
        files = {}
        spec = plan["ds"]
        self.items, self.plain, self.cnt, self.reads = [], {}, {}, {}
        case = self
        if "cls" in spec:
            names = [n for n in D.__all__ if n != "BaseData"]
            cls = getattr(D, names[spec["cls"] % len(names)])
            self.name = cls.__name__
            proto = cls()
            rng = random.Random(spec["seed"])
            sums = {}
            for key, cfg in proto._content.items():
                if not isinstance(cfg, dict) or "upon" not in cfg:
                    self.plain[key] = cfg
                    continue
                pn = [pipe_name(p) for p in cfg.get("preprocess", [])]
                fn = cfg["upon"][0]["filename"]
                if fn.endswith(".txt"):
                    kind = "txt"
                elif "to_long" in pn:
                    kind = "ints"
                elif "to_bool" in pn:
                    kind = "bools"
                elif "to_tensor" in pn:
                    kind = "rows"
                else:
                    kind = "edges"
                v = value_of(rng, kind, rng.choice(["list", "array", "csr"]))
                b = "\n".join(" ".join(map(str, r)) for r in v).encode() + b"\n" if kind == "txt" else pickle.dumps(v)
                if (proto.name, fn) in sums:
                    continue
                sums[proto.name, fn] = W.md5(b)
                files[proto.name + "/" + fn] = b
                self.items.append(dict(key=key, load=v, pipes=pn if None not in pn else None, n=1, paths=[fn]))
            seen = {it["key"] for it in self.items}

            def make():
                d = cls()
                for key, cfg in d._content.items():
                    if isinstance(cfg, dict) and "upon" in cfg:
                        for u in cfg["upon"]:
                            if (d.name, u["filename"]) in sums:
                                u["md5"] = sums[d.name, u["filename"]]
                return d
            self.items = [it for it in self.items if it["key"] in seen]
            self.total = len(proto._content)
        else:
            self.name = "user-defined"
            content = []
            real = dict(to_tensor=to_tensor, norm1=partial(norm_ft, ord=1), norm2=norm_ft, minmax=partial(min_max_scaler, ft_min=-1, ft_max=1), to_long=to_long_tensor, to_bool=to_bool_tensor,
                        count=lambda x: len(repr(x)), zero=lambda x: 0, wrap=lambda x: {"w": x})
            for j, it in enumerate(spec["items"]):
                vs, fns, bs = [], [], []
                for f in range(it["files"]):
                    rng = random.Random(it["seed"] + f)
                    v = value_of(rng, it["kind"], it["form"])
                    if it["keys"]:
                        v = {"k": v, "other": [1]}
                    ext = ".txt" if it["kind"] == "txt" else ".json" if it["kind"] == "json" else ".pkl"
                    import json
                    b = "\n".join(" ".join(map(str, r)) for r in v).encode() + b"\n" if ext == ".txt" else json.dumps(v).encode() if ext == ".json" else pickle.dumps(v)
                    fns.append(f"i{j}_{f}{ext}")
                    if it.get("share") is not None:
                        fns[-1] = f"i{it['share']}_{f}{ext}"
                    vs.append(v[it.get("part", "k")] if it["keys"] else v)
                    bs.append(files.setdefault("mine/" + fns[-1], b))

                def one(p, it=it):
                    s = str(p)
                    if s.endswith(".txt"):
                        return load_from_txt(p, dtype="int", sep=" ")
                    if s.endswith(".json"):
                        return load_from_json(p)
                    return load_from_pickle(p, it.get("part", "k")) if it["keys"] else load_from_pickle(p)

                def loader(p, j=j, it=it, one=one):
                    c = case.cnt["load", j] = case.cnt.get(("load", j), 0) + 1
                    ctx.event("loader", j, c)
                    if c == it["fail_load"]:
                        case.fired = True
                        ctx.count("fault:loader_failure")
                        raise Injected("loader fails")
                    return [one(x) for x in p] if isinstance(p, list) else one(p)

                def failing(f, j=j, it=it):
                    def g(x):
                        c = case.cnt["pipe", j] = case.cnt.get(("pipe", j), 0) + 1
                        if c == it["fail_pipe"]:
                            case.fired = True
                            ctx.count("fault:pipe_failure")
                            raise Injected("pipe fails")
                        return f(x)
                    return g
                cfg = dict(upon=[dict(filename=fn, md5=W.md5(b)) for fn, b in zip(fns, bs)], loader=loader)
                pipes = it["pipes"]
                if it["files"] > 1 and pipes:
                    pipes = ["wrap"]
                if pipes is not None:
                    cfg["preprocess"] = [real[p] if n != len(pipes) - 1 else failing(real[p]) for n, p in enumerate(pipes)]
                content.append((f"item{j}", cfg))
                self.items.append(dict(key=f"item{j}", load=vs if it["files"] > 1 else vs[0], pipes=pipes, n=it["files"], paths=fns))
            self.plain = {"num": 3, "table": {"a": 1}}

            class DS(D.BaseData):
                def __init__(self):
                    super().__init__("mine")
                    self._content = dict(self_plain, **{k: dict(c) for k, c in content})
            self_plain = self.plain
            make = DS
            self.total = len(content) + 2
        self.make = make
        w.net.hosts["main"][1].update(files)
        w.net.hosts["backup"][1].update(files)
        for it in self.items:
            it["bytes"] = pickle.dumps(it["load"])
        self.objs = {}
        self.fired = False

    def obj(self, k):
        if k not in self.objs:
            self.objs[k] = self.make()
        return self.objs[k]

    def expect(self, it, how):
        X = pickle.loads(it["bytes"])
        if how == "raw" or it["pipes"] is None or not it["pipes"]:
            return "obj", X
        kind = "obj"
        for p in it["pipes"]:
            kind, X = ref_pipe(p, X)
        return kind, X


def use(case, it, v, ctx):
    """Ordinary library use of an item."""
    import dhg
    if isinstance(v, list) and v and all(isinstance(e, (list, tuple)) and len(e) >= 2 for e in v) and all(isinstance(x, int) for e in v for x in e):
        n = max(max(e) for e in v) + 1
        dhg.Hypergraph(n, v)
        if all(len(e) == 2 for e in v):
            dhg.Graph(n, v)
            dhg.DiGraph(n, v)
        return "structure"
    if isinstance(v, torch.Tensor) and v.dtype == torch.float32 and v.dim() == 2:
        g = dhg.Graph(v.shape[0], [(0, v.shape[0] - 1)])
        g.smoothing_with_GCN(v)
        g.v2v(v)
        return "features"
    if isinstance(v, torch.Tensor) and v.dtype == torch.long and v.dim() == 1:
        from dhg.utils import split_by_num
        try:
            split_by_num(len(v), v, 1, 0)
        except Exception:
            pass
        return "labels"
    return "nothing"


def execute(plan, ctx):
    case = Case(plan, ctx)
    w = case.w
    ctx.event("dataset", case.name, [it["key"] for it in case.items])
    if not case.items:
        return
    loaded = {}   # (obj, item) -> {"raw", "get"}
    rough = both = 0

    def check(o, ob, it, how, v):
        kind, exp = case.expect(it, how)
        if not same(v, kind, exp):
            raise Violation(f"item-value-wrong:{how}", f"{case.name}[{it['key']}] ({how}, pipes {it['pipes']}): {v!r:.400} instead of {exp!r:.400}")

    def threads():
        nonlocal rough
        if not plan["tops"]:
            return
        w.net.enabled = False
        sp = plan["sched"]
        sched = Sched(sp["seed"], sp["p"], plan.get("switches"))
        ob = case.obj(0)
        for c in range(3):
            mine = [o for o in plan["tops"] if o["c"] == c]
            if not mine:
                continue

            def body(mine=mine):
                for o in mine:
                    it = case.items[o["it"] % len(case.items)]
                    try:
                        v = ob[it["key"]] if o["t"] == "get" else ob.raw(it["key"])
                    except Injected:
                        continue
                    check(0, ob, it, o["t"], v)
            sched.spawn(body)
        try:
            sched.run()
        finally:
            ctx.sched_trace = sched.trace
        ctx.event("threads", sched.trace)
        ctx.count("fault:preemption", len(sched.trace))
        for t in sched.tasks:
            if t.exc is not None:
                raise t.exc
        for o in plan["tops"]:
            k = o["it"] % len(case.items)
        rough += 1
        w.net.enabled = True

    if plan["threads_first"]:
        threads()
        for j, it in enumerate(case.items):  # what the threads loaded is not tracked per form
            pass
    opens = lambda: sum(1 for _, m, p in w.disk.opens if "r" in m)  # noqa
    for op in plan["ops"]:
        o = op["obj"]
        ob = case.obj(o)
        j = op["it"] % len(case.items)
        it = case.items[j]
        if op["t"] == "plain":
            for k, v in case.plain.items():
                ctx.check(ob[k] == v and ob.raw(k) == v, "plain-item-wrong", f"{k}: {ob[k]} {ob.raw(k)}")
            continue
        if op["t"] == "repr":
            ctx.check(len(ob.content) == case.total and case.items[0]["key"] in repr(ob), "content-wrong", f"{ob.content}")
            continue
        if op["t"] == "unknown":
            try:
                ob["no such item"]
            except (AssertionError, KeyError):
                continue
            raise Violation("unknown-item-accepted", case.name)
        how = "get" if op["t"] == "use" else op["t"]
        p = w.disk.main
        p.faults, p.counts, p.total, p.fired = [dict(f) for f in op.get("faults", [])], {}, 0, []
        h0, n0, case.fired = opens(), len(w.net.history), False
        have = loaded.setdefault((o, j), set())
        oom = alloc.oom_at(op["oom"]) if op.get("oom") else None
        ctx.event(op["t"], o, it["key"], sorted(have))
        try:
            if oom is not None:
                with oom:
                    v = ob[it["key"]] if how == "get" else ob.raw(it["key"])
            else:
                v = ob[it["key"]] if how == "get" else ob.raw(it["key"])
        except Exception as e:
            p.faults = []
            netfault = any(f for _, _, _, f in w.net.history[n0:])
            why = "oom" if oom is not None and oom.fired else "disk" if p.fired else "injected" if case.fired else "net" if netfault else None
            # a download that found its file damaged by an earlier fault reports it once
            if why is None and isinstance(e, (ValueError, FileNotFoundError)) and not have:
                why = "leftover"
            ctx.event("failed", type(e).__name__, why)
            if why is None:
                raise Violation(f"request-failed:{type(e).__name__}", f"{case.name}[{it['key']}] {how}: {e!r}")
            if oom is not None and oom.fired:
                ctx.count("fault:allocation_failure")
            ctx.count("failed_requests")
            rough += 1
            continue
        p.faults = []
        check(o, ob, it, how, v)
        if how in have or "get" in have:
            ctx.check(opens() == h0 and len(w.net.history) == n0, "loaded-item-read-again", f"{case.name}[{it['key']}] {how}, already loaded as {sorted(have)}: {w.disk.opens[-3:]}")
            both += 1
        have.add(how)
        if how == "get":
            have.add("raw")
        ctx.count("requests_ok")
        if op["t"] == "use":
            ctx.count("use_" + use(case, it, v, ctx))
            rough += 1
        ctx.sig(case.name if case.name == "user-defined" else "shipped", sorted((k, sorted(v)) for k, v in loaded.items()), rough)
    w.disk.main.faults = []
    w.net.enabled = False
    if not plan["threads_first"]:
        threads()
        w.net.enabled = False
    for it in case.items:  # afterwards every item, in both forms, twice
        for how in ("raw", "get", "raw", "get"):
            for t in range(4):
                ob = case.obj(0)
                try:
                    v = ob[it["key"]] if how == "get" else ob.raw(it["key"])
                    break
                except Injected:
                    continue
                except ValueError as e:
                    if t == 3:
                        raise
                    continue
            check(0, ob, it, how, v)
        n0 = len(w.net.history)
    with disk.off():
        pass
    ctx.event("end", w.net.counts)
    ctx.nontrivial = both > 0 and rough > 0
