"""Shared world of the dataset checks: a scratch home per run, published files, simulated hosts and processes."""
import hashlib
import os
import pickle
import random
import sys
import tempfile
import types
from pathlib import Path

from . import disk, net

IMPORT_HOME = None


def prepare():
    global IMPORT_HOME
    IMPORT_HOME = os.environ["HOME"]
    disk.install()
    net.install()
    import dhg.data  # noqa
    import dhg.utils.download  # noqa
    real = os.getpid

    def getpid():
        d = disk.DISK
        if d is not None:
            p = d.proc()
            return getattr(p, "pid", None) or real()
        return real()
    os.getpid = getpid


def _rebase(v, home, seen):
    if isinstance(v, Path) and str(v).startswith(IMPORT_HOME):
        return Path(home + str(v)[len(IMPORT_HOME):])
    if type(v) is str and v.startswith(IMPORT_HOME):
        return home + v[len(IMPORT_HOME):]
    return None


def set_home(home):
    """Point everything the library derived from the home directory at import time to the home of this run."""
    os.environ["HOME"] = home
    seen = set()

    def fix_ns(ns, setter):
        for k, v in list(ns.items()):
            r = _rebase(v, home, seen)
            if r is not None:
                setter(k, r)
            elif isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("dhg"):
                fix_fn(v)
            elif isinstance(v, type) and (v.__module__ or "").startswith("dhg") and v not in seen:
                seen.add(v)
                fix_ns(dict(vars(v)), lambda k, r, v=v: setattr(v, k, r))
            elif isinstance(v, dict) and v is not ns and id(v) not in seen and not k.startswith("__"):
                seen.add(id(v))
                fix_ns(v, v.__setitem__)

    def fix_fn(f):
        if f.__defaults__:
            f.__defaults__ = tuple(_rebase(x, home, seen) or x for x in f.__defaults__)
        if f.__kwdefaults__:
            for k, x in f.__kwdefaults__.items():
                f.__kwdefaults__[k] = _rebase(x, home, seen) or x
        w = getattr(f, "__wrapped__", None)
        if w is not None and isinstance(w, types.FunctionType):
            fix_fn(w)

    for name, mod in list(sys.modules.items()):
        if (name == "dhg" or name.startswith("dhg.")) and mod is not None:
            fix_ns(vars(mod), lambda k, r, mod=mod: setattr(mod, k, r))


def seed_names(seed):
    """Temporary file names depend on the run only."""
    r = tempfile._RandomNameSequence()
    r._rng, r._rng_pid = random.Random(seed), os.getpid()
    type(r).rng = property(lambda self: self._rng)
    tempfile._name_sequence = r
    os.urandom = random.Random(seed + 1).randbytes  # uuid4 names


def md5(b):
    return hashlib.md5(b).hexdigest()


def proc(name, k, faults=()):
    p = disk.Proc(name, faults)
    p.pid = 5000 + k
    return p


def payload(rng, kind):
    """(bytes, value) of a published file."""
    n = rng.choice([1, 2, 3, 5])
    if kind == "txt":
        rows = [[rng.randrange(50) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
        return "\n".join(" ".join(map(str, r)) for r in rows).encode() + b"\n", rows
    if kind == "json":
        import json
        v = {str(j): rng.randrange(99) for j in range(n)}
        return json.dumps(v, indent=rng.choice([None, None, 1])).encode(), v
    if kind == "huge":  # more than a megabyte
        v = rng.randbytes(rng.choice([1 << 20, (1 << 20) + 1, 1300000, 2100000]))
    elif kind == "list":
        v = [[rng.randrange(1, 9) for _ in range(3)] for _ in range(n)]
    elif kind == "ints":
        v = [rng.randrange(5) for _ in range(n)]
    elif kind == "big":
        v = [[rng.randrange(1 << 30) for _ in range(200)] for _ in range(n)]
    elif kind == "zero":
        v = rng.choice([0, [], {}, False, ""])
    else:
        v = {"a": [rng.randrange(9) for _ in range(n)], "b": [[rng.randrange(9)] * 2 for _ in range(n)]}
    return pickle.dumps(v), v


# ------------------------------------------------------------------ the world of one run
def gen_world(rng):
    """Spec of the datasets: published files, items, hosts."""
    sets = []
    for k in range(rng.choice([1, 1, 2])):
        files = []
        for j in range(rng.choice([1, 2, 2, 3])):
            files.append(dict(name=f"f{j}." + rng.choice(["pkl", "txt", "json"]), kind="huge" if rng.random() < 0.008 else rng.choice(["txt", "json", "list", "ints", "big", "dict", "dict"]), seed=rng.randrange(1 << 30), bk=rng.random() < 0.15,
                              sub=rng.random() < 0.1))
        for f in files:
            f["name"] = f["name"].split(".")[0] + {"txt": ".txt", "json": ".json"}.get(f["kind"], ".pkl")
            if f.pop("sub"):
                f["name"] = "deep/" + f["name"]
        items = []
        for j in range(rng.choice([1, 2, 3])):
            items.append([rng.randrange(len(files)) for _ in range(rng.choice([1, 1, 1, 2]))])
        sets.append(dict(name=f"set{k}", custom=rng.random() < 0.2, files=files, items=items))
    return sets


class World:
    def __init__(self, ctx, sets, seed, bufsize=8192, net_faults=(), piece=1024):
        self.ctx, self.spec = ctx, sets
        if any(f["kind"] == "huge" for s in sets for f in s["files"]):
            piece, bufsize = max(piece, 1 << 16), max(bufsize, 8192)
        self.home = os.path.join(ctx.scratch, "home")
        os.makedirs(self.home, exist_ok=True)
        set_home(self.home)
        seed_names(seed)
        import dhg._global as G
        self.G = G
        self.pub = {}      # absolute path -> published bytes
        self.val = {}      # absolute path -> value
        main, back, mirror = {}, {}, {}
        self.mirror_prefix = "https://mirror.example/files/"
        self.legacy = {}   # current path -> legacy path
        self.filehost = {}
        for s in sets:
            root = Path(ctx.scratch) / "custom" if s["custom"] else Path(str(G.DATASETS_ROOT))
            s["root"] = root
            for f in s["files"]:
                b, v = payload(random.Random(f["seed"]), f["kind"])
                p = str(root / s["name"] / f["name"])
                self.pub[p], self.val[p] = b, v
                if f["bk"]:
                    mirror[s["name"] + "/" + f["name"]] = b
                else:
                    main[s["name"] + "/" + f["name"]] = b
                    back[s["name"] + "/" + f["name"]] = b
                self.filehost[s["name"] + "/" + f["name"]] = "mirror" if f["bk"] else "main"
                if not s["custom"]:
                    self.legacy[p] = os.path.join(self.home, ".dhg", "datasets", s["name"], f["name"])
        self.net = net.mount(net.Net({"main": (G.REMOTE_DATASETS_ROOT, main), "backup": (G.BACKUP_REMOTE_DATASETS_ROOT, back), "mirror": (self.mirror_prefix, mirror)}, ctx, net_faults, piece))
        self.disk = disk.mount(disk.Disk(ctx.scratch, ctx, bufsize=bufsize))
        self.disk.on_bytes = self._on_bytes
        self.wrong = None
        self.loads = []
        self.sleeps = 0
        import time
        time.sleep = self._sleep

    def _sleep(self, s):
        from . import core, sched
        self.ctx.sim_time += max(0.0, float(s))
        self.sleeps += 1
        if self.sleeps > 20000:
            raise core.Budget("more than 20000 sleeps")
        sc = sched._current
        if sc is not None and sc.cur is not None:
            sc.yield_point(force=True)

    # ---- oracle of C05
    def _on_bytes(self, p, path, at, b):
        if not getattr(p, "loading", 0):
            return
        path = os.path.realpath(path)
        pub = self.pub.get(path)
        if pub is None:
            return
        if b != pub[at:at + len(b)] or (not b and at < len(pub)) or at + len(b) > len(pub):
            from .core import Violation
            self.wrong = f"{p.name} read {path[len(self.ctx.scratch):]} at {at}: {b[:60]!r}, published {pub[at:at + 60]!r} (length {len(pub)})"
            raise Violation("loader-read-unpublished-bytes", self.wrong)

    def dataset(self, k, proc_of):
        """A fresh dataset object, as one simulated process sees it."""
        from dhg.data import BaseData
        from dhg.datapipe import load_from_json, load_from_pickle, load_from_txt
        s, w = self.spec[k], self

        def real_loader(path):
            n = str(path)
            if n.endswith(".txt"):
                return load_from_txt(path, dtype="int", sep=" ")
            if n.endswith(".json"):
                return load_from_json(path)
            return load_from_pickle(path)

        def loader(path):
            from .core import Violation
            many = isinstance(path, (list, tuple))
            paths = list(path) if many else [path]
            p = w.disk.proc()
            p.loading = getattr(p, "loading", 0) + 1
            w.ctx.event("load", p.name, [os.path.basename(str(x)) for x in paths])
            w.loads.append(p.name)
            try:
                vals = [real_loader(x) for x in paths]
            finally:
                p.loading -= 1
            exp = [w.val[os.path.realpath(str(x))] for x in paths]
            if vals != exp:
                raise Violation("item-built-from-wrong-content", f"{vals!r:.300} instead of {exp!r:.300}")
            return vals if many else vals[0]

        content = {"num": 7 + k}
        for j, it in enumerate(s["items"]):
            up = []
            for i in it:
                f = s["files"][i]
                d = dict(filename=f["name"], md5=md5(self.pub[str(s["root"] / s["name"] / f["name"])]))
                if f["bk"]:
                    d["bk_url"] = self.mirror_prefix + s["name"] + "/" + f["name"]
                up.append(d)
            content[f"item{j}"] = dict(upon=up, loader=loader)

        class DS(BaseData):
            def __init__(self):
                super().__init__(s["name"], str(s["root"]) if s["custom"] else None)
                self._content = content
        return DS()

    def paths(self, k, item):
        s = self.spec[k]
        return [str(s["root"] / s["name"] / s["files"][i]["name"]) for i in s["items"][item]]

    def expected(self, k, item):
        v = [self.val[p] for p in self.paths(k, item)]
        return v if len(v) > 1 else v[0]

    # ---- harness access to the disk
    def state(self, path):
        """absent, valid or damaged"""
        with disk.off():
            try:
                b = Path(path).read_bytes()
            except (FileNotFoundError, NotADirectoryError):
                return "absent"
        cur = path if path in self.pub else next(c for c, l in self.legacy.items() if l == path)
        return "valid" if b == self.pub[cur] else "damaged"

    def put(self, path, how, cur=None):
        b = self.pub[cur or path]
        if how == "absent":
            with disk.off():
                if os.path.exists(path):
                    os.unlink(path)
            return
        if how == "trunc":
            b = b[:len(b) // 2]
        elif how == "flip":
            b = bytes([b[0] ^ 4]) + b[1:] if b else b"z"
        elif how == "tail":
            b = b[:-1] + bytes([b[-1] ^ 1]) if b else b"z"
        elif how == "short":
            b = b[:-1]
        elif how == "empty":
            b = b""
        elif how == "long":
            b = b + b"tail"
        elif how == "crlf":  # line ends converted on the way
            b = b.replace(b"\n", b"\r\n") if b"\n" in b else b + b"\r"
        elif how == "zeros":  # a preallocated block
            b = b + bytes(len(b) % 7 + 1)
        elif how == "bom":
            b = b"\xef\xbb\xbf" + b
        elif how == "blank":
            b = b + b"\n"
        elif how == "older":
            b = pickle.dumps(["an older version"])
        with disk.off():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            Path(path).write_bytes(b)


DAMAGE = ["trunc", "flip", "tail", "short", "empty", "long", "older", "crlf", "zeros", "bom", "blank"]
DISK_FAULTS = ["eio", "enospc", "eacces", "exdev", "short", "torn", "crash"]


def gen_disk_fault(rng, crash=True):
    k = rng.choice([x for x in DISK_FAULTS if crash or x not in ("crash", "torn")])
    on = {"eio": ["any", "read", "write"], "enospc": ["write", "any"], "eacces": ["any"], "exdev": ["rename"], "short": ["read", "write"], "torn": ["write"], "crash": ["any", "write", "rename"]}[k]
    return dict(on=rng.choice(on), n=rng.choice([1, 1, 2, 2, 3, 4, 6, 9]), k=k, len=rng.choice([0, 0, 0, 2, 1000]), frac=rng.randrange(3))


def gen_net_fault(rng, hosts=("main", "main", "backup", "mirror")):
    return dict(host=rng.choice(hosts), n=rng.choice([1, 1, 1, 2, 3, 4]), k=rng.choice(net.KINDS), len=rng.choice([0, 0, 1, 2, 3]), frac=rng.randrange(4), nolen=rng.random() < 0.5)


def gen_initial(rng, sets):
    out = []
    for k, s in enumerate(sets):
        for i in range(len(s["files"])):
            out.append([k, i, rng.choice(["absent", "absent", "absent", "valid"] + DAMAGE), rng.choice(["absent", "absent", "absent", "valid"] + DAMAGE)])
    return out


def set_initial(w, initial):
    for k, i, cur, leg in initial:
        s = w.spec[k]
        p = str(s["root"] / s["name"] / s["files"][i]["name"])
        w.put(p, cur)
        if p in w.legacy:
            w.put(w.legacy[p], leg, p)
