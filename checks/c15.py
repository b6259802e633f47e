"""C15: everything printed after enabling the log file reaches terminal and file."""
import os
import random
import sys

from dst import disk, sched
from dst.core import Violation
from dst.sched import Sched

ID = "C15"
RUNS = {"quick": 2500, "thorough": 60000}
LEVEL = "exploration"
TECH = "seeded programs of prints, activations, restores, process deaths and restarts, and interleaved printing threads, on a simulated terminal and disk under different locales; after every write the terminal and each file are compared with the text written so far"
NOTE = ("The redirection code runs for real on real files; the terminal, the disk below the file objects, the locale, process death and thread switches are simulated. A clean batch is evidence, not proof.")
RULE = ("A run is 5-25 operations on 1-3 log files, optionally with a phase of 2-3 printing threads; non-trivial: text written to a file that already held something, or by two threads, or to two files at once; distinct by event log.")
MEASURE = "distinct (active files, operation) sequences and final file contents"
REAL = ["dhg.utils.simple_stdout2file", "print and sys.stdout", "text and buffered file objects", "real files in a scratch directory"]
STUB = ["terminal (buffers until flushed)", "disk seam (short writes, full disk, process death)", "locale encoding", "thread scheduler"]
ASSUMPTIONS = ["what was written to the file survives a process crash (no power loss)", "a file that is being fed is not enabled a second time", "text is valid Unicode"]
SHRINK = ["ops", "threads", "switches"]
ALPHA = ["a", "b", "xyz", " ", "\n", "\n", "\t", "\r", "é", "ß", "→", "漢字", "😀", "\x00", "\u2028", "{}", "%s", "\\n"]


def prepare():
    sched.install_locks()
    disk.install()
    import dhg.utils  # noqa


def text(rng):
    r = rng.random()
    if r < 0.05:
        return ""
    if r < 0.1:
        return rng.choice(["long ", "wörter "]) * rng.choice([300, 3000])
    s = "".join(rng.choice(ALPHA) for _ in range(rng.randrange(1, 8)))
    return s if rng.random() < 0.5 else s.encode("ascii", "replace").decode() + rng.choice(["", "\n"])


def gen_print(rng):
    f = rng.choice(["print", "print", "print", "write", "args", "flush", "file", "flushonly"])
    return dict(t="out", f=f, s=[text(rng) for _ in range(3 if f == "args" else 1)], sep=rng.choice([" ", "", ", ", "\n"]), end=rng.choice(["\n", "\n", "", "!"]))


def generate(rng, tier, i):
    ops = [dict(t="on", k=0)] if rng.random() < 0.8 else []
    for _ in range(rng.randrange(5, 26)):
        r = rng.random()
        if r < 0.62:
            ops.append(gen_print(rng))
        elif r < 0.74:
            ops.append(dict(t="on", k=rng.randrange(3), form=rng.choice(["str", "path", "rel"])))
        elif r < 0.79:
            ops.append(dict(t="bad", c=rng.choice(["parent", "eacces"]), k=rng.randrange(3)))
        elif r < 0.84:
            ops.append(dict(t="restore"))
        elif r < 0.9:
            ops.append(dict(t="external", k=rng.randrange(3), s=text(rng)))
        elif r < 0.95:
            ops.append(dict(t="crash"))
        elif r < 0.98:
            ops.append(dict(t="full", n=rng.choice([1, 1, 2]), p=gen_print(rng)))
        else:
            ops.append(dict(t="chdir"))
    threads = []
    if rng.random() < 0.5:
        for c in range(rng.choice([2, 2, 3])):
            threads.append([gen_print(rng) for _ in range(rng.choice([1, 2, 4]))])
    return dict(ops=ops, threads=threads, mid=rng.choice([None, None, 0, 1]), locale=rng.choice(["utf-8", "utf-8", "ascii", "latin-1"]), held=[rng.choice([None, "", "old\n", "alt ü→ohne Ende"]) for _ in range(3)], buf=rng.choice([1, 16, 8192, 8192]),
                term=rng.choice(["line", "block", "none"]), tenc=rng.choice(["utf-8", "utf-8", "ascii", "latin-1", None]), ret=rng.choice(["chars", "chars", "chars", "bytes", "none", "zero"]), short=rng.choice([0, 0, 1000]), sched=dict(seed=rng.randrange(1 << 40), p=rng.choice([0.1, 0.4, 0.8])))


class Terminal:
    """The terminal: text reaches the screen when flushed (or by line, or at once)."""

    def __init__(self, mode, encoding, ret="chars"):
        self.ret = ret  # what write returns is the terminal's business
        self.mode, self.buf, self.screen, self.encoding, self.errors = mode, "", "", encoding, "backslashreplace"

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError(s)
        sched.io_yield()
        self.buf += s
        if self.mode == "none":
            self.flush()
        elif self.mode == "line" and "\n" in self.buf:
            k = self.buf.rindex("\n") + 1
            self.screen, self.buf = self.screen + self.buf[:k], self.buf[k:]
        return {"chars": len(s), "bytes": len(s.encode("utf-8", "replace")), "none": None, "zero": 0}[self.ret]

    def flush(self):
        self.screen, self.buf = self.screen + self.buf, ""

    def isatty(self):
        return self.mode == "line"


def emit(op):
    """Do the printing; returns the pieces written to sys.stdout in order."""
    s, f = op["s"], op["f"]
    if f == "write":
        sys.stdout.write(s[0])
        return [s[0]]
    if f == "flushonly":
        sys.stdout.flush()
        return []
    kw = dict(sep=op["sep"], end=op["end"])
    if f == "flush":
        kw["flush"] = True
    if f == "file":
        kw["file"] = sys.stdout
    print(*s, **kw)
    return pieces(op)


def pieces(op):
    s, f = op["s"], op["f"]
    if f == "write":
        return [s[0]]
    if f == "flushonly":
        return []
    out = []
    for k, x in enumerate(s):
        if k and op["sep"]:
            out.append(op["sep"])
        out.append(x)
    return out + ([op["end"]] if op["end"] else [])


def execute(plan, ctx):
    saved, cwd = sys.stdout, os.getcwd()
    try:
        _execute(plan, ctx)
    finally:
        sys.stdout = saved
        os.chdir(cwd)


def _execute(plan, ctx):
    from pathlib import Path

    from dhg.utils import simple_stdout2file
    root = ctx.scratch
    os.chdir(root)
    d = disk.mount(disk.Disk(root, ctx, bufsize=plan["buf"]))
    d.locale = plan["locale"]
    names = ["log0.txt", "log1.txt", "log2.txt"]
    d.quiet = "log"
    paths = [os.path.join(root, x) for x in names]
    want = {}  # file -> bytes it must hold
    with disk.off():
        os.mkdir(os.path.join(root, "sub"))
        for p, h in zip(paths, plan["held"]):
            if h is not None:
                Path(p).write_bytes(h.encode())
                want[p] = h.encode()
    term = Terminal(plan["term"], plan["tenc"], plan["ret"])
    sys.stdout = term
    shown = ""  # what was written to the terminal
    chain = []  # files fed by the present sys.stdout
    stack = []  # (sys.stdout, chain) before every activation
    used = set()
    short = [dict(on="write", n=1, k="short", len=10 ** 6)] if plan["short"] else []
    d.main.faults = [dict(f) for f in short]

    def raw(p):
        with disk.off():
            return Path(p).read_bytes() if os.path.exists(p) else None

    def compare(what):
        for p in paths:
            b, w = raw(p), want.get(p)
            ctx.check(b == w, "file-wrong", lambda: f"after {what}: {os.path.basename(p)} holds {show(b)}, written were {show(w)} (locale {plan['locale']})")

    def show(b):
        return None if b is None else (b if len(b) < 300 else b[:100] + b"..." + b[-100:])

    def feed(s, n=None):
        nonlocal shown
        shown += s
        for p in chain:
            want[p] = want.get(p, b"") + s.encode("utf-8")

    def screen(what):
        sys.stdout.flush()
        ctx.check(term.screen == shown, "terminal-wrong", lambda: f"after {what}: the terminal shows {term.screen[-200:]!r}, written were {shown[-200:]!r}")

    def activate(k, form):
        nonlocal chain
        p = paths[k]
        if p in chain:
            return
        arg = Path(p) if form == "path" else os.path.relpath(p, os.getcwd()) if form == "rel" else p
        before = sys.stdout
        simple_stdout2file(arg)
        ctx.check(sys.stdout is not before, "not-redirected", "")
        stack.append((before, list(chain)))
        chain = chain + [p]
        used.add(k)
        want.setdefault(p, b"")

    for n, op in enumerate(plan["ops"]):
        ctx.event(op["t"], op.get("f"), op.get("k"), str(op.get("s"))[:60])
        if op["t"] == "on":
            activate(op["k"], op.get("form", "str"))
        elif op["t"] == "out":
            for s in pieces(op):
                feed(s)
            emit(op)
            if chain and (len(chain) > 1 or any(h for h in plan["held"])):
                ctx.nontrivial = True
        elif op["t"] == "bad":
            before = sys.stdout
            if op["c"] == "parent":
                p = os.path.join(root, "missing", "x.txt")
            else:
                p = paths[op["k"]]
                if p in chain:
                    continue
                d.main.faults = [dict(on="create", n=d.main.counts.get("create", 0) + 1, k="eacces")]
            try:
                simple_stdout2file(p)
                ctx.fail("bad-file-accepted", op["c"])
            except (AssertionError, OSError):
                pass
            d.main.faults = [dict(f) for f in short]
            ctx.check(sys.stdout is before, "stdout-changed-by-rejected-file", op["c"])
            with disk.off():
                ctx.check(op["c"] != "parent" or not os.path.exists(os.path.dirname(p)), "directory-created", p)
        elif op["t"] == "restore":
            if stack:
                sys.stdout, chain = stack.pop()
        elif op["t"] == "external":
            p = paths[op["k"]]
            with disk.off():
                with open(p, "ab") as f:
                    f.write(op["s"].encode())
            want[p] = want.get(p, b"") + op["s"].encode()
        elif op["t"] == "chdir":
            with disk.off():
                os.chdir(os.path.join(root, "sub"))
        elif op["t"] == "full":
            # the disk is full for some writes: the print may fail, later text must still arrive, in order and once
            if not chain or plan["short"]:
                continue
            base = {p: raw(p) or b"" for p in chain}
            d.main.faults = [dict(on="write", n=d.main.counts.get("write", 0) + 1, k="enospc", len=op["n"] - 1)]
            err = None
            try:
                emit(op["p"])
            except OSError:
                err = True
            d.main.faults = []
            if err is None:
                for s in pieces(op["p"]):
                    feed(s)
            else:
                ctx.count("print-failed")
                mark = f"<after {n}>"
                for _ in range(1):
                    sys.stdout.write(mark)
                whole = "".join(pieces(op["p"]))
                shown_new = term.screen + term.buf
                ctx.check(shown_new.startswith(shown) and shown_new.endswith(mark) and whole.startswith(shown_new[len(shown):-len(mark)]), "terminal-wrong", lambda: f"after a failed print of {whole!r}: {shown_new[len(shown):]!r}")
                shown = shown_new
                for p in chain:
                    b = raw(p)
                    add = b[len(base[p]):]
                    ctx.check(b.startswith(base[p]) and add.endswith(mark.encode()) and whole.encode().startswith(add[:-len(mark.encode())]), "file-wrong", lambda: f"after a failed print of {whole!r} and {mark!r}: {os.path.basename(p)} got {show(add)}")
                    want[p] = b
        elif op["t"] == "crash":
            ctx.count("fault:process_death")
            for p in chain:
                ctx.check(raw(p) == want[p], "lost-at-crash", lambda: f"{os.path.basename(p)}: {show(raw(p))} instead of {show(want[p])}")
            d.main.dead = True
            old = d.main
            d.main = disk.Proc("main", short)
            keep = (sys.stdout, stack)  # the dead process's objects, never flushed into the new one
            ctx.dead = getattr(ctx, "dead", []) + [keep, old]
            term = Terminal(plan["term"], plan["tenc"], plan["ret"])
            sys.stdout, shown, chain, stack, used = term, "", [], [], set()
            with disk.off():
                os.chdir(root)
        compare(f"operation {n} {op}"[:200])
    screen("all operations")
    ctx.sig([(o["t"], o.get("f"), o.get("k")) for o in plan["ops"]], sorted((os.path.basename(k), v) for k, v in want.items()))
    if plan["threads"]:
        d.main.faults = [dict(f) for f in short]
        if not chain:
            for k in range(3):
                if k not in used:
                    activate(k, "str")
                    break
        if not chain:
            return
        base, b0 = {p: raw(p) or b"" for p in chain}, len(shown)
        from dst.core import DHG
        sc = Sched(seed=plan["sched"]["seed"], p=plan["sched"]["p"], switches=plan.get("switches"), files=(os.path.join(DHG, "utils", "logging.py"),))
        marks = [[["«%d.%d.%d»%s" % (c, j, q, s) for q, s in enumerate(pieces(o))] for j, o in enumerate(ops)] for c, ops in enumerate(plan["threads"])]
        free = [k for k in range(3) if k not in used]
        late = {}

        def body(c):
            for j, ps in enumerate(marks[c]):
                if plan["mid"] == j and c == 0 and free:
                    simple_stdout2file(paths[free[0]])
                    late["on"] = True
                for s in ps:
                    after = "on" in late
                    sys.stdout.write(s)
                    if after:
                        late.setdefault("sure", []).append(s)
                    for p in chain:
                        ctx.check(s.encode() in (raw(p) or b""), "file-wrong", lambda: f"thread {c}: {s!r} is not in {os.path.basename(p)} although its write returned")
        for c in range(len(marks)):
            sc.spawn(lambda c=c: body(c), f"printer{c}")
        for t in sc.run():
            if t.exc is not None:
                raise t.exc
        ctx.sched_trace = sc.trace
        ctx.count("fault:thread-switch", len(sc.trace))
        sys.stdout.flush()
        got = term.screen[b0:]
        ctx.check(term.screen.startswith(shown), "terminal-wrong", "text before the threads changed")
        every = [s for ops in marks for ps in ops for s in ps]
        order, rest = [], got
        while rest:
            hit = next((s for s in every if rest.startswith(s) and s not in order), None)
            hits = [s for s in every if rest.startswith(s) and s not in order]
            hit = max(hits, key=len) if hits else None
            ctx.check(hit is not None, "terminal-wrong", lambda: f"the terminal shows {rest[:120]!r} where whole pieces were expected")
            order.append(hit)
            rest = rest[len(hit):]
        ctx.check(sorted(order) == sorted(every), "terminal-wrong", lambda: f"pieces missing on the terminal: {sorted(set(every) - set(order))}")
        for ops in marks:
            mine = [s for ps in ops for s in ps]
            ctx.check([s for s in order if s in mine] == mine, "terminal-wrong", "a thread's pieces are out of order")
        for p in chain:
            add = raw(p)
            ctx.check(add == base[p] + got.encode(), "file-wrong", lambda: f"threads: {os.path.basename(p)} got {show(add[len(base[p]):])}, the terminal {got[:300]!r}")
        if late:
            p = paths[free[0]]
            add = (raw(p) or b"")[len(want.get(p, b"")):].decode()
            seq = []
            while add:
                hits = [s for s in every if add.startswith(s)]
                ctx.check(hits, "file-wrong", lambda: f"second file: {add[:120]!r}")
                h = max(hits, key=len)
                seq.append(h)
                add = add[len(h):]
            ctx.check([s for s in order if s in seq] == seq, "file-wrong", lambda: f"the second file has the order {seq}, the terminal {order}")
            ctx.check(set(late.get("sure", [])) <= set(seq), "file-wrong", lambda: f"missing in the second file: {set(late.get('sure', [])) - set(seq)}")
        ctx.nontrivial |= len(plan["threads"]) > 1
        ctx.event("threads", order)
