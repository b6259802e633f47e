"""A second interpreter with another hash seed and another history: a zygote that forks one process per request.

start(module, hashseed) launches it; call(peer, fn, args) runs checks.<module>.<fn>(**args) there and returns its JSON result."""
import importlib
import json
import os
import socket
import struct
import subprocess
import sys
import threading

from . import core


def start(module, hashseed, warm=""):
    path = os.path.join(core.scratch_root(), f"peer-{hashseed}-{os.getpid()}.sock")
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(256)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), DST_PEER_WARM=str(warm))
    p = subprocess.Popen([sys.executable, "-c", f"import sys; sys.path.insert(0, {core.VERIF!r}); sys.dont_write_bytecode = True; from dst import peer; peer.serve({module!r}, {srv.fileno()})"],
                         pass_fds=[srv.fileno()], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, env=env, cwd=core.VERIF)
    srv.close()
    return dict(path=path, proc=p)


def _recv(s, n):
    b = b""
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c:
            raise EOFError("peer gone")
        b += c
    return b


def _get(s):
    return json.loads(_recv(s, struct.unpack("!Q", _recv(s, 8))[0]))


def _put(s, obj):
    d = json.dumps(obj).encode()
    s.sendall(struct.pack("!Q", len(d)) + d)


def call(peer, fn, **args):
    s = socket.socket(socket.AF_UNIX)
    s.connect(peer["path"])
    _put(s, dict(fn=fn, args=args))
    r = _get(s)
    s.close()
    if "harness" in r:
        raise RuntimeError("peer: " + r["harness"])
    return r["ok"]


def serve(module, fd):
    import signal
    import traceback
    from . import sched
    sched.install_locks()
    sys.path.insert(0, core.REPO)
    mod = importlib.import_module("checks." + module)
    import torch
    torch.set_num_threads(1)
    import dhg  # noqa
    if hasattr(mod, "prepare_peer"):
        mod.prepare_peer(os.environ.get("DST_PEER_WARM", ""))
    parent = os.getppid()

    def watch():  # ends with the check that started it
        try:
            sys.stdin.buffer.read()
        finally:
            os._exit(0)
    threading.Thread(target=watch, daemon=True).start()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(fileno=fd)
    while os.getppid() == parent:
        c, _ = srv.accept()
        if os.fork() == 0:
            try:
                srv.close()
                q = _get(c)
                try:
                    r = dict(ok=getattr(mod, q["fn"])(**q["args"]))
                except BaseException:
                    r = dict(harness=traceback.format_exc()[-2000:])
                _put(c, r)
            finally:
                os._exit(0)
        c.close()
