"""Simulated network: requests' transport adapter answers from simulated hosts; every request and every piece of a body is a scheduled, faultable step.

A host is a URL prefix serving a dict path -> bytes. Faults are {"host", "n": which request to that host, "k": kind, "len": further requests affected}:
http4xx/5xx (error status), refused, timeout (connection), reset, stall (body breaks off after `frac`), truncate (body ends early, declared
length), cut (body ends early, no declared length), corrupt (flipped byte), empty (200 with nothing), page (200 with an HTML page), slow (many tiny pieces)."""
import socket
import threading

import requests
import urllib3

from . import disk, sched

NET = None
KINDS = ["http401", "http404", "http403", "http410", "http429", "http500", "http502", "http503", "refused", "timeout", "reset", "stall", "truncate", "cut", "corrupt", "empty", "page", "slow"]
STATUS = {"http401": 401, "http410": 410, "http502": 502, "http404": 404, "http403": 403, "http429": 429, "http500": 500, "http503": 503}


class Net:
    def __init__(self, hosts, ctx=None, faults=(), piece=1024):
        self.hosts = hosts  # name -> (prefix, {path: bytes})
        self.ctx, self.piece = ctx, piece
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.history = []  # (proc, host, path, outcome)
        self.enabled = True

    def find(self, url):
        best = None
        for name, (prefix, files) in self.hosts.items():
            if url.startswith(prefix) and (best is None or len(prefix) > len(best[1])):
                best = (name, prefix, files)
        return best

    def answer(self, url):
        """(host, path, fault or None, bytes or None)"""
        h = self.find(url)
        if h is None:
            return ("?", url, None, None)
        name, prefix, files = h
        path = url[len(prefix):]
        n = self.counts[name] = self.counts.get(name, 0) + 1
        fault = None
        if self.enabled:
            for f in self.faults:
                if f["host"] == name and f["n"] <= n <= f["n"] + f.get("len", 0):
                    fault = f
                    break
        return (name, path, fault, files.get(path))


class Body:
    """File-like response body."""

    def __init__(self, data, fail, piece, proc):
        self.data, self.off, self.fail, self.piece, self.proc = data, 0, fail, piece, proc
        self.closed = False

    def read(self, amt=None):
        if self.proc is not None and self.proc.dead:
            raise disk.SimCrash(self.proc.name)
        sched.io_yield()
        if self.off >= len(self.data):
            if self.fail is not None:
                e, self.fail = self.fail, None
                raise e
            return b""
        n = self.piece if amt is None or amt < 0 else min(amt, self.piece)
        b = self.data[self.off:self.off + n]
        self.off += len(b)
        if (amt is None or amt < 0) and self.off < len(self.data):
            return b + self.read()
        return b

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[:len(b)] = b
        return len(b)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def isclosed(self):
        return self.closed


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    net = NET
    if net is None:
        raise requests.exceptions.ConnectionError("no network in the simulation", request=request)
    proc = disk.DISK.proc() if disk.DISK is not None else None
    if proc is not None and proc.dead:
        raise disk.SimCrash(proc.name)
    sched.io_yield()
    host, path, f, data = net.answer(request.url)
    k = f["k"] if f else None
    who = proc.name if proc else "main"
    if net.ctx is not None:
        net.ctx.event("request", who, host, path, k)
        if k:
            net.ctx.count("fault:net_" + k)
    net.history.append((who, host, path, k))
    if host == "?":
        raise requests.exceptions.ConnectionError("simulated: unknown host", request=request)
    if k == "refused":
        raise requests.exceptions.ConnectionError("simulated: connection refused", request=request)
    if k == "timeout":
        raise requests.exceptions.ConnectTimeout("simulated: connect timeout", request=request)
    status, headers, fail, piece = 200, {}, None, net.piece
    if k in STATUS or data is None:
        status, data = STATUS.get(k, 404), b"error page"
    elif k == "empty":
        data = b""
    elif k == "page":
        data = b"<html>login</html>"
    elif k == "corrupt":
        at = len(data) * f.get("frac", 1) // 4
        data = data[:at] + bytes([data[at] ^ 1]) + data[at + 1:] if data else b"x"
    length = len(data)
    if k in ("reset", "stall", "truncate", "cut"):
        data = data[:length * f.get("frac", 1) // 4]
        if k == "reset":
            fail = ConnectionResetError("simulated: connection reset")
        elif k == "stall":
            fail = socket.timeout("simulated: read timed out")
    if k == "slow":
        piece = max(3, len(data) // 500)
    if k != "cut" and not (f and f.get("nolen") and k in ("corrupt", "slow", "page")):
        headers["Content-Length"] = str(length)
    resp = urllib3.HTTPResponse(body=Body(data, fail, piece, proc), headers=headers, status=status, preload_content=False, enforce_content_length=True, request_method=request.method)
    return self.build_response(request, resp)


def install():
    requests.adapters.HTTPAdapter.send = _send

    def no(*a, **k):
        raise OSError("simulated: no real network")
    real_connect = socket.socket.connect

    def connect(self, addr):
        if self.family == getattr(socket, "AF_UNIX", None):
            return real_connect(self, addr)
        no()
    socket.socket.connect = connect


def mount(n):
    global NET
    NET = n
    return n


def unmount():
    global NET
    NET = None
