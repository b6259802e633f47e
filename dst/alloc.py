"""Allocation failures: while armed, the n-th tensor-building call made by the library raises MemoryError."""
import functools
import sys

import torch

from .core import DHG

_state = {"armed": None, "n": 0, "fired": 0}
_installed = False


class SimOOM(MemoryError):
    pass


def _wrap(fn):
    @functools.wraps(fn)
    def w(*a, **k):
        if _state["armed"] is not None and sys._getframe(1).f_code.co_filename.startswith(DHG):
            _state["n"] += 1
            if _state["n"] == _state["armed"]:
                _state["fired"] += 1
                raise SimOOM("simulated: out of memory")
        return fn(*a, **k)
    return w


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name in ("sparse_coo_tensor", "tensor", "Tensor", "cat", "hstack", "vstack", "arange", "ones", "zeros", "stack", "mm", "cdist", "topk"):
        if name == "Tensor":
            continue
        setattr(torch, name, _wrap(getattr(torch, name)))
    for name in ("mm", "sum", "softmax"):
        setattr(torch.sparse, name, _wrap(getattr(torch.sparse, name)))
    for name in ("coalesce", "mm", "clone", "to_dense", "t", "repeat"):
        setattr(torch.Tensor, name, _wrap(getattr(torch.Tensor, name)))


class oom_at:
    """with oom_at(n): the n-th allocation inside fails; .fired tells whether it did."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        _state.update(armed=self.n, n=0, fired=0)
        return self

    def __exit__(self, *a):
        self.fired, self.seen = _state["fired"], _state["n"]
        _state.update(armed=None)
        return False
