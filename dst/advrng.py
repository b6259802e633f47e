"""Adversarial random source: every draw of `random`, `numpy.random` and `torch` is answered from one stream of 64-bit words that the plan controls.

The stream starts with a finite prefix of moves (zeros, ones, halves, repeats, smallest step, fair words) and is fair and seeded after it."""
import ctypes
import random
import sys
import threading

import numpy as np
import torch

from .core import Budget

M64 = (1 << 64) - 1
MOVES = {"z": 0, "m": M64, "h": 1 << 63, "e": 1 << 11, "H": (1 << 63) - 1, "t": M64 // 3}


def gen_prefix(rng, longest=400):
    """Moves, run-length coded: [[move, count], ...]; a number is a literal word."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        mv = rng.choice(["z", "z", "m", "m", "h", "e", "H", "t", "f", "r", rng.getrandbits(64)])
        out.append([mv, rng.choice([1, 1, 2, 3, 5, 8, 20, 60, longest])])
    return out


class Source:
    def __init__(self, prefix, seed, budget=200000):
        self.runs, self.fair, self.budget = [list(r) for r in prefix], random.Random(seed), budget
        self.last, self.n, self.forced, self.over = self.fair.getrandbits(64), 0, 0, False
        self.tn = 0

    def u64(self, quiet=False):
        self.n += 1
        if self.n > self.budget:
            self.over = True
            if not quiet:
                raise Budget(f"more than {self.budget} draws from the random source, which has been fair for most of them")
        while self.runs and self.runs[0][1] <= 0:
            self.runs.pop(0)
        if self.runs:
            self.runs[0][1] -= 1
            mv = self.runs[0][0]
            self.forced += 1
            w = self.fair.getrandbits(64) if mv == "f" else self.last if mv == "r" else MOVES[mv] if isinstance(mv, str) else int(mv)
        else:
            w = self.fair.getrandbits(64)
        self.last = w
        return w


class AdvRandom(random.Random):
    src = None

    def random(self):
        return (self.src.u64() >> 11) * 2.0 ** -53

    def getrandbits(self, k):
        if k < 0:
            raise ValueError("number of bits must be non-negative")
        if k <= 64:
            return self.src.u64() >> (64 - k) if k else 0
        v = 0
        for _ in range((k + 63) // 64):
            v = v << 64 | self.src.u64()
        return v >> (-k % 64)

    def seed(self, *a, **k):
        pass


# ------------------------------------------------------------------ numpy: a bit generator made of callbacks
class _BitgenT(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", ctypes.c_void_p), ("next_uint32", ctypes.c_void_p), ("next_double", ctypes.c_void_p), ("next_raw", ctypes.c_void_p)]


_F64, _F32, _FD = (ctypes.CFUNCTYPE(t, ctypes.c_void_p) for t in (ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double))


class AdvBits:
    """Duck-typed numpy BitGenerator."""

    def __init__(self, src):
        self.lock = threading.Lock()
        self._cb = (_F64(lambda s: src.u64(True)), _F32(lambda s: src.u64(True) >> 32), _FD(lambda s: (src.u64(True) >> 11) * 2.0 ** -53), _F64(lambda s: src.u64(True)))
        self._b = _BitgenT(None, *[ctypes.cast(c, ctypes.c_void_p) for c in self._cb])
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._name = ctypes.c_char_p(b"BitGenerator")
        self.capsule = new(ctypes.addressof(self._b), self._name, None)

    def _legacy_seeding(self, seed):
        pass

    @property
    def state(self):
        return {"bit_generator": "Adv"}

    @state.setter
    def state(self, v):
        pass


def _swap(mapping):
    """Replace objects by identity in every loaded dhg module and in the three generator modules' own namespaces."""
    for name, mod in list(sys.modules.items()):
        if mod is not None and (name == "dhg" or name.startswith("dhg.")):
            for k, v in list(vars(mod).items()):
                try:
                    if v in mapping:
                        setattr(mod, k, mapping[v])
                except TypeError:
                    pass


def install(src):
    """From here on (in this process) `src` answers every draw. Returns src."""
    mapping = {}
    adv = AdvRandom()
    adv.src = src
    old = random._inst
    for k, v in list(vars(random).items()):
        if getattr(v, "__self__", None) is old and hasattr(adv, getattr(v, "__name__", k)):
            new = getattr(adv, v.__name__)
            mapping[v] = new
            setattr(random, k, new)
    random._inst = adv
    rs = np.random.RandomState(AdvBits(src))
    oldr = np.random.mtrand._rand
    for k, v in list(vars(np.random).items()):
        if getattr(v, "__self__", None) is oldr and k not in ("get_state", "set_state", "seed", "get_bit_generator"):
            new = getattr(rs, v.__name__)
            try:
                mapping[v] = new
            except TypeError:
                pass
            setattr(np.random, k, new)
    np.random.mtrand._rand = rs

    def size_of(a, k):
        if len(a) == 1 and isinstance(a[0], (tuple, list, torch.Size)):
            a = a[0]
        return tuple(int(x) for x in (k.get("size") if not a else a) or ())

    def u(shape, dtype=None):
        n = int(np.prod(shape)) if shape else 1
        x = torch.from_numpy(np.array([(src.u64() >> 40) * 2.0 ** -24 for _ in range(n)], dtype=np.float32))
        src.tn += n
        return x.reshape(shape) if dtype is None else x.reshape(shape).to(dtype)

    def rand(*a, **k):
        return u(size_of(a, k), k.get("dtype"))

    def rand_like(x, **k):
        return u(tuple(x.shape), k.get("dtype") or (x.dtype if x.dtype.is_floating_point else None))

    def bernoulli(p, *a, **k):
        if a or "p" in k:
            q = a[0] if a else k["p"]
            return (u(tuple(p.shape)) < q).to(p.dtype)
        return (u(tuple(p.shape)) < p.float()).to(p.dtype)

    def bernoulli_(self, p=0.5, **k):
        return self.copy_((u(tuple(self.shape)) < p).to(self.dtype))

    def uniform_(self, lo=0.0, hi=1.0, **k):
        return self.copy_(u(tuple(self.shape)) * (hi - lo) + lo)

    def randint(lo, hi=None, size=None, **k):
        if size is None and not isinstance(hi, int):
            lo, hi, size = 0, lo, hi
        return torch.tensor([lo + adv._randbelow(hi - lo) for _ in range(int(np.prod(size)))], dtype=torch.long).reshape(tuple(size))

    def randperm(n, **k):
        x = list(range(n))
        adv.shuffle(x)
        return torch.tensor(x, dtype=torch.long)
    for k, f in dict(rand=rand, rand_like=rand_like, bernoulli=bernoulli, randint=randint, randperm=randperm).items():
        mapping[getattr(torch, k)] = f
        setattr(torch, k, f)
    torch.Tensor.bernoulli_ = bernoulli_
    torch.Tensor.bernoulli = bernoulli
    torch.Tensor.uniform_ = uniform_
    _swap(mapping)
    return src
