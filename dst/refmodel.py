"""Executable reference models of the four structures: plain dictionaries plus dense float64 textbook formulas."""
import copy

import numpy as np

MERGE = {"mean": lambda a, b: (a + b) / 2, "sum": lambda a, b: a + b, "max": max}


def inv(d, p):
    d = np.asarray(d, dtype=np.float64)
    out = np.zeros_like(d)
    nz = d != 0
    out[nz] = d[nz] ** p
    return out


def row_softmax(M, mask):
    out = np.zeros_like(M, dtype=np.float64)
    for i in range(M.shape[0]):
        js = np.nonzero(mask[i])[0]
        if len(js):
            x = np.exp(M[i, js] - M[i, js].max())
            out[i, js] = x / x.sum()
    return out


def propagate(M, mask, X, aggr):
    """M: weighted receive matrix; mask: which entries are message paths."""
    if aggr == "sum":
        return M @ X
    if aggr == "mean":
        return inv(M.sum(1), -1)[:, None] * (M @ X)
    return row_softmax(M, mask) @ X


class RGraph:
    kind = "Graph"
    directed = False

    def __init__(self, n, selfloop=False):
        self.n, self.extra = n, selfloop
        self.E, self.S = {}, {}

    def copy(self):
        return copy.deepcopy(self)

    def key(self, s, d):
        return (s, d) if self.directed or s <= d else (d, s)

    def add(self, edges, weights, op):
        for (s, d), w in zip(edges, weights or [1.0] * len(edges)):
            if s == d:
                self.S[s] = MERGE[op](self.S[s], w) if s in self.S else w
            else:
                k = self.key(s, d)
                self.E[k] = MERGE[op](self.E[k], w) if k in self.E else w

    def remove(self, edges):
        for s, d in edges:
            if s == d:
                self.S.pop(s, None)
            else:
                self.E.pop(self.key(s, d), None)

    def remove_selfloop(self):
        self.S.clear()
        self.extra = False

    def clear(self):
        self.E, self.S, self.extra = {}, {}, False

    def edges(self):
        """sorted list of (s, d, w), with the extra self-loops as separate entries"""
        out = [(s, d, w) for (s, d), w in self.E.items()] + [(v, v, w) for v, w in self.S.items()]
        if self.extra:
            out += [(v, v, 1.0) for v in range(self.n)]
        return sorted(out)

    @property
    def num_e(self):
        return len(self.E) + len(self.S) + (self.n if self.extra else 0)

    def A(self, selfloops=True, extra=None):
        A = np.zeros((self.n, self.n))
        for (s, d), w in self.E.items():
            A[s, d] += w
            if not self.directed:
                A[d, s] += w
        if selfloops:
            for v, w in self.S.items():
                A[v, v] += w
            if self.extra if extra is None else extra:
                A += np.eye(self.n)
        return A

    def links(self):
        """which entries of the adjacency are edges, whatever their weight"""
        K = np.zeros((self.n, self.n), dtype=bool)
        for s, d, _ in self.edges():
            K[s, d] = True
            if not self.directed:
                K[d, s] = True
        return K

    def L(self):
        A = self.A(False)
        return np.diag(A.sum(1)) - A

    def L_sym(self):
        A = self.A(False)
        d = inv(A.sum(1), -0.5)
        return np.eye(self.n) - d[:, None] * A * d[None, :]

    def L_rw(self):
        A = self.A(False)
        return np.eye(self.n) - inv(A.sum(1), -1)[:, None] * A

    def L_GCN(self):
        A = self.A(extra=True)
        d = inv(A.sum(1), -0.5)
        return d[:, None] * A * d[None, :]

    def nbr(self, v, hop=1):
        A = self.links().astype(float)
        P = A.copy()
        for _ in range(hop - 1):
            P = ((P @ A) != 0).astype(float)
        return sorted(np.nonzero(P[v])[0].tolist())

    def state(self):
        return (self.kind, self.n, tuple(self.edges()), self.extra, tuple(sorted(self.S.items())))


class RDiGraph(RGraph):
    kind = "DiGraph"
    directed = True

    def reverse(self):
        self.E = {(d, s): w for (s, d), w in self.E.items()}


class RBiGraph:
    kind = "BiGraph"

    def __init__(self, nu, nv):
        self.nu, self.nv, self.E = nu, nv, {}

    def copy(self):
        return copy.deepcopy(self)

    def add(self, edges, weights, op):
        for (s, d), w in zip(edges, weights or [1.0] * len(edges)):
            self.E[(s, d)] = MERGE[op](self.E[(s, d)], w) if (s, d) in self.E else w

    def remove(self, edges):
        for s, d in edges:
            self.E.pop((s, d), None)

    def clear(self):
        self.E = {}

    def switch(self):
        r = RBiGraph(self.nv, self.nu)
        r.E = {(v, u): w for (u, v), w in self.E.items()}
        return r

    def edges(self):
        return sorted((u, v, w) for (u, v), w in self.E.items())

    @property
    def num_e(self):
        return len(self.E)

    def B(self):
        B = np.zeros((self.nu, self.nv))
        for (u, v), w in self.E.items():
            B[u, v] = w
        return B

    def links(self):
        K = np.zeros((self.nu, self.nv), dtype=bool)
        for u, v in self.E:
            K[u, v] = True
        return K

    def A(self):
        B, n = self.B(), self.nu + self.nv
        A = np.zeros((n, n))
        A[:self.nu, self.nu:] = B
        A[self.nu:, :self.nu] = B.T
        return A

    def L_GCN(self):
        A = self.A() + np.eye(self.nu + self.nv)
        d = inv(A.sum(1), -0.5)
        return d[:, None] * A * d[None, :]

    def state(self):
        return (self.kind, self.nu, self.nv, tuple(self.edges()))


class RHypergraph:
    kind = "Hypergraph"

    def __init__(self, n, v_weight=None):
        self.n, self.G = n, {}
        self.vw = list(v_weight) if v_weight is not None else [1.0] * n

    def copy(self):
        return copy.deepcopy(self)

    def add(self, edges, weights, op, group):
        g = self.G.setdefault(group, {}) if edges else self.G.get(group, {})
        for e, w in zip(edges, weights or [1.0] * len(edges)):
            k = tuple(sorted(e))
            g[k] = MERGE[op](g[k], w) if k in g else w

    def remove(self, edges, group):
        for e in edges:
            k = tuple(sorted(e))
            for name in ([group] if group is not None else list(self.G)):
                self.G[name].pop(k, None)

    def remove_group(self, group):
        self.G.pop(group, None)

    def clear(self):
        self.G = {}

    def groups(self, group=None):
        return [group] if group is not None else list(self.G)

    def edges(self, group=None):
        """{group: {edge: weight}} flattened and sorted"""
        return sorted((e, w) for g in self.groups(group) for e, w in self.G[g].items())

    @property
    def num_e(self):
        return sum(len(g) for g in self.G.values())

    def H(self, order):
        H = np.zeros((self.n, len(order)))
        for j, e in enumerate(order):
            for v in e:
                H[v, j] += 1
        return H

    def mats(self, order, weights):
        H, w = self.H(order), np.asarray(weights, dtype=np.float64)
        de = H.sum(0)
        dv = (H * w[None, :]).sum(1)
        return H, w, de, dv

    def L_HGNN(self, order, weights):
        H, w, de, dv = self.mats(order, weights)
        d = inv(dv, -0.5)
        return d[:, None] * (H * (w * inv(de, -1))[None, :]) @ H.T * d[None, :]

    def L_sym(self, order, weights):
        return np.eye(self.n) - self.L_HGNN(order, weights)

    def L_rw(self, order, weights):
        H, w, de, dv = self.mats(order, weights)
        return np.eye(self.n) - inv(dv, -1)[:, None] * (H * (w * inv(de, -1))[None, :]) @ H.T

    def state(self):
        return (self.kind, self.n, tuple((g, tuple(sorted(es.items()))) for g, es in sorted(self.G.items())), tuple(self.vw))
