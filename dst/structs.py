"""Random edits and queries on the four structures, applied to the real object and to its reference model."""
import numpy as np
import torch

from .core import Violation
from .refmodel import MERGE, RBiGraph, RDiGraph, RGraph, RHypergraph, inv, propagate

KINDS = ["Graph", "DiGraph", "BiGraph", "Hypergraph"]
WS = [0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 1, 2, 3, 0.1, 0.0137, 7.7]  # whole numbers too


def allow_zero():
    """Called by checks whose structures may hold edges of weight zero, which are edges all the same."""
    if 0.0 not in WS:
        WS.insert(0, 0.0)


BIG = 0.0


def sizes(p):
    """Called by checks some of whose structures (a share `p`) are larger."""
    global BIG
    BIG = p


GROUPS = ["main", "g1", "g2"]


# ------------------------------------------------------------------ generation
def gen_edges(rng, kind, size, k=None, selfloops=True):
    if k is None:
        k = rng.choice([1, 1, 2, 3, 5] if size[0] <= 8 else [1, 2, 9, 20, size[0]])
    out = []
    for _ in range(k):
        if kind == "BiGraph":
            out.append([rng.randrange(size[0]), rng.randrange(size[1])])
        elif kind == "Hypergraph":
            n = size[0]
            m = rng.choice([1, 2, 2, 3, 3, 4, n if n <= 8 or rng.random() < 0.03 else 7])
            out.append(rng.sample(range(n), min(m, n)))
        else:
            n = size[0]
            s = rng.randrange(n)
            d = s if selfloops and rng.random() < 0.12 else rng.randrange(n)
            out.append([s, d])
    return out


def gen_new(rng, kind=None):
    """Constructor spec of a random structure."""
    kind = kind or rng.choice(KINDS)
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    size = [n, rng.choice([1, 2, 3, 4, 6])] if kind == "BiGraph" else [n]
    big = BIG and rng.random() < BIG
    if big:
        n = rng.choice([10, 12, 17, 20, 33, 40, 65, 101, 130, 260])
        size = [n, rng.choice([2, 11, 35, 70, 129])] if kind == "BiGraph" else [n]
    spec = dict(kind=kind, size=size, edges=None, weights=None, op="mean", extra=False, vw=None)
    if rng.random() < 0.8:
        spec["edges"] = gen_edges(rng, kind, size, k=rng.choice([1, 2, 3, 4, 6, 8]))
        if big:
            spec["edges"] = gen_edges(rng, kind, size, k=rng.choice([3, 12, n, n, 2 * n, 3 * n]))
        if rng.random() < 0.5:
            spec["weights"] = [rng.choice(WS) for _ in spec["edges"]]
        spec["op"] = rng.choice(list(MERGE))
    if kind in ("Graph", "DiGraph"):
        spec["extra"] = rng.random() < 0.3
    if kind == "Hypergraph" and rng.random() < 0.4:
        spec["vw"] = [rng.choice(WS) for _ in range(n)]
    return spec


def gen_edit(rng, spec, bad=0.0):
    """A random edit; with probability `bad`, one that must be rejected."""
    kind, size = spec["kind"], spec["size"]
    if rng.random() < bad:
        e = gen_edges(rng, kind, size)
        if kind == "Hypergraph":
            c = rng.choice(["wlen", "wtype", "wmid", "opmid", "rmgroup"])
            return dict(t="bad", c=c, edges=e, group=rng.choice(GROUPS))
        c = rng.choice(["range", "op", "rmrange", "wlen", "wmid", "wmid"])
        v = size[0] if rng.random() < 0.5 or kind != "BiGraph" else None
        pos = rng.randrange(len(e) + 1)
        be = [size[0], rng.randrange(size[-1])] if v is not None else [rng.randrange(size[0]), size[1]]
        if kind != "BiGraph" and rng.random() < 0.5:
            be = be[::-1]
        return dict(t="bad", c=c, edges=e[:pos] + [be] + e[pos:] if c in ("range", "rmrange") else e, pick=[rng.randrange(64), rng.randrange(64)], more=rng.random() < 0.5)
    r = rng.random()
    if kind == "Hypergraph":
        g = rng.choice(GROUPS)
        if r < 0.5:
            e = gen_edges(rng, kind, size)
            w = [rng.choice(WS) for _ in e] if rng.random() < 0.5 else None
            return dict(t="add", edges=e, weights=w, op=rng.choice(list(MERGE)), group=g, form=rng.choice(["list", "list", "tuple", "single", "scalar"]))
        if r < 0.85:
            return dict(t="remove", pick=[rng.randrange(64) for _ in range(rng.choice([1, 1, 2, 3]))], edges=gen_edges(rng, kind, size, k=rng.choice([0, 0, 1])),
                        group=rng.choice([None, g, g]), rev=rng.random() < 0.5)
        if r < 0.93:
            return dict(t="remove_group", group=g)
        if r < 0.96:
            return dict(t="clear")
        return dict(t="to")
    if r < 0.45:
        e = gen_edges(rng, kind, size)
        w = [rng.choice(WS) for _ in e] if rng.random() < 0.5 else None
        return dict(t="add", edges=e, weights=w, op=rng.choice(list(MERGE)), form=rng.choice(["list", "list", "tuple", "single"]))
    if r < 0.72:
        return dict(t="remove", pick=[rng.randrange(64) for _ in range(rng.choice([1, 1, 2, 3]))], edges=gen_edges(rng, kind, size, k=rng.choice([0, 0, 1])),
                    rev=rng.random() < 0.5, form=rng.choice(["list", "list", "single"]))
    if r < 0.76:
        return dict(t="clear")
    if r < 0.8:
        return dict(t="to")
    if kind == "BiGraph":
        return dict(t="add", edges=gen_edges(rng, kind, size), weights=None, op="mean", form="list")
    c = ["add_extra_selfloop", "remove_extra_selfloop", "remove_selfloop"]
    if kind == "DiGraph":
        c += ["reverse"] * 2
    return dict(t=rng.choice(c))


# ------------------------------------------------------------------ application
def build(spec):
    """(real structure, model) from a constructor spec."""
    import dhg
    kind, size, e, w = spec["kind"], spec["size"], spec["edges"], spec["weights"]
    ee = [tuple(x) for x in e] if e is not None else None
    ww = list(w) if w is not None else None
    if kind in ("Graph", "DiGraph"):
        g = getattr(dhg, kind)(size[0], ee, ww, extra_selfloop=spec["extra"], merge_op=spec["op"])
        m = (RGraph if kind == "Graph" else RDiGraph)(size[0], spec["extra"])
        m.add(e or [], w, spec["op"])
    elif kind == "BiGraph":
        g = dhg.BiGraph(size[0], size[1], ee, ww, merge_op=spec["op"])
        m = RBiGraph(size[0], size[1])
        m.add(e or [], w, spec["op"])
    else:
        vw = list(spec["vw"]) if spec["vw"] is not None else None
        g = dhg.Hypergraph(size[0], [list(x) for x in e] if e is not None else None, ww, vw, merge_op=spec["op"])
        m = RHypergraph(size[0], spec["vw"])
        m.add(e or [], w, spec["op"], "main")
    return g, m


def _existing(m, op):
    """Edges to remove: some existing ones (picked by index) and some arbitrary ones."""
    if isinstance(m, RHypergraph):
        pool = [e for e, _ in m.edges(op.get("group") if op.get("group") in m.G else None)]
    else:
        pool = sorted({(s, d) for s, d, _ in m.edges()})
    out = [list(pool[i % len(pool)]) for i in op["pick"]] if pool else []
    out += [list(e) for e in op["edges"]]
    if op.get("rev"):
        if isinstance(m, RHypergraph) or m.kind == "Graph":
            out = [e[::-1] for e in out]
    return out


def apply_edit(g, m, op):
    """Apply one edit to both sides; returns a short description. Rejected edits must raise and change nothing."""
    t = op["t"]
    hyper = isinstance(m, RHypergraph)
    if t == "add":
        edges, w = op["edges"], op["weights"]
        if op["form"] == "single":
            edges, w = edges[:1], w[:1] if w else None
            arg = tuple(edges[0]) if op["op"] == "sum" else list(edges[0])
            warg = w[0] if w else None
        elif op["form"] == "scalar" and w:
            w = [w[0]] * len(edges)
            arg, warg = [list(e) for e in edges], w[0]
        else:
            arg = [tuple(e) for e in edges] if op["form"] == "tuple" else [list(e) for e in edges]
            if hyper and op["form"] == "tuple":
                arg = tuple(arg)
            warg = list(w) if w else None
        if hyper:
            g.add_hyperedges(arg, warg, merge_op=op["op"], group_name=op["group"])
            m.add(edges, w, op["op"], op["group"])
        else:
            g.add_edges(arg, warg, merge_op=op["op"])
            m.add(edges, w, op["op"])
    elif t == "remove":
        edges = _existing(m, op)
        if not edges:
            return "nothing to remove"
        if hyper:
            grp = op["group"]
            if grp is not None and grp not in m.G:
                return "no such group"
            g.remove_hyperedges([list(e) for e in edges], group_name=grp)
            m.remove(edges, grp)
        else:
            if op.get("form") == "single":
                edges = edges[:1]
                g.remove_edges(list(edges[0]))
            else:
                g.remove_edges([tuple(e) for e in edges])
            m.remove(edges)
    elif t == "bad":
        apply_bad(g, m, op)
    elif t == "remove_group":
        g.remove_group(op["group"])
        m.remove_group(op["group"])
    elif t == "clear":
        g.clear()
        m.clear()
    elif t == "to":
        r = g.to(torch.device("cpu"))
        if r is not g:
            raise Violation("to-not-self", type(r))
    elif t == "add_extra_selfloop":
        g.add_extra_selfloop()
        m.extra = True
    elif t == "remove_extra_selfloop":
        g.remove_extra_selfloop()
        m.extra = False
    elif t == "remove_selfloop":
        g.remove_selfloop()
        m.remove_selfloop()
    elif t == "reverse":
        g.reverse_direction()
        m.reverse()
    else:
        raise AssertionError(t)
    return t


def apply_bad(g, m, op):
    """An edit the library documents as invalid: it must raise. (The caller checks that nothing changed.)"""
    c, edges = op["c"], [list(e) for e in op["edges"]]
    try:
        if c == "range":
            g.add_edges(edges, None)
        elif c == "op":
            g.add_edges(edges, None, merge_op="median")
        elif c == "rmrange":
            g.remove_edges(edges)
        elif c == "wlen" and m.kind != "Hypergraph":
            if len(edges) == 1 and not op["more"]:
                edges = edges * 2
            g.add_edges(edges, [1.0] * (len(edges) + (1 if op["more"] else -1)))
        elif c == "wmid" and m.kind != "Hypergraph":
            # new edges, then one that is there already with a weight that is no number
            pool = sorted({(s, d) for s, d, _ in m.edges()})
            edges += [list(pool[i % len(pool)]) for i in op["pick"]] if pool else []
            g.add_edges(edges + edges[:1], [1.0] * len(edges) + ["heavy"])
        elif c == "wlen":
            g.add_hyperedges(edges, [1.0] * (len(edges) + 1), group_name=op["group"])
        elif c == "wtype":
            g.add_hyperedges(edges, "heavy", group_name=op["group"])
        elif c == "wmid":
            g.add_hyperedges(edges, [1.0] * (len(edges) - 1) + ["heavy"], group_name=op["group"])
        elif c == "opmid":
            ex = [list(e) for e, _ in m.edges(op["group"])] if op["group"] in m.G else []
            if not ex:
                return
            g.add_hyperedges(edges + ex[:1], None, merge_op="median", group_name=op["group"])
        elif c == "rmgroup":
            g.remove_hyperedges(edges, group_name="no such group")
    except Exception:
        return
    raise Violation("invalid-edit-accepted", f"{m.kind} {op}")


# ------------------------------------------------------------------ views
def X_of(n, seed, d=None):
    d = (3, 3, 3, 1, 2, 5)[seed % 6] if d is None else d
    r = np.random.RandomState(seed % (2 ** 31))
    return r.randint(-8, 9, size=(n, d)).astype(np.float64) / 4.0


AGGR = ["mean", "sum", "softmax_then_sum"]


def gen_view(rng, spec):
    kind, size = spec["kind"], spec["size"]
    xs = rng.randrange(1 << 30)
    ag = rng.choice(AGGR)
    if kind == "Graph":
        base = ["e", "num_e", "num_v", "v", "e_both_side", "deg_v", "A", "D_v", "D_v_neg_1", "D_v_neg_1_2", "triples", "L", "L_sym", "L_rw", "L_GCN", "repr", "state_dict", "vars"]
        par = [["nbr_v", rng.randrange(size[0]), rng.choice([1, 1, 2, 3])], ["N_v", rng.randrange(size[0]), rng.choice([1, 2])], ["gcn", xs],
               ["smooth", xs, rng.choice(["L", "L_sym", "L_rw", "L_GCN"])], ["v2v", ag, xs, False], ["v2v", ag, xs, True]]
    elif kind == "DiGraph":
        base = ["e", "num_e", "num_v", "v", "deg_v_in", "deg_v_out", "A", "A_T", "D_v_in", "D_v_out", "D_v_in_neg_1", "D_v_out_neg_1", "triples", "repr", "state_dict", "vars"]
        v = rng.randrange(size[0])
        par = [["nbr_v_in", v], ["nbr_v_out", v], ["N_v_in", v], ["N_v_out", v]] + \
              [["v2v", ag, xs, w, d] for w in (False, True) for d in ("dst2src", "src2dst")]
    elif kind == "BiGraph":
        base = ["e", "num_e", "num_v", "num_u", "u", "v", "deg_u", "deg_v", "A", "B", "B_T", "D_u", "D_v", "D_u_neg_1", "D_v_neg_1", "triples", "L_GCN", "repr", "state_dict", "vars"]
        par = [["nbr_v", rng.randrange(size[0])], ["nbr_u", rng.randrange(size[1])], ["gcn", xs]] + \
              [[d, ag, xs, w] for w in (False, True) for d in ("u2v", "v2u")]
    else:
        base = ["e", "num_e", "num_v", "v", "v_weight", "group_names", "num_groups", "deg_v", "deg_e", "H", "H_T", "W_v", "W_e", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1",
                "triples", "L_sym", "L_rw", "L_HGNN", "repr", "state_dict", "vars"]
        g = rng.choice(GROUPS)
        grp = ["e", "num_e", "deg_v", "deg_e", "H", "H_T", "W_e", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_sym", "L_rw", "L_HGNN", "triples"]
        par = [["nbr_e", rng.randrange(size[0])], ["nbr_v", rng.randrange(64)], ["hgnn", xs], ["smooth", xs, rng.choice(["L_sym", "L_rw", "L_HGNN"])]]
        par += [[d, ag, xs, w] for d in ("v2e", "e2v", "v2v") for w in (False, True)]
        par += [["v2v", ag, xs, rng.random() < 0.5, rng.choice(AGGR)], ["@", g, "v2v", ag, xs, rng.random() < 0.5, rng.choice(AGGR)]]
        par += [[d, ag, xs, w] for d in ("v2e_aggregation", "e2v_aggregation") for w in (False, True)]
        par += [[d, ag, xs, w] for d in ("v2e_update", "e2v_update") for w in (False, True)]
        par += [["@", g, d, ag, xs, w] for d in ("v2e_aggregation", "e2v_aggregation", "v2e_update", "e2v_update") for w in (False, True)]
        par += [["@", g, x] for x in rng.sample(grp, 4)]
        par += [["@", g, "nbr_e", rng.randrange(size[0])], ["@", g, "nbr_v", rng.randrange(64)], ["@", g, "hgnn", xs]]
        par += [["@", g, d, ag, xs, w] for d in ("v2e", "e2v", "v2v") for w in (False, True)]
    if rng.random() < 0.55:
        return [rng.choice(base)]
    return rng.choice(par)


def all_views(rng, spec):
    """Every parameterless view once, and a sample of the parameterised ones (for audits)."""
    kind, size = spec["kind"], spec["size"]
    seen, out = set(), []
    for _ in range(60 if kind == "Hypergraph" else 40):
        v = gen_view(rng, spec)
        k = repr(v[:3] if v[0] == "@" else v[:1] + [x for x in v[1:] if isinstance(x, str)])
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def dense(t):
    if t.is_sparse:
        t = t.to_dense()
    return t.detach().cpu().double().numpy()


def T(x):
    """The tensor a caller passes: in either memory layout, sometimes part of a gradient computation."""
    x = np.asarray(x)
    k = int(np.abs(x).sum() * 4) if x.ndim == 2 else 0
    t = torch.tensor(x.T.copy(), dtype=torch.float32).t() if k % 3 == 1 else torch.tensor(x, dtype=torch.float32)
    return t.requires_grad_() if k % 4 == 2 else t


def edges_of(g, m, group=None):
    """The real structure's own edge order (hyperedges)."""
    e, w = g.e if group is None else g.e_of_group(group)
    return [tuple(int(v) for v in x) for x in e], [float(x) for x in w]


def rnd_w(n, seed):
    r = np.random.RandomState((seed * 7 + 1) % (2 ** 31))
    return r.randint(1, 9, size=n).astype(np.float64) / 4.0


def close(a, b, rtol=2e-4, atol=2e-5):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol)


def wedges_close(a, b):
    return len(a) == len(b) and all(x[:-1] == y[:-1] and abs(x[-1] - y[-1]) <= 1e-6 * (1 + abs(y[-1])) for x, y in zip(a, b))


def observe(g, m, view):
    """Read one view. Returns (observed, expected) in comparable form, or None when the view does not apply."""
    name = view[0]
    if name == "vars":
        # every variable named as available can be read, for the whole structure
        names = g.vars_for_DL
        missing = [x for x in names if not isinstance(x, str) or not isinstance(getattr(g, x, None), torch.Tensor)]
        return ("eq", (missing, len(set(names))), ([], len(names)))
    if isinstance(m, RHypergraph):
        return _obs_hyper(g, m, view)
    if isinstance(m, RBiGraph):
        return _obs_bi(g, m, view)
    n = m.n
    if name == "e":
        e, w = g.e
        obs = [(int(s), int(d), float(x)) for (s, d), x in zip(e, w)]
        if not m.directed:
            obs = [(s, d, x) if s <= d else (d, s, x) for s, d, x in obs]
        return ("wedges", sorted(obs) if len(e) == len(w) else "lists of different length", m.edges())
    if name == "e_both_side":
        e, w = g.e_both_side
        exp = m.edges() + [(d, s, x) for (s, d), x in m.E.items()]
        return ("wedges", sorted((int(s), int(d), float(x)) for (s, d), x in zip(e, w)), sorted(exp))
    if name == "num_e":
        return ("eq", g.num_e, m.num_e)
    if name == "num_v":
        return ("eq", g.num_v, n)
    if name == "v":
        return ("eq", list(g.v), list(range(n)))
    if name == "repr":
        r = repr(g)
        return ("eq", (str(n) in r, str(m.num_e) in r), (True, True))
    if name == "state_dict":
        sd = g.state_dict
        obs = (sd["num_v"], sorted(dict(sd["raw_e_dict"]).items()), sorted(dict(sd["raw_selfloop_dict"]).items()), sd["has_extra_selfloop"])
        return ("eq", obs, (n, sorted(m.E.items()), sorted(m.S.items()), m.extra))
    A, K = m.A(), m.links()
    if name == "triples":
        obs = sorted(zip(g.e_src.tolist(), g.e_dst.tolist(), g.e_weight.tolist()))
        exp = sorted((i, j, float(A[i, j])) for i in range(n) for j in range(n) if K[i, j])
        return ("wedges", obs, exp)
    if name in ("v2v",):
        X = X_of(n, view[2])
        kw = {}
        if m.directed:
            kw["direction"] = view[4]
        if view[3]:
            s, d = g.e_src.tolist(), g.e_dst.tolist()
            w = rnd_w(len(s), view[2])
            P = np.zeros((n, n))
            for i, j, x in zip(s, d, w):
                P[i, j] = x
            if not m.directed:
                P = P.T
            mask = K
            if set(zip(s, d)) != {(i, j) for i in range(n) for j in range(n) if K[i, j]}:
                return ("eq", "message paths " + repr(sorted(zip(s, d))), "paths of the adjacency")
            kw["e_weight"] = T(w)
        else:
            P, mask = A, K
        if m.directed and view[4] == "src2dst":
            P, mask = P.T, mask.T
        if not m.num_e and view[1] == "softmax_then_sum":
            pass
        return ("arr", dense(g.v2v(T(X), aggr=view[1], **kw)), propagate(P, mask, X, view[1]))
    if name == "smooth":
        X = X_of(n, view[1])
        lam = 0.5
        return ("arr", dense(g.smoothing(T(X), getattr(g, view[2]), lam)), X + lam * getattr(m, view[2])() @ X)
    if name == "gcn":
        X = X_of(n, view[1])
        return ("arr", dense(g.smoothing_with_GCN(T(X))), m.L_GCN() @ X)
    if not m.directed:
        if name == "deg_v":
            return ("arr", g.deg_v, A.sum(1))
        if name in ("nbr_v", "N_v"):
            r = g.nbr_v(view[1], view[2]) if name == "nbr_v" else g.N_v(view[1], view[2]).tolist()
            return ("eq", sorted(r), m.nbr(view[1], view[2]))
        exp = {"A": lambda: A, "D_v": lambda: np.diag(A.sum(1)), "D_v_neg_1": lambda: np.diag(inv(A.sum(1), -1)), "D_v_neg_1_2": lambda: np.diag(inv(A.sum(1), -0.5)),
               "L": m.L, "L_sym": m.L_sym, "L_rw": m.L_rw, "L_GCN": m.L_GCN}[name]
        return ("arr", dense(getattr(g, name)), exp())
    if name in ("deg_v_in", "deg_v_out"):
        return ("arr", getattr(g, name), A.sum(0) if name == "deg_v_in" else A.sum(1))
    if name in ("nbr_v_in", "nbr_v_out", "N_v_in", "N_v_out"):
        r = getattr(g, name)(view[1])
        r = r.tolist() if name[0] == "N" else r
        col = K[:, view[1]] if name.endswith("in") else K[view[1]]
        return ("eq", sorted(r), np.nonzero(col)[0].tolist())
    exp = {"A": A, "A_T": A.T, "D_v_in": np.diag(A.sum(0)), "D_v_out": np.diag(A.sum(1)), "D_v_in_neg_1": np.diag(inv(A.sum(0), -1)), "D_v_out_neg_1": np.diag(inv(A.sum(1), -1))}[name]
    return ("arr", dense(getattr(g, name)), exp)


def _obs_bi(g, m, view):
    name = view[0]
    B = m.B()
    if name == "e":
        e, w = g.e
        return ("wedges", sorted((int(s), int(d), float(x)) for (s, d), x in zip(e, w)) if len(e) == len(w) else "lists of different length", m.edges())
    if name == "num_e":
        return ("eq", g.num_e, m.num_e)
    if name in ("num_u", "num_v"):
        return ("eq", getattr(g, name), m.nu if name == "num_u" else m.nv)
    if name in ("u", "v"):
        return ("eq", list(getattr(g, name)), list(range(m.nu if name == "u" else m.nv)))
    if name == "repr":
        r = repr(g)
        return ("eq", (str(m.nu) in r, str(m.nv) in r, str(m.num_e) in r), (True, True, True))
    if name == "state_dict":
        sd = g.state_dict
        return ("eq", (sd["num_u"], sd["num_v"], sorted(dict(sd["raw_e_dict"]).items())), (m.nu, m.nv, sorted(m.E.items())))
    if name in ("deg_u", "deg_v"):
        return ("arr", getattr(g, name), B.sum(1) if name == "deg_u" else B.sum(0))
    if name == "nbr_v":
        return ("eq", sorted(g.nbr_v(view[1])), np.nonzero(m.links()[view[1]])[0].tolist()) if view[1] < m.nu else None
    if name == "nbr_u":
        return ("eq", sorted(g.nbr_u(view[1])), np.nonzero(m.links()[:, view[1]])[0].tolist()) if view[1] < m.nv else None
    if name == "triples":
        obs = sorted(zip(g.e_u.tolist(), g.e_v.tolist(), g.e_weight.tolist()))
        return ("wedges", obs, sorted((u, v, float(w)) for (u, v), w in m.E.items()))
    if name == "gcn":
        X = X_of(m.nu + m.nv, view[1])
        return ("arr", dense(g.smoothing_with_GCN(T(X))), m.L_GCN() @ X)
    if name in ("u2v", "v2u"):
        X = X_of(m.nu if name == "u2v" else m.nv, view[2])
        kw, P = {}, B
        if view[3]:
            u, v = g.e_u.tolist(), g.e_v.tolist()
            if sorted(zip(u, v)) != sorted(m.E):
                return ("eq", "message paths " + repr(sorted(zip(u, v))), "paths of the bipartite adjacency")
            w = rnd_w(len(u), view[2])
            P = np.zeros_like(B)
            for i, j, x in zip(u, v, w):
                P[i, j] = x
            kw["e_weight"] = T(w)
        mask = m.links()
        if name == "u2v":
            P, mask = P.T, mask.T
        return ("arr", dense(getattr(g, name)(T(X), aggr=view[1], **kw)), propagate(P, mask, X, view[1]))
    exp = {"A": m.A, "B": lambda: B, "B_T": lambda: B.T, "D_u": lambda: np.diag(B.sum(1)), "D_v": lambda: np.diag(B.sum(0)), "D_u_neg_1": lambda: np.diag(inv(B.sum(1), -1)),
           "D_v_neg_1": lambda: np.diag(inv(B.sum(0), -1)), "L_GCN": m.L_GCN}[name]
    return ("arr", dense(getattr(g, name)), exp())


def _obs_hyper(g, m, view):
    name, group = view[0], None
    sfx = ""
    if name == "@":
        group, view = view[1], view[2:]
        name, sfx = view[0], "_of_group"
        if group not in m.G:
            return None
    elif name in ("num_v", "v", "v_weight", "group_names", "num_groups", "num_e", "repr", "state_dict", "W_v", "e"):
        if name == "num_v":
            return ("eq", g.num_v, m.n)
        if name == "v":
            return ("eq", list(g.v), list(range(m.n)))
        if name == "v_weight":
            return ("arr", g.v_weight, m.vw)
        if name == "W_v":
            return ("arr", dense(g.W_v), np.diag(m.vw))
        if name == "group_names":
            return ("eq", sorted(g.group_names), sorted(m.G))
        if name == "num_groups":
            return ("eq", g.num_groups, len(m.G))
        if name == "num_e":
            return ("eq", g.num_e, m.num_e)
        if name == "repr":
            r = repr(g)
            return ("eq", (str(m.n) in r, str(m.num_e) in r), (True, True))
        if name == "state_dict":
            sd = g.state_dict
            obs = sorted((grp, sorted((c[0], x["w_e"]) for c, x in es.items())) for grp, es in sd["raw_groups"].items())
            return ("eq", (sd["num_v"], obs), (m.n, sorted((grp, sorted(es.items())) for grp, es in m.G.items())))
        e, w = edges_of(g, m)
        return ("wedges", sorted(zip(e, w)), m.edges())
    call = (lambda nm, *a, **k: getattr(g, nm + sfx)(group, *a, **k)) if group is not None else (lambda nm, *a, **k: getattr(g, nm)(*a, **k))
    attr = (lambda nm: getattr(g, nm + sfx)(group)) if group is not None else (lambda nm: getattr(g, nm))
    if name == "num_e":
        return ("eq", attr("num_e"), len(m.G[group]))
    if name == "e":
        e, w = edges_of(g, m, group)
        return ("wedges", sorted(zip(e, w)), m.edges(group))
    # read the view first (its cache path), then the edge order that names its columns
    pre = None
    if name in ("nbr_e", "nbr_v", "v2e", "e2v", "v2v", "hgnn", "smooth", "triples") or name.endswith(("_aggregation", "_update")):
        pass
    else:
        pre = attr(name)
        pre = dense(pre) if isinstance(pre, torch.Tensor) else np.asarray(pre, dtype=np.float64)
    order, w = edges_of(g, m, group)
    if not wedges_close(sorted(zip(order, w)), m.edges(group)):
        return ("wedges", sorted(zip(order, w)), m.edges(group))
    H, wa, de, dv = m.mats(order, w)
    ne = len(order)
    if pre is not None:
        exp = {"deg_v": lambda: dv, "deg_e": lambda: de, "H": lambda: H, "H_T": lambda: H.T, "W_e": lambda: np.diag(wa), "D_v": lambda: np.diag(dv), "D_e": lambda: np.diag(de),
               "D_v_neg_1": lambda: np.diag(inv(dv, -1)), "D_v_neg_1_2": lambda: np.diag(inv(dv, -0.5)), "D_e_neg_1": lambda: np.diag(inv(de, -1)),
               "L_sym": lambda: m.L_sym(order, w), "L_rw": lambda: m.L_rw(order, w), "L_HGNN": lambda: m.L_HGNN(order, w)}[name]()
        exp = np.asarray(exp, dtype=np.float64)
        return ("arr", pre, exp.reshape(pre.shape) if exp.size == 0 == pre.size else exp)
    if name == "nbr_e":
        r = g.nbr_e(view[1]) if group is None else g.nbr_e_of_group(view[1], group)
        return ("eq", sorted(r), [j for j, e in enumerate(order) if view[1] in e])
    if name == "nbr_v":
        if not ne:
            return None
        i = view[1] % ne
        r = g.nbr_v(i) if group is None else g.nbr_v_of_group(i, group)
        return ("eq", sorted(r), sorted(order[i]))
    if name == "triples":
        a = sorted(zip(attr("v2e_src").tolist(), attr("v2e_dst").tolist(), attr("v2e_weight").tolist()))
        b = sorted(zip(attr("e2v_dst").tolist(), attr("e2v_src").tolist(), attr("e2v_weight").tolist()))
        exp = sorted((v, j, 1.0) for j, e in enumerate(order) for v in e)
        return ("eq", (a, b), (exp, exp))
    if name == "hgnn":
        X = X_of(m.n, view[1])
        r = g.smoothing_with_HGNN(T(X)) if group is None else g.smoothing_with_HGNN_of_group(group, T(X))
        return ("arr", dense(r), m.L_HGNN(order, w) @ X)
    if name == "smooth":
        X = X_of(m.n, view[1])
        return ("arr", dense(g.smoothing(T(X), getattr(g, view[2]), 0.5)), X + 0.5 * getattr(m, view[2])(order, w) @ X)
    ag, xs, weighted = view[1], view[2], view[3]
    mask = H != 0

    def paths(kind):
        """random weights on the structure's own message paths"""
        if kind == "v2e":
            v, e = attr("v2e_src").tolist(), attr("v2e_dst").tolist()
        else:
            e, v = attr("e2v_src").tolist(), attr("e2v_dst").tolist()
        x = rnd_w(len(v), xs + (kind == "e2v"))
        P = np.zeros((m.n, ne))
        for i, j, y in zip(v, e, x):
            P[i, j] = y
        return P, T(x)

    kw1, kw2, P1, P2 = {}, {}, H, H
    ew = wa
    if weighted and name in ("v2e", "v2v", "v2e_aggregation"):
        P1, kw1["v2e_weight"] = paths("v2e")
        if xs % 2 and name != "v2e_aggregation":
            ew = rnd_w(ne, xs + 5)
            kw1["e_weight"] = T(ew)
    if weighted and name in ("e2v", "v2v", "e2v_aggregation"):
        P2, kw2["e2v_weight"] = paths("e2v")
    ag1, ag2 = ag, ag
    if name == "v2v" and len(view) > 4:  # the two halves aggregate differently
        ag2 = view[4]
        kw1["v2e_aggr"], kw2["e2v_aggr"] = ag1, ag2
        ag = "mean" if xs % 2 else ag

    def to_e(X):
        return propagate(P1.T, mask.T, X, ag1)

    def to_v(Y):
        # the mean divides by the weighted vertex degree, the sum and softmax act on the incidence itself
        return inv(dv, -1)[:, None] * (H @ Y) if ag2 == "mean" and not weighted else propagate(P2, mask, Y, ag2)

    if name in ("v2e_update", "e2v_update"):
        if name == "e2v_update":
            X = X_of(m.n, xs)
            return ("arr", dense(call("e2v_update", T(X))), X)
        X = X_of(ne, xs)
        if weighted:
            ew = rnd_w(ne, xs + 5)
        return ("arr", dense(call("v2e_update", T(X), **(dict(e_weight=T(ew)) if weighted else {}))), ew[:, None] * X)
    if name in ("v2e", "v2e_aggregation"):
        X = X_of(m.n, xs)
        return ("arr", dense(call(name, T(X), aggr=ag, **kw1)), (ew[:, None] if name == "v2e" else 1.0) * to_e(X))
    if name in ("e2v", "e2v_aggregation"):
        X = X_of(ne, xs)
        return ("arr", dense(call(name, T(X), aggr=ag, **kw2)), to_v(X))
    X = X_of(m.n, xs)
    return ("arr", dense(call("v2v", T(X), aggr=ag, **kw1, **kw2)), to_v(ew[:, None] * to_e(X)))


def equal(kind, obs, exp):
    if kind == "arr":
        return close(obs, exp)
    if kind == "wedges":
        return not isinstance(obs, str) and wedges_close(obs, exp)
    return obs == exp


def vname(view):
    return ".".join(x for x in view if isinstance(x, str) and x not in GROUPS and x not in AGGR)


def check_view(g, m, view, why="view-mismatch"):
    r = observe(g, m, view)
    if r is None:
        return None
    kind, obs, exp = r
    if not equal(kind, obs, exp):
        raise Violation(f"{why}:{m.kind}.{vname(view)}", f"view {view} of {m.state()}: observed {np.array2string(np.asarray(obs), threshold=60) if kind == 'arr' else obs} expected {np.array2string(np.asarray(exp), threshold=60) if kind == 'arr' else exp}")
    return r


def rebuild(m):
    """A newly made real structure with the model's present content."""
    import dhg
    if m.kind == "Hypergraph":
        g = dhg.Hypergraph(m.n, v_weight=list(m.vw))
        for name, es in m.G.items():
            if es:
                g.add_hyperedges([list(e) for e in es], list(es.values()), group_name=name)
            else:
                g.add_hyperedges([[0]], [1.0], group_name=name)
                g.remove_hyperedges([[0]], group_name=name)
        return g
    if m.kind == "BiGraph":
        g = dhg.BiGraph(m.nu, m.nv)
        if m.E:
            g.add_edges([tuple(e) for e in m.E], list(m.E.values()))
        return g
    g = getattr(dhg, m.kind)(m.n, extra_selfloop=m.extra)
    e = list(m.E.items()) + [((v, v), w) for v, w in m.S.items()]
    if e:
        g.add_edges([k for k, _ in e], [w for _, w in e])
    return g
