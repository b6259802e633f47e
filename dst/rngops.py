"""Random operations of the library, as JSON ops over a small set of structures, with exact digests of their results."""
import hashlib
import struct

import numpy as np
import torch

from . import structs as S

UI_MODELS = ["NGCF", "LightGCN", "DHCF"]
G_MODELS = ["GCN", "GraphSAGE", "GAT", "GIN"]
HG_MODELS = ["HGNN", "HGNNP", "HNHN", "HyperGCN", "UniGCN", "UniGAT", "UniSAGE", "UniGIN"]
BI_MODELS = ["BGNN_Adv", "BGNN_MLP"]


# ------------------------------------------------------------------ canonical form of results
def canon(v, h=None):
    top = h is None
    h = h or hashlib.sha256()
    if isinstance(v, torch.Tensor):
        if v.is_sparse:
            v = v.coalesce()
            canon([v.indices(), v.values(), list(v.shape)], h)
        else:
            h.update(f"T{v.dtype}{tuple(v.shape)}".encode() + v.detach().contiguous().cpu().numpy().tobytes())
    elif isinstance(v, np.ndarray):
        h.update(f"N{v.dtype}{v.shape}".encode() + np.ascontiguousarray(v).tobytes())
    elif isinstance(v, dict):
        h.update(b"{")
        for k, x in v.items():
            canon(k, h), canon(x, h)
        h.update(b"}")
    elif isinstance(v, (list, tuple)):
        h.update(b"[")
        for x in v:
            canon(x, h)
        h.update(b"]")
    elif isinstance(v, torch.nn.Module):
        canon({k: x for k, x in v.state_dict().items()}, h)
    elif isinstance(v, (bool, np.bool_)):
        h.update(b"b1" if v else b"b0")
    elif isinstance(v, (int, np.integer)):
        h.update(f"i{int(v)}".encode())
    elif isinstance(v, (float, np.floating)):
        h.update(b"f" + struct.pack("!d", float(v)))
    elif v is None or isinstance(v, str):
        h.update(f"s{v}".encode())
    elif hasattr(v, "e") and hasattr(v, "num_e"):
        h.update(type(v).__name__.encode())
        canon([list(v.e[0]), list(v.e[1]), getattr(v, "num_u", None), v.num_v], h)
        if hasattr(v, "group_names"):
            for n in v.group_names:
                canon([n, list(v.e_of_group(n)[0]), list(v.e_of_group(n)[1])], h)
    else:
        raise TypeError(f"no canonical form for {type(v)}")
    return h.hexdigest()[:16] if top else None


# ------------------------------------------------------------------ generation
def gen_base(rng):
    """Structures a program works on: constructor arguments."""
    n = rng.choice([4, 5, 6, 8])
    nu, nv = rng.choice([2, 3, 4]), rng.choice([4, 5, 7])
    big = rng.random() < 0.08
    if big:
        n, nu, nv = rng.choice([12, 33, 65, 130]), rng.choice([9, 40]), rng.choice([12, 70, 129])
    ws = lambda e: [rng.choice(S.WS) for _ in e]

    def uniq(es, key):
        out = {}
        for e in es:
            out.setdefault(key(e), e)
        return list(out.values())
    K = 2 * n if big else 8
    ge = uniq(S.gen_edges(rng, "Graph", [n], k=K), lambda e: tuple(sorted(e)))
    de = uniq(S.gen_edges(rng, "DiGraph", [n], k=K), tuple)
    be = uniq([[u, rng.randrange(nv)] for u in range(nu)] + S.gen_edges(rng, "BiGraph", [nu, nv], k=K - 2), tuple)
    he = uniq([e for e in S.gen_edges(rng, "Hypergraph", [n], k=K) if len(e) >= 2] + [[0, n - 1]], lambda e: tuple(sorted(e)))
    return dict(n=n, nu=nu, nv=nv, ge=ge, gw=ws(ge), de=de, dw=ws(de), be=be, bw=ws(be), he=he, hw=ws(he), extra=rng.random() < 0.3)


def gen_op(rng, base, names=None):
    n, nu, nv = base["n"], base["nu"], base["nv"]
    t = rng.choice(names or ["graph_Gnp", "graph_Gnp_fast", "graph_Gnm", "digraph_Gnp", "digraph_Gnp_fast", "digraph_Gnm", "bigraph_Gnp", "bigraph_Gnm", "uniform_hypergraph_Gnp",
                             "uniform_hypergraph_Gnm", "hypergraph_Gnm", "hypergraph_Gnm", "normal_features", "drop", "drop", "drop_group", "path_drop", "path_drop", "path_drop",
                             "split_num", "split_ratio", "split_ui_num", "split_ui_ratio", "neg_sample", "triplet", "uidataset", "hypergcn_conv", "model", "model", "model", "layout", "bilayout",
                             "drop_gen", "featvis"])
    p = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9])
    k = rng.choice([2, 3, 4])
    op = dict(t=t)
    m = rng.choice([4, 5, 7, 9])
    big = rng.random() < 0.15
    if big:
        m = rng.choice([13, 20, 33, 60, 130]) if t not in ("uniform_hypergraph_Gnp", "layout") else 14
    if t in ("graph_Gnp", "graph_Gnp_fast", "digraph_Gnp", "digraph_Gnp_fast"):
        op.update(n=m, p=p)
    elif t in ("graph_Gnm", "digraph_Gnm"):
        op.update(n=m, m=rng.randrange(1, m * (m - 1) // 2))
    elif t == "bigraph_Gnp":
        op.update(u=m, n=5, p=p)
    elif t == "bigraph_Gnm":
        op.update(u=m, n=5, m=rng.randrange(1, 5 * m))
    elif t == "uniform_hypergraph_Gnp":
        op.update(k=k, n=m, p=p)
    elif t == "uniform_hypergraph_Gnm":
        op.update(k=k, n=m + 1, m=rng.randrange(1, 5))
    elif t == "hypergraph_Gnm":
        op.update(n=m, m=rng.randrange(1, 6), method=rng.choice(["uniform", "low_order_first", "high_order_first", "custom"]), pk=[rng.choice([0.1, 1.0, 2.0]) for _ in range(m - 1)])
    elif t == "normal_features":
        op.update(labels=[rng.randrange(4) for _ in range(m)], as_=rng.choice(["list", "np", "torch"]), noise=rng.choice([0.5, 1.0]))
    elif t == "drop":
        op.update(on=rng.choice("gdbh"), p=p)
    elif t == "drop_group":
        op.update(group=rng.choice(["main", "g1"]), p=p)
    elif t == "drop_gen":
        op.update(n=m, m=3, p=p)
    elif t == "path_drop":
        op.update(on=rng.choice(["g_smooth", "b_smooth", "h_smooth", "h_smooth_g", "g_v2v", "b_u2v", "h_v2e", "sparse"]), p=p, d=rng.choice([1, 3]), fill=rng.choice([0.0, 0.0, 1.0]))
    elif t in ("split_num", "split_ratio"):
        c = rng.choice([2, 3])
        lb = [rng.randrange(c) + rng.choice([0, 1]) * 0 for _ in range(rng.choice([12, 20]) if not big else rng.choice([50, 130, 300]))]
        lb[:c] = range(c)
        op.update(labels=lb, as_=rng.choice(["list", "np", "torch"]), val=rng.random() < 0.6, test=rng.random() < 0.4)
    elif t == "neg_sample":
        op.update(user=rng.randrange(nu))
    elif t == "uidataset":
        op.update(idx=[rng.randrange(len(base["be"])) for _ in range(4 if not big else 60)], strict=rng.random() < 0.5)
    elif t == "model":
        op.update(model=rng.choice(G_MODELS + HG_MODELS + UI_MODELS + BI_MODELS), d=rng.choice([2, 3]), bn=rng.random() < 0.3, heads=rng.choice([1, 2]), steps=rng.choice([1, 2]), fast=rng.random() < 0.5,
                  med=rng.random() < 0.5, p=rng.choice([0.2, 0.5]), ev=rng.random() < 0.4)
    elif t == "layout":
        op.update(on=rng.choice("gdh"))
    elif t == "featvis":
        op.update(n=rng.choice([32, 35]), d=rng.choice([4, 5]), dim=rng.choice([2, 2, 3]), how=rng.choice(["euclid", "tsne", "pca", "ani"]))
    return op


# ------------------------------------------------------------------ execution
class Pool:
    def __init__(self, base):
        import dhg
        b = self.base = base
        self.g = dhg.Graph(b["n"], b["ge"], b["gw"], extra_selfloop=b["extra"])
        self.d = dhg.DiGraph(b["n"], b["de"], b["dw"])
        self.b = dhg.BiGraph(b["nu"], b["nv"], b["be"], b["bw"])
        self.h = dhg.Hypergraph(b["n"], b["he"], b["hw"])
        self.h.add_hyperedges(b["he"][:2], group_name="g1")

    def on(self, k):
        return dict(g=self.g, d=self.d, b=self.b, h=self.h)[k]


def feats(rows, d, salt=0):
    """Deterministic features, no generator involved."""
    x = np.arange(rows * d, dtype=np.float64).reshape(rows, d)
    return torch.from_numpy(np.sin(x * 1.7 + salt) + 0.1 * np.cos(x * 3.1)).float()


def as_kind(labels, kind):
    return labels if kind == "list" else np.array(labels) if kind == "np" else torch.tensor(labels)


def make_model(op, base):
    """(model, inputs builder name) with the constructor drawing from the generators."""
    import dhg.models as M
    name, d, p = op["model"], op["d"], op["p"]
    n, nu, nv = base["n"], base["nu"], base["nv"]
    if name in UI_MODELS:
        return getattr(M, name)(nu, nv, d, num_layers=2, drop_rate=p)
    if name == "BGNN_Adv":
        return M.BGNN_Adv(d, d + 1, layer_depth=2)
    if name == "BGNN_MLP":
        return M.BGNN_MLP(d, d + 1, 4, 3, drop_rate=p, layer_depth=2)
    if name == "GIN":
        return M.GIN(d, 4, 2, num_layers=2, num_mlp_layers=2, train_eps=True, use_bn=op["bn"], drop_rate=p)
    if name == "GraphSAGE":
        return M.GraphSAGE(d, 4, 2, aggr=op.get("aggr", "mean"), use_bn=op["bn"], drop_rate=p)
    if name in ("GAT", "UniGAT"):
        return getattr(M, name)(d, 4, 2, num_heads=op["heads"], use_bn=op["bn"], drop_rate=p)
    if name == "HyperGCN":
        return M.HyperGCN(d, 4, 2, use_mediator=op["med"], use_bn=op["bn"], fast=op["fast"], drop_rate=p)
    return getattr(M, name)(d, 4, 2, use_bn=op["bn"], drop_rate=p)


def model_inputs(op, base):
    d = op["d"]
    if op["model"] in UI_MODELS:
        return None
    if op["model"] in BI_MODELS:
        return feats(base["nu"], d), feats(base["nv"], d + 1, 2)
    return feats(base["n"], d)


def model_forward(m, op, pool, x):
    import dhg
    name = op["model"]
    if name == "DHCF":
        if getattr(pool, "ui", None) is None:
            pool.ui = dhg.Hypergraph.from_bigraph(pool.b, U_as_vertex=True), dhg.Hypergraph.from_bigraph(pool.b, U_as_vertex=False)
        return m(*pool.ui)
    if name in UI_MODELS:
        return m(pool.b)
    if name in BI_MODELS:
        return m(x[0], x[1], pool.b)
    return m(x, pool.g if name in G_MODELS else pool.h)


def run_op(op, pool):
    import dhg
    import dhg.utils as U
    R = dhg.random
    base, t = pool.base, op["t"]
    if t in ("graph_Gnp", "graph_Gnp_fast", "digraph_Gnp", "digraph_Gnp_fast"):
        return getattr(R, t)(op["n"], op["p"])
    if t in ("graph_Gnm", "digraph_Gnm"):
        return getattr(R, t)(op["n"], op["m"])
    if t == "bigraph_Gnp":
        return R.bigraph_Gnp(op["u"], op["n"], op["p"])
    if t == "bigraph_Gnm":
        return R.bigraph_Gnm(op["u"], op["n"], op["m"])
    if t == "uniform_hypergraph_Gnp":
        return R.uniform_hypergraph_Gnp(op["k"], op["n"], op["p"])
    if t == "uniform_hypergraph_Gnm":
        return R.uniform_hypergraph_Gnm(op["k"], op["n"], op["m"])
    if t == "hypergraph_Gnm":
        return R.hypergraph_Gnm(op["n"], op["m"], op["method"], list(op["pk"]) if op["method"] == "custom" else None)
    if t == "normal_features":
        return R.normal_features(as_kind(op["labels"], op["as_"]), op["noise"])
    if t == "drop":
        return pool.on(op["on"]).drop_hyperedges(op["p"]) if op["on"] == "h" else pool.on(op["on"]).drop_edges(op["p"])
    if t == "drop_group":
        return pool.h.drop_hyperedges_of_group(op["group"], op["p"])
    if t == "drop_gen":
        hg = R.uniform_hypergraph_Gnm(2, op["n"], op["m"])
        return [hg, hg.drop_hyperedges(op["p"])]
    if t == "path_drop":
        p, d, on = op["p"], op["d"], op["on"]
        X, XU = feats(base["n"], d), feats(base["nu"], d)
        if on == "g_smooth":
            return pool.g.smoothing_with_GCN(X, drop_rate=p)
        if on == "b_smooth":
            return pool.b.smoothing_with_GCN(feats(base["nu"] + base["nv"], d), drop_rate=p)
        if on == "h_smooth":
            return pool.h.smoothing_with_HGNN(X, drop_rate=p)
        if on == "h_smooth_g":
            return pool.h.smoothing_with_HGNN_of_group("g1", X, drop_rate=p)
        if on == "g_v2v":
            return pool.g.v2v(X, drop_rate=p)
        if on == "b_u2v":
            return pool.b.u2v(XU, drop_rate=p)
        if on == "h_v2e":
            return pool.h.v2e(X, drop_rate=p)
        return U.sparse_dropout(pool.g.A, p, op["fill"])
    if t == "split_num":
        return U.split_by_num(len(op["labels"]), as_kind(op["labels"], op["as_"]), 2, 1 if op["val"] else None, 1 if op["test"] else None)
    if t == "split_ratio":
        return U.split_by_ratio(len(op["labels"]), as_kind(op["labels"], op["as_"]), 0.5, 0.2 if op["val"] else None, 0.2 if op["test"] else None)
    if t == "split_ui_num":
        return U.split_by_num_for_UI_bigraph(pool.b, 1)
    if t == "split_ui_ratio":
        return U.split_by_ratio_for_UI_bigraph(pool.b, 0.6)
    if t in ("neg_sample", "triplet", "uidataset"):
        be = [tuple(e) for e in base["be"]]
        ds = U.UserItemDataset(base["nu"], base["nv"] + 1, be, strict_link=op.get("strict", True))
        if t == "neg_sample":
            return ds.sample_neg_item(op["user"])
        if t == "triplet":
            return ds.sample_triplet()
        return [ds[j] for j in op["idx"]]
    if t == "hypergcn_conv":
        return dhg.Graph.from_hypergraph_hypergcn(pool.h, feats(base["n"], 3), with_mediator=False)
    if t == "model":
        m = make_model(op, base)
        x = model_inputs(op, base)
        out = [canon(m)]
        if op["model"] in BI_MODELS and op["steps"] == 2:
            out.append(m.train_with_cascaded(x[0], x[1], pool.b, 0.01, 1e-4, 2, **({"drop_rate": op["p"]} if op["model"] == "BGNN_Adv" else {})))
        opt = torch.optim.SGD(m.parameters(), lr=0.1)
        m.train()
        for _ in range(op["steps"]):
            opt.zero_grad()
            y = model_forward(m, op, pool, x)
            ys = y if isinstance(y, tuple) else (y,)
            sum((z * z).sum() for z in ys).backward()
            opt.step()
            out.append(list(ys))
        if op["ev"]:
            m.eval()
            y = model_forward(m, op, pool, x)
            out.append(list(y) if isinstance(y, tuple) else y)
        out.append(m)
        return out
    if t == "layout":
        from dhg.visualization.structure.layout import force_layout
        s = pool.on(op["on"])
        return force_layout(s.num_v, [list(e) for e in s.e[0]], 0.006, 0.008 if op["on"] == "h" else None, 0.045, 0.01)
    if t == "bilayout":
        from dhg.visualization.structure.layout import bipartite_force_layout
        return bipartite_force_layout(base["nu"], base["nv"], [(u, v + base["nu"]) for u, v in base["be"]], 0.005, 0.005, None, 0.03, 0.04, 0.04)
    if t == "featvis":
        import matplotlib.pyplot as plt
        import dhg.visualization as V
        x = feats(op["n"], op["d"]).numpy()
        try:
            if op["how"] == "euclid":
                V.draw_in_euclidean_space(x, dim=op["dim"])
            elif op["how"] == "ani":
                V.animation_of_3d_euclidean_space(x)._init_func()
            else:
                V.draw_in_poincare_ball(x, dim=op["dim"], reduce_method=op["how"])
            c = plt.gcf().axes[0].collections[0]
            return [np.asarray(z, dtype=np.float64) for z in c._offsets3d] if hasattr(c, "_offsets3d") else np.asarray(c.get_offsets(), dtype=np.float64)
        finally:
            plt.close("all")
    raise KeyError(t)
