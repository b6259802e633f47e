From 867246feef2ffc4aa394c2ab7dfa35a671c1e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 01/44] fix: mean aggregation with explicit weights divides by
 the weight sum

---
 dhg/structure/graphs/bipartite_graph.py | 4 ++--
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 7c81f53..4399bcf 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -681,7 +681,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -734,7 +734,7 @@ class BiGraph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_u_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_u_neg_1[torch.isinf(D_u_neg_1)] = 0
                 X = D_u_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 645f652..f8cdefb 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -584,7 +584,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
@@ -626,7 +626,7 @@ class DiGraph(BaseGraph):
                 # message passing
                 if aggr == "mean":
                     X = torch.sparse.mm(P, X)
-                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                    D_v_in_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                     D_v_in_neg_1[torch.isinf(D_v_in_neg_1)] = 0
                     X = D_v_in_neg_1 * X
                 elif aggr == "sum":
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 82fb6e4..104e0d1 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -692,7 +692,7 @@ class Graph(BaseGraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 2390ede..8ae2c9b 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -1283,7 +1283,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1347,7 +1347,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_e_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_e_neg_1[torch.isinf(D_e_neg_1)] = 0
                 X = D_e_neg_1 * X
             elif aggr == "sum":
@@ -1482,7 +1482,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
@@ -1546,7 +1546,7 @@ class Hypergraph(BaseHypergraph):
             # message passing
             if aggr == "mean":
                 X = torch.sparse.mm(P, X)
-                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1)
+                D_v_neg_1 = torch.sparse.sum(P, dim=1).to_dense().view(-1, 1) ** -1
                 D_v_neg_1[torch.isinf(D_v_neg_1)] = 0
                 X = D_v_neg_1 * X
             elif aggr == "sum":
-- 
2.43.0


From 1b9d7c139d60e98fc5166ce08ccf093c72af86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 02/44] fix: Graph.v2v softmax_then_sum without edge weights

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 104e0d1..3f7c6cd 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -677,7 +677,7 @@ class Graph(BaseGraph):
             elif aggr == "sum":
                 X = torch.sparse.mm(P, X)
             elif aggr == "softmax_then_sum":
-                P = torch.sparse.mm(P, dim=1)
+                P = torch.sparse.softmax(P, dim=1)
                 X = torch.sparse.mm(P, X)
             else:
                 pass
-- 
2.43.0


From b9f0f2326d3744cd02c7fadad0d2126af1d654d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 03/44] fix: hypergraph clone, save, state dict, dropping and
 clear keep the vertex weights

---
 dhg/structure/base.py                   | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 80b853d..acda57d 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -376,6 +376,7 @@ class BaseHypergraph:
         device: torch.device = torch.device("cpu"),
     ):
         assert isinstance(num_v, int) and num_v > 0, "num_v should be a positive integer"
+        self._v_weight = None
         self.clear()
         self._num_v = num_v
         self.device = device
@@ -427,7 +428,6 @@ class BaseHypergraph:
         self._clear_cache()
 
     def _clear_raw(self):
-        self._v_weight = None
         self._raw_groups = {}
 
     def _clear_cache(self, group_name: Optional[str] = None):
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 8ae2c9b..ed302b4 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -56,7 +56,7 @@ class Hypergraph(BaseHypergraph):
     def state_dict(self) -> Dict[str, Any]:
         r"""Get the state dict of the hypergraph.
         """
-        return {"num_v": self.num_v, "raw_groups": self._raw_groups}
+        return {"num_v": self.num_v, "v_weight": self._v_weight, "raw_groups": self._raw_groups}
 
     def save(self, file_path: Union[str, Path]):
         r"""Save the DHG's hypergraph structure a file.
@@ -148,7 +148,7 @@ class Hypergraph(BaseHypergraph):
     def clone(self) -> "Hypergraph":
         r"""Return a copy of the hypergraph.
         """
-        hg = Hypergraph(self.num_v, device=self.device)
+        hg = Hypergraph(self.num_v, v_weight=deepcopy(self._v_weight), device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
         hg.cache = deepcopy(self.cache)
         hg.group_cache = deepcopy(self.group_cache)
@@ -171,7 +171,7 @@ class Hypergraph(BaseHypergraph):
         Args:
             ``state_dict`` (``dict``): The state dict to load the hypergraph.
         """
-        _hg = Hypergraph(state_dict["num_v"])
+        _hg = Hypergraph(state_dict["num_v"], v_weight=deepcopy(state_dict.get("v_weight")))
         _hg._raw_groups = deepcopy(state_dict["raw_groups"])
         return _hg
 
@@ -461,6 +461,7 @@ class Hypergraph(BaseHypergraph):
                 _raw_groups[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate}
             state_dict = {
                 "num_v": self.num_v,
+                "v_weight": self._v_weight,
                 "raw_groups": _raw_groups,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
@@ -488,6 +489,7 @@ class Hypergraph(BaseHypergraph):
                     _raw_groups[name] = self._raw_groups[name]
             state_dict = {
                 "num_v": self.num_v,
+                "v_weight": self._v_weight,
                 "raw_groups": _raw_groups,
             }
             _hg = Hypergraph.from_state_dict(state_dict)
-- 
2.43.0


From a18580958918ebbdc2e53aa0b57f1fdd3bf869b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 04/44] fix: DiGraph.reverse_direction drops the cached
 matrices

---
 dhg/structure/graphs/directed_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index f8cdefb..f6c68bb 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -298,6 +298,7 @@ class DiGraph(BaseGraph):
         r"""Reverse the direction of edges in directed graph.
         """
         self._raw_e_dict = {(dst, src): w for (src, dst), w in self._raw_e_dict.items()}
+        self._clear_cache()
 
     def drop_edges(self, drop_rate: float, ord: str = "uniform"):
         r"""Randomly drop edges from the directed graph. This function will return a new directed graph with non-dropped edges.
-- 
2.43.0


From 14c2fbac03fcddb19419bd223c96598e6f3c13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 05/44] fix: a rejected Hypergraph.add_hyperedges leaves the
 hypergraph unchanged

---
 dhg/structure/hypergraphs/hypergraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index ed302b4..e0a1feb 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -342,10 +342,13 @@ class Hypergraph(BaseHypergraph):
         else:
             raise TypeError(f"The type of e_weight should be float or list, but got {type(e_weight)}")
         assert len(e_list) == len(e_weight), "The number of hyperedges and the number of weights are not equal."
+        assert merge_op in ["mean", "sum", "max",], "Hyperedge merge operation must be one of ['mean', 'sum', 'max']"
+        # convert before the first insertion, so that a rejected call leaves the hypergraph unchanged
+        e_weight = [float(_w) for _w in e_weight]
 
         for _idx in range(len(e_list)):
             self._add_hyperedge(
-                self._hyperedge_code(e_list[_idx], e_list[_idx]), {"w_e": float(e_weight[_idx])}, merge_op, group_name,
+                self._hyperedge_code(e_list[_idx], e_list[_idx]), {"w_e": e_weight[_idx]}, merge_op, group_name,
             )
         self._clear_cache(group_name)
 
-- 
2.43.0


From ca411281393109944da9ee344af9b37316eb8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 06/44] fix: cloning tolerates another thread filling the
 caches of the structure

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 2 +-
 dhg/structure/graphs/graph.py           | 2 +-
 dhg/structure/hypergraphs/hypergraph.py | 5 +++--
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 4399bcf..78fdfed 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -165,7 +165,7 @@ class BiGraph(BaseGraph):
         _g = BiGraph(self.num_u, self.num_v, device=self.device)
         if self._raw_e_dict is not None:
             _g._raw_e_dict = deepcopy(self._raw_e_dict)
-        _g.cache = deepcopy(self.cache)
+        _g.cache = deepcopy(dict(self.cache))
         return _g
 
     def to(self, device: torch.device):
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index f6c68bb..b082cde 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -143,7 +143,7 @@ class DiGraph(BaseGraph):
             _g._raw_e_dict = deepcopy(self._raw_e_dict)
         if self._raw_selfloop_dict is not None:
             _g._raw_selfloop_dict = deepcopy(self._raw_selfloop_dict)
-        _g.cache = deepcopy(self.cache)
+        _g.cache = deepcopy(dict(self.cache))
         return _g
 
     def to(self, device: torch.device):
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 3f7c6cd..176ff1b 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -150,7 +150,7 @@ class Graph(BaseGraph):
             _g._raw_e_dict = deepcopy(self._raw_e_dict)
         if self._raw_selfloop_dict is not None:
             _g._raw_selfloop_dict = deepcopy(self._raw_selfloop_dict)
-        _g.cache = deepcopy(self.cache)
+        _g.cache = deepcopy(dict(self.cache))
         return _g
 
     def to(self, device: torch.device):
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index e0a1feb..1559127 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -150,8 +150,9 @@ class Hypergraph(BaseHypergraph):
         """
         hg = Hypergraph(self.num_v, v_weight=deepcopy(self._v_weight), device=self.device)
         hg._raw_groups = deepcopy(self._raw_groups)
-        hg.cache = deepcopy(self.cache)
-        hg.group_cache = deepcopy(self.group_cache)
+        hg.cache = deepcopy(dict(self.cache))
+        for name, group_cache in list(self.group_cache.items()):
+            hg.group_cache[name] = deepcopy(dict(group_cache))
         return hg
 
     def to(self, device: torch.device):
-- 
2.43.0


From 2e755393a9c18855d55fa5ebfc36381330bdf280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 07/44] fix: dataset files are published only after their
 checksum matched

---
 dhg/utils/download.py | 47 +++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index b7c0f6c..f0a8929 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -1,3 +1,5 @@
+import os
+import uuid
 import hashlib
 import shutil
 import requests
@@ -64,6 +66,12 @@ def _retry(n: int, exception_type=requests.HTTPError):
     return decorator
 
 
+def _part_path(file_path: Path) -> Path:
+    r""" A private path beside ``file_path``, where its content is gathered and checked before it is published with ``os.replace``.
+    """
+    return file_path.with_name(f"{file_path.name}.{uuid.uuid4().hex}.part")
+
+
 def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
@@ -71,8 +79,17 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
     if legacy_path is None or not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
-    shutil.move(legacy_path, file_path)
+    part_path = _part_path(file_path)
+    try:
+        shutil.copyfile(legacy_path, part_path)
+        if not check_file(part_path, md5): return False
+        os.replace(part_path, file_path)
+    except FileNotFoundError: # Another process has migrated it in the meantime.
+        return False
+    finally:
+        part_path.unlink(missing_ok=True)
     try:
+        legacy_path.unlink(missing_ok=True)
         legacy_path.parent.rmdir()
     except OSError: # If the `legacy_path.parent` is not empty, `rmdir` won't remove it. This is intended.
         pass
@@ -91,18 +108,26 @@ def download_and_check(url: str, file_path: Path, md5: str):
     if not file_path.exists():
         _try_migrate_from_legacy_cache(file_path, md5) # Try to migrate from old-version cache path
     if not file_path.exists():
+        # other processes may be using `file_path`: only checked content is ever put there
+        part_path = _part_path(file_path)
         try:
-            download_file(url, file_path)
-        except requests.RequestException:
-            # fallback to BACKUP_REMOTE_DATASETS_ROOT
-            from dhg._global import REMOTE_DATASETS_ROOT, BACKUP_REMOTE_DATASETS_ROOT
-            if not url.startswith(REMOTE_DATASETS_ROOT): raise
-            download_file(
-                url.replace(REMOTE_DATASETS_ROOT, BACKUP_REMOTE_DATASETS_ROOT, 1),
-                file_path,
-            )
+            try:
+                download_file(url, part_path)
+            except requests.RequestException:
+                # fallback to BACKUP_REMOTE_DATASETS_ROOT
+                from dhg._global import REMOTE_DATASETS_ROOT, BACKUP_REMOTE_DATASETS_ROOT
+                if not url.startswith(REMOTE_DATASETS_ROOT): raise
+                download_file(
+                    url.replace(REMOTE_DATASETS_ROOT, BACKUP_REMOTE_DATASETS_ROOT, 1),
+                    part_path,
+                )
+            if not check_file(part_path, md5):
+                raise ValueError(f"The downloaded {file_path} is corrupted. Please try to download it again.")
+            os.replace(part_path, file_path)
+        finally:
+            part_path.unlink(missing_ok=True)
     if not check_file(file_path, md5):
-        file_path.unlink()
+        file_path.unlink(missing_ok=True)
         raise ValueError(
             f"{file_path} is corrupted. We will delete it, and try to download it again.")
     return True
-- 
2.43.0


From 042578df6881a7b5e15be0ff61d907b4a531f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 08/44] fix: a dataset below a custom data_root can be
 downloaded

---
 dhg/utils/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/utils/download.py b/dhg/utils/download.py
index f0a8929..6827d48 100644
--- a/dhg/utils/download.py
+++ b/dhg/utils/download.py
@@ -76,6 +76,7 @@ def _try_migrate_from_legacy_cache(file_path: Path, md5: str) -> bool:
     from dhg._global import CACHE_ROOT
     LEGACY_CACHE_ROOT = Path.home() / ".dhg"
 
+    if CACHE_ROOT not in file_path.parents: return False # A custom `data_root` has no legacy counterpart.
     legacy_path = LEGACY_CACHE_ROOT / file_path.relative_to(CACHE_ROOT)
     if legacy_path is None or not legacy_path.exists(): return False
     file_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From e9a58023511353901c309dd7c83a1ba58ad91cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 09/44] fix: building a hypergraph leaves the caller's
 hyperedge list unchanged

---
 dhg/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index acda57d..6129fe8 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -496,7 +496,7 @@ class BaseHypergraph:
         elif type(e_list) == tuple:
             e_list = list(e_list)
         elif type(e_list) == list:
-            pass
+            e_list = e_list.copy()
         else:
             raise TypeError("e_list must be List[int] or List[List[int]].")
         for _idx in range(len(e_list)):
-- 
2.43.0


From 83ec2c2a1c4e98d59777827a630eb80f679e18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 10/44] fix: fast Gnp generators accept every probability in
 [0, 1]

---
 dhg/random/graphs/directed_graph.py |  7 ++++---
 dhg/random/graphs/graph.py          | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index 1861253..b46a5be 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -3,6 +3,7 @@ import random
 import itertools
 
 from dhg.structure import DiGraph
+from .graph import _num_skipped
 
 
 def digraph_Gnp(num_v: int, prob: float):
@@ -43,13 +44,13 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     assert num_v > 1, "num_v must be greater than 1"
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
-    lp = math.log(1.0 - prob)
+    lp = math.log1p(-prob) if prob < 1 else -math.inf
     e_list = []
     # w -> v
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-        w = w + 1 + int(lr / lp)
+        w = w + 1 + _num_skipped(lr, lp, num_v * num_v)
         while w >= v and v < num_v:
             w = w - v
             v = v + 1
@@ -59,7 +60,7 @@ def digraph_Gnp_fast(num_v: int, prob: float):
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-        w = w + 1 + int(lr / lp)
+        w = w + 1 + _num_skipped(lr, lp, num_v * num_v)
         while w >= v and v < num_v:
             w = w - v
             v = v + 1
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 5977b52..3951c8d 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -27,6 +27,19 @@ def graph_Gnp(num_v: int, prob: float):
     return g
 
 
+def _num_skipped(lr: float, lp: float, max_num: int) -> int:
+    r"""Return the number of vertex pairs skipped before the next edge, which is at most ``max_num``. 
+
+    Args:
+        ``lr`` (``float``): The logarithm of a random number.
+        ``lp`` (``float``): The logarithm of the probability of not choosing an edge.
+        ``max_num`` (``int``): The upper bound of the returned number.
+    """
+    if lp == 0:
+        return max_num
+    return int(min(lr / lp, max_num))
+
+
 def graph_Gnp_fast(num_v: int, prob: float):
     r"""Return a random graph with ``num_v`` vertices and probability ``prob`` of choosing an edge. This function is an implementation of `Efficient generation of large random networks <http://vlado.fmf.uni-lj.si/pub/networks/doc/ms/rndgen.pdf>`_ paper.
 
@@ -45,11 +58,11 @@ def graph_Gnp_fast(num_v: int, prob: float):
     assert prob >= 0 and prob <= 1, "prob must be between 0 and 1"
 
     e_list = []
-    lp = math.log(1.0 - prob)
+    lp = math.log1p(-prob) if prob < 1 else -math.inf
     v, w = 1, -1
     while v < num_v:
         lr = math.log(1.0 - random.random())
-        w = w + 1 + int(lr / lp)
+        w = w + 1 + _num_skipped(lr, lp, num_v * num_v)
         while w >= v and v < num_v:
             w = w - v
             v = v + 1
-- 
2.43.0


From 5e727f85c8667a23d4c2ca7ea4e84aaf8244b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 11/44] fix: hypergraph generators reject more hyperedges than
 there are instead of looping forever

---
 dhg/random/hypergraphs/hypergraph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dhg/random/hypergraphs/hypergraph.py b/dhg/random/hypergraphs/hypergraph.py
index a0948b7..74b3663 100644
--- a/dhg/random/hypergraphs/hypergraph.py
+++ b/dhg/random/hypergraphs/hypergraph.py
@@ -1,3 +1,4 @@
+import math
 import random
 import itertools
 from typing import Optional, List
@@ -51,6 +52,7 @@ def uniform_hypergraph_Gnm(k: int, num_v: int, num_e: int):
     assert k > 1, "k must be greater than 1"  # TODO ?
     assert num_v > 1, "num_v must be greater than 1"
     assert num_e > 0, "num_e must be greater than 0"
+    assert num_e <= math.comb(num_v, k), "the specified num_e is larger than the possible number of hyperedges"
 
     edges = set()
     while len(edges) < num_e:
@@ -108,6 +110,14 @@ def hypergraph_Gnm(num_v: int, num_e: int, method:str="low_order_first", prob_k_
     else:
         raise ValueError(f"Unknown method: {method}")
 
+    capacity = 0
+    for k, prob_k in zip(deg_e_list, prob_k_list):
+        if prob_k > 0:
+            capacity += math.comb(num_v, k)
+        if capacity >= num_e:
+            break
+    assert num_e <= capacity, "the specified num_e is larger than the possible number of hyperedges"
+
     edges = set()
     while len(edges) < num_e:
         k = random.choices(deg_e_list, weights=prob_k_list)[0]
-- 
2.43.0


From a1c77683f2d9aa171a75e0d1122f3e6c31464428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 12/44] fix: graph_Gnm and digraph_Gnm can return the complete
 graph

---
 dhg/random/graphs/directed_graph.py | 2 +-
 dhg/random/graphs/graph.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/random/graphs/directed_graph.py b/dhg/random/graphs/directed_graph.py
index b46a5be..1bda9bb 100644
--- a/dhg/random/graphs/directed_graph.py
+++ b/dhg/random/graphs/directed_graph.py
@@ -85,7 +85,7 @@ def digraph_Gnm(num_v: int, num_e: int):
     """
 
     assert num_v > 1, "num_v must be greater than 1"
-    assert num_e < num_v * (
+    assert num_e <= num_v * (
         num_v - 1
     ), "the specified num_e is larger than the possible number of edges"
 
diff --git a/dhg/random/graphs/graph.py b/dhg/random/graphs/graph.py
index 3951c8d..810bb36 100644
--- a/dhg/random/graphs/graph.py
+++ b/dhg/random/graphs/graph.py
@@ -87,7 +87,7 @@ def graph_Gnm(num_v: int, num_e: int):
     """
     assert num_v > 1, "num_v must be greater than 1"
     assert (
-        num_e < num_v * (num_v - 1) // 2
+        num_e <= num_v * (num_v - 1) // 2
     ), "the specified num_e is larger than the possible number of edges"
 
     v_list = list(range(num_v))
-- 
2.43.0


From e595f977e7cf233896e21253243f0e951f97ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 13/44] fix: dropping with rate 0 keeps every edge whatever the
 random source returns

---
 dhg/structure/graphs/bipartite_graph.py | 2 +-
 dhg/structure/graphs/directed_graph.py  | 4 ++--
 dhg/structure/graphs/graph.py           | 4 ++--
 dhg/structure/hypergraphs/hypergraph.py | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 78fdfed..1faf8f9 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -350,7 +350,7 @@ class BiGraph(BaseGraph):
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
         if ord == "uniform":
-            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}
+            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() >= drop_rate}
             state_dict = {
                 "num_u": self.num_u,
                 "num_v": self.num_v,
diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index b082cde..224baf5 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -308,8 +308,8 @@ class DiGraph(BaseGraph):
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
         if ord == "uniform":
-            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}
-            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() > drop_rate}
+            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() >= drop_rate}
+            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() >= drop_rate}
             state_dict = {
                 "num_v": self.num_v,
                 "raw_e_dict": _raw_e_dict,
diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 176ff1b..9f316e9 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -361,8 +361,8 @@ class Graph(BaseGraph):
             ``ord`` (``str``): The order of dropping edges. Currently, only ``'uniform'`` is supported. Defaults to ``uniform``.
         """
         if ord == "uniform":
-            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() > drop_rate}
-            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() > drop_rate}
+            _raw_e_dict = {k: v for k, v in self._raw_e_dict.items() if random.random() >= drop_rate}
+            _raw_selfloop_dict = {k: v for k, v in self._raw_selfloop_dict.items() if random.random() >= drop_rate}
             state_dict = {
                 "num_v": self.num_v,
                 "raw_e_dict": _raw_e_dict,
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 1559127..91612aa 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -462,7 +462,7 @@ class Hypergraph(BaseHypergraph):
         if ord == "uniform":
             _raw_groups = {}
             for name in self.group_names:
-                _raw_groups[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate}
+                _raw_groups[name] = {k: v for k, v in self._raw_groups[name].items() if random.random() >= drop_rate}
             state_dict = {
                 "num_v": self.num_v,
                 "v_weight": self._v_weight,
@@ -487,7 +487,7 @@ class Hypergraph(BaseHypergraph):
             for name in self.group_names:
                 if name == group_name:
                     _raw_groups[name] = {
-                        k: v for k, v in self._raw_groups[name].items() if random.random() > drop_rate
+                        k: v for k, v in self._raw_groups[name].items() if random.random() >= drop_rate
                     }
                 else:
                     _raw_groups[name] = self._raw_groups[name]
-- 
2.43.0


From e10ec0bf7aff7d6119a627f757e83ca679f521dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 14/44] fix: sparse_dropout removes dropped elements, so that a
 softmax over paths does not count them

---
 dhg/utils/sparse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dhg/utils/sparse.py b/dhg/utils/sparse.py
index c69dfbc..87422c5 100644
--- a/dhg/utils/sparse.py
+++ b/dhg/utils/sparse.py
@@ -16,13 +16,15 @@ def sparse_dropout(sp_mat: torch.Tensor, p: float, fill_value: float = 0.0) -> t
         return sp_mat
     p = torch.ones(sp_mat._nnz(), device=device) * p
     keep_mask = torch.bernoulli(1 - p).to(device)
-    fill_values = torch.logical_not(keep_mask) * fill_value
+    indices, values = sp_mat._indices(), sp_mat._values()
+    if fill_value == 0:
+        # a dropped element must not stay behind as an explicit zero, which still counts as a path in a sparse softmax
+        keep_mask = keep_mask.bool()
+        indices, values = indices[:, keep_mask], values[keep_mask]
+    else:
+        values = values * keep_mask + torch.logical_not(keep_mask) * fill_value
     new_sp_mat = torch.sparse_coo_tensor(
-        sp_mat._indices(),
-        sp_mat._values() * keep_mask + fill_values,
-        size=sp_mat.size(),
-        device=sp_mat.device,
-        dtype=sp_mat.dtype,
+        indices, values, size=sp_mat.size(), device=sp_mat.device, dtype=sp_mat.dtype,
     )
     return new_sp_mat
 
-- 
2.43.0


From 0a3809a1d0314418365cb65d0d97eeab494b980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 15/44] fix: vertex splits cover every class when the labels
 have gaps

---
 dhg/utils/dataset_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/utils/dataset_split.py b/dhg/utils/dataset_split.py
index 9309661..c5cacfe 100644
--- a/dhg/utils/dataset_split.py
+++ b/dhg/utils/dataset_split.py
@@ -57,7 +57,7 @@ def split_by_num(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
+    num_classes = v_label.max() + 1  # some labels in between may not occur
 
     train_idx, test_idx = [], []
     val_num = val_num if val_num is not None else 0
@@ -118,7 +118,7 @@ def split_by_ratio(
     assert v_label.ndim == 1
     if v_label.min() == 1:
         v_label -= 1
-    num_classes = np.unique(v_label).shape[0]
+    num_classes = v_label.max() + 1  # some labels in between may not occur
 
     val_ratio = val_ratio if val_ratio is not None else 0
     if test_ratio is not None:
-- 
2.43.0


From 57ab36894e7152ad9ea1791a0bffe267f7a33294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 16/44] fix: sampling a negative item for a user with every
 item raises instead of looping forever

---
 dhg/utils/dataset_wrapers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dhg/utils/dataset_wrapers.py b/dhg/utils/dataset_wrapers.py
index 095e591..805ee7d 100644
--- a/dhg/utils/dataset_wrapers.py
+++ b/dhg/utils/dataset_wrapers.py
@@ -56,6 +56,8 @@ class UserItemDataset(Dataset):
         Args:
             ``user`` (``int``): The index of the specified user.
         """
+        if len(set(self.adj_dict[user])) >= self.num_items:
+            raise ValueError(f"The user {user} interacted with every item, so it has no negative item.")
         neg_item = random.randrange(self.num_items)
         while neg_item in self.adj_dict[user]:
             neg_item = random.randrange(self.num_items)
-- 
2.43.0


From 5e05c1036f0b939e87480d57914c5fa0b66de97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 17/44] fix: sampling triplets skips users without interactions
 instead of failing on them

---
 dhg/utils/dataset_wrapers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/utils/dataset_wrapers.py b/dhg/utils/dataset_wrapers.py
index 805ee7d..b0038e1 100644
--- a/dhg/utils/dataset_wrapers.py
+++ b/dhg/utils/dataset_wrapers.py
@@ -44,8 +44,10 @@ class UserItemDataset(Dataset):
     def sample_triplet(self):
         r"""Sample a triple of user, positive item, and negtive item from all interactions.
         """
+        assert len(self.user_item_list) > 0
         user = random.randrange(self.num_users)
-        assert len(self.adj_dict[user]) > 0
+        while len(self.adj_dict[user]) == 0:
+            user = random.randrange(self.num_users)
         pos_item = random.choice(self.adj_dict[user])
         neg_item = self.sample_neg_item(user)
         return user, pos_item, neg_item
-- 
2.43.0


From 45ab253304cc10f43e83d805305919fbacf63c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 18/44] fix: recommender metrics with a ratio (numpy was not
 imported)

---
 dhg/metrics/recommender.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 6264a82..3da7d28 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -1,5 +1,6 @@
 from typing import Optional, Union, Tuple, List, Dict
 
+import numpy as np
 import torch
 
 
-- 
2.43.0


From efccd3e78f9c9c31853790c70e97bf9fc0febacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 19/44] fix: precision and recall accept a batch without
 positive items

---
 dhg/metrics/recommender.py | 4 ++--
 dhg/metrics/retrieval.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dhg/metrics/recommender.py b/dhg/metrics/recommender.py
index 3da7d28..c75e5bb 100644
--- a/dhg/metrics/recommender.py
+++ b/dhg/metrics/recommender.py
@@ -76,7 +76,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -110,7 +110,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
diff --git a/dhg/metrics/retrieval.py b/dhg/metrics/retrieval.py
index 5efc906..ae91d25 100644
--- a/dhg/metrics/retrieval.py
+++ b/dhg/metrics/retrieval.py
@@ -67,7 +67,7 @@ def precision(
         0.5
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     res_list = (pred_seq.sum(dim=1) / k).detach().cpu()
     if ret_batch:
@@ -101,7 +101,7 @@ def recall(
         0.6666666666666666
     """
     y_true, y_pred, k = _format_inputs(y_true, y_pred, k, ratio=ratio)
-    assert y_true.max() == 1, "The input y_true must be binary."
+    assert y_true.max() in (0, 1), "The input y_true must be binary."
     pred_seq = y_true.gather(1, torch.argsort(y_pred, dim=-1, descending=True))[:, :k]
     num_true = y_true.sum(dim=1)
     res_list = (pred_seq.sum(dim=1) / num_true).cpu()
-- 
2.43.0


From 50521234fb18df0d5fe31d99f69b4f7f3aa8a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 20/44] fix: a batch rejected by one test metric contributes to
 none of them

---
 dhg/metrics/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 5dbdfa6..b8d164c 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -131,8 +131,9 @@ class BaseEvaluator:
             ``batch_y_true`` (``torch.Tensor``): The ground truth data. Size :math:`(N_{batch}, -)`.
             ``batch_y_pred`` (``torch.Tensor``): The predicted data. Size :math:`(N_{batch}, -)`.
         """
-        for name, func in zip(self.marker_list, self.func_list):
-            batch_res = func(batch_y_true, batch_y_pred, ret_batch=True)
+        # evaluate all metrics first, such that a rejected batch contributes to none of them
+        all_res = [func(batch_y_true, batch_y_pred, ret_batch=True) for func in self.func_list]
+        for name, batch_res in zip(self.marker_list, all_res):
             if not isinstance(batch_res, tuple):
                 batch_res = np.array(batch_res)
                 if len(batch_res.shape) == 1:
-- 
2.43.0


From 8a3b4ce206d2686d0e43d404dfcae02c72352a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 21/44] fix: the result of a test epoch is not overwritten by
 later epochs

---
 dhg/metrics/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index b8d164c..46bbe54 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -154,6 +154,7 @@ class BaseEvaluator:
         if self.test_res_dict == {} and self.last_test_res is not None:
             return self.last_test_res
         assert self.test_res_dict != {}, "No batch data added for testing."
+        self.last_test_res = {}
         for name, res_list in self.test_res_dict.items():
             if not isinstance(res_list[0], list):
                 self.last_test_res[name] = np.vstack(res_list).mean(0).squeeze().tolist()
-- 
2.43.0


From b1299823b9273bd1132573ba4516fb80b13f4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 22/44] fix: a minimizing experiment, or one whose first scores
 are NaN or infinite, keeps its best model

---
 dhg/experiments/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 211286f..d2e7d0b 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -1,4 +1,5 @@
 import abc
+import math
 import time
 import shutil
 import logging
@@ -107,9 +108,12 @@ class BaseTask:
             if scheduler is not None:
                 scheduler.step()
             if self.direction == "maximize":
-                if val_res > best_score:
-                    best_score = val_res
-                    best_model = deepcopy(model)
+                is_better = val_res > best_score
+            else:
+                is_better = val_res < best_score
+            if best_model is None or math.isnan(best_score) or is_better:
+                best_score = val_res
+                best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
         self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
-- 
2.43.0


From b6fcc8bccc8c8a2c06a3fa478b388bd4ed213381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 23/44] fix: an experiment without a structure finishes, and
 never takes a structure left by an earlier run

---
 dhg/experiments/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index d2e7d0b..1286736 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -116,7 +116,11 @@ class BaseTask:
                 best_model = deepcopy(model)
         with open(self.cache_root / f"{trial.number}_model.pth", "wb") as f:
             torch.save(best_model.cpu().state_dict(), f)
-        self.data["structure"].save(self.cache_root / f"{trial.number}_structure.dhg")
+        structure_file = self.cache_root / f"{trial.number}_structure.dhg"
+        if self.data.get("structure", None) is not None:
+            self.data["structure"].save(structure_file)
+        elif structure_file.exists():
+            structure_file.unlink()
         return best_score
 
     def _remove_cached_data(self):
@@ -144,9 +148,11 @@ class BaseTask:
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
         self.best_model.load_state_dict(torch.load(f"{self.cache_root}/{self.study.best_trial.number}_model.pth"))
-        self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
         self.best_model = self.best_model.to(self.device)
-        self.best_structure = self.best_structure.to(self.device)
+        self.best_structure = None
+        if self.data.get("structure", None) is not None:
+            self.best_structure = load_structure(f"{self.cache_root}/{self.study.best_trial.number}_structure.dhg")
+            self.best_structure = self.best_structure.to(self.device)
 
         self.logger.info("Best trial:")
         self.best_trial = self.study.best_trial
-- 
2.43.0


From 88e550b2fecd4bdb9c1951591a4babdf6546c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 24/44] fix: the seed an experiment logs is the one its search
 uses

---
 dhg/experiments/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 1286736..d7b905c 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -139,8 +139,9 @@ class BaseTask:
             ``num_trials`` (``int``): The number of trials to run. Defaults to ``1``.
             ``direction`` (``str``): The direction to optimize. Defaults to ``"maximize"``.
         """
-        self.logger.info(f"Random seed is {dhg.random.seed()}")
-        sampler = TPESampler(seed=dhg.random.seed())
+        seed = dhg.random.seed()
+        self.logger.info(f"Random seed is {seed}")
+        sampler = TPESampler(seed=seed)
         self.max_epoch, self.direction = max_epoch, direction
         self.study = optuna.create_study(direction=direction, sampler=sampler)
         self.study.optimize(self.experiment, n_trials=num_trials, timeout=600)
-- 
2.43.0


From 066c6ef2b689634dec2139e6b4c9baa4442ce6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 25/44] fix: an experiment finishes when a test metric is not a
 single number

---
 dhg/experiments/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index d7b905c..e8e0f37 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -164,7 +164,9 @@ class BaseTask:
         test_res = self.test()
         self.logger.info(f"Final test results:")
         for key, value in test_res.items():
-            self.logger.info(f"\t{key} |-> {value:.3f}")
+            if isinstance(value, (int, float)):
+                value = f"{value:.3f}"
+            self.logger.info(f"\t{key} |-> {value}")
 
     @abc.abstractmethod
     def train(
-- 
2.43.0


From ef739f64d57acd0695ccd333c7fc77e0497bb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:21 +0000
Subject: [PATCH 26/44] fix: structures built by one experiment's trials do not
 get into another experiment's data

---
 dhg/experiments/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index e8e0f37..57f2077 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -45,7 +45,7 @@ class BaseTask:
         study_name: Optional[str] = None,
         overwrite: bool = True,
     ):
-        self.data = data
+        self.data = dict(data)  # the structures built by the trials stay in this experiment
         self.model_builder = model_builder
         self.train_builder = train_builder
         self.structure_builder = structure_builder
-- 
2.43.0


From 1263be579c4accd588fdcc12afedc67ed2f51361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:21 +0000
Subject: [PATCH 27/44] fix: two studies without a name started in the same
 second do not share or delete a directory

---
 dhg/experiments/base.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 57f2077..0b72fe0 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -52,22 +52,23 @@ class BaseTask:
         self.evaluator = evaluator
         self.device = device
         self.study = None
-        if study_name is None:
-            self.study_name = time.strftime("%Y-%m-%d--%H-%M-%S", time.localtime())
-        else:
-            self.study_name = study_name
         work_root = Path(work_root)
-        self.study_root = work_root / self.study_name
-        if overwrite and self.study_root.exists():
-            shutil.rmtree(self.study_root)
-        self.log_file = self.study_root / "log.txt"
-        self.cache_root = self.study_root / "cache"
         if not work_root.exists():
             if work_root.parent.exists():
                 work_root.mkdir(exist_ok=True)
             else:
                 raise ValueError(f"The work_root {work_root} does not exist.")
-        self.study_root.mkdir(exist_ok=True)
+        if study_name is None:
+            self.study_name = self._create_unique_study(work_root)
+            self.study_root = work_root / self.study_name
+        else:
+            self.study_name = study_name
+            self.study_root = work_root / self.study_name
+            if overwrite and self.study_root.exists():
+                shutil.rmtree(self.study_root)
+            self.study_root.mkdir(exist_ok=True)
+        self.log_file = self.study_root / "log.txt"
+        self.cache_root = self.study_root / "cache"
         self.cache_root.mkdir(exist_ok=True)
         # configure logging
         self.logger = optuna.logging.get_logger("optuna")
@@ -78,6 +79,23 @@ class BaseTask:
         self.logger.info(f"Logs will be saved to {self.log_file.absolute()}")
         self.logger.info(f"Files in training will be saved in {self.study_root.absolute()}")
 
+    @staticmethod
+    def _create_unique_study(work_root: Path) -> str:
+        r"""Create a directory named after the current time, which another study may have taken already, and return its name.
+
+        Args:
+            ``work_root`` (``Path``): User's work root to store all studies.
+        """
+        now = time.strftime("%Y-%m-%d--%H-%M-%S", time.localtime())
+        study_name, num = now, 1
+        while True:
+            try:
+                (work_root / study_name).mkdir()
+                return study_name
+            except FileExistsError:
+                num += 1
+                study_name = f"{now}--{num}"
+
     def experiment(self, trial: optuna.Trial):
         r"""Run the experiment for a given trial.
 
-- 
2.43.0


From 88097410b16d4e34d1749611c7965a11b4e1b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:21 +0000
Subject: [PATCH 28/44] fix: the messages of one experiment do not get into the
 log of another one

---
 dhg/experiments/base.py | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/dhg/experiments/base.py b/dhg/experiments/base.py
index 0b72fe0..d6025d7 100644
--- a/dhg/experiments/base.py
+++ b/dhg/experiments/base.py
@@ -3,6 +3,8 @@ import math
 import time
 import shutil
 import logging
+import itertools
+import threading
 from pathlib import Path
 from copy import deepcopy
 from typing import Callable, Optional, Callable, Union
@@ -18,6 +20,27 @@ from dhg.utils import default_log_formatter
 from dhg.structure.base import load_structure
 
 
+_task_ids = itertools.count()
+_running = threading.local()
+
+
+class _TaskFilter(logging.Filter):
+    r"""Pass the messages of the given task, and those of Optuna while it works for this task.
+
+    Args:
+        ``task_name`` (``str``): The name of the task's logger.
+    """
+
+    def __init__(self, task_name: str):
+        super().__init__()
+        self.task_name = task_name
+
+    def filter(self, record: logging.LogRecord):
+        if record.name.startswith("optuna.dhg."):
+            return record.name == self.task_name
+        return getattr(_running, "task_name", None) == self.task_name
+
+
 class BaseTask:
     r"""The base class of Auto-experiment in DHG.
 
@@ -71,11 +94,13 @@ class BaseTask:
         self.cache_root = self.study_root / "cache"
         self.cache_root.mkdir(exist_ok=True)
         # configure logging
-        self.logger = optuna.logging.get_logger("optuna")
-        self.logger.setLevel(logging.INFO)
+        optuna_logger = optuna.logging.get_logger("optuna")
+        optuna_logger.setLevel(logging.INFO)
+        self.logger = optuna_logger.getChild(f"dhg.{next(_task_ids)}")
         out_file_handler = logging.FileHandler(self.log_file, mode="a", encoding="utf8")
         out_file_handler.setFormatter(default_log_formatter())
-        self.logger.addHandler(out_file_handler)
+        out_file_handler.addFilter(_TaskFilter(self.logger.name))
+        optuna_logger.addHandler(out_file_handler)
         self.logger.info(f"Logs will be saved to {self.log_file.absolute()}")
         self.logger.info(f"Files in training will be saved in {self.study_root.absolute()}")
 
@@ -161,8 +186,13 @@ class BaseTask:
         self.logger.info(f"Random seed is {seed}")
         sampler = TPESampler(seed=seed)
         self.max_epoch, self.direction = max_epoch, direction
-        self.study = optuna.create_study(direction=direction, sampler=sampler)
-        self.study.optimize(self.experiment, n_trials=num_trials, timeout=600)
+        outer_task = getattr(_running, "task_name", None)
+        _running.task_name = self.logger.name
+        try:
+            self.study = optuna.create_study(direction=direction, sampler=sampler)
+            self.study.optimize(self.experiment, n_trials=num_trials, timeout=600)
+        finally:
+            _running.task_name = outer_task
 
         self._remove_cached_data()
         self.best_model = self.model_builder(self.study.best_trial)
-- 
2.43.0


From 3618e5e3e38216a600991988a91631acbfb8cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 29/44] fix: batches of an interrupted validation or test do
 not count in the next one of a recommender experiment

---
 dhg/experiments/recommender.py | 2 ++
 dhg/metrics/base.py            | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dhg/experiments/recommender.py b/dhg/experiments/recommender.py
index af405f1..aaf7920 100644
--- a/dhg/experiments/recommender.py
+++ b/dhg/experiments/recommender.py
@@ -127,6 +127,7 @@ class UserItemRecommenderTask(BaseTask):
         structure = data.get("structure", None)
         test_loader = data["test_loader"]
         model.eval()
+        self.evaluator.clear_batches()
         for users, train_mask, true_rating in test_loader:
             users = users.to(self.device)
             train_mask = train_mask.to(self.device)
@@ -161,6 +162,7 @@ class UserItemRecommenderTask(BaseTask):
             model = self.best_model
         model = model.to(self.device)
         model.eval()
+        self.evaluator.clear_batches()
         for users, train_mask, true_rating in test_loader:
             users = users.to(self.device)
             true_rating = true_rating.to(self.device)
diff --git a/dhg/metrics/base.py b/dhg/metrics/base.py
index 46bbe54..a3c7c44 100644
--- a/dhg/metrics/base.py
+++ b/dhg/metrics/base.py
@@ -100,6 +100,12 @@ class BaseEvaluator:
         r"""Print the Evaluator information.
         """
 
+    def clear_batches(self):
+        r"""Forget the batches added to an epoch whose result was never asked for, e.g., since it was interrupted.
+        """
+        self.validate_res = []
+        self.test_res_dict = defaultdict(list)
+
     def validate_add_batch(self, batch_y_true: torch.Tensor, batch_y_pred: torch.Tensor):
         r"""Add batch data for validation.
 
-- 
2.43.0


From 40ddac7ba9a27994453b9cbb47c7f6bb3f6f9fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 30/44] fix: text printed to a log file does not depend on the
 locale's encoding

---
 dhg/utils/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/utils/logging.py b/dhg/utils/logging.py
index 9f6f3b6..7904373 100644
--- a/dhg/utils/logging.py
+++ b/dhg/utils/logging.py
@@ -26,7 +26,7 @@ def simple_stdout2file(file_path: Union[str, Path]) -> None:
             ), f"The parent directory of {file_path} does not exist."
             self.file_path = file_path
             self.terminal = sys.stdout
-            self.file = open(file_path, "a")
+            self.file = open(file_path, "a", encoding="utf8")
 
         def write(self, message):
             self.terminal.write(message)
-- 
2.43.0


From 4c170c8a304e79410cd18ce67f34e49a6ca87006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 31/44] fix: threads that print at the same time get into the
 log file in the order of the terminal

---
 dhg/utils/logging.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dhg/utils/logging.py b/dhg/utils/logging.py
index 7904373..82b074d 100644
--- a/dhg/utils/logging.py
+++ b/dhg/utils/logging.py
@@ -1,6 +1,7 @@
 from typing import Union
 import sys
 import logging
+import threading
 from pathlib import Path
 
 
@@ -25,13 +26,15 @@ def simple_stdout2file(file_path: Union[str, Path]) -> None:
                 file_path.parent.exists()
             ), f"The parent directory of {file_path} does not exist."
             self.file_path = file_path
+            self.lock = threading.RLock()
             self.terminal = sys.stdout
             self.file = open(file_path, "a", encoding="utf8")
 
         def write(self, message):
-            self.terminal.write(message)
-            self.file.write(message)
-            self.flush()
+            with self.lock:  # the same order in the terminal and in the file
+                self.terminal.write(message)
+                self.file.write(message)
+                self.flush()
 
         def flush(self):
             self.terminal.flush()
-- 
2.43.0


From bf6c556b8845b898f83f24610ab1cd5b73009c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 32/44] fix: draw_bigraph laid out its edges between vertices
 of set U only

---
 dhg/visualization/structure/draw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/visualization/structure/draw.py b/dhg/visualization/structure/draw.py
index 339fbae..75b6b61 100644
--- a/dhg/visualization/structure/draw.py
+++ b/dhg/visualization/structure/draw.py
@@ -230,6 +230,8 @@ def draw_bigraph(
         pull_u_center_strength,
         pull_v_center_strength,
     )
+    # the vertices in set V follow those in set U
+    e_list = [(u, v + num_u) for u, v in e_list]
     # layout
     u_coor, v_coor = bipartite_force_layout(
         num_u,
@@ -243,8 +245,6 @@ def draw_bigraph(
         pull_v_center_strength,
     )
 
-    # preprocess
-    e_list = [(u, v + num_u) for u, v in e_list]
     if e_style == "line":
         draw_line_edge(
             ax, np.vstack([u_coor, v_coor]), u_size + v_size, e_list, False, e_color, e_line_width,
-- 
2.43.0


From 285ecdb7b072c55deb4e550e9291805305f12483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 33/44] fix: drawing vertices on one line, overlapping circles
 or self-loops as circles raised QhullError, math domain or ValueError

---
 dhg/visualization/structure/geometry.py |  3 ++-
 dhg/visualization/structure/utils.py    | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/dhg/visualization/structure/geometry.py b/dhg/visualization/structure/geometry.py
index e15e11b..33f25e0 100644
--- a/dhg/visualization/structure/geometry.py
+++ b/dhg/visualization/structure/geometry.py
@@ -24,7 +24,8 @@ def vlen(vector):
 
 
 def common_tangent_radian(r1, r2, d):
-    alpha = math.acos(abs(r2 - r1) / d)
+    # circles that lie one in the other have no common tangent
+    alpha = math.acos(abs(r2 - r1) / d) if abs(r2 - r1) < d else 0.0
     alpha = alpha if r1 > r2 else pi - alpha
     return alpha
 
diff --git a/dhg/visualization/structure/utils.py b/dhg/visualization/structure/utils.py
index ac0af3b..d18fddf 100644
--- a/dhg/visualization/structure/utils.py
+++ b/dhg/visualization/structure/utils.py
@@ -4,7 +4,7 @@ from typing import Optional, List, Tuple
 import matplotlib
 import numpy as np
 from matplotlib.path import Path
-from scipy.spatial import ConvexHull
+from scipy.spatial import ConvexHull, QhullError
 from matplotlib.patches import Circle, PathPatch
 from matplotlib.collections import PathCollection, PatchCollection
 
@@ -148,6 +148,14 @@ def draw_vertex(
     ax.add_collection(p)
 
 
+def hull_vertices(pos: np.ndarray) -> np.ndarray:
+    try:
+        return ConvexHull(pos).vertices
+    except QhullError:  # the points are on one line
+        order = np.lexsort((pos[:, 1], pos[:, 0]))
+        return np.array((order[0], order[-1]), dtype=np.int64)
+
+
 def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
 
     line_paths = [None] * len(e_list)
@@ -164,7 +172,7 @@ def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
     # for edge in e_list:
     for e_idx in e_idxs:
 
-        edge = list(e_list[e_idx])
+        edge = list(dict.fromkeys(e_list[e_idx]))  # a self-loop has a single vertex
 
         line_path_for_e = []
         arc_path_for_e = []
@@ -182,8 +190,7 @@ def hull_layout(n_v, e_list, pos, v_size, radius_increment=0.3):
         if len(edge) == 2:
             vertices_index = np.array((0, 1), dtype=np.int64)
         else:
-            hull = ConvexHull(pos_in_edge)
-            vertices_index = hull.vertices
+            vertices_index = hull_vertices(pos_in_edge)
 
         n_vertices = vertices_index.shape[0]
 
-- 
2.43.0


From 44747f2b4a3711334a221afa986bc3b36f3d34b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 34/44] fix: layouts whose vertices share a coordinate (or have
 one vertex) returned NaN positions

---
 dhg/visualization/structure/layout.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dhg/visualization/structure/layout.py b/dhg/visualization/structure/layout.py
index c1c4600..f22188c 100644
--- a/dhg/visualization/structure/layout.py
+++ b/dhg/visualization/structure/layout.py
@@ -6,6 +6,13 @@ from .simulator import Simulator
 from .utils import edge_list_to_incidence_matrix, init_pos
 
 
+def fit_to_canvas(pos: np.ndarray):
+    span = pos.max(0) - pos.min(0)
+    flat = span == 0
+    span[flat] = 1.0
+    return np.where(flat, 0.5, (pos - pos.min(0)) / span * 0.8 + 0.1)
+
+
 def force_layout(
     num_v: int,
     e_list: List[tuple],
@@ -28,8 +35,7 @@ def force_layout(
         centers=centers,
     )
     v_coor = sim.simulate(v_coor, edge_list_to_incidence_matrix(num_v, e_list))
-    v_coor = (v_coor - v_coor.min(0)) / (v_coor.max(0) - v_coor.min(0)) * 0.8 + 0.1
-    return v_coor
+    return fit_to_canvas(v_coor)
 
 
 def bipartite_force_layout(
@@ -59,5 +65,5 @@ def bipartite_force_layout(
     )
     pos = sim.simulate(pos, edge_list_to_incidence_matrix(num_v + num_u, e_list))
     # pos = (pos - np.mean(pos, axis=0)) / np.std(pos, axis=0)
-    pos = (pos - pos.min(0)) / (pos.max(0) - pos.min(0)) * 0.8 + 0.1
+    pos = fit_to_canvas(pos)
     return pos[:num_u], pos[num_u:]
-- 
2.43.0


From 6c704b3657c73761e137d0273c32ce9b82437ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 35/44] fix: layouts failed when vertices or hyperedge centres
 coincide, without edges, and with integer strengths

---
 dhg/visualization/structure/simulator.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dhg/visualization/structure/simulator.py b/dhg/visualization/structure/simulator.py
index 8a061d2..eb9326e 100644
--- a/dhg/visualization/structure/simulator.py
+++ b/dhg/visualization/structure/simulator.py
@@ -13,6 +13,8 @@ class Simulator:
     EDGE_REPULSION = 2
     CENTER_GRAVITY = 3
 
+    MIN_DISTANCE = 1e-6
+
     def __init__(self, nums, forces, centers=1, damping_factor=0.999) -> None:
         self.nums = [nums] if isinstance(nums, int) else nums
 
@@ -24,9 +26,9 @@ class Simulator:
         self.n_centers = len(centers)
         self.centers = centers
 
-        if self.node_repulsion is not None and isinstance(self.node_repulsion, float):
+        if self.node_repulsion is not None and np.isscalar(self.node_repulsion):
             self.node_repulsion = [self.node_repulsion] * self.n_centers
-        if self.center_gravity is not None and isinstance(self.center_gravity, float):
+        if self.center_gravity is not None and np.isscalar(self.center_gravity):
             self.center_gravity = [self.center_gravity] * self.n_centers
 
         self.damping_factor = damping_factor
@@ -52,14 +54,16 @@ class Simulator:
         One step of the simulation.
         """
         v2v_dist = euclidean_distances(position)
-        e_center = np.matmul(H.T, position) / H.sum(axis=0).reshape(-1, 1)
-        v2e_dist = euclidean_distances(position, e_center) * H
-        e2e_dist = euclidean_distances(e_center)
+        has_edge = H.shape[1] > 0
+        if has_edge:
+            e_center = np.matmul(H.T, position) / H.sum(axis=0).reshape(-1, 1)
+            v2e_dist = euclidean_distances(position, e_center) * H
+            e2e_dist = euclidean_distances(e_center)
 
         centers = self.centers
 
         force = np.zeros_like(position)
-        if self.node_attraction is not None:
+        if self.node_attraction is not None and has_edge:
             f = self._node_attraction(position, e_center, v2e_dist) * self.node_attraction
             assert np.isnan(f).sum() == 0
             force += f
@@ -74,7 +78,7 @@ class Simulator:
                 f *= masks
             assert np.isnan(f).sum() == 0
             force += f
-        if self.edge_repulsion is not None:
+        if self.edge_repulsion is not None and has_edge:
             f = self._edge_repulsion(e_center, H, e2e_dist) * self.edge_repulsion
             assert np.isnan(f).sum() == 0
             force += f
@@ -119,6 +123,7 @@ class Simulator:
         r, c = np.diag_indices_from(dist)
         dist[r, c] = np.inf
 
+        dist = np.maximum(dist, self.MIN_DISTANCE)  # a pair on the same position is pushed apart with a finite force
         f_scale = k / (dist ** 2)  # (n, n) with diag 0
         f_dir = position[:, np.newaxis, :] - position[np.newaxis, :, :]  # (n, 1, 2) - (1, n, 2) -> (n, n, 2)
         f_dir_len = np.linalg.norm(f_dir, axis=2)  # (n, n)
@@ -138,6 +143,7 @@ class Simulator:
         r, c = np.diag_indices_from(dist)
         dist[r, c] = np.inf
 
+        dist = np.maximum(dist, self.MIN_DISTANCE)  # a pair on the same position is pushed apart with a finite force
         f_scale = k / (dist ** 2)  # (m, m)
         f_dir = e_center[:, np.newaxis, :] - e_center[np.newaxis, :, :]  # (m, 1, 2) - (1, m, 2) -> (m, m, 2)
         f_dir_len = np.linalg.norm(f_dir, axis=2)  # (m, m)
-- 
2.43.0


From a1712873b84ff7ab99d8515e18f5df968166c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 36/44] fix: views of a hypergraph without any hyperedge group
 raised instead of being empty

---
 dhg/structure/base.py                   | 4 ++++
 dhg/structure/hypergraphs/hypergraph.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 6129fe8..9b86d2a 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -921,6 +921,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_v2e") is None:
             _tmp = [self.H_v2e_of_group(name) for name in self.group_names]
+            if not _tmp:  # no hyperedge group
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device).coalesce()]
             self.cache["H_v2e"] = torch.cat(_tmp, dim=1)
         return self.cache["H_v2e"]
 
@@ -941,6 +943,8 @@ class BaseHypergraph:
         """
         if self.cache.get("H_e2v") is None:
             _tmp = [self.H_e2v_of_group(name) for name in self.group_names]
+            if not _tmp:  # no hyperedge group
+                _tmp = [torch.sparse_coo_tensor(size=(self.num_v, 0), device=self.device).coalesce()]
             self.cache["H_e2v"] = torch.cat(_tmp, dim=1)
         return self.cache["H_e2v"]
 
diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 91612aa..319f33a 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -832,6 +832,8 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("W_e") is None:
             _tmp = [self.W_e_of_group(name)._values().clone() for name in self.group_names]
+            if not _tmp:  # no hyperedge group
+                _tmp = [torch.zeros(0, device=self.device)]
             _tmp = torch.cat(_tmp, dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["W_e"] = torch.sparse_coo_tensor(
@@ -866,6 +868,8 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_v") is None:
             _tmp = [self.D_v_of_group(name)._values().clone() for name in self.group_names]
+            if not _tmp:  # no hyperedge group
+                _tmp = [torch.zeros(self.num_v, device=self.device)]
             _tmp = torch.vstack(_tmp).sum(dim=0).view(-1)
             self.cache["D_v"] = torch.sparse_coo_tensor(
                 torch.arange(0, self.num_v, device=self.device).view(1, -1).repeat(2, 1),
@@ -961,6 +965,8 @@ class Hypergraph(BaseHypergraph):
         """
         if self.cache.get("D_e") is None:
             _tmp = [self.D_e_of_group(name)._values().clone() for name in self.group_names]
+            if not _tmp:  # no hyperedge group
+                _tmp = [torch.zeros(0, device=self.device)]
             _tmp = torch.cat(_tmp, dim=0).view(-1)
             _num_e = _tmp.size(0)
             self.cache["D_e"] = torch.sparse_coo_tensor(
@@ -1032,6 +1038,8 @@ class Hypergraph(BaseHypergraph):
         for name in self.group_names:
             _tmp.append(self.N_e_of_group(v_idx, name) + e_bias)
             e_bias += self.num_e_of_group(name)
+        if not _tmp:  # no hyperedge group
+            return torch.zeros(0, dtype=torch.long, device=self.device)
         return torch.cat(_tmp, dim=0)
 
     def N_e_of_group(self, v_idx: int, group_name: str) -> torch.Tensor:
-- 
2.43.0


From 51a4a4933635a8f9787920107800975537605fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 37/44] fix: Graph.from_hypergraph_clique ignored its parameter
 miu

---
 dhg/structure/graphs/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index 9f316e9..dcadb95 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -243,7 +243,6 @@ class Graph(BaseGraph):
             ``device`` (``torch.device``): The device to store the graph. Defaults to ``torch.device("cpu")``.
         """
         num_v = hypergraph.num_v
-        miu = 1.0
         adj = miu * hypergraph.H.mm(hypergraph.H_T).coalesce().cpu().clone()
         src_idx, dst_idx = adj._indices()
         edge_mask = src_idx < dst_idx
-- 
2.43.0


From dc1d7fedc4b8a5d3f85955f13c46f6d5fb553abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 38/44] fix: Graph.from_hypergraph_hypergcn raised IndexError
 when the hyperedges yield no edge

---
 dhg/structure/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhg/structure/graphs/graph.py b/dhg/structure/graphs/graph.py
index dcadb95..1eb57c4 100644
--- a/dhg/structure/graphs/graph.py
+++ b/dhg/structure/graphs/graph.py
@@ -293,7 +293,7 @@ class Graph(BaseGraph):
                         new_e_weight.append(w)
         # remove selfloop
         if remove_selfloop:
-            new_e_list = torch.tensor(new_e_list, dtype=torch.long)
+            new_e_list = torch.tensor(new_e_list, dtype=torch.long).view(-1, 2)
             new_e_weight = torch.tensor(new_e_weight, dtype=torch.float)
             e_mask = (new_e_list[:, 0] != new_e_list[:, 1]).bool()
             new_e_list = new_e_list[e_mask].numpy().tolist()
-- 
2.43.0


From 83b905b917a645f96a54d45e9d6a5b06b15c7b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 39/44] fix: DiGraph.from_feature_kNN dropped a neighbor for
 the center when features coincide, and failed for k=1 with the center

---
 dhg/structure/graphs/directed_graph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 224baf5..99e9696 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -230,10 +230,13 @@ class DiGraph(BaseGraph):
             find_tk = k
         else:
             find_tk = k + 1
-        nbr_dist, nbr_idx = tree.query(features, k=find_tk, p=p)
-        center_idx = np.arange(num_v).reshape(-1, 1).repeat(find_tk - 1, 1)
-        nbr_dist = nbr_dist[:, 1:]
-        nbr_idx = nbr_idx[:, 1:]
+        nbr_dist, nbr_idx = tree.query(features, k=np.arange(1, find_tk + 1), p=p)
+        center_idx = np.arange(num_v).reshape(-1, 1)
+        # drop the center itself, which is not the first one if other vertices have the same features
+        order = np.argsort(nbr_idx != center_idx, axis=1, kind="stable")[:, 1:]
+        nbr_dist = np.take_along_axis(nbr_dist, order, axis=1)
+        nbr_idx = np.take_along_axis(nbr_idx, order, axis=1)
+        center_idx = center_idx.repeat(find_tk - 1, 1)
         if center_as_src:
             e_list = np.concatenate([center_idx.reshape(-1, 1), nbr_idx.reshape(-1, 1)], axis=1).tolist()
         else:
-- 
2.43.0


From 9d92d40ba36579d9471aac16e20b49f6e14b8d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 40/44] fix: the matrices of DiGraph.from_feature_kNN were of
 double precision, unusable with float features

---
 dhg/structure/graphs/directed_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dhg/structure/graphs/directed_graph.py b/dhg/structure/graphs/directed_graph.py
index 99e9696..4c5a474 100644
--- a/dhg/structure/graphs/directed_graph.py
+++ b/dhg/structure/graphs/directed_graph.py
@@ -242,9 +242,9 @@ class DiGraph(BaseGraph):
         else:
             e_list = np.concatenate([nbr_idx.reshape(-1, 1), center_idx.reshape(-1, 1)], axis=1).tolist()
         if distance2weight:
-            e_weight = np.exp(-nbr_dist).reshape(-1)
+            e_weight = np.exp(-nbr_dist).reshape(-1).tolist()
         else:
-            e_weight = np.ones_like(nbr_dist).reshape(-1)
+            e_weight = np.ones_like(nbr_dist).reshape(-1).tolist()
         _g = DiGraph(num_v, e_list, e_weight, device=device)
         if include_center:
             _g.add_extra_selfloop()
-- 
2.43.0


From 4bf5d456df416bb90b7659d7e7b60b2bf0e2238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 41/44] fix: hyperedges from feature kNN could leave out their
 center when features coincide

---
 dhg/structure/hypergraphs/hypergraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 319f33a..369c9bf 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -189,6 +189,7 @@ class Hypergraph(BaseHypergraph):
             k <= features.shape[0]
         ), "The number of nearest neighbors should be less than or equal to the number of vertices."
         dist_matrix = torch.cdist(features, features)
+        dist_matrix.fill_diagonal_(-1)  # the center comes first, even if other vertices have the same features
         _, nbr_indices = torch.topk(dist_matrix, k, largest=False)
         return nbr_indices.tolist()
 
-- 
2.43.0


From d7abb589e059e5d8f7db006e94adf51cbad003d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 42/44] fix: weights of graph edges may be whole numbers, and
 invalid or missing ones reject the call as a whole

---
 dhg/structure/base.py                   | 3 +++
 dhg/structure/graphs/bipartite_graph.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dhg/structure/base.py b/dhg/structure/base.py
index 9b86d2a..9fa9dff 100644
--- a/dhg/structure/base.py
+++ b/dhg/structure/base.py
@@ -137,6 +137,9 @@ class BaseGraph:
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        # check and convert before the first insertion, so that a rejected call leaves the graph unchanged
+        e_weight = [float(_w) for _w in e_weight]
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
diff --git a/dhg/structure/graphs/bipartite_graph.py b/dhg/structure/graphs/bipartite_graph.py
index 1faf8f9..734b6ee 100644
--- a/dhg/structure/graphs/bipartite_graph.py
+++ b/dhg/structure/graphs/bipartite_graph.py
@@ -202,6 +202,9 @@ class BiGraph(BaseGraph):
         # complete the weight
         if e_weight is None:
             e_weight = [1.0] * len(e_list)
+        # check and convert before the first insertion, so that a rejected call leaves the graph unchanged
+        e_weight = [float(_w) for _w in e_weight]
+        assert len(e_list) == len(e_weight), "The number of edges and the number of weights are not equal."
         return e_list, e_weight
 
     # =====================================================================================
-- 
2.43.0


From 987f5d23706b34c7e02ab78790bac3e9abdec0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 43/44] fix: Hypergraph.vars_for_DL fused two of its names

---
 dhg/structure/hypergraphs/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 369c9bf..8e20df5 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -679,7 +679,8 @@ class Hypergraph(BaseHypergraph):
             "D_e_neg_1",
             "v2e_src",
             "v2e_dst",
-            "v2e_weight" "e2v_src",
+            "v2e_weight",
+            "e2v_src",
             "e2v_dst",
             "e2v_weight",
         ]
-- 
2.43.0


From 9d637b8faf99ddd50da407f0b737b0673e323a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 44/44] fix: kNN hyperedges of more than 25 vertices are chosen
 by exact distances

torch.cdist switches to a matrix multiplication above 25 rows, whose rounding
errors pick vertices that are not the nearest ones.
---
 dhg/structure/hypergraphs/hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhg/structure/hypergraphs/hypergraph.py b/dhg/structure/hypergraphs/hypergraph.py
index 8e20df5..281a56e 100644
--- a/dhg/structure/hypergraphs/hypergraph.py
+++ b/dhg/structure/hypergraphs/hypergraph.py
@@ -188,7 +188,8 @@ class Hypergraph(BaseHypergraph):
         assert (
             k <= features.shape[0]
         ), "The number of nearest neighbors should be less than or equal to the number of vertices."
-        dist_matrix = torch.cdist(features, features)
+        # the matrix multiplication that torch uses for many vertices is too imprecise to tell near neighbors apart
+        dist_matrix = torch.cdist(features, features, compute_mode="donot_use_mm_for_euclid_dist")
         dist_matrix.fill_diagonal_(-1)  # the center comes first, even if other vertices have the same features
         _, nbr_indices = torch.topk(dist_matrix, k, largest=False)
         return nbr_indices.tolist()
-- 
2.43.0

