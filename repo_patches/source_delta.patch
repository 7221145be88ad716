From a1e5161c10ea11fe5432646b21f6f82f6f45997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 01/56] fix: get_edges_in_paths recursed without bound on
 cyclic graphs

---
 mandala/utils.py | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..7ff25a5 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -437,32 +437,33 @@ def get_edges_in_paths(
         start: str,
         end: str) -> Set[Tuple[str, str]]:
     """
-    Find all edges belonging to some *simple* path from A to B in a directed
-    graph that may contain cycles. 
+    Find all edges belonging to some path from `start` to `end` (ending on the
+    first arrival at `end`) in a directed graph that may contain cycles. 
     """
-    def dfs(node, path):
-        if node == end:
-            # We've found a path to B, mark all edges on this path
-            for edge in path:
-                valid_edges.add(edge)
-            return
-
-        visited.add(node)
-        for neighbor in graph[node]:
-            if neighbor not in visited:
-                dfs(neighbor, path + [(node, neighbor)])
-            elif (node, neighbor) not in valid_edges and (node, neighbor) not in path:
-                # If we've visited this neighbor before but this edge isn't marked yet,
-                # it might be part of a cycle that leads to B
-                dfs(neighbor, path + [(node, neighbor)])
-        if node in visited:
-            # we may have removed `node` already if it was part of a cycle
-            visited.remove(node)
-
-    visited = set()
-    valid_edges = set()
-    dfs(start, [])
-    return valid_edges
+    def reachable(source, neighbors):
+        seen = {source}
+        stack = [source]
+        while stack:
+            for neighbor in neighbors[stack.pop()]:
+                if neighbor not in seen:
+                    seen.add(neighbor)
+                    stack.append(neighbor)
+        return seen
+
+    # a path stops at `end`, so the edges out of it are never on a path
+    out_edges = {node: (neighbors if node != end else set()) for node, neighbors in graph.items()}
+    in_edges = {node: set() for node in graph}
+    for node, neighbors in out_edges.items():
+        for neighbor in neighbors:
+            in_edges[neighbor].add(node)
+    from_start = reachable(start, out_edges)
+    to_end = reachable(end, in_edges)
+    return {
+        (node, neighbor)
+        for node in from_start
+        for neighbor in out_edges[node]
+        if neighbor in to_end
+    }
 
 
 ################################################################################
-- 
2.43.0


From d867382e90a2921322801f5887df9368340b4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 02/56] fix: ComputationFrame.drop_call failed on calls whose
 outputs/inputs are not in the frame and left the call in its node

---
 mandala/cf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..1772548 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,7 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
+        hids = list(res.fs[fname])
         for hid in hids:
             res.drop_call(fname, hid)
         del res.fs[fname]
@@ -408,14 +408,16 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                if self.creator.get(output.hid) == hid:
+                    del self.creator[output.hid]
             for inp in call.inputs.values():
-                if inp.hid in self.consumers:
+                if hid in self.consumers.get(inp.hid, ()):
                     self.consumers[inp.hid].remove(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
             self.callinv[hid].remove(fname)
+        self.fs[fname].remove(hid)
 
     def in_neighbors(self, node: str) -> Set[str]:
         """
-- 
2.43.0


From e9ded9715368064e2a1f4019971cc04ddc27e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 03/56] fix: dropping an edge of a ComputationFrame left an
 empty label behind, hiding sources and sinks

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 1772548..7f4ec84 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -326,7 +326,11 @@ class ComputationFrame:
         Internal method to remove an edge from the computation frame inplace.
         """
         self.out[src][label].remove(dst)
+        if not self.out[src][label]:
+            del self.out[src][label]
         self.inp[dst][label].remove(src)
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
-- 
2.43.0


From 5df2d0bb9b6063a4a47e7b789a4974ccfbf56811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 04/56] fix: renaming a variable to itself or to an existing
 node corrupted the ComputationFrame

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7f4ec84..34aa7cd 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -254,7 +254,11 @@ class ComputationFrame:
         return res if not inplace else None
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
+        if new_vname != vname and new_vname in self.nodes:
+            raise ValueError(f"Node {new_vname} already exists in the CF")
         res = self if inplace else self.copy()
+        if new_vname == vname:
+            return res if not inplace else None
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
         res.out[new_vname] = res.out[vname]
-- 
2.43.0


From 6c2a87a107fd80821230ea3bb4e417849d3760ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 05/56] fix: ComputationFrame.cleanup and simplify did not
 remove empty nodes

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 34aa7cd..7ba85d4 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2071,7 +2071,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2084,7 +2084,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From 248cfe6961d9a816b27f1ce78fac6da3c4740d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 06/56] fix: merge_into and move_ref with inplace=False
 modified the original ComputationFrame

---
 mandala/cf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7ba85d4..c9aab97 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1979,8 +1979,8 @@ class ComputationFrame:
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
         #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -1995,7 +1995,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From 6cf0d2b587cec31368f5e03e54c820ed1b62d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 07/56] fix: get_adj_elts kept the elements of only one of
 several edges to the same neighbor

---
 mandala/cf.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c9aab97..78519f7 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -580,21 +580,15 @@ class ComputationFrame:
         """
         res = {}
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.in_edges(node):
+                res.setdefault(src, set()).update(
+                    self.get_adj_elts_edge((src, dst, label), hids, "back")
+                )
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for src, dst, label in self.out_edges(node):
+                res.setdefault(dst, set()).update(
+                    self.get_adj_elts_edge((src, dst, label), hids, "forward")
+                )
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
-- 
2.43.0


From 594dd773b85f1b2e6a40fe0534215b36de105c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 08/56] fix: select_subsets kept nodes an element was removed
 from in refinv/callinv

---
 mandala/cf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 78519f7..73a2d3d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -665,8 +665,14 @@ class ComputationFrame:
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = {
+            hid: {vname for vname in res.refinv[hid] if hid in vs[vname]}
+            for hid in ref_hids_subset
+        }
+        callinv = {
+            hid: {fname for fname in res.callinv[hid] if hid in fs[fname]}
+            for hid in call_hids_subset
+        }
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From fa9acb39d9a37f37f95851895b759856689ed3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 09/56] fix: isin and < failed on ComputationFrames with
 functions not adjacent to a variable

---
 mandala/cf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 73a2d3d..c519dfc 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1925,6 +1925,9 @@ class ComputationFrame:
         for vname in res.keys():
             new = self.get_adj_elts(node=vname, hids=res[vname], direction="both")
             res = get_setdict_union(res, new)
+        # function nodes with no calls next to the selected refs
+        for fname in self.fnames:
+            res.setdefault(fname, set())
         return res
 
     def __lt__(self, other: Union["ComputationFrame", Any]) -> "ComputationFrame":
-- 
2.43.0


From 16eb10243ac012d39a33c2f82000a3bb3132c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 10/56] fix: intersection of ComputationFrames kept elements
 and edge labels that are in no shared node

---
 mandala/cf.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c519dfc..dddb1f0 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -828,16 +828,36 @@ class ComputationFrame:
         """
         ditto, but for intersection
         """
-        inp = get_adjacency_intersection(a.inp, b.inp)
-        out = get_adjacency_intersection(a.out, b.out)
         vs = get_setdict_intersection(a.vs, b.vs)
         fs = get_setdict_intersection(a.fs, b.fs)
-        refinv = get_setdict_intersection(a.refinv, b.refinv)
-        callinv = get_setdict_intersection(a.callinv, b.callinv)
-        creator = get_dict_intersection_over_keys(a.creator, b.creator)
-        consumers = get_setdict_intersection(a.consumers, b.consumers)
-        refs = get_dict_intersection_over_keys(a.refs, b.refs)
-        calls = get_dict_intersection_over_keys(a.calls, b.calls)
+        out, inp = get_adj_from_edges(
+            set(a.edges()) & set(b.edges()), node_support=vs.keys() | fs.keys()
+        )
+        # restrict to the elements that are left in some node
+        ref_hids = get_nullable_union(*vs.values())
+        call_hids = get_nullable_union(*fs.values())
+        refs = {hid: a.refs[hid] for hid in ref_hids}
+        calls = {hid: a.calls[hid] for hid in call_hids}
+        refinv = {
+            hid: {vname for vname, hids in vs.items() if hid in hids}
+            for hid in ref_hids
+        }
+        callinv = {
+            hid: {fname for fname, hids in fs.items() if hid in hids}
+            for hid in call_hids
+        }
+        creator = {
+            hid: call_hid
+            for hid, call_hid in get_dict_intersection_over_keys(
+                a.creator, b.creator
+            ).items()
+            if hid in ref_hids and call_hid in call_hids
+        }
+        consumers = {
+            hid: hids & call_hids
+            for hid, hids in get_setdict_intersection(a.consumers, b.consumers).items()
+            if hid in ref_hids
+        }
         res = ComputationFrame(
             storage=a.storage,
             inp=inp,
-- 
2.43.0


From a4466b62ae6b165c7f12d93238fefc521ce17884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 11/56] fix: calls found by content were not found in the
 persistent storage (re-executed in a new session)

---
 mandala/storage_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..b3c711e 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None)
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
@@ -640,7 +641,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -738,7 +739,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -755,7 +756,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid, conn=conn)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From 33bc344df43a8b8a32c7aefb6fb76daf2516c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 12/56] fix: CachedCallStorage.drop left the persisted call in
 place and failed on calls that are not cached

---
 mandala/storage_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index b3c711e..1433a3a 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -723,10 +723,12 @@ class CachedCallStorage:
         self.cache.save(call)
         self.dirty_hids.add(call.hid)
 
-    def drop(self, hid: str):
-        self.cache.drop(hid)
+    def drop(self, hid: str, conn: Optional[sqlite3.Connection] = None):
+        if self.cache.exists(hid):
+            self.cache.drop(hid)
         if hid in self.dirty_hids:
             self.dirty_hids.remove(hid) # when we `drop`, we forget this key ever existed
+        self.persistent.drop(hid, conn=conn)
 
     def exists(self, call_history_id: str) -> bool:
         if self.cache.exists(call_history_id):
-- 
2.43.0


From 4563531c09af7fee7f8f97e6bd04cf24639390b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 13/56] fix: after clear_cache the storage kept using the
 replaced call cache

---
 mandala/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..f951d76 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -43,7 +43,6 @@ class Storage:
 
         self.call_storage = SQLiteCallStorage(db=self.db, table_name="calls")
         self.calls = CachedCallStorage(persistent=self.call_storage)
-        self.call_cache = self.calls.cache
 
         self.overflow_dir = overflow_dir
         self.overflow_threshold_MB = overflow_threshold_MB
@@ -148,6 +147,10 @@ class Storage:
     def conn(self) -> sqlite3.Connection:
         return self.db.conn()
 
+    @property
+    def call_cache(self) -> InMemCallStorage:
+        return self.calls.cache
+
     def vacuum(self):
         with self.conn() as conn:
             conn.execute("VACUUM")
-- 
2.43.0


From ef7a73be951836a02399683ce8b1022e45a73849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 14/56] fix: drop_calls missed dependents that are not
 committed and broke the next commit

---
 mandala/storage.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f951d76..1b7acce 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -403,6 +403,15 @@ class Storage:
     def get_call(self, hid: str, lazy: bool) -> Call:
         return self.mget_call([hid], in_memory=lazy)[0]
 
+    def _get_all_calls_df(self, conn: Optional[sqlite3.Connection] = None) -> pd.DataFrame:
+        """
+        The data of all calls, persisted or only cached.
+        """
+        df = self.call_storage.get_df(conn=conn)
+        cached_df = self.call_cache.df
+        is_persisted = cached_df.index.get_level_values(0).isin(df.index.get_level_values(0))
+        return pd.concat([df, cached_df[~is_persisted]])
+
     @transaction
     def drop_calls(self, calls_or_hids: Union[Iterable[str], Iterable[Call]], delete_dependents: bool, 
                    conn: Optional[sqlite3.Connection] = None):
@@ -420,20 +429,20 @@ class Storage:
             hids = list(calls_or_hids)
         hids = set(hids)
         if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
-                ref_hids=set(), call_hids=hids, conn=conn,
+            # the dependents may be persisted or only cached
+            all_calls = InMemCallStorage(self._get_all_calls_df(conn=conn))
+            _, dependent_call_hids = all_calls.get_dependents(
+                ref_hids=set(), call_hids=hids,
             )
             hids |= dependent_call_hids
         num_dropped_cache = 0
         num_dropped_persistent = 0
         for hid in hids:
             if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
                 num_dropped_cache += 1
-        for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
-                self.call_storage.drop(hid, conn=conn)
                 num_dropped_persistent += 1
+            self.calls.drop(hid, conn=conn)
         logger.info(f"Dropped {num_dropped_persistent} calls (and {num_dropped_cache} from cache).")
 
     ############################################################################
-- 
2.43.0


From bafb8cd8a8e8563c901cec7b8b64c27204e13673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 15/56] fix: a failed attempt left a transaction open on
 in-memory databases, so all later ones failed

---
 mandala/storage_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 1433a3a..00b923e 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -69,9 +69,10 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
             except sqlite3.OperationalError as e:
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
+                conn.rollback() # in-memory databases keep their connection
                 time.sleep(delay)
                 continue
-            except Exception as e:
+            except BaseException as e:
                 conn.rollback()
                 raise e
             finally:
-- 
2.43.0


From a7ea5b267c9e57d903c0915895a8856aa73a3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 16/56] fix: preloading discarded calls and values that were
 not committed yet

---
 mandala/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1b7acce..4e792c4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -190,18 +190,18 @@ class Storage:
         print(dataframe_to_prettytable(df))
 
     def preload_calls(self):
-        df = self.call_storage.get_df()
+        df = self._get_all_calls_df() # includes the calls that are not committed yet
         self.call_cache.df = df
         self.call_cache.call_hids = set(df.index.levels[0].unique())
     
     def preload_shapes(self):
-        self.shapes.cache = self.shapes.persistent.load_all()
+        self.shapes.cache = {**self.shapes.persistent.load_all(), **self.shapes.cache}
     
     def preload_ops(self):
-        self.ops.cache = self.ops.persistent.load_all()
+        self.ops.cache = {**self.ops.persistent.load_all(), **self.ops.cache}
 
     def preload_atoms(self):
-        self.atoms.cache = self.atoms.persistent.load_all()
+        self.atoms.cache = {**self.atoms.persistent.load_all(), **self.atoms.cache}
     
     def preload(self, lazy: bool = True):
         self.preload_calls()
-- 
2.43.0


From 8bb15b21088b940b51351fee4c8ab2887ffbf8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 17/56] fix: a crash while writing an overflow file left a
 damaged value that could not be overwritten

---
 mandala/storage_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 00b923e..5681071 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -154,7 +154,11 @@ class JoblibDictStorage(DictStorage):
     def set(self, key: str, value: Any) -> None:
         if self.exists(key):
             return # this is a write-once storage
-        joblib.dump(value, self.get_path_for_key(key))
+        # never leave a partially written file under the final name
+        path = self.get_path_for_key(key)
+        tmp_path = f'{path}.{uuid.uuid4()}.tmp'
+        joblib.dump(value, tmp_path)
+        os.replace(tmp_path, path)
     
     def drop(self, key: str) -> None:
         os.remove(self.get_path_for_key(key))
-- 
2.43.0


From 7a8ae615f6e02d94e8997690cd5b0e9aa1cefcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 18/56] fix: committing a call that another session committed
 first failed and lost the session's data

---
 mandala/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 5681071..1633f80 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -553,14 +553,14 @@ class SQLiteCallStorage:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "in", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
         for k in call_data["output_hids"]:
             hid = call_data["output_hids"][k]
             cid = call_data["output_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "out", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
 
-- 
2.43.0


From 4e78b559623830d21815ea2ab8bc6539b44518bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 19/56] fix: load_ref left the elements of lists unloaded

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 4e792c4..66cde6e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -286,7 +286,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From 14c60427773171a10a76c6b72281228960ca82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:11 +0000
Subject: [PATCH 20/56] fix: a failed commit lost the session's data, or left
 part of it in an in-memory database

---
 mandala/storage.py       | 20 +++++++++++++-------
 mandala/storage_utils.py | 23 ++++++++++++++++++++---
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 66cde6e..42733dd 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -211,13 +211,19 @@ class Storage:
             self.preload_atoms()
 
     def commit(self):
-        with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
-            if self.versioned:
-                self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+        self._persist_uncommitted()
+        # only now is it safe to forget what was not committed
+        for cache in (self.atoms, self.shapes, self.ops, self.calls):
+            cache.mark_committed()
+
+    @transaction
+    def _persist_uncommitted(self, conn: Optional[sqlite3.Connection] = None):
+        self.atoms.persist(conn=conn)
+        self.shapes.persist(conn=conn)
+        self.ops.persist(conn=conn)
+        if self.versioned:
+            self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+        self.calls.persist(conn=conn)
 
 
     def __repr__(self):
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 1633f80..769c79e 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -299,8 +299,18 @@ class CachedDictStorage(DictStorage):
         """
         Persist the values of all dirty keys and clear them
         """
+        self.persist(conn=conn)
+        self.mark_committed()
+
+    def persist(self, conn: Optional[sqlite3.Connection] = None) -> None:
+        """
+        Write the values of all dirty keys, which stay dirty (in case the
+        enclosing transaction fails)
+        """
         for key in self.dirty_keys:
             self.persistent.set(key, self.cache[key], conn=conn)
+
+    def mark_committed(self) -> None:
         self.dirty_keys.clear()
     
     def clear(self, allow_uncommited: bool = False) -> None:
@@ -772,11 +782,18 @@ class CachedCallStorage:
         raise NotImplementedError()
 
     def commit(self, conn: Optional[sqlite3.Connection] = None):
-        if conn is None:
-            conn = self.persistent.conn()
-        # with conn:
+        self.persist(conn=conn)
+        self.mark_committed()
+
+    def persist(self, conn: Optional[sqlite3.Connection] = None):
+        """
+        Write all dirty calls, which stay dirty (in case the enclosing
+        transaction fails)
+        """
         for hid in self.dirty_hids:
             self.persistent.save(self.cache.get_data(hid), conn=conn)
+
+    def mark_committed(self):
         self.dirty_hids.clear()
     
     def clear(self, allow_uncommited: bool = False):
-- 
2.43.0


From de0ff42f52737b06e07b95d5db93e4a07f5db658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 21/56] fix: storing a value failed without an overflow
 threshold

---
 mandala/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 769c79e..3733360 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -222,7 +222,7 @@ class SQLiteDictStorage(DictStorage):
         serialized_value = serialize(value)
         # compute the space this string would take up in bytes
         size_MB = len(serialized_value) / 1024 / 1024
-        if size_MB > self.overflow_threshold_MB:
+        if self.overflow_threshold_MB is not None and size_MB > self.overflow_threshold_MB:
             if self.overflow_storage is not None:
                 self.overflow_storage.set(key, value)
             else:
-- 
2.43.0


From be5afdccc3b83936c0f9e2ed9eb64329cc9468ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 22/56] fix: keys and values listed entries stored under
 different overflow thresholds twice

---
 mandala/storage_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 3733360..878ff30 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -257,16 +257,20 @@ class SQLiteDictStorage(DictStorage):
         cursor = conn.execute(f"SELECT key FROM {self.table}")
         res = [row[0] for row in cursor.fetchall()]
         if self.overflow_storage is not None:
-            res.extend(self.overflow_storage.keys())
+            # a key can be in both if it was stored with different thresholds
+            in_db = set(res)
+            res.extend(key for key in self.overflow_storage.keys() if key not in in_db)
         return res
 
     @transaction
     def values(self, conn: Optional[sqlite3.Connection] = None) -> List[Any]:
-        cursor = conn.execute(f"SELECT value FROM {self.table}")
-        res = [deserialize(row[0]) for row in cursor.fetchall()]
+        cursor = conn.execute(f"SELECT key, value FROM {self.table}")
+        res = {row[0]: deserialize(row[1]) for row in cursor.fetchall()}
         if self.overflow_storage is not None:
-            res.extend(self.overflow_storage.values())
-        return res
+            for key in self.overflow_storage.keys():
+                if key not in res:
+                    res[key] = self.overflow_storage.get(key)
+        return list(res.values())
 
 
 class CachedDictStorage(DictStorage):
-- 
2.43.0


From 752c25f69a38f1d022b7dac08955f81c907ba9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 23/56] fix: drop_calls skipped the first call given by an
 iterator

---
 mandala/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 42733dd..736dca9 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -429,10 +429,11 @@ class Storage:
         hit a false positive.
         """
         # figure out what we're given    
+        calls_or_hids = list(calls_or_hids) # it may be possible to iterate only once
         if all(isinstance(c, Call) for c in calls_or_hids):
             hids = [c.hid for c in calls_or_hids]
         else:
-            hids = list(calls_or_hids)
+            hids = calls_or_hids
         hids = set(hids)
         if delete_dependents:
             # the dependents may be persisted or only cached
-- 
2.43.0


From 333e3d9ce681649086b93a1a0ae0814632ae6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 24/56] fix: Storage.cf lost the references given by an
 iterator

---
 mandala/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 736dca9..bac1fc7 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1164,7 +1164,9 @@ class Storage:
             return ComputationFrame.from_op(storage=self, f=source)
         elif isinstance(source, Ref):
             return ComputationFrame.from_refs(refs=[source], storage=self)
-        elif all(isinstance(elt, Ref) for elt in source):
+        if not isinstance(source, dict):
+            source = list(source) # it may be possible to iterate only once
+        if all(isinstance(elt, Ref) for elt in source):
             return ComputationFrame.from_refs(refs=source, storage=self)
         elif isinstance(source, dict):
             for k in source.keys():
-- 
2.43.0


From 633a74ef19d1ab6c047e04225474bbaef6a55d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 25/56] fix: cleanup_refs removed elements of collections that
 are still in use

---
 mandala/storage.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index bac1fc7..b7f02ed 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -480,14 +480,28 @@ class Storage:
 
     def get_orphans(self) -> Set[str]:
         """
-        Return the HIDs of the refs not connected to any calls.
+        Return the HIDs of the refs not connected to any calls, whether
+        directly or as elements of a collection.
         """
         if self.in_context():
             raise NotImplementedError("Method not supported while in a context.")
-        all_hids = set(self.shapes.persistent.keys())
+        shapes = self.shapes.persistent.load_all()
         df = self.call_storage.get_df()
-        hids_in_calls = df["ref_history_id"].unique()
-        return all_hids - set(hids_in_calls)
+        hids_in_use = set(df["ref_history_id"].unique())
+        to_visit = list(hids_in_use)
+        while to_visit:
+            shape = shapes.get(to_visit.pop())
+            if isinstance(shape, ListRef):
+                elts = shape.obj
+            elif isinstance(shape, DictRef):
+                elts = shape.obj.values()
+            else:
+                continue
+            for elt in elts:
+                if elt.hid not in hids_in_use:
+                    hids_in_use.add(elt.hid)
+                    to_visit.append(elt.hid)
+        return set(shapes.keys()) - hids_in_use
 
     def get_unreferenced_cids(self) -> Set[str]:
         """
-- 
2.43.0


From f0771482a7dc3f887bf17d49f475b71ead93e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 26/56] fix: a call with an input and an output of the same
 name could not be stored

---
 mandala/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 878ff30..3934630 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -534,7 +534,7 @@ class SQLiteCallStorage:
             conn.execute(
                 f"CREATE TABLE IF NOT EXISTS {table_name} (call_history_id TEXT, name TEXT, direction TEXT, "
                 "call_content_id TEXT, ref_content_id TEXT, ref_history_id TEXT, op TEXT, semantic_version TEXT, "
-                "content_version TEXT, PRIMARY KEY (call_history_id, name))"
+                "content_version TEXT, PRIMARY KEY (call_history_id, name, direction))"
             )
     
     def conn(self) -> sqlite3.Connection:
-- 
2.43.0


From 799d8583e42e0b87c0195fa23b0cfce93fb0dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 27/56] fix: arguments passed by keyword to functions with
 *args or **kwargs did not reach the function

---
 mandala/storage.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index b7f02ed..53aa3c2 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -809,7 +809,6 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
-        kwarg_keys: Optional[List[str]] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -876,23 +875,8 @@ class Storage:
             # cids_before = {k: v.cid for k, v in wrapped_inputs.items()}
             # raw_values = {k: self.unwrap(v) for k, v in wrapped_inputs.items()}
             ### we must run the function
-            kwargs = {}
-            if kwarg_keys is not None:
-                for k in kwarg_keys:
-                    if k in bound_arguments.arguments:
-                        kwargs[k] = bound_arguments.arguments[k]
-                        del bound_arguments.arguments[k]
-                    else: # must be a var keyword
-                        # figure out the name of the var keyword
-                        var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
-                        var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
-                        assert var_keyword is not None
-                        varkwargs = bound_arguments.arguments[var_keyword.name]
-                        kwargs[k] = varkwargs[k]
-                        del varkwargs[k]
-            args, leftover_kwargs = bound_arguments.args, bound_arguments.kwargs
+            args, kwargs = boundargs_to_args_kwargs(bound_arguments)
             args = self.unwrap(args)
-            kwargs.update(leftover_kwargs)
             kwargs = self.unwrap(kwargs)
             # replace any ValuePointer instances with their underlying objects
             kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  
@@ -1198,7 +1182,6 @@ class Storage:
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
         config = {} if config is None else config
-        kwarg_keys = set(kwargs.keys())
         bound_arguments, storage_inputs, storage_annotations = self.parse_args(
             sig=inspect.signature(op.f),
             args=args,
@@ -1225,7 +1208,6 @@ class Storage:
                 storage_inputs = storage_inputs,
                 bound_arguments = bound_arguments,
                 storage_tps=storage_tps,
-                kwarg_keys=kwarg_keys,
             )
             if config.get("save_calls", False):
                 self.save_call(main_call)
-- 
2.43.0


From 7b21d5fb113adf0a788c644d4af19c5c00664315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 28/56] fix: functions got the wrapper of arguments ignored
 twice

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 53aa3c2..9b006a9 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -778,7 +778,7 @@ class Storage:
                         storage_inputs[name] = val
                         storage_annotations[name] = var_keyword.annotation
             else:
-                if ignore_args is not None and k in ignore_args:
+                if ignore_args is not None and k in ignore_args and not isinstance(v, _Ignore):
                     v = Ignore(v)
                 # could have a default
                 if isinstance(v, _Ignore):
-- 
2.43.0


From 1ef35b553a02f0b286e8055a4c37d93e7ba31a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 29/56] fix: ignore_args had no effect on extra positional and
 keyword arguments

---
 mandala/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 9b006a9..f4f6c8d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -760,7 +760,7 @@ class Storage:
                 # there are no defaults here
                 # we must unwrap any _Ignore instances
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
-                ignored_mask = [True if isinstance(arg, _Ignore) else False for arg in v]
+                ignored_mask = [isinstance(arg, _Ignore) or (ignore_args is not None and k in ignore_args) for arg in v]
                 names = [f'{k}_{i}' for i in range(len(new_v))]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
@@ -771,7 +771,8 @@ class Storage:
             elif var_keyword is not None and k == var_keyword.name:
                 # there are no defaults here either
                 new_v = {k: arg.value if isinstance(arg, _Ignore) else arg for k, arg in v.items()}
-                ignored_mask = {k: True if isinstance(arg, _Ignore) else False for k, arg in v.items()}
+                ignored_mask = {name: isinstance(arg, _Ignore) or (ignore_args is not None and (k in ignore_args or name in ignore_args))
+                                for name, arg in v.items()}
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
-- 
2.43.0


From 7fa3fe5213e3a170da731da441023e3a05526887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 30/56] fix: extra keyword arguments were confused with other
 arguments of the same name

---
 mandala/storage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mandala/storage.py b/mandala/storage.py
index f4f6c8d..75e4096 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -762,6 +762,8 @@ class Storage:
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
                 ignored_mask = [isinstance(arg, _Ignore) or (ignore_args is not None and k in ignore_args) for arg in v]
                 names = [f'{k}_{i}' for i in range(len(new_v))]
+                # keep clear of the names of other parameters
+                names = [f'*{name}' if name in sig.parameters else name for name in names]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
                 for name, val, ignored in zip(names, new_v, ignored_mask):
@@ -776,6 +778,11 @@ class Storage:
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
+                        # keep clear of the names of other parameters and of
+                        # extra positional arguments
+                        if name in sig.parameters or name.startswith('*') or (
+                            var_positional is not None and name.startswith(f'{var_positional.name}_')):
+                            name = f'**{name}'
                         storage_inputs[name] = val
                         storage_annotations[name] = var_keyword.annotation
             else:
-- 
2.43.0


From ed084926d9aeedc94fdef779f35944c35ea67f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 31/56] fix: value pointers were confused with strings equal to
 their id

---
 mandala/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..77420ed 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -303,8 +303,9 @@ def wrap_atom(obj: Any, history_id: Optional[str] = None) -> AtomRef:
         return obj
     if isinstance(obj, ValuePointer):
         # we never directly hash the object, but rather the id
-        uid = get_content_hash(obj.id) 
-        return AtomRef(cid=uid, hid=uid, in_memory=True, obj=ValuePointer(id=obj.id, obj=None))
+        pointer = ValuePointer(id=obj.id, obj=None)
+        uid = get_content_hash(pointer) # must differ from the hash of the string `obj.id`
+        return AtomRef(cid=uid, hid=uid, in_memory=True, obj=pointer)
     uid = get_content_hash(obj)
     if history_id is None:
         history_id = get_content_hash(uid)
-- 
2.43.0


From d56171b305c2aa67abb21c59209c955e1cdb2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 32/56] fix: calls whose number of outputs contradicts the
 output names were recorded, or lost outputs

---
 mandala/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/utils.py b/mandala/utils.py
index 7ff25a5..2786046 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -243,6 +243,8 @@ def parse_returns(
         assert isinstance(returns, tuple)
         assert len(returns) == nout
         returns_tuple = returns
+    if output_names is not None and not (len(set(output_names)) == len(output_names) == nout):
+        raise ValueError(f"Got {nout} outputs, but the output names are {output_names}.")
     ### get the dict of outputs
     outputs_dict = {
         dump_output_name(i, output_names): returns_tuple[i] for i in range(nout)
-- 
2.43.0


From c0a516f5e7a111fc5f49e0de1fb5c5683aef5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 33/56] fix: functions called outside a context got the
 wrappers of ignored, defaulted and pointed-to arguments

---
 mandala/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mandala/model.py b/mandala/model.py
index 77420ed..0042a2e 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -9,7 +9,7 @@ from .config import *
 from .utils import (
     parse_output_name,
 )
-from .utils import serialize, deserialize, get_content_hash
+from .utils import serialize, deserialize, get_content_hash, boundargs_to_args_kwargs
 
 ################################################################################
 ### model
@@ -243,6 +243,12 @@ class Op:
 
     def __call__(self, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
         if Context.current_context is None:  # act as noop
+            bound_arguments = inspect.signature(self.f).bind(*args, **kwargs)
+            bound_arguments.apply_defaults()
+            args, kwargs = boundargs_to_args_kwargs(bound_arguments)
+            # unwrap the special values, including those given as defaults
+            args = [unwrap_special_value(arg) for arg in args]
+            kwargs = {k: unwrap_special_value(v) for k, v in kwargs.items()}
             return self.f(*args, **kwargs)
         else:
             storage = Context.current_context.storage
-- 
2.43.0


From 6616a2765c0fe608619efc56702059f68bc91a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 34/56] fix: calls with an input and an output of the same name
 lost one of them

---
 mandala/storage_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 3934630..11f806f 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -362,7 +362,7 @@ class InMemCallStorage:
             self.call_hids = set(df.index.levels[0].unique())
         else:
             self.df = pd.DataFrame(columns=InMemCallStorage.COLUMNS).set_index(
-                ["call_history_id", "name"]
+                ["call_history_id", "name", "direction"]
             )
             self.call_hids = set()
         
@@ -377,10 +377,9 @@ class InMemCallStorage:
             sess._times = []
         start = time.time()
         for k, v in call.inputs.items():
-            self.df.loc[(call.hid, k), :] = ("in", call.cid, v.cid, v.hid, call.op.name, call.semantic_version, call.content_version)
+            self.df.loc[(call.hid, k, "in"), :] = (call.cid, v.cid, v.hid, call.op.name, call.semantic_version, call.content_version)
         for k, v in call.outputs.items():
-            self.df.loc[(call.hid, k), :] = (
-                "out",
+            self.df.loc[(call.hid, k, "out"), :] = (
                 call.cid,
                 v.cid,
                 v.hid,
@@ -547,7 +546,7 @@ class SQLiteCallStorage:
         Load the full table into a DataFrame.
         """
         return pd.read_sql(f"SELECT * FROM {self.table_name}", conn).set_index(
-            ["call_history_id", "name"]
+            ["call_history_id", "name", "direction"]
         )
 
     @transaction
-- 
2.43.0


From 7e78795ace769174bb9610ec2374448367e85fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 35/56] fix: memoized functions could not be given a keyword
 argument named self

---
 mandala/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/model.py b/mandala/model.py
index 0042a2e..07457b4 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -241,7 +241,7 @@ class Op:
             __structural__=self.__structural__,
         )
 
-    def __call__(self, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
+    def __call__(self, /, *args, **kwargs) -> Union[Tuple[Ref, ...], Ref]:
         if Context.current_context is None:  # act as noop
             bound_arguments = inspect.signature(self.f).bind(*args, **kwargs)
             bound_arguments.apply_defaults()
-- 
2.43.0


From 2f5df63ecd902afa60004a74e8813049fa37bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 36/56] fix: a call without inputs and outputs made the commit
 fail and lose the session

---
 mandala/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/storage.py b/mandala/storage.py
index 75e4096..ad846f1 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -348,6 +348,8 @@ class Storage:
         """
         if self.calls.exists(call.hid):
             return
+        if not call.inputs and not call.outputs:
+            return # there is nothing to record
         if not self.ops.exists(key=call.op.name):
             # save the op
             logger.debug(f"Caching new op {call.op.name}.")
-- 
2.43.0


From 652112d3df5d5c348ed96155e3485d08d6e641e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 37/56] fix: calls with fewer outputs than their return
 annotation declares were recorded

---
 mandala/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandala/utils.py b/mandala/utils.py
index 2786046..9459d89 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -267,6 +267,8 @@ def parse_returns(
                     k: output_annotation.__args__[0] for k in outputs_dict.keys()
                 }
             else:
+                if len(output_annotation.__args__) != nout:
+                    raise ValueError(f"Got {nout} outputs, but the return annotation is {output_annotation}.")
                 annotations_dict = {
                     k: output_annotation.__args__[i]
                     for i, k in enumerate(outputs_dict.keys())
-- 
2.43.0


From 98f2f50c6b87725e1656788fad43a720284e6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 38/56] fix: functions called outside a context got the pointer
 of ignored value pointers

---
 mandala/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/model.py b/mandala/model.py
index 07457b4..13ab4e9 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -133,7 +133,7 @@ def unwrap_special_value(obj: ValuePointer | _Ignore | Any) -> Any:
     if isinstance(obj, ValuePointer):
         return obj.obj
     elif isinstance(obj, _Ignore):
-        return obj.value
+        return unwrap_special_value(obj.value)
     else:
         return obj
 
-- 
2.43.0


From 4605e9d385237c55270d343c7e29f25e526210e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 39/56] fix: collections found by content were not linked to
 their elements

---
 mandala/storage.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index ad846f1..8850418 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -625,7 +625,7 @@ class Storage:
         output_ref = main_call.outputs[list(main_call.outputs.keys())[0]]
         return output_ref, calls
 
-    def destruct(self, ref: Ref, tp: Type) -> Tuple[Ref, List[Call]]:
+    def destruct(self, ref: Ref) -> Tuple[Ref, List[Call]]:
         """
         Given a value w/ correct hid but possibly incorrect internal hids,
         destructure it, and return a value with correct internal hids and the
@@ -635,35 +635,31 @@ class Storage:
         if isinstance(ref, AtomRef):
             return ref, destr_calls
         elif isinstance(ref, ListRef):
-            assert isinstance(ref, ListRef)
-            assert isinstance(tp, ListType)
             new_elts = []
             for i, elt in enumerate(ref):
                 getitem_dict, item_call, _ = self.call_internal(
                     op=__list_getitem__,
                     storage_inputs={"list": ref, "i": i},
-                    storage_tps={"list": tp, "i": AtomType()},
+                    storage_tps={"list": AtomType(), "i": AtomType()},
                 )
                 new_elt = getitem_dict["list_item"]
                 destr_calls.append(item_call)
-                new_elt, elt_subcalls = self.destruct(new_elt, tp=tp.elt)
+                new_elt, elt_subcalls = self.destruct(new_elt)
                 new_elts.append(new_elt)
                 destr_calls.extend(elt_subcalls)
             res = ListRef(cid=ref.cid, hid=ref.hid, in_memory=True, obj=new_elts)
             return res, destr_calls
         elif isinstance(ref, DictRef):
-            assert isinstance(ref, DictRef)
-            assert isinstance(tp, DictType)
             new_items = {}
             for k, v in ref.items():
                 getvalue_dict, value_call, _ = self.call_internal(
                     op=__dict_getitem__,
                     storage_inputs={"dict": ref, "key": k},
-                    storage_tps={"dict": tp, "key": tp.key},
+                    storage_tps={"dict": AtomType(), "key": AtomType()},
                 )
                 new_v = getvalue_dict["dict_value"]
                 destr_calls.append(value_call)
-                new_v, v_subcalls = self.destruct(new_v, tp=tp.val)
+                new_v, v_subcalls = self.destruct(new_v)
                 new_items[k] = new_v
                 destr_calls.extend(v_subcalls)
             res = DictRef(cid=ref.cid, hid=ref.hid, in_memory=True, obj=new_items)
@@ -712,7 +708,8 @@ class Storage:
         call_cid = op.get_call_content_id(
             inputs=inputs, semantic_version=semantic_version
         )
-        if self.calls.exists_content(cid=call_cid):
+        # (structural calls are cheap to make again, and return their own inputs)
+        if not op.__structural__ and self.calls.exists_content(cid=call_cid):
             logger.debug(f"Found call to {op.name} with cid {call_cid}.")
             call_data = self.calls.get_data_content(cid=call_cid)
             call_prototype = self._get_call_from_data(call_data, in_memory=True)
@@ -865,9 +862,15 @@ class Storage:
             call_hid = call_option.hid
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
+            if not op.__structural__ and not self.calls.exists(call_hid):
+                # found by content: collections have new history ids, so they
+                # must be linked to their elements again
+                for k, v in main_call.outputs.items():
+                    main_call.outputs[k], output_calls = self.destruct(v)
+                    input_calls.extend(output_calls)
             return main_call.outputs, main_call, input_calls
         
-        if not self._allow_new_calls:
+        if not self._allow_new_calls and not op.__structural__:
             # caller should decide how to handle this
             raise RuntimeError(f"Call to {op.name} does not exist and new calls are not allowed.")
 
@@ -948,7 +951,7 @@ class Storage:
             else:  # recurse on types
                 start, _ = self.construct(tp=output_tps[k], val=v)
                 start = start.with_hid(hid=output_history_ids[k])
-                final, output_calls_for_output = self.destruct(start, tp=output_tps[k])
+                final, output_calls_for_output = self.destruct(start)
                 output_calls.extend(output_calls_for_output)
                 wrapped_outputs[k] = final
         main_call = Call(
-- 
2.43.0


From b3bd282f251771a672782d547373d3cf3c151acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 40/56] fix: leaving the context of another storage deactivated
 the enclosing one

---
 mandala/storage.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 8850418..7d3155f 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -125,6 +125,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # stack of the contexts that were active when each level was entered
+        self._context_stack = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1237,14 +1239,31 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
-        Context.current_context = Context(storage=self)
-        self._mode_stack.append(self._next_mode)
+        self._enter_level()
         if self.versioned:
-            versioner, code_state = self.sync_code()
+            try:
+                versioner, code_state = self.sync_code()
+            except BaseException: # there will be no `__exit__`
+                self._exit_level()
+                raise
             self.cached_versioner = versioner
             self.code_state = code_state
         return self
 
+    def _enter_level(self):
+        self._context_stack.append(Context.current_context)
+        Context.current_context = Context(storage=self)
+        self._mode_stack.append(self._next_mode)
+
+    def _exit_level(self):
+        # back to the context (possibly of another storage) and mode from before
+        Context.current_context = self._context_stack.pop()
+        _ = self._mode_stack.pop()
+        if self._mode_stack:
+            self._next_mode = self._mode_stack[-1]
+        else:
+            self._next_mode = 'run'
+
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
     #     Context.current_context = None
     #     try:
@@ -1264,26 +1283,21 @@ class Storage:
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         # Context.current_context = None
+        is_topmost = len(self._mode_stack) == 1
         try:
-            if len(self._mode_stack) == 1: # this is the topmost level
+            if is_topmost:
                 self.commit()
         except Exception as e:
             raise e
         finally:
-            if len(self._mode_stack) == 1: # this is the topmost level
-                Context.current_context = None
+            self._exit_level()
+            if is_topmost:
                 self.cached_versioner = None
                 self.code_state = None
 
                 for hook in self._exit_hooks:
                     hook(self)
 
-            _ = self._mode_stack.pop()
-            if self._mode_stack:
-                self._next_mode = self._mode_stack[-1]
-            else:
-                self._next_mode = 'run'
-
 
 
 class noop:
-- 
2.43.0


From 6d5e222986fbc5e70baf6afecde76d599e30f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 41/56] fix: calls could not be computed again in versioned
 storages once their record was dropped or failed to be saved

---
 mandala/deps/versioner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 530952e..d557011 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -423,7 +423,12 @@ class Versioner:
             "content_version": version.content_version,
             "outputs": outputs,
         }
-        if not is_recompute:
+        candidates = self.df[self.df["pre_call_uid"] == pre_call_uid]
+        # the same execution may be seen again, e.g. when its call was dropped
+        is_recorded = (
+            version.semantic_version in candidates["semantic_version"].values.tolist()
+        )
+        if not is_recompute and not is_recorded:
             self._check_semantic_distinguishability(
                 component=component, pre_call_uid=pre_call_uid, call_version=version
             )
-- 
2.43.0


From a30d1025b65eadbca5eed4ecccbd9e42be53b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 42/56] fix: an exception in a tracked function unbalanced the
 tracer's call stack

---
 mandala/deps/tracers/dec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..1db4e92 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -143,9 +143,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally:
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
-- 
2.43.0


From 1dacbf348f24d4d1c84d1c7db64ad07c9ff3754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 43/56] fix: no memoized function could run under strict
 tracing

---
 mandala/storage.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 7d3155f..83a8769 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -901,12 +901,9 @@ class Storage:
                 tracer = tracer_option
                 with tracer:
                     if isinstance(tracer, DecTracer):
-                        f = track(op.f)
-                        node = tracer.register_call(func=f)
+                        f = track(op.f) # registers the call itself
                     #! call the function
                     returns = f(*args, **kwargs)
-                    if isinstance(tracer, DecTracer):
-                        tracer.register_return(node=node)
             else:
                 returns = f(*args, **kwargs)
 
-- 
2.43.0


From 5999074ccb6a04c8a91b462f5aa4e769ee25ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 44/56] fix: tracked memoized functions could not be used
 inside other memoized functions

---
 mandala/deps/tracers/dec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 1db4e92..82f8d24 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -158,7 +158,7 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
         obj.f = make_tracked_copy(f=obj.f)
         TracerState.registry[
             (obj.f.__module__, obj.f.__qualname__)
-        ] = obj.f
+        ] = unwrap_decorators(obj.f, strict=True)
         return obj
     else:
         raise TypeError("Can only track callable objects")
-- 
2.43.0


From 558b0bb62c8cd6cde92b0cac72844d49bb888be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 45/56] fix: memoized calls made by a memoized function, and
 all it used after them, were missing from its dependencies

---
 mandala/deps/model.py |  9 ++++++
 mandala/storage.py    | 66 +++++++++++++++++++++++++++++++------------
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/mandala/deps/model.py b/mandala/deps/model.py
index 4187c17..40bdadf 100644
--- a/mandala/deps/model.py
+++ b/mandala/deps/model.py
@@ -329,5 +329,14 @@ class DependencyGraph:
             self.add_node(target)
         self.edges.add((source.key, target.key))
 
+    def add_graph(self, graph: "DependencyGraph", parent: Node):
+        """
+        Add a graph whose roots were used by the given node
+        """
+        for node in graph.nodes.values():
+            self.add_node(node)
+        self.edges.update(graph.edges)
+        self.edges.update((parent.key, root) for root in graph.roots)
+
 
 from .viz import to_dot, to_string
diff --git a/mandala/storage.py b/mandala/storage.py
index 83a8769..c92a57a 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -10,6 +10,7 @@ from .deps.versioner import Versioner, CodeState
 from .deps.utils import get_dep_key_from_func, extract_func_obj
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
+from .deps.model import TerminalData
 
 from .storage_utils import (
     DBAdapter,
@@ -818,6 +819,7 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
+        caller_trace_obj: Optional[TracerABC] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -838,12 +840,6 @@ class Storage:
         if len(input_calls) > 0:
             if not op.__structural__: logger.debug(f"Collected {len(input_calls)} calls for inputs.")
 
-        if must_version_call:
-            suspended_trace_obj = self.cached_versioner.TracerCls.get_active_trace_obj()
-            self.cached_versioner.TracerCls.set_active_trace_obj(trace_obj=None)
-        else:
-            suspended_trace_obj = None
-
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
         call_option = self.lookup_call(
@@ -899,11 +895,19 @@ class Storage:
 
             if tracer_option is not None:
                 tracer = tracer_option
-                with tracer:
-                    if isinstance(tracer, DecTracer):
-                        f = track(op.f) # registers the call itself
-                    #! call the function
-                    returns = f(*args, **kwargs)
+                try:
+                    with tracer:
+                        if isinstance(tracer, DecTracer):
+                            f = track(op.f) # registers the call itself
+                        #! call the function
+                        returns = f(*args, **kwargs)
+                except Exception:
+                    if isinstance(caller_trace_obj, TracerABC):
+                        # the caller may go on, and depends on what failed
+                        caller_trace_obj.graph.add_graph(
+                            graph=tracer.graph, parent=caller_trace_obj.call_stack[-1]
+                        )
+                    raise
             else:
                 returns = f(*args, **kwargs)
 
@@ -1210,17 +1214,43 @@ class Storage:
             # now unwrap the values of the arguments
             args = tuple([self.unwrap(arg) for arg in args])
             kwargs = {k: self.unwrap(v) for k, v in kwargs.items()}
-            return op.f(*args, **kwargs)
+            f = op.f
+            if DecTracer.get_active_trace_obj() is not None:
+                f = track(f) # the running memoized function depends on it
+            return f(*args, **kwargs)
         elif self.mode == "run":
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
             }
-            res, main_call, calls = self.call_internal(
-                op=op,
-                storage_inputs = storage_inputs,
-                bound_arguments = bound_arguments,
-                storage_tps=storage_tps,
-            )
+            # if this call is made by another memoized function, that function's
+            # trace continues afterwards, with this call as a dependency
+            suspended_trace_obj = None
+            if self.versioned:
+                TracerCls = self.cached_versioner.TracerCls
+                suspended_trace_obj = TracerCls.get_active_trace_obj()
+                TracerCls.set_active_trace_obj(trace_obj=None)
+            try:
+                res, main_call, calls = self.call_internal(
+                    op=op,
+                    storage_inputs = storage_inputs,
+                    bound_arguments = bound_arguments,
+                    storage_tps=storage_tps,
+                    caller_trace_obj=suspended_trace_obj,
+                )
+            finally:
+                if suspended_trace_obj is not None:
+                    TracerCls.set_active_trace_obj(trace_obj=suspended_trace_obj)
+            if suspended_trace_obj is not None:
+                TracerCls.register_leaf_event(
+                    trace_obj=suspended_trace_obj,
+                    data=TerminalData(
+                        op_internal_name=op.name,
+                        op_version=op.version,
+                        call_content_version=main_call.content_version,
+                        call_semantic_version=main_call.semantic_version,
+                        dep_key=get_dep_key_from_func(func=op.f),
+                    ),
+                )
             if config.get("save_calls", False):
                 self.save_call(main_call)
                 for call in calls:
-- 
2.43.0


From 14c12c57fcbd8a3192e2527b7b4948cb8c9fa31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 46/56] fix: syncing a single component was not saved

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index c92a57a..1d4866d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1020,7 +1020,7 @@ class Storage:
             is_semantic_change=is_semantic_change,
             code_state=code_state,
         )
-        self.sources["versioned"] = versioner
+        self.save_versioner(versioner=versioner, conn=conn)
         return result
 
     @transaction
-- 
2.43.0


From d805413a75bc4cf04a373dc34082825d379c3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 47/56] fix: expanding a frame into an existing function node
 broke its invariants (references missing from the connected variables)

---
 mandala/cf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index dddb1f0..ba5453c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -374,7 +374,6 @@ class ComputationFrame:
         if call.hid in self.fs[fname]:
             if not allow_existing:
                 raise ValueError(f"Call {call.hid} already exists")
-            return
         self.calls[call.hid] = call
         self.fs[fname].add(call.hid)
         if call.hid not in self.callinv:
@@ -1089,6 +1088,10 @@ class ComputationFrame:
             ### finally, add the calls to the CF
             for call in group_calls:
                 self.add_call(fname, call, with_refs=True, allow_existing=reuse_existing)
+            if found_func_match:
+                # the calls that were already there must follow the new edges too
+                for hid in list(self.fs[fname]):
+                    self.add_call(fname, self.calls[hid], with_refs=True, allow_existing=True)
 
     def get_creators(self, indexer: Union[str, Set[str]]):
         # return information about the calls that created the variables in the
-- 
2.43.0


From cf55e597111a1a17a8e69ea934683bd0ef63b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 48/56] fix: recursive expansion stopped early when the calls
 were added to existing nodes

---
 mandala/cf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index ba5453c..3324b43 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1116,7 +1116,8 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                # the calls may be added to existing nodes
+                current_size = (len(res.nodes), len(res.refs), len(res.calls))
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1127,7 +1128,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = (len(res.nodes), len(res.refs), len(res.calls))
                 if new_size == current_size:
                     break
                 if not recursive:
-- 
2.43.0


From cb1eed2c700e5763d7475d2030512e94fb4cc411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 49/56] fix: expanding an empty frame, or none of its
 variables, failed

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3324b43..1a2fc1e 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1144,7 +1144,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = set().union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
-- 
2.43.0


From d48996aeaf3900faa17d53f4b5997265f17eb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 50/56] fix: methods of a class that inherits its initializer
 from another module were not found

---
 mandala/deps/crawler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 25f109c..441fce0 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -28,13 +28,13 @@ def crawl_obj(
         if isinstance(unwrap_decorators(obj, strict=False), types.BuiltinFunctionType):
             return
         v = extract_func_obj(obj=obj, strict=strict)
-        if v is not unknown_function and v.__module__ != module_name:
-            # exclude non-local functions
-            return
-        dep_key = (module_name, v.__qualname__)
-        node = CallableNode.from_obj(obj=v, dep_key=dep_key)
-        result[dep_key] = node
-        objs_result[dep_key] = obj
+        # exclude non-local functions (a local class may have a non-local
+        # initializer)
+        if v is unknown_function or v.__module__ == module_name:
+            dep_key = (module_name, v.__qualname__)
+            node = CallableNode.from_obj(obj=v, dep_key=dep_key)
+            result[dep_key] = node
+            objs_result[dep_key] = obj
     if isinstance(obj, type):
         if include_methods:
             if obj.__module__ != module_name:
-- 
2.43.0


From 0d7fc0a28b9a80a43e0baf9b666c6e3c2dbe4162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 51/56] fix: functions defined in the __init__.py of a package
 were looked for in a module of another name

---
 mandala/deps/crawler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 441fce0..1a4e328 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -84,6 +84,9 @@ def crawl_static(
                 )
             if package_name is not None:
                 module_name = ".".join([package_name, module_name])
+            if module_name.endswith(".__init__"):
+                # the code of a package belongs to the package itself
+                module_name = module_name[: -len(".__init__")]
         else:
             module_name = "__main__"
         try:
-- 
2.43.0


From 1908dfbebe1b5b66ba1d0aac9781d137d3667398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 52/56] fix: a global variable that cannot be hashed broke
 later sessions although such variables are to be skipped

---
 mandala/deps/versioner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index d557011..84c66b1 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -159,7 +159,15 @@ class Versioner:
                 and dep_key not in result_graph.nodes.keys()
             ):
                 obj = node.load_obj(skip_missing=self.skip_missing_deps, skip_silently=self.skip_missing_silently)
-                fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
+                if isinstance(node, GlobalVarNode):
+                    fallback_result[dep_key] = node.from_obj(
+                        obj=obj,
+                        dep_key=dep_key,
+                        skip_unhashable=self.skip_unhashable_globals,
+                        skip_silently=self.skip_globals_silently,
+                    )
+                else:
+                    fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
         nodes = {**result_graph.nodes, **fallback_result}
         # fill in the gaps with a static crawl
         static_result, objs = crawl_static(
-- 
2.43.0


From 2e4369cf1f9354089b27f145831ddc3af7385058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 53/56] fix: a variable and a function of a computation frame
 could get the same name, which broke the frame

---
 mandala/cf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 1a2fc1e..1578381 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2201,21 +2201,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From 266ee895b86150fce4d7c231933f9cc5d4df2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 54/56] fix: computation frames could not be made from results
 of which some are the same

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 1578381..b6cf5ff 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2157,7 +2157,7 @@ class ComputationFrame:
         res = ComputationFrame(storage=storage)
         vname = res._add_var(vname=res.get_new_vname("v"))
         for ref in refs:
-            res.add_ref(vname, ref)
+            res.add_ref(vname, ref, allow_existing=True) # may be given repeatedly
         return res
     
     @staticmethod
@@ -2166,7 +2166,7 @@ class ComputationFrame:
         for vname, refs in vars.items():
             vname = res._add_var(vname=vname)
             for ref in refs:
-                res.add_ref(vname, ref)
+                res.add_ref(vname, ref, allow_existing=True)
         return res
 
     ############################################################################
-- 
2.43.0


From ac6f3f54cd45ea334e10cc976a157fe498d53ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 55/56] fix: making a computation frame from a dictionary
 changed the dictionary

---
 mandala/storage.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 1d4866d..12d7cce 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1183,10 +1183,9 @@ class Storage:
         if all(isinstance(elt, Ref) for elt in source):
             return ComputationFrame.from_refs(refs=source, storage=self)
         elif isinstance(source, dict):
-            for k in source.keys():
-                if isinstance(source[k], Ref):
-                    source[k] = [source[k]]
-            return ComputationFrame.from_vars(vars=source, storage=self)
+            # (the caller's dictionary must stay as it is)
+            vars = {k: [v] if isinstance(v, Ref) else v for k, v in source.items()}
+            return ComputationFrame.from_vars(vars=vars, storage=self)
         elif all(isinstance(elt, str) for elt in source):
             # must be hids
             refs = [self.load_ref(hid, in_memory=True) for hid in source]
-- 
2.43.0


From 348e9c768171aa46c94e641e65d85f27f7b66bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 56/56] fix: expanding forward missed list elements when later
 elements of the list are in other variables

---
 mandala/cf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b6cf5ff..cce06f5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -961,7 +961,10 @@ class ComputationFrame:
                     connected_vnames = self.refinv[ref.hid] & set(available_nodes)
                     if not connected_vnames:
                         continue
-                    identifying_variables[label] = connected_vnames
+                    # (several inputs can have the same label)
+                    identifying_variables[label] = (
+                        identifying_variables.get(label, set()) | connected_vnames
+                    )
             # get a hashable canonical representation of the group
             group_id = (
                 op_id,
-- 
2.43.0

