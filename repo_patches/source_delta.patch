From b22c018398d0a082ceea75f5bfe7a7310a63cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 01/68] fix: store transition probabilities of graph edges in
 double precision

---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..ae48d8a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From 66a3d105caa986439640e80c43df100e4e1ffc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 02/68] fix: do not treat explicitly stored zero probabilities
 as transitions

---
 switss/model/amdp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..df53f2b 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -37,6 +37,11 @@ class AbstractMDP(ABC):
         """        
         # transform P into dok_matrix if neccessary
         self.P = cast_dok_matrix(P)
+        # explicitly stored zeros are not transitions
+        if any(p == 0 for p in self.P.values()):
+            P_csr = self.P.tocsr()
+            P_csr.eliminate_zeros()
+            self.P = P_csr.todok()
         # for fast column & row slicing
         self.__P_csc = self.P.tocsc()
         self.__P_csr = self.P.tocsr()
-- 
2.43.0


From 87210b99264f03f9e81cc31c7522d8393dfa078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 03/68] fix: make strongly_connected_components callable from
 the model classes

---
 switss/utils/graph.pyx | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index ae48d8a..21449b2 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -132,8 +132,34 @@ cdef class Graph:
         return i,scc_counter,stack
 
 
+    # computes the strongly connected components of the whole graph.
+    # returns a vector containing for each state the index of its scc, and the number of sccs
+    def strongly_connected_components(self):
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        cdef int[:] ret_view = ret
+        cdef TNode* treap = NULL
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef int scc_count = 0
+        cdef int i = 0
+
+        while i < self.nodecount:
+            treap = add_to_treap(treap,i)
+            i += 1
+
+        if self.nodecount > 0:
+            scc_count = self.sccs_of_subgraph(treap,sccs)
+
+        i = 0
+        while i < self.nodecount:
+            ret_view[i] = sccs[i]-1
+            i += 1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, scc_count
+
     # Implementation of Tarjan's Algorithm (possibly on a subgraph defined by the state-set 'treap')
-    cdef (int) strongly_connected_components(self, TNode* treap, int* sccs):
+    cdef (int) sccs_of_subgraph(self, TNode* treap, int* sccs):
 
         cdef int subg_nodescount = treap.size
         cdef int* subg_arr = <int *> malloc(subg_nodescount * sizeof(int))
@@ -215,7 +241,7 @@ cdef class Graph:
             while j < subg_nodecount:
                 j += 1
             
-            compcount = self.strongly_connected_components(subg_treap,sccs)
+            compcount = self.sccs_of_subgraph(subg_treap,sccs)
 
             j = 0
             while j < self.nodecount:
-- 
2.43.0


From 6468717022fef2189309e96c0b68b69314ef6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 04/68] fix: do not leak treap nodes when a key is inserted
 twice

---
 switss/utils/treaps.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index cba336c..61fcea9 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -78,6 +78,10 @@ cdef TNode* insert(TNode* treap, TNode* new_node):
         return new_node
 
 cdef TNode* add_to_treap(TNode* treap, int new_key):
+    # keys are unique: nothing to do (and no node to allocate) if the key is already there
+    if in_treap(treap, new_key):
+        return treap
+
     cdef TNode* new_node = <TNode *> malloc(sizeof(TNode))
     heap_key = new_heap_key()
     new_node.tree_key = new_key
-- 
2.43.0


From 91949aaf9a770b71988595a7b1fad8463da9a4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 05/68] fix: free the node array of every subgraph in
 maximal_end_components

---
 switss/utils/graph.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 21449b2..aa9f69c 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -280,7 +280,8 @@ cdef class Graph:
                 free_treap(subg_treap)
                 free(new_subg_treaps)
 
-        free(subg_arr)
+            free(subg_arr)
+
         free_tstack(treap_stack)
         free(sccs)
 
-- 
2.43.0


From f7c0c28676e5037bd71ac09a2738748fe2ac7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 06/68] fix: refuse state indices outside of the graph instead
 of accessing memory out of bounds

---
 switss/utils/graph.pyx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index aa9f69c..7570ea2 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -38,11 +38,16 @@ cdef class Graph:
                 self.nodes[i] = Node(NULL,NULL,0,0)
             for (i,d),p in P.items():
                 s,a = index_by_state_action.inv[i]
+                self.check_index(s)
                 self.add_successor(s,a,p,d)
 
     def get_nodecount(self):
         return self.nodecount
 
+    def check_index(self, int nodeidx):
+        if nodeidx < 0 or nodeidx >= self.nodecount:
+            raise IndexError("State %d does not exist, there are %d states." % (nodeidx, self.nodecount))
+
     cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
@@ -64,12 +69,14 @@ cdef class Graph:
         tonode[0].predecessors = newpreds
 
     def successors(self, nodeidx, actionidx=None):
+        self.check_index(nodeidx)
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].succcount):
             if actionidx is None or actionidx == node[0].successors[i][1]:
                 yield node[0].successors[i]
     
     def predecessors(self, nodeidx, actionidx=None):
+        self.check_index(nodeidx)
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].predcount):
             if actionidx is None or actionidx == node[0].predecessors[i][1]:
@@ -226,7 +233,8 @@ cdef class Graph:
 
         # stack contains subgraphs which are represented by a set of nodes using treaps
         cdef TreapStack* treap_stack = NULL
-        treap_stack = ts_push(treap_stack, subg_treap)
+        if subg_treap != NULL:
+            treap_stack = ts_push(treap_stack, subg_treap)
 
         cdef TNode** new_subg_treaps = NULL
 
@@ -325,6 +333,9 @@ cdef class Graph:
     def reachable(self, fromset, direction, blocklist=set()):
         assert len(fromset) > 0
         assert direction in ["forward", "backward"]
+        fromset, blocklist = list(fromset), list(blocklist)
+        for idx in fromset + blocklist:
+            self.check_index(idx)
 
         cdef int* reachablemask = <int *> malloc(self.nodecount * sizeof(int))
         cdef int* instack = <int *> malloc(self.nodecount * sizeof(int))
-- 
2.43.0


From 9057c2491cadc6594aacc3164b4a05e691efc61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 07/68] fix: do not overflow the stack when searching
 components of deep graphs

---
 switss/utils/graph.pyx | 81 ++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 7570ea2..b93566b 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -20,6 +20,8 @@ cdef struct Node:
 cdef struct TarjanNode:
     int index, lowlink
     int onstack
+    int nextsucc
+    TNode* bad_actions
 
 cdef struct SubMDP:
     int* E
@@ -93,49 +95,68 @@ cdef class Graph:
             ret += "\n"
         return ret
 
-    cdef (int,int,IntStack*) strongconnect(self, int v, IntStack* stack, TarjanNode* tnodes,
+    cdef (int,int,IntStack*) strongconnect(self, int root, IntStack* stack, TarjanNode* tnodes,
                                            int i, int* sccs, int scc_counter, TNode* treap):
 
+        cdef int v = root
         cdef int w = 0
         cdef int a = 0
-        cdef TNode* bad_actions_treap = NULL
+        cdef int descend = 0
+        cdef Node *node = NULL
+        # the nodes on the current search path (explicit, since it may be too long for recursion)
+        cdef IntStack* path = push(NULL, root)
 
-        tnodes[v] = TarjanNode(i, i, 1)
-        i += 1
-        stack = push(stack, v)
+        while path != NULL:
+            v = path.element
+            node = &self.nodes[v]
 
-        cdef Node *node = &self.nodes[v]
-        # compute actions of v which have a successor that is not in treap, and hence should be ignored
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
-            if not in_treap(treap,w):
-                bad_actions_treap = add_to_treap(bad_actions_treap,a)
+            if tnodes[v].index == -1:
+                tnodes[v] = TarjanNode(i, i, 1, 0, NULL)
+                i += 1
+                stack = push(stack, v)
 
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
+                # compute actions of v which have a successor that is not in treap, and hence should be ignored
+                for succidx in range(node[0].succcount):
+                    w = node[0].successors[succidx][0] # -> index of successor state
+                    a = node[0].successors[succidx][1] # -> index of corresponding action
+                    if not in_treap(treap,w):
+                        tnodes[v].bad_actions = add_to_treap(tnodes[v].bad_actions,a)
 
-            if in_treap(bad_actions_treap,a):
-                continue
+            descend = 0
+            while descend == 0 and tnodes[v].nextsucc < node[0].succcount:
+                w = node[0].successors[tnodes[v].nextsucc][0] # -> index of successor state
+                a = node[0].successors[tnodes[v].nextsucc][1] # -> index of corresponding action
+                tnodes[v].nextsucc += 1
 
-            elif tnodes[w].index == -1:
-                i,scc_counter,stack = self.strongconnect(w,stack,tnodes,i,sccs,scc_counter,treap)
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].lowlink)
+                if in_treap(tnodes[v].bad_actions,a):
+                    continue
 
-            elif tnodes[w].onstack:
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+                elif tnodes[w].index == -1:
+                    path = push(path, w)
+                    descend = 1
 
+                elif tnodes[w].onstack:
+                    tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+
+            if descend:
+                continue
 
-        if tnodes[v].lowlink == tnodes[v].index:
-            w = -1
-            while w != v:
-                stack, w = pop(stack)
-                tnodes[w].onstack = 0
-                sccs[w] = scc_counter
-            scc_counter += 1
+            # all successors of v are done
+            if tnodes[v].lowlink == tnodes[v].index:
+                w = -1
+                while w != v:
+                    stack, w = pop(stack)
+                    tnodes[w].onstack = 0
+                    sccs[w] = scc_counter
+                scc_counter += 1
+
+            free_treap(tnodes[v].bad_actions)
+            tnodes[v].bad_actions = NULL
+            path, w = pop(path)
+            if path != NULL:
+                w = path.element
+                tnodes[w].lowlink = min(tnodes[w].lowlink,tnodes[v].lowlink)
 
-        free_treap(bad_actions_treap)
         return i,scc_counter,stack
 
 
-- 
2.43.0


From d21c509b11c2353b3410c3c7ef8cbd56d129c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 08/68] fix: a state without actions is not a proper end
 component

---
 switss/utils/graph.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index b93566b..cf63913 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -338,7 +338,10 @@ cdef class Graph:
                 if v != i:
                     non_selfloop_actions_treap = add_to_treap(non_selfloop_actions_treap,a)
 
-            if non_selfloop_actions_treap == NULL:
+            if all_actions_treap == NULL:
+                # a state without actions is no end component
+                proper_mecs_view[ret_view[i]] = 0
+            elif non_selfloop_actions_treap == NULL:
                 proper_mecs_view[ret_view[i]] = 1
             elif non_selfloop_actions_treap.size != all_actions_treap.size:
                 proper_mecs_view[ret_view[i]] = 1
-- 
2.43.0


From 474c54a6e4a5693787233a132ee288d2a7fff43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 09/68] fix: save transition probabilities with full precision

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..d565b8e 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %r\n" % (source, dest, float(p)))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..cf26d6b 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %r\n" % (source, action, dest, float(p)))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From ac74dee03cb593624ecd9012387112aa44ab1118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 10/68] fix: save state-action pairs of MDPs in the order of
 their indices

---
 switss/model/mdp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index cf26d6b..2c3b0d7 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -121,7 +121,8 @@ class MDP(AbstractMDP):
 
         with open(tra_path, "w") as tra_file:
             tra_file.write("%d %d %d\n" % (self.N, self.C, self.P.nnz))
-            for (index,dest), p in self.P.items():
+            # loading assigns indices to state-action pairs in order of appearance
+            for (index,dest), p in sorted(self.P.items()):
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
                     tra_file.write("%d %d %d %r\n" % (source, action, dest, float(p)))
-- 
2.43.0


From b53d3a55161ae225a4186579949755675c2c0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 11/68] fix: accept label files with blank lines

---
 switss/prism/prism.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..7491aa1 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -28,6 +28,8 @@ def parse_label_file(filepath):
 
         for line in lines[1:]:
             regexp_res = line_regexp.search(line)
+            if regexp_res is None: # line without labels
+                continue
             state_labelids = map(int, regexp_res.group(2).split())
             stateidx = int(regexp_res.group(1))
             labels_by_state[stateidx] = set({})
-- 
2.43.0


From ea5be35a0a4da54b6b93a1b2ad86ea27df5c6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 12/68] fix: do not add spurious fail transitions when reducing
 a system

---
 switss/model/reachability_form.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..b7c722c 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -329,6 +329,7 @@ class ReachabilityForm:
             print("shape of new_P (%s,%s)" % (new_C,new_N))
 
         to_target = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # mask for faster access
         target_mask = np.zeros(system.N, dtype=bool)
@@ -345,6 +346,8 @@ class ReachabilityForm:
                     if dest in to_rf_cols:
                         newdest = to_rf_cols[dest]
                         new_P[newidx, newdest] = system.P[idx, dest]
+                    else:
+                        to_fail[newidx] += system.P[idx, dest]
         if debug:
             print("computed transition matrix & to_target")
 
@@ -352,6 +355,7 @@ class ReachabilityForm:
             new_P, 
             new_index_by_state_action,
             to_target, 
+            to_fail,
             to_rf_rows, 
             system, 
             new_target_label, 
@@ -369,7 +373,7 @@ class ReachabilityForm:
         return rf, to_rf_cols, to_rf_rows
 
     @staticmethod
-    def __initialize_system(P, index_by_state_action, to_target, mapping, configuration, target_label, fail_label):
+    def __initialize_system(P, index_by_state_action, to_target, to_fail, mapping, configuration, target_label, fail_label):
         C,N = P.shape
         P_compl = dok_matrix((C+2, N+2))
         target_state, fail_state = N, N+1
@@ -408,17 +412,15 @@ class ReachabilityForm:
         label_to_states[fail_label].add(fail_state)
         label_to_states[target_label].add(target_state)
 
-        not_to_fail = np.zeros(C)
         for (idx, dest), p in P.items():
-            not_to_fail[idx] += p
             P_compl[idx, dest] = p
 
         for idx, p_target in enumerate(to_target):
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
-            p_fail = 1 - (p_target + not_to_fail[idx])
-            if p_fail > 0:
-                P_compl[idx, fail_state] = p_fail
+            # only lost transitions lead to fail (1 minus the rest of the row may be nonzero due to rounding)
+            if to_fail[idx] > 0:
+                P_compl[idx, fail_state] = min(to_fail[idx], 1)
 
         P_compl[C, target_state] = 1
         P_compl[C+1, fail_state] = 1
-- 
2.43.0


From 4ca43b00fb1940ab780edee8197534c847b72c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 13/68] fix: give every caller its own Farkas constraint system

---
 switss/model/reachability_form.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index b7c722c..d1b8262 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -514,7 +514,7 @@ class ReachabilityForm:
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
             self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            return self.__fark_z_matr.copy(), self.__fark_z_rhs.copy()
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -525,7 +525,7 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        return self.__fark_z_matr.copy(), self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -549,7 +549,7 @@ p        .. math::
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
             self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            return self.__fark_y_matr.copy(), self.__fark_y_rhs.copy()
 
         b = cast_dok_matrix(self.to_target)
 
@@ -559,7 +559,7 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        return self.__fark_y_matr.copy(), self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From 194a4b65c49b73411ebf8629edc9575c75cda82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 14/68] fix: do not count the initial state twice in
 max_y_state

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index d1b8262..a0ead0f 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -668,7 +668,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..84d2501 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -309,7 +309,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From 5fb98a262c1f797e8950503be27d1d8a582e73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 15/68] fix: force the state-action pairs of end components to
 zero, not the states' indices

---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..44085df 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -162,7 +162,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From 342d348d1b9bd7edd1a941b71e87e3ff4dfc58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 16/68] fix: do not accept state-action certificates with
 negative entries

---
 switss/certification/certificates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 44085df..720f3ac 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -110,6 +110,11 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
                 if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
                     return False
 
+    # frequencies of state-action pairs must not be negative
+    if (mode == "min") == (sense in ["<=","<"]):
+        if not (farkas_vec >= -tol).all():
+            return False
+
     res_vec = farkas_matr.dot(farkas_vec)
 
     if sense == "<=":
-- 
2.43.0


From a4ff4afcdeaeb13f3eb0fd37052cd6d72d630954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 17/68] fix: generate certificates also if the interior point
 is numerically unusable

---
 switss/certification/certificates.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 720f3ac..4bc9026 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -171,5 +171,17 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-    check = check_farkas_certificate(reach_form, mode, sense, threshold, lp_result,tol=tol)
-    return lp_result if check else None
+    if check_farkas_certificate(reach_form, mode, sense, threshold, lp_result,tol=tol):
+        return lp_result
+
+    # entries of interior points may be arbitrarily large (frequencies in end components), so that the constraints are
+    # violated numerically. therefore, also try the point that has the smallest entries
+    lp = LP.from_coefficients(farkas_matr, rhs, np.ones(farkas_matr.shape[1]), "<=", "min")
+    for idx in range(farkas_matr.shape[1]):
+        lp.add_constraint([(idx,1)],"=" if idx in zero_vars else ">=",0)
+    result = lp.solve(solver)
+
+    if result.status == "optimal" and check_farkas_certificate(reach_form, mode, sense, threshold, result.result_vector, tol=tol):
+        return result.result_vector
+
+    return None
-- 
2.43.0


From 30008db1bc3c4df1e57fa400e290e2a2682617a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 18/68] fix: remove constraints by the index that
 add_constraint returns

---
 switss/solver/milp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..36ca8f5 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -143,8 +143,8 @@ class MILP:
         :type sense: str
         :param rhs: Right side of the equation, i.e. a number.
         :type rhs: float
-        :return: name of the added constraint
-        :rtype: str
+        :return: index of the added constraint
+        :rtype: int
         """        
         assert sense in ["<=", "=", ">="]
         assert rhs == float(rhs), "Right hand side is not a number: rhs=%s" % rhs 
@@ -166,10 +166,10 @@ class MILP:
     def remove_constraint(self, constridx):
         """removes a given constraint from the model.
 
-        :param constridx: the name of the constraint
-        :type constridx: str
+        :param constridx: index of the constraint, as returned by `add_constraint`
+        :type constridx: int
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop(self.__constraints[constridx].name)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From 803b22df593f09571883c819fe0432ea4b027d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 19/68] fix: let LP.add_variables add variables

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 36ca8f5..50abdf1 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -337,7 +337,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 07757a8e88a9e6d87fbb5f9f329fc326f944c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 20/68] fix: replace the whole objective when it is set again

---
 switss/solver/milp.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 50abdf1..bc76ee5 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -54,7 +54,6 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
-        self.__set_objective_function = False
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -120,12 +119,7 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        if not self.__set_objective_function:
-            self.__set_objective_function = True
-            self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
-        else:
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+        self.__pulpmodel.setObjective(pulp.LpAffineExpression(self._expr_to_pulp(expression)))
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
-- 
2.43.0


From 7abc9529cdaab30094d9ddce8dcfbebce5a1f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 21/68] fix: solve problems with unused variables or without
 objective

---
 switss/solver/milp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index bc76ee5..ed5b881 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -54,6 +54,7 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
+        self.__objective = pulp.LpAffineExpression()
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -84,6 +85,11 @@ class MILP:
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
+        # let every variable occur, even if it is neither part of the objective nor of any constraint
+        objective = self.__objective.copy()
+        for var in self.__variables:
+            objective.setdefault(var, 0)
+        self.__pulpmodel.setObjective(objective)
         self.__pulpmodel.solve()
 
         status = {   1:"optimal",
@@ -92,7 +98,7 @@ class MILP:
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
         result_vector = np.array([var.value() for var in self.__variables])
-        value = self.__pulpmodel.objective.value()
+        value = self.__objective.value()
 
         return SolverResult(status, result_vector, value)
 
@@ -119,7 +125,8 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        self.__pulpmodel.setObjective(pulp.LpAffineExpression(self._expr_to_pulp(expression)))
+        self.__objective = pulp.LpAffineExpression(self._expr_to_pulp(expression))
+        self.__pulpmodel.setObjective(self.__objective.copy())
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
-- 
2.43.0


From c0cdc3912069a4d3d47ac36d20577eff600f1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 22/68] fix: accept None as objective vector, as documented

---
 switss/solver/milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index ed5b881..70f4dc1 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -237,8 +237,6 @@ class MILP:
         b = cast_dok_matrix(b)
 
 
-        opt = cast_dok_matrix(opt)
-
         model = MILP(objective=objective)
 
         # initialize problem
@@ -248,7 +246,9 @@ class MILP:
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From 2e831d14779bb5c5a6c8e4a5d53e26aa778809b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 23/68] fix: sum up the coefficients of variables that occur
 twice in an expression

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 70f4dc1..5658358 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -108,7 +108,11 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        # a variable may occur more than once
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var, 0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
-- 
2.43.0


From e8efd9021125940d77cf0eafa93f756c0a0e7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 24/68] fix: respect the bounds given for binary variables

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 5658358..15b0ef0 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -198,6 +198,9 @@ class MILP:
             cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpBinary }[domain]
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
+            if domain == "binary":
+                # pulp resets the bounds of binary variables to 0 and 1
+                var.bounds(0 if lb is None else max(lb,0), 1 if ub is None else min(ub,1))
             self.__variables.append(var)
 
             if len(var_descr) == 1:
-- 
2.43.0


From bdd535cb7ba9bb0e9f48f4aaae08a420a1338217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 25/68] fix: transform the matrix given to LP.from_coefficients
 automatically, as documented

---
 switss/solver/milp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 15b0ef0..a6fb4c2 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -335,6 +335,7 @@ class LP(MILP):
         :return: The resulting LP.
         :rtype: solver.LP
         """
+        A = cast_dok_matrix(A)
         return MILP.from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
 
     def add_variables(self, count):
-- 
2.43.0


From 3a4470ac491928a2185a8e861272fcb9593e8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 26/68] fix: do not modify the sets an InvertibleDict is
 created from

---
 switss/utils/invertible_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..dea9938 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,8 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        # copies the values as well, adding and removing items must not modify the original
+        self.__d = { k : v.copy() for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From 0c63347974dfb71574a2414491128ea578f0b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 27/68] fix: only lost transitions of a subsystem lead to fail

---
 switss/problem/subsystem.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..da0e228 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -129,31 +129,29 @@ class Subsystem:
         new_P[new_C+1, fail_state] = 1
         new_P[new_C, target_state] = 1
 
-        not_to_fail = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if target >= N-2 or source >= N-2:
+            if source >= N-2 or not state_vector[source]:
                 # P also contains target & fail state - but state_vector only has N-2 entries
                 continue
 
-            if state_vector[source] == True and state_vector[target] == True:
-                new_source = new_to_old_states.inv[source]
+            new_source = new_to_old_states.inv[source]
+            new_row_idx = new_index_by_state_action[(new_source,action)]
+            if target == N-2:
+                new_P[new_row_idx,target_state] = prob
+            elif target < N-2 and state_vector[target] == True:
                 new_target = new_to_old_states.inv[target]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx,new_target] = prob
-                not_to_fail[new_row_idx] += prob
+            else:
+                to_fail[new_row_idx] += prob
 
-        # populate probabilities to fail
-        # maps every target state with probability 1 to itself.
-        for rowidx, p_target in enumerate(reach_form.to_target):
-            (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if state_vector[source] == True:
-                new_source = new_to_old_states.inv[source]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+        # only lost transitions lead to fail (1 minus the rest of the row may be nonzero due to rounding)
+        for new_row_idx, p_fail in enumerate(to_fail):
+            if p_fail > 0:
+                new_P[new_row_idx,fail_state] = min(p_fail, 1)
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From db139b835b9a0536bf3d930870b72b259b705bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 28/68] fix: map labels to actions in subsystems, not actions
 to labels

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index da0e228..5ea6c62 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From d6b0c2e7ea3eda69862dcec293e5a15d705619f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 29/68] fix: support subsystems and action groups of reward
 reachability forms

---
 switss/model/reward_reachability_form.py | 11 +++++++++++
 switss/problem/subsystem.py              |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 84d2501..f97612f 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
@@ -34,6 +35,16 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def P(self):
+        """Returns the :math:`C \\times N` transition probability matrix :math:`\mathbf{P}`"""
+        return self.__P
+
+    @property
+    def index_by_state_action(self):
+        """Returns a bidict which maps state-action pairs to indices (i.e. rows) of the matrix P, and vice versa"""
+        return self.__index_by_state_action
+
     @property
     def is_ec_free(self):
         return True
diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 5ea6c62..ccf5298 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -167,7 +167,8 @@ class Subsystem:
             self.supersys.initial_label, 
             self.supersys.target_label, 
             self.supersys.fail_label,
-            ignore_consistency_checks=self.__ignore_consistency_checks)
+            # rewards may be collected without reaching the target
+            ignore_consistency_checks=self.__ignore_consistency_checks or isinstance(reach_form, RewardReachabilityForm))
 
         self.__subsys = model
         return model
-- 
2.43.0


From 797f521b5f8c6da780fbca4ec17bf4e644455d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 30/68] fix: make RewardReachabilityForm.fromsystem work,
 without changing the given system

---
 switss/model/reward_reachability_form.py | 32 ++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index f97612f..e67cc8c 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -57,17 +57,35 @@ class RewardReachabilityForm:
         if not ignore_consistency_checks:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
-        # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
+        # add a dummy fail state, which is required for reachability form (without changing the given system)
+        N = system.N
+        C = system.C
 
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
+        P = dok_matrix((C + 1, N + 1))
+        for (idx, dest), p in system.P.items():
+            P[idx, dest] = p
+        P[C, N] = 1
 
-        system.add_label(N, "rf_fail")
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N, 0)] = C
+
+        assert "rf_fail" not in system.states_by_label.keys(), "Label 'rf_fail' for fail state already exists in system %s" % system
+        label_to_states = { l : states.copy() for l, states in system.states_by_label.items() }
+        label_to_states["rf_fail"] = {N}
+        label_to_actions = { l : actions.copy() for l, actions in system.actions_by_label.items() }
+
+        reward_vector = np.array([system.reward_vector[idx] for idx in range(C)] + [0.])
+
+        rf_system = type(system)(
+            P=P,
+            index_by_state_action=index_by_state_action,
+            label_to_states=label_to_states,
+            label_to_actions=label_to_actions,
+            vis_config=system.visualization,
+            reward_vector=reward_vector)
 
         # initialize underlying reachability form
-        return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
+        return cls(ReachabilityForm(rf_system, initial_label, target_label,"rf_fail",ignore_consistency_checks), reward_vector[:-2])
 
 
     @staticmethod
-- 
2.43.0


From 8198b6e41c98ea8cee8cad1a94140d4c71607c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 31/68] fix: use the target label given to
 RewardReachabilityForm.reduce

---
 switss/model/reward_reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index e67cc8c..b5d03bc 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -91,7 +91,7 @@ class RewardReachabilityForm:
     @staticmethod
     def reduce(system, initial_label, target_label, new_target_label="rrf_target", debug=False, ignore_consistency_checks=False):
 
-        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label)
+        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label, new_target_label=new_target_label, debug=debug)
         RewardReachabilityForm.assert_reachform_consistency(reach_form)
 
         return RewardReachabilityForm(reach_form, reach_form.system.reward_vector[:-2]), to_rf_cols, to_rf_rows
-- 
2.43.0


From c6c2036cdb1d4ba7577c324f516c0b9b4e3c7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 32/68] fix: allow empty groups in
 InverseReachabilityInitializer

---
 switss/problem/qsheurparams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..a4163b9 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -218,7 +218,8 @@ class InverseReachabilityInitializer(Initializer):
         for group in self.groups:
             variables = self.indicator_to_group[group]
             variablecount = len(variables)
-            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount
+            # groups may be empty if no state has the label
+            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount if variablecount > 0 else 0
             ret.append((group, self.weights[group] * np.min([1e9,1/weighted_probability if weighted_probability > 0 else 1e9])))
 
         return ret
-- 
2.43.0


From 79bf94ea0fa1d8c0ae33b9cc58686034a0cbdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 33/68] fix: remove states from the witness whose indicator is
 zero

---
 switss/problem/__init__.py     |  3 ++-
 switss/problem/formulations.py | 19 +++++++++++++++++++
 switss/problem/milpexact.py    | 18 +++++++++---------
 switss/problem/qsheur.py       |  4 ++--
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/switss/problem/__init__.py b/switss/problem/__init__.py
index 281eb82..3b6c50d 100644
--- a/switss/problem/__init__.py
+++ b/switss/problem/__init__.py
@@ -11,7 +11,8 @@ from .subsystem import Subsystem
 from .problemresult import ProblemResult
 from .formulations import add_indicator_constraints, \
                           construct_MILP, \
-                          certificate_size
+                          certificate_size, \
+                          certificate_from_result
 from .qsheur import QSHeur
 from .milpexact import MILPExact
 from .tree_algo import TreeAlgo
diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..e15c032 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -25,6 +25,25 @@ def certificate_size(rf, mode):
     else:
         return C-2
 
+def certificate_from_result(result_vector, certsize, indicators):
+    """extracts the certificate from the solution of a MILP/LP. Entries of groups that were removed (i.e. with
+    indicator zero) are set to exactly zero, as solvers may leave them at tiny positive values.
+
+    :param result_vector: the solution vector
+    :type result_vector: np.ndarray[float]
+    :param certsize: the certificate dimension
+    :type certsize: int
+    :param indicators: mapping from indicator variables to their groups of variables
+    :type indicators: utils.InvertibleDict[int, Set[int]]
+    :return: the certificate
+    :rtype: np.ndarray[float]
+    """
+    certificate = np.array(result_vector[:certsize])
+    for indicator, group in indicators.items():
+        if result_vector[indicator] == 0:
+            certificate[list(group)] = 0
+    return certificate
+
 def compute_upper_bounds(matr, rhs, solver="cbc",timeout=600):
     """
     computes point wise upper bounds for LPs/MILPs. Solves the LP
diff --git a/switss/problem/milpexact.py b/switss/problem/milpexact.py
index 57331f3..bc7de19 100644
--- a/switss/problem/milpexact.py
+++ b/switss/problem/milpexact.py
@@ -1,4 +1,4 @@
-from . import ProblemFormulation, ProblemResult, Subsystem, AllOnesInitializer, construct_MILP, certificate_size
+from . import ProblemFormulation, ProblemResult, Subsystem, AllOnesInitializer, construct_MILP, certificate_size, certificate_from_result
 from switss.solver import SolverResult
 from switss.utils import InvertibleDict
 
@@ -54,13 +54,13 @@ class MILPExact(ProblemFormulation):
         }
 
     def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
-        model, _ = construct_MILP(reach_form, 
-                                  threshold, 
-                                  mode=mode, 
-                                  labels=labels, 
-                                  relaxed=False, 
-                                  upper_bound_solver="cbc",
-                                  modeltype_str="gurobi" if self.solver=="gurobi" else "pulp")
+        model, indicators = construct_MILP(reach_form, 
+                                           threshold, 
+                                           mode=mode, 
+                                           labels=labels, 
+                                           relaxed=False, 
+                                           upper_bound_solver="cbc",
+                                           modeltype_str="gurobi" if self.solver=="gurobi" else "pulp")
 
         if model is None:
             yield ProblemResult("infeasible", None, None, None)
@@ -70,6 +70,6 @@ class MILPExact(ProblemFormulation):
                 yield ProblemResult(result.status, None, None, None)
             else:
                 certsize = certificate_size(reach_form, mode)
-                certificate = result.result_vector[:certsize]
+                certificate = certificate_from_result(result.result_vector, certsize, indicators)
                 witness = Subsystem(reach_form, certificate, mode)
                 yield ProblemResult("success", witness, result.value, certificate)
diff --git a/switss/problem/qsheur.py b/switss/problem/qsheur.py
index f2a43b8..08a37e3 100644
--- a/switss/problem/qsheur.py
+++ b/switss/problem/qsheur.py
@@ -1,5 +1,5 @@
 from . import ProblemFormulation, ProblemResult, Subsystem
-from . import AllOnesInitializer, InverseResultUpdater, construct_MILP, certificate_size
+from . import AllOnesInitializer, InverseResultUpdater, construct_MILP, certificate_size, certificate_from_result
 from switss.utils import InvertibleDict
 from switss.solver import LP
 import numpy as np
@@ -106,7 +106,7 @@ class QSHeur(ProblemFormulation):
             result = model.solve(self.solver, timeout=timeout)
 
             if result.status == "optimal":
-                certificate = result.result_vector[:certsize]
+                certificate = certificate_from_result(result.result_vector, certsize, indicators)
                 witness = Subsystem(reach_form, certificate, mode)
                 indicator_weights = result.result_vector[certsize:]
                 no_nonzero_groups = len([i for i in indicator_weights if i > 0])
-- 
2.43.0


From 671b16da6a38a963e96e5ffbef3f7844e2bbe69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 34/68] fix: allow labels of goal and fail in label-based
 minimization

---
 switss/problem/formulations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index e15c032..6417b3e 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -110,8 +110,9 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
     elif mode == "min":
         groups = {}
         for label in labels:
+            # goal and fail are not part of the certificate
             states = rf.system.states_by_label[label]
-            groups[label] = states
+            groups[label] = { state for state in states if state < certificate_size(rf, mode) }
         return InvertibleDict(groups)
     else:
         groups = InvertibleDict({})
@@ -121,7 +122,8 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
                 actions = rf.system.actions_by_state[state]
                 for action in actions:
                     sap = rf.system.index_by_state_action[(state, action)]
-                    groups.add(label, sap)
+                    if sap < certificate_size(rf, mode):
+                        groups.add(label, sap)
         return groups
 
 def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_real_indicator_constrs=False, indicator_domain="real"):
-- 
2.43.0


From 3d2e83e945bfd04019a26aa1f137768c2e84ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:30 +0000
Subject: [PATCH 35/68] fix: let glpk tell infeasible from unbounded problems

---
 switss/solver/milp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index a6fb4c2..4706e1d 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -80,7 +80,10 @@ class MILP:
             self.__pulpmodel.setSolver(
                 pulp.PULP_CBC_CMD(gapRel=1e-9,timeLimit=timeout,msg=print_output,options=cbc_options))
         elif solver == "glpk":
-            glpk_options = ["--tmlim",str(timeout)] if timeout != None else []
+            # the presolver does not tell infeasible and unbounded LPs apart (both are "undefined")
+            glpk_options = ["--nopresol"]
+            if timeout != None:
+                glpk_options += ["--tmlim",str(timeout)]
             self.__pulpmodel.setSolver(pulp.GLPK_CMD(msg=print_output,options=glpk_options))
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
-- 
2.43.0


From 8ac8457b71455ac3b162a87c2aa86240565089ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:51 +0000
Subject: [PATCH 36/68] fix: accept dictionaries of constants and labels for
 prism models

---
 switss/prism/prism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 7491aa1..1c49398 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -64,14 +64,14 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
-    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
+    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in dict(prism_constants).items()])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
-        for (label_name, label_expr) in extra_labels:
+        for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
 
-- 
2.43.0


From bcf4ba6a91d28a849efbe893250963976964d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:52 +0000
Subject: [PATCH 37/68] fix: start extra labels of prism models on a new line

---
 switss/prism/prism.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 1c49398..9c5d51d 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -70,6 +70,8 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
+        # the last line of the model file may not be terminated (and could be a comment)
+        namedtf.write(b"\n")
         # write the extra labels to the prism model description
         for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
-- 
2.43.0


From c940671151909924db7ab035eb6f618979789837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 38/68] fix: label the right choice states of choice models

---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 2c3b0d7..21d8c25 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -269,8 +269,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From d5505d4b762422626b2d9e1edc37dbd59b6b6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:22 +0000
Subject: [PATCH 39/68] fix: import stormpy DTMCs with their labels

---
 switss/model/dtmc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index d565b8e..6e4aa0e 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,6 +1,7 @@
 from bidict import bidict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
+from collections import defaultdict
 
 from . import AbstractMDP
 from ..utils import color_from_hash, cast_dok_matrix, DTMCVisualizationConfig
@@ -141,20 +142,23 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
+    def from_stormpy_model(cls,stormpy_model, choice_model = False):
         
+        assert not choice_model, "Choice models are only defined for MDPs."
         #assert stormpy_model.model_type == "ModelType.MDP"
 
         P = dok_matrix((1,1))
-        index_by_state_action = bidict()
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+            for slabel in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[slabel].add(sid)
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From 5c29da9e2fea381088bac10c270eb2a6b86247b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 40/68] fix: pass the mode to the solving call in the minimize
 command

---
 bin/switss | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..98be320 100755
--- a/bin/switss
+++ b/bin/switss
@@ -69,6 +69,8 @@ def minargs(args):
     
     methodtype = { "QSHeur":QSHeur, "MILPExact":MILPExact }[args.method[0]]
     methodparams = params_to_dict(args.method[1:])
+    # the mode is a parameter of the solving call, not of the method
+    mode = methodparams.pop("mode")
     for k in methodparams:
         if k == "iterations":
             methodparams[k] = int(methodparams[k])
@@ -96,10 +98,10 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +109,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
-- 
2.43.0


From c7c8e4155680f2196e92b96f13a26f1ccdcec9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 41/68] fix: report instances without solution in the minimize
 command

---
 bin/switss | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/switss b/bin/switss
index 98be320..c8c5cec 100755
--- a/bin/switss
+++ b/bin/switss
@@ -100,6 +100,9 @@ def minargs(args):
 
     info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        if result.status != "success":
+            vprint("instance %s has no solution: %s" % (idx,result.status))
+            return
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
         check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
-- 
2.43.0


From 7df9cbe8878d26cbbc4510275520080d7f88e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 42/68] fix: load a fresh copy of the system for every stored
 subsystem

---
 bin/switss | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/switss b/bin/switss
index c8c5cec..9443a70 100755
--- a/bin/switss
+++ b/bin/switss
@@ -2,7 +2,6 @@
 
 import argparse
 import json
-import copy
 import numpy as np
 
 from switss.utils import color_from_hash 
@@ -150,10 +149,11 @@ def subsysargs(args):
         output = "%s-%s" % (output, iteration)
         vprint("generating subsystem %s" % output,end=" - ")
         ss = Subsystem(rf, certificate, minfo["mode"])
-        sys = copy.deepcopy(rf.system)
+        # the system of rf must stay as it is for the other certificates
+        sys = load_model(args)
         for s,inss in enumerate(ss.subsystem_mask):
             if inss:
-                sys.labels_by_state.add(s, args.subsys_label)
+                sys.add_label(s, args.subsys_label)
         sys.save(output)
         vprint("done.")
 
-- 
2.43.0


From 1aec8ba65bb7da570837f1140cda929c1e749a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 43/68] fix: do not report internal errors of commands as
 missing arguments

---
 bin/switss | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/switss b/bin/switss
index 9443a70..6db93da 100755
--- a/bin/switss
+++ b/bin/switss
@@ -332,7 +332,6 @@ parser_render.add_argument("-o", "--output", help="output file for storing .svg
 parser_render.add_argument("-vi","--view", action="store_true", help="if given, opens up a window containing rendering of system")
 parser_render.add_argument("-col","--coloring", help="list of labels that define the colors")
 args = parser.parse_args()
-try:
-    func = args.func(args)
-except AttributeError:
+if not hasattr(args, "func"):
     parser.error("too few arguments")
+args.func(args)
-- 
2.43.0


From d082db3f1d6a6b1d7974021a3a196d29575f2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 44/68] fix: do not benchmark thresholds above the greatest one

---
 switss/benchmarks/benchmarks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 6afeea6..a9e4349 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -89,6 +89,8 @@ def run(reachability_form,
     assert isinstance(method, ProblemFormulation)
 
     thresholds = np.arange(from_thr, min(1,to_thr+step), step)
+    # the last one may lie above the greatest threshold (if to_thr is no multiple of step, or due to rounding)
+    thresholds = thresholds[thresholds <= to_thr + 1e-6*step]
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From a4bdd7f4899763db8b60be1efbc688b39a90c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 45/68] fix: allow a single mode for several methods and
 several modes for a single method

---
 switss/benchmarks/benchmarks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index a9e4349..2e6a647 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -70,12 +70,14 @@ def run(reachability_form,
     """    
     assert isinstance(reachability_form, ReachabilityForm)
     
-    if isinstance(method, Iterable):
+    if isinstance(method, Iterable) or not isinstance(mode, str):
+        methods = list(method) if isinstance(method, Iterable) else [method]
+        modes = [mode] if isinstance(mode, str) else list(mode)
         ret = []
-        for idx,(me,mo) in enumerate(itertools.product(method,mode)):
+        for idx,(me,mo) in enumerate(itertools.product(methods,modes)):
             if debug:
                 print("="*50)
-                print("running benchmark %s/%s" % (idx+1, len(method)*len(mode)))
+                print("running benchmark %s/%s" % (idx+1, len(methods)*len(modes)))
             data = run(reachability_form, 
                        me, mo, from_thr, 
                        to_thr, step, 
-- 
2.43.0


From c6b776a1b73a4af3ec66c8d594ab8e850d3b0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 46/68] fix: render runs with different numbers of results per
 threshold

---
 switss/benchmarks/benchmarks.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 2e6a647..a5a7080 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -194,11 +194,11 @@ def render(run,
                     2 : ["+", "*", "3"],
                     3 : ["d", "s", "."]}[plot_no]
 
-    resultcount = len(run["run"][0]["value"])
+    # runs with timeouts may contain less results for some thresholds
+    resultcount = max([len(el["value"]) for el in run["run"]], default=0)
     if custom_label == None:
         custom_label = run["method"]["type"]
     if mode in ["states-thr", "laststates-thr"]:
-        maxstatecount = max([max(el["value"]) for el in run["run"]])
 #         normalize = (maxstatecount > 10000) and normalize
 #         ax.set_ylabel("states (x1000)" if normalize else "states")
 #         markers = ["tri_down", "x", "tri_up", ".", "+", "tri_right", "d", "s", "*", "h"]
@@ -210,9 +210,13 @@ def render(run,
             if mode == "laststates-thr" and idx != resultcount-1:
                 continue
             marker = markers[idx % len(markers)]
-            thr = [el["threshold"] for el in run["run"]]
+            if mode == "laststates-thr":
+                vals = [(el["threshold"], el["value"][-1]) for el in run["run"]]
+            else:
+                vals = [(el["threshold"], el["value"][idx]) for el in run["run"] if idx < len(el["value"])]
+            thr = [t for t,_ in vals]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
-            sta = [el["value"][idx] if el["value"][idx] != -1 or timeout_val is None else timeout_val for el in run["run"]]
+            sta = [val if val != -1 or timeout_val is None else timeout_val for _,val in vals]
             if normalize:
                 sta = [el/1000 for el in sta]
             ax.plot(thr, sta, linestyle="dashed", marker=marker, label=label, markersize=markersize,linewidth=linewidth)
@@ -224,14 +228,15 @@ def render(run,
             resultcount = 1
         for idx in sol_range:
             tim = []
-            for el in run["run"]:
+            els = [el for el in run["run"] if idx < len(el[times])]
+            for el in els:
                 if el[times][idx] == -1 and timeout_val is not None:
                     tim.append(timeout_val)
                 elif el[times][idx] >= 0 and el[times][idx] <= 1 and cap_times_below_onesec:
                     tim.append(1)
                 else:
                     tim.append(el[times][idx])
-            thr = [el["threshold"] for el in run["run"]]
+            thr = [el["threshold"] for el in els]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
             marker = markers[idx % len(markers)]
             ax.plot(thr, tim, linestyle="dashed", marker=marker,  label=label, markersize=markersize, linewidth=linewidth)
-- 
2.43.0


From 191f62cd8a3b493f3efac85cb80aa90cfdc284e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 47/68] fix: do not benchmark thresholds above one due to
 rounding

---
 switss/benchmarks/benchmarks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index a5a7080..45eb8fd 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -93,6 +93,8 @@ def run(reachability_form,
     thresholds = np.arange(from_thr, min(1,to_thr+step), step)
     # the last one may lie above the greatest threshold (if to_thr is no multiple of step, or due to rounding)
     thresholds = thresholds[thresholds <= to_thr + 1e-6*step]
+    # thresholds slightly above one are not allowed
+    thresholds = np.minimum(thresholds, 1)
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From 1bcbf3232037c9ce5c65bb7976bd97bd59173dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 48/68] fix: drawing a subsystem does not require its
 reachability form to exist

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index ccf5298..1e081fa 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -189,7 +189,7 @@ class Subsystem:
             in_subsystem = not is_fail and not is_target and self.subsystem_mask[stateidx]
 
             sm = visualization.state_map(stateidx,labels)
-            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.subsys.system, DTMC)))
+            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.supersys.system, DTMC)))
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-- 
2.43.0


From 019bbae5cccba584a7ba96b71056a95a967edad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 49/68] fix: a drawn DTMC subsystem shows each state's own
 certificate value

---
 switss/problem/subsystem.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1e081fa..4c736f3 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -194,9 +194,13 @@ class Subsystem:
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
                 label = sm["label"]
-                cert = self.certificate[stateidx]
-                if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
-                else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
+                # max-certificates are indexed by rows, which may not be in the order of the states
+                index = stateidx
+                if self.certform == "max":
+                    index = self.supersys.system.index_by_state_action[(stateidx, 0)]
+                cert = self.certificate[index]
+                if label == "": label = "c[{}]={:.5f}".format(index, cert)
+                else: label = "{}\nc[{}]={:.5f}".format(label, index, cert)
                 return { **sm, **{ "label" : label } }
             else:
                 return sm
-- 
2.43.0


From f7650804652ddcb5c51fec96a27a0f5bfa73d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 50/68] fix: drawing a subsystem does not write into the
 dictionaries of the style functions

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 4c736f3..474d1fd 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -210,7 +210,8 @@ class Subsystem:
             in_subsystem = not fail_or_target and self.subsystem_mask[sourceidx]
             show_action_weights = (show_weights and self.certform == "max" and in_subsystem)
             
-            am = visualization.action_map(sourceidx, action, sourcelabels)
+            # the style function may return the same dictionary for all actions
+            am = dict(visualization.action_map(sourceidx, action, sourcelabels))
             am["node"] = { "label" : "", **(am["node"]) }
             
             if show_action_weights:
-- 
2.43.0


From cc13967340180319a18aea2e0b70ffe871330ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 51/68] fix: subsystems can be drawn with state styles that set
 no label

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 474d1fd..1554852 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -193,7 +193,7 @@ class Subsystem:
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-                label = sm["label"]
+                label = sm.get("label", "")
                 # max-certificates are indexed by rows, which may not be in the order of the states
                 index = stateidx
                 if self.certform == "max":
-- 
2.43.0


From c064ab3c9f7df3b99e942383d9264fc25a5ee12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 52/68] fix: incomplete solution files of the solver are not
 optimal solutions

---
 switss/solver/milp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 4706e1d..f394993 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -93,6 +93,9 @@ class MILP:
         for var in self.__variables:
             objective.setdefault(var, 0)
         self.__pulpmodel.setObjective(objective)
+        # values of earlier calls must not be mistaken for new ones
+        for var in self.__variables:
+            var.varValue, var.dj = None, None
         self.__pulpmodel.solve()
 
         status = {   1:"optimal",
@@ -100,6 +103,9 @@ class MILP:
                     -1:"infeasible", 
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
+        # the solution file may be incomplete (values of missing variables are set to zero for cbc)
+        if status == "optimal" and any(var.varValue is None or (solver == "cbc" and var.dj is None) for var in self.__variables):
+            status = "undefined"
         result_vector = np.array([var.value() for var in self.__variables])
         value = self.__objective.value()
 
-- 
2.43.0


From db40e854351ec52f18fe4a197acb48e42350f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 53/68] fix: solutions of a solver that stopped early are not
 reported as optimal

---
 switss/solver/milp.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index f394993..6218675 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -10,6 +10,16 @@ try:
 except:
     print("milp.py: gurobipy is not installed. Please install it if you intend to use it.")
 
+class _GLPK(pulp.GLPK_CMD):
+    """PuLP reports "INTEGER NON-OPTIMAL" (the solver stopped before optimality was proven) as optimal."""
+
+    def readsol(self, filename):
+        status, values = super().readsol(filename)
+        with open(filename) as f:
+            if any(line.startswith("Status:") and "NON-OPTIMAL" in line for line in f):
+                status = pulp.LpStatusNotSolved
+        return status, values
+
 class MILP:
     """
     A MILP can either be initialized through a specification of coefficient matrices and -vectors 
@@ -84,7 +94,7 @@ class MILP:
             glpk_options = ["--nopresol"]
             if timeout != None:
                 glpk_options += ["--tmlim",str(timeout)]
-            self.__pulpmodel.setSolver(pulp.GLPK_CMD(msg=print_output,options=glpk_options))
+            self.__pulpmodel.setSolver(_GLPK(msg=print_output,options=glpk_options))
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
@@ -103,6 +113,9 @@ class MILP:
                     -1:"infeasible", 
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
+        # PuLP also reports feasible solutions of solvers that stopped early as optimal
+        if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
+            status = "notsolved"
         # the solution file may be incomplete (values of missing variables are set to zero for cbc)
         if status == "optimal" and any(var.varValue is None or (solver == "cbc" and var.dj is None) for var in self.__variables):
             status = "undefined"
-- 
2.43.0


From ee29e6721dff910de1ca5f238a7a8b2bf4fe3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 54/68] fix: values and frequencies are only returned if the
 solver found an optimal solution

---
 switss/model/reachability_form.py        | 3 +++
 switss/model/reward_reachability_form.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index a0ead0f..aea826c 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -602,6 +602,7 @@ p        .. math::
                 max_z_lp.add_constraint([(st_idx,1)],"<=",1)
 
         result = max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "solver failed: %s" % result.status
         return result.result_vector
 
     def max_z_state_action(self,solver="cbc"):
@@ -647,6 +648,7 @@ p        .. math::
             max_y_lp.add_constraint([(sap_idx,1)],">=",0)
 
         result = max_y_lp.solve(solver=solver)
+        assert result.status == "optimal", "solver failed: %s" % result.status
         return result.result_vector
 
     def max_y_state(self,solver="cbc"):
@@ -705,6 +707,7 @@ p        .. math::
             pr_max_z_lp.add_constraint([(st_idx,1)],"<=",1)
 
         result = pr_max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "solver failed: %s" % result.status
         return result.result_vector
 
 
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index b5d03bc..256eb76 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -272,6 +272,7 @@ class RewardReachabilityForm:
             max_z_lp.add_constraint([(st_idx,1)],">=",0)
 
         result = max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "solver failed: %s" % result.status
         return result.result_vector
 
     def max_z_state_action(self,solver="cbc"):
@@ -317,6 +318,7 @@ class RewardReachabilityForm:
             max_y_lp.add_constraint([(sap_idx,1)],">=",0)
 
         result = max_y_lp.solve(solver=solver)
+        assert result.status == "optimal", "solver failed: %s" % result.status
         return result.result_vector
 
     def max_y_state(self,solver="cbc"):
@@ -373,4 +375,5 @@ class RewardReachabilityForm:
             pr_max_z_lp.add_constraint([(st_idx,1)],">=",0)
 
         result = pr_max_z_lp.solve(solver=solver)
+        assert result.status == "optimal", "solver failed: %s" % result.status
         return result.result_vector
-- 
2.43.0


From b6bfaa68348733cf0817de3c66708b5fc9003c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 55/68] fix: exact minimization for rewards needs the upper
 bounds of the certificate entries

---
 switss/problem/formulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 6417b3e..40452f5 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -233,8 +233,8 @@ def construct_MILP(rf, threshold, mode, labels=None, relaxed=False, known_upper_
         elif status == "optimal":
             upper_bounds = up_res
 
-    if not relaxed and mode == "max" and upper_bounds is None:
-        assert modeltype_str == "gurobi", "warning: exact minimization of max-properties only possible via gurobi interface at the moment."
+    if not relaxed and upper_bounds is None:
+        assert modeltype_str == "gurobi", "warning: exact minimization without upper bounds only possible via gurobi interface at the moment."
 
         use_real_indicator_constrs = True
 
-- 
2.43.0


From 322e3e3c6a7e68427f2b28e3704a8eff2eba0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 56/68] fix: integer transition matrices truncated the
 threshold of the Farkas constraints

---
 switss/model/amdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index df53f2b..30a801a 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -35,8 +35,8 @@ class AbstractMDP(ABC):
         :param vis_config: Used to configure how model is visualized.
         :type vis_config: VisualizationConfig
         """        
-        # transform P into dok_matrix if neccessary
-        self.P = cast_dok_matrix(P)
+        # transform P into dok_matrix if neccessary (of floats, such that everything computed from P is of floats)
+        self.P = cast_dok_matrix(P).astype(float)
         # explicitly stored zeros are not transitions
         if any(p == 0 for p in self.P.values()):
             P_csr = self.P.tocsr()
-- 
2.43.0


From a4e97501a3ad820add00d8ce7c487ee9dbc970da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 57/68] fix: integer reward vectors truncated the threshold of
 the Farkas constraints

---
 switss/model/reward_reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 256eb76..381d8b1 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -12,7 +12,7 @@ class RewardReachabilityForm:
     def __init__(self, reachability_form, reward_vector):
 
         self.__reach_form = reachability_form
-        self.reward_vector = reward_vector
+        self.reward_vector = np.array(reward_vector, dtype=float)
 
         self.__system = reachability_form.system
         self.__P = reachability_form.system.P[:self.__system.C-2, :self.__system.N-2]
-- 
2.43.0


From 8484bf265a188500a742eb4cb43a4a5a93b4ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 58/68] fix: groups that the solver left at a tiny negative
 value were free of cost instead of fixed to zero

---
 switss/problem/formulations.py | 2 +-
 switss/problem/qsheurparams.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 40452f5..8e5f5a7 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -40,7 +40,7 @@ def certificate_from_result(result_vector, certsize, indicators):
     """
     certificate = np.array(result_vector[:certsize])
     for indicator, group in indicators.items():
-        if result_vector[indicator] == 0:
+        if result_vector[indicator] <= 0:
             certificate[list(group)] = 0
     return certificate
 
diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index a4163b9..bb85e7b 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -161,7 +161,7 @@ class InverseResultFixedZerosUpdater(Updater):
         # result vector will be constrained to equal 0 in the coming LPs
         ret = []
         for group in self.groups:
-            if last_result[group] == 0:
+            if last_result[group] <= 0:
                 constraint = ([(group,1.)], "=", 0)
                 ret.append(constraint)
         return ret
-- 
2.43.0


From f4074e86e1ab8471df8edf32524b8d902ea6fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 59/68] fix: solve again without presolve if CBC abandons a
 problem (nearly infeasible problems were neither feasible nor infeasible)

---
 switss/solver/milp.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 6218675..b3bb593 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -1,6 +1,7 @@
 from ..utils import cast_dok_matrix
 from . import SolverResult
 from scipy.sparse import dok_matrix
+import time
 import pulp
 import numpy as np
 
@@ -106,8 +107,18 @@ class MILP:
         # values of earlier calls must not be mistaken for new ones
         for var in self.__variables:
             var.varValue, var.dj = None, None
+        start = time.time()
         self.__pulpmodel.solve()
 
+        # cbc abandons some infeasible problems as its presolve considers them feasible ("stopped on difficulties")
+        if solver == "cbc" and (timeout == None or time.time() - start < timeout) and \
+           self.__pulpmodel.sol_status in [pulp.LpSolutionNoSolutionFound, pulp.LpSolutionIntegerFeasible]:
+            for var in self.__variables:
+                var.varValue, var.dj = None, None
+            self.__pulpmodel.setSolver(
+                pulp.PULP_CBC_CMD(gapRel=1e-9,timeLimit=timeout,msg=print_output,options=cbc_options + ["presolve off"]))
+            self.__pulpmodel.solve()
+
         status = {   1:"optimal",
                      0:"notsolved",
                     -1:"infeasible", 
-- 
2.43.0


From fc5cefa6c01af8a3791804f4a7638aca985f2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 60/68] Revert "fix: do not benchmark thresholds above one due
 to rounding"

This reverts commit 191f62cd8a3b493f3efac85cb80aa90cfdc284e8.
---
 switss/benchmarks/benchmarks.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 45eb8fd..a5a7080 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -93,8 +93,6 @@ def run(reachability_form,
     thresholds = np.arange(from_thr, min(1,to_thr+step), step)
     # the last one may lie above the greatest threshold (if to_thr is no multiple of step, or due to rounding)
     thresholds = thresholds[thresholds <= to_thr + 1e-6*step]
-    # thresholds slightly above one are not allowed
-    thresholds = np.minimum(thresholds, 1)
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From 23c9aeec553f41c8fdaf8418911bdb6fb4d8f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 61/68] Revert "fix: render runs with different numbers of
 results per threshold"

This reverts commit c6b776a1b73a4af3ec66c8d594ab8e850d3b0147.
---
 switss/benchmarks/benchmarks.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index a5a7080..2e6a647 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -194,11 +194,11 @@ def render(run,
                     2 : ["+", "*", "3"],
                     3 : ["d", "s", "."]}[plot_no]
 
-    # runs with timeouts may contain less results for some thresholds
-    resultcount = max([len(el["value"]) for el in run["run"]], default=0)
+    resultcount = len(run["run"][0]["value"])
     if custom_label == None:
         custom_label = run["method"]["type"]
     if mode in ["states-thr", "laststates-thr"]:
+        maxstatecount = max([max(el["value"]) for el in run["run"]])
 #         normalize = (maxstatecount > 10000) and normalize
 #         ax.set_ylabel("states (x1000)" if normalize else "states")
 #         markers = ["tri_down", "x", "tri_up", ".", "+", "tri_right", "d", "s", "*", "h"]
@@ -210,13 +210,9 @@ def render(run,
             if mode == "laststates-thr" and idx != resultcount-1:
                 continue
             marker = markers[idx % len(markers)]
-            if mode == "laststates-thr":
-                vals = [(el["threshold"], el["value"][-1]) for el in run["run"]]
-            else:
-                vals = [(el["threshold"], el["value"][idx]) for el in run["run"] if idx < len(el["value"])]
-            thr = [t for t,_ in vals]
+            thr = [el["threshold"] for el in run["run"]]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
-            sta = [val if val != -1 or timeout_val is None else timeout_val for _,val in vals]
+            sta = [el["value"][idx] if el["value"][idx] != -1 or timeout_val is None else timeout_val for el in run["run"]]
             if normalize:
                 sta = [el/1000 for el in sta]
             ax.plot(thr, sta, linestyle="dashed", marker=marker, label=label, markersize=markersize,linewidth=linewidth)
@@ -228,15 +224,14 @@ def render(run,
             resultcount = 1
         for idx in sol_range:
             tim = []
-            els = [el for el in run["run"] if idx < len(el[times])]
-            for el in els:
+            for el in run["run"]:
                 if el[times][idx] == -1 and timeout_val is not None:
                     tim.append(timeout_val)
                 elif el[times][idx] >= 0 and el[times][idx] <= 1 and cap_times_below_onesec:
                     tim.append(1)
                 else:
                     tim.append(el[times][idx])
-            thr = [el["threshold"] for el in els]
+            thr = [el["threshold"] for el in run["run"]]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
             marker = markers[idx % len(markers)]
             ax.plot(thr, tim, linestyle="dashed", marker=marker,  label=label, markersize=markersize, linewidth=linewidth)
-- 
2.43.0


From 1226c1a99aca972d370ef6a0245494deeb5c345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 62/68] Revert "fix: allow a single mode for several methods
 and several modes for a single method"

This reverts commit a4bdd7f4899763db8b60be1efbc688b39a90c694.
---
 switss/benchmarks/benchmarks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 2e6a647..a9e4349 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -70,14 +70,12 @@ def run(reachability_form,
     """    
     assert isinstance(reachability_form, ReachabilityForm)
     
-    if isinstance(method, Iterable) or not isinstance(mode, str):
-        methods = list(method) if isinstance(method, Iterable) else [method]
-        modes = [mode] if isinstance(mode, str) else list(mode)
+    if isinstance(method, Iterable):
         ret = []
-        for idx,(me,mo) in enumerate(itertools.product(methods,modes)):
+        for idx,(me,mo) in enumerate(itertools.product(method,mode)):
             if debug:
                 print("="*50)
-                print("running benchmark %s/%s" % (idx+1, len(methods)*len(modes)))
+                print("running benchmark %s/%s" % (idx+1, len(method)*len(mode)))
             data = run(reachability_form, 
                        me, mo, from_thr, 
                        to_thr, step, 
-- 
2.43.0


From d659fbbb8dfcd9021439b4be94454d57e69229c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 63/68] Revert "fix: do not benchmark thresholds above the
 greatest one"

This reverts commit d082db3f1d6a6b1d7974021a3a196d29575f2535.
---
 switss/benchmarks/benchmarks.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index a9e4349..6afeea6 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -89,8 +89,6 @@ def run(reachability_form,
     assert isinstance(method, ProblemFormulation)
 
     thresholds = np.arange(from_thr, min(1,to_thr+step), step)
-    # the last one may lie above the greatest threshold (if to_thr is no multiple of step, or due to rounding)
-    thresholds = thresholds[thresholds <= to_thr + 1e-6*step]
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From dfbd395b2866d558973adf7756f49cd92b39ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 64/68] fix: accept constraints without variables in Gurobi
 models (zero rows, e.g. of self loops)

---
 switss/solver/milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b3bb593..8294147 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -435,7 +435,8 @@ class GurobiMILP(MILP):
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _eval_pulp_expr(self, expression):
-        return sum([ self.__variables[var]*coeff for var, coeff in expression ])
+        # an empty sum has to be an expression as well, comparing a number yields no constraint
+        return sum([ self.__variables[var]*coeff for var, coeff in expression ], gp.LinExpr())
 
     def set_objective_function(self, expression):
         """Sets the objective function of the form
-- 
2.43.0


From 66fb0408fef82d47f9466dd6b576edcc6d778bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 65/68] fix: indicator constraints of Gurobi models used an
 undefined name and operator

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 8294147..e3e44c6 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -512,7 +512,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) >> (self.__variables[rhs_varidx] == 0), name)
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
-- 
2.43.0


From fdf49984029a36ba303ea23aa6163d0ee3c4e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 66/68] fix: exact minimization with indicator constraints
 failed on a method that does not exist

---
 switss/problem/formulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 8e5f5a7..76eb71c 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -154,7 +154,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
-- 
2.43.0


From eaf756815b1b7e72bbe0e1190a020f2a86edaa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 67/68] fix: variables of Gurobi models without a lower bound
 are not bounded by zero

---
 switss/solver/milp.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index e3e44c6..26f6e32 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -543,15 +543,13 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
-            if lb is not None:
-                if ub is not None:
-                    var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-                else:
-                    var = self.__model.addVar(lb=lb, vtype=cat, name=varname)
-            elif ub is not None:
-                var = self.__model.addVar(ub=ub, vtype=cat, name=varname)
-            else:
-                var = self.__model.addVar(vtype=cat, name=varname)
+            # variables without a lower bound are unbounded, but Gurobi's default is zero
+            if domain == "binary":
+                lb = 0 if lb is None else max(lb,0)
+                ub = 1 if ub is None else min(ub,1)
+            var = self.__model.addVar(lb=-GRB.INFINITY if lb is None else lb, 
+                                      ub=GRB.INFINITY if ub is None else ub, 
+                                      vtype=cat, name=varname)
 
             self.__variables.append(var)
 
-- 
2.43.0


From 244740f9a471aee2eb1b80edcf70f3b6853ea535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 68/68] fix: Gurobi models accept None as objective vector, as
 documented

---
 switss/solver/milp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 26f6e32..e882573 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -603,8 +603,6 @@ class GurobiMILP(MILP):
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        opt = cast_dok_matrix(opt)
-
         model = GurobiMILP(objective=objective)
 
         # initialize problem
@@ -614,7 +612,9 @@ class GurobiMILP(MILP):
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0

