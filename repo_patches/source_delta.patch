From e9d80e5939719aeb89ae286a0fa7df7eb63e3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 01/59] fix: use networkx.to_numpy_array, to_numpy_matrix was
 removed in networkx 3

Every use of the latent confounding arcs (c-components, d-separation,
backdoor sets, ID) raised AttributeError.
---
 ylearn/causal_model/graph.py | 6 +++---
 ylearn/exp_dataset/gen.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 00e6820..6052ee0 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -150,8 +150,8 @@ class CausalGraph:
         list
 
         """
-        W = nx.to_numpy_matrix(self.dag)
-        a, w_t = np.where(W >= 1), W.T.A
+        W = nx.to_numpy_array(self.dag)
+        a, w_t = np.where(W >= 1), W.T
         arcs, nodes = [], list(self.dag.nodes)
         for row, col in zip(a[0], a[1]):
             if w_t[row][col] >= 1 and (nodes[col], nodes[row]) not in arcs:
@@ -168,7 +168,7 @@ class CausalGraph:
     def to_adj_matrix(self):
         """Return the adjacency matrix.
         """
-        W = nx.to_numpy_matrix(self.dag)
+        W = nx.to_numpy_array(self.dag)
         return W
 
     # def to_adj_list(self):
diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index b4e185a..f690e58 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -232,7 +232,7 @@ def simulate_er_dag(degree, nodes_dim, Bernoulli_trial, is_acyclic):
         return np.tril(A_und, k=is_acyclic)
 
     def _graph_to_adjmat(G):
-        return nx.to_numpy_matrix(G)
+        return nx.to_numpy_array(G)
 
     p = float(degree) / (nodes_dim - Bernoulli_trial)
     G_und = nx.generators.erdos_renyi_graph(n=nodes_dim, p=p)
-- 
2.43.0


From 7500c520a78d567fb23e930cfd7221197897bd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 02/59] fix: CausalGraph.add_nodes(new=False) registers the new
 nodes

The membership test used a live view of the graph that already contained
the nodes, so causation and ava_nodes never learned about them.
---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 6052ee0..4f8226d 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -333,7 +333,7 @@ class CausalGraph:
         ----------
         CausalGraph
         """
-        ori_nodes = self.dag.nodes
+        ori_nodes = set(self.dag.nodes)
 
         if not new:
             self.dag.add_nodes_from(nodes)
-- 
2.43.0


From d933bedb632fba0237efaa13aa00a9f2989473ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 03/59] fix: observed_dag keeps nodes without observed edges

Isolated variables vanished from the graph, from the topological order and
from d-separation queries.
---
 ylearn/causal_model/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 4f8226d..cc0f378 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -287,6 +287,7 @@ class CausalGraph:
             for para in v:
                 edges.append((para, k, 0))
         ob_dag = nx.MultiDiGraph()
+        ob_dag.add_nodes_from(self.causation.keys())
         ob_dag.add_edges_from(edges)
         return ob_dag
 
-- 
2.43.0


From de446cbbe6476d5e351f55e3167bd32fabee1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 04/59] fix: add_edges_from(new=True) adds observed edges under
 key 0

Between nodes already joined by a latent arc the automatic key was 1, so
the edge could neither be found nor removed as an observed edge.
---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index cc0f378..d15e272 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -380,8 +380,8 @@ class CausalGraph:
             new_dag = deepcopy(self.dag)
             new_causation = deepcopy(self.causation)
             if observed:
-                new_dag.add_edges_from(edge_list)
                 for edge in edge_list:
+                    new_dag.add_edge(edge[0], edge[1], 0)
                     new_causation[edge[1]].append(edge[0])
             else:
                 for edge in edge_list:
-- 
2.43.0


From fce1d420e3835c5cd102b51e474a8935efe9434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 05/59] fix: add_edge(observed=False) adds the latent arc in
 both directions

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index d15e272..9a7eadd 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -410,7 +410,7 @@ class CausalGraph:
             self.dag.add_edge(s, t, 0)
             self.causation[t].append(s)
         else:
-            self.dag.add_edge(s, t, 'n')
+            self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
     def remove_nodes(self, nodes, new=False):
         """
-- 
2.43.0


From 0de5858432b9412213a02dd97b34826dbf3149a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 06/59] fix: adding an edge that exists does not duplicate the
 parent

The duplicate survived remove_edge, leaving a stale parent.
---
 ylearn/causal_model/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 9a7eadd..7cd4822 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -369,7 +369,8 @@ class CausalGraph:
         if not new:
             if observed:
                 for edge in edge_list:
-                    self.causation[edge[1]].append(edge[0])
+                    if edge[0] not in self.causation[edge[1]]:
+                        self.causation[edge[1]].append(edge[0])
                     self.dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
@@ -382,7 +383,8 @@ class CausalGraph:
             if observed:
                 for edge in edge_list:
                     new_dag.add_edge(edge[0], edge[1], 0)
-                    new_causation[edge[1]].append(edge[0])
+                    if edge[0] not in new_causation[edge[1]]:
+                        new_causation[edge[1]].append(edge[0])
             else:
                 for edge in edge_list:
                     new_dag.add_edges_from(
@@ -408,7 +410,8 @@ class CausalGraph:
         """
         if observed:
             self.dag.add_edge(s, t, 0)
-            self.causation[t].append(s)
+            if s not in self.causation[t]:
+                self.causation[t].append(s)
         else:
             self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
-- 
2.43.0


From 4582453febfbed16bbdc535e86fa3963be679ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 07/59] fix: CausalGraph copies the parent lists it is given

Two graphs built from one dictionary shared their parent lists, so editing
one silently changed the other and the caller's dictionary.
---
 ylearn/causal_model/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 7cd4822..7055580 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -119,7 +119,9 @@ class CausalGraph:
             where U is an unobserved confounder of X and Y, can be converted
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
-        self.causation = defaultdict(list, causation)
+        self.causation = defaultdict(
+            list, {k: list(v) for k, v in causation.items()}
+        )
         self.ava_nodes = self.causation.keys()
         self.dag = self.observed_dag.copy() if dag is None else dag
 
-- 
2.43.0


From c5a7051c95d8599f4ab9c73eedb421f263db4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/59] fix: CausalModel.id takes a single variable name as one
 name

---
 ylearn/causal_model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f1018b1..09cf71b 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -165,7 +165,8 @@ class CausalModel:
         v = set(graph.causation.keys())
         v_topo = list(graph.topo_order)
 
-        y, x = set(y), set(x)
+        y = {y} if isinstance(y, str) else set(y)
+        x = {x} if isinstance(x, str) else set(x)
 
         # 1
         if not x:
-- 
2.43.0


From dfcf0c64c5094ec1a4b09476960185c6eb02198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 09/59] fix: frontdoor methods take a single variable name as
 one name

---
 ylearn/causal_model/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 09cf71b..e159db3 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -814,7 +814,7 @@ class CausalModel:
             of treatments on outcomes.
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set_, set(treatment), set(outcome))
+        check_nodes(ava_nodes, set_, treatment, outcome)
 
         # rule 1, intercept all directed paths from treatment to outcome
         for path in nx.all_simple_paths(
@@ -851,7 +851,7 @@ class CausalModel:
             2 elements (adjustment_set, Prob)
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set(treatment), set(outcome))
+        check_nodes(ava_nodes, treatment, outcome)
 
         if type(treatment) is set and type(outcome) is set:
             assert (
-- 
2.43.0


From 766239d8b4bb4ebcb58e1ab006b4ca3e173cb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 10/59] fix: has_collider is False for a path whose edges all
 point to its start

---
 ylearn/causal_model/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index e159db3..4c9700e 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -758,6 +758,10 @@ class CausalModel:
                             return False
                         j = i
                         break
+                else:
+                    # all edges point towards path[0]
+                    return False
+
                 for i, node in enumerate(path[j + 1 :], j + 1):
                     if node in dag.predecessors(path[i - 1]):
                         return True
-- 
2.43.0


From 8e952f375827b8948f3104a92d8172661450b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 11/59] fix: get_backdoor_set searches all sets for treatments
 without parents

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 4c9700e..dc82c8c 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -626,7 +626,7 @@ class CausalModel:
             return True
 
         # raise exception if no set can be used as the backdoor set
-        if not determine(modified_dag, treatment, outcome):
+        if adjust == "simple" and not determine(modified_dag, treatment, outcome):
             print("No set can satisfy the backdoor criterion.")
 
             return None
-- 
2.43.0


From aaca2c1f39fa9f1319d4a8d1d2c3c10ef32be577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 12/59] fix: get_iv excludes the outcome and its descendants

---
 ylearn/causal_model/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index dc82c8c..a61578e 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -949,7 +949,9 @@ class CausalModel:
         # We also should not count on descendents of ancestors of the outcome which
         # may have effects on y through backdoor paths
         # excluded_nodes_des = nx.descendants(modified_graph, excluded_nodes_an)
-        excluded_nodes_des = descendents_of_iter(modified_graph, excluded_nodes_an)
+        excluded_nodes_des = descendents_of_iter(
+            modified_graph, {outcome}.union(excluded_nodes_an)
+        )
         iv = waited_instrument.difference(excluded_nodes_des)
 
         if not iv:
-- 
2.43.0


From b5367a65c4441a0b4aa0ec7d010b9f5087acc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 13/59] fix: is_valid_backdoor_set rejects descendants of the
 treatment

---
 ylearn/causal_model/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a61578e..b1ff30a 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -567,6 +567,10 @@ class CausalModel:
         ava_nodes = self.causal_graph.causation.keys()
         check_nodes(ava_nodes, treatment, outcome, set_)
 
+        # a backdoor set contains no descendants of the treatments
+        if not self.causal_graph.descendents(treatment).isdisjoint(set_):
+            return False
+
         # build the causal graph with unobserved variables explicit
         modified_dag = self.causal_graph.remove_outgoing_edges(
             treatment, new=True
-- 
2.43.0


From 06bdf7de0d815091b9b384c098e3a39f7daca0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 14/59] fix: identify_estimate estimates with the models it
 fitted

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index b1ff30a..a2bb5ec 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -517,7 +517,7 @@ class CausalModel:
 
             self._est_result_dict["est_models"].append(est_model)
 
-            effect = estimator_model.estimate(data=data, quantity=quantity)
+            effect = est_model.estimate(data=data, quantity=quantity)
             self._est_result_dict["effects"].append(effect)
 
         return self._est_result_dict
-- 
2.43.0


From 2296dbe74fa3a12095705ac9a44f4d3dbe77b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 15/59] fix: identify_estimate fits one model per adjustment
 set

---
 ylearn/causal_model/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a2bb5ec..20d7b2f 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -500,7 +500,9 @@ class CausalModel:
         if isinstance(identify_method, (list, tuple)):
             identify_method = identify_method[1]
 
-        adj_set = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
+        adj_set, _ = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
+        if identify_method == "simple":
+            adj_set = [adj_set]
 
         self._est_result_dict = defaultdict(list)
 
@@ -511,7 +513,7 @@ class CausalModel:
                 data=data,
                 outcome=outcome,
                 treatment=treatment,
-                covariate=sub_adj_set,
+                covariate=list(sub_adj_set),
                 **kwargs,
             )
 
-- 
2.43.0


From 5f5aca835dcfbae4889f5a8ef7184f14e8ca06c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 16/59] fix: get_frontdoor_set leaves the caller's treatment
 and outcome sets alone

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 20d7b2f..6435c38 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -868,7 +868,7 @@ class CausalModel:
                 len(treatment) == 1 and len(outcome) == 1
             ), "Treatment and outcome should be sets which contain one"
             "element for frontdoor adjustment."
-            treatment, outcome = treatment.pop(), outcome.pop()
+            treatment, outcome = next(iter(treatment)), next(iter(outcome))
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
-- 
2.43.0


From 14aedc83f7db58c128d5ae2e6b697153bb9683f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 17/59] fix: SLearner keeps the given treat and control across
 estimates

---
 ylearn/estimator_model/meta_learner.py | 33 +++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 04544c6..85e37b2 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -352,8 +352,6 @@ class SLearner(BaseEstModel):
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
-        self.treat = treat
-        self.control = control
 
         x = np.concatenate((wv, x), axis=1)
         y = y.squeeze()
@@ -362,6 +360,22 @@ class SLearner(BaseEstModel):
 
         self._is_fitted = True
 
+        # the indices of the treatment values, the encoders being fitted
+        self.treat = get_tr_ctrl(
+            treat,
+            self._comp_transformer,
+            treat=True,
+            one_hot=False,
+            discrete_treat=True,
+        )
+        self.control = get_tr_ctrl(
+            control,
+            self._comp_transformer,
+            treat=False,
+            one_hot=False,
+            discrete_treat=True,
+        )
+
         return self
 
     @property
@@ -450,21 +464,6 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        self.treat = get_tr_ctrl(
-            self.treat,
-            self._comp_transformer,
-            treat=True,
-            one_hot=False,
-            discrete_treat=True,
-        )
-        self.control = get_tr_ctrl(
-            self.control,
-            self._comp_transformer,
-            treat=False,
-            one_hot=False,
-            discrete_treat=True,
-        )
-
         treat = np.zeros(
             self._x_d,
         )
-- 
2.43.0


From ac7f272a4ce6bc47223af20466d0332d4ed1f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 18/59] fix: refitting an estimator fits its treatment encoders
 anew

---
 ylearn/estimator_model/double_ml.py     |  2 ++
 ylearn/estimator_model/doubly_robust.py |  4 ++++
 ylearn/estimator_model/meta_learner.py  | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f187985..f745e5d 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -394,6 +394,8 @@ class DoubleML(BaseEstModel):
             # convert discrete treatment features to onehot vectors
             # note that when there are multiple treatments, we should convert
             # the problem into a single discrete treatment problem
+            # fit the encoders on this data, also when the model was fitted before
+            self._is_fitted = False
             x = self.comp_transormer(x, categories)
 
         self._x_d = x.shape[1]
diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 2761a77..5cbdfe0 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -275,6 +275,10 @@ class DoublyRobust(BaseEstModel):
         else:
             categories = list(self.categories)
 
+        # fit the encoders on this data, also when the model was fitted before
+        for name in ('ord_transformer', 'oh_transformer'):
+            self.__dict__.pop(name, None)
+
         # transform x into one_hot vectors
         x = self.comp_transormer(x, categories=categories)
         self._x_d = x.shape[1]
diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 85e37b2..0283e38 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -349,6 +349,8 @@ class SLearner(BaseEstModel):
         # group_categories = self.transformer.categories_
         # n_treatments = len(group_categories)
 
+        # fit the encoders on this data, also when the learner was fitted before
+        self._is_fitted = False
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
@@ -866,6 +868,10 @@ class TLearner(BaseEstModel):
         -------
         instance of TLearner
         """
+        # fit the encoders on this data, also when the learner was fitted before
+        for name in ("ord_transformer", "oh_transformer"):
+            self.__dict__.pop(name, None)
+
         # specify the treat and control label
         x = self._comp_transformer(x, categories=categories)
 
@@ -1363,6 +1369,10 @@ class XLearner(BaseEstModel):
         -------
         instance of XfLearner
         """
+        # fit the encoders on this data, also when the learner was fitted before
+        for name in ("ord_transformer", "oh_transformer"):
+            self.__dict__.pop(name, None)
+
         x = self._comp_transformer(x, categories)
 
         treat = get_tr_ctrl(
-- 
2.43.0


From 8aaf09e070d2ba245fcc358322dca17bdd97f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 19/59] fix: XLearner with separate treatments outputs outcome
 probabilities

---
 ylearn/estimator_model/meta_learner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 0283e38..0461f52 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -1269,7 +1269,7 @@ class XLearner(BaseEstModel):
                     self.ft_model.classes_
                 )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
             except:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
+                classes_ = self._fitted_dict_separa["outcome_classes"][0]
             # else:
             #     classes_ = None
         else:
@@ -1510,6 +1510,10 @@ class XLearner(BaseEstModel):
         _wv_control, _y_control = get_groups(treat_arrays[0], x, False, wv, y)
         _y_control = _y_control.squeeze()
         f0_model.fit(_wv_control, _y_control)
+        if self.is_discrete_outcome:
+            self._fitted_dict_separa["outcome_classes"].append(
+                getattr(f0_model, "classes_", None)
+            )
 
         if self.proba_output:
             self._outcome_oh = ArrayOneHotEncoder(categories=[f0_model.classes_])
@@ -1582,7 +1586,7 @@ class XLearner(BaseEstModel):
         for i, (kt_model, k0_model) in enumerate(model_list):
             pred_t = kt_model.predict(wv)
             pred_0 = k0_model.predict(wv)
-            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, self._y_d)
+            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, y_d)
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-- 
2.43.0


From 68fb4d0e8755b8e145cf1f99b525b9a084d40c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 20/59] fix: effect_nji of the meta learners keeps separate
 treatments apart

---
 ylearn/estimator_model/meta_learner.py | 36 +++++++++-----------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 0461f52..d39c6b8 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -293,15 +293,11 @@ class SLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
+        # a single outcome or a single effect may be squeezed out
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
 
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
@@ -804,15 +800,11 @@ class TLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
+        # a single outcome or a single effect may be squeezed out
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
 
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
@@ -1322,15 +1314,11 @@ class XLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
+        # a single outcome or a single effect may be squeezed out
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
 
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
-- 
2.43.0


From 2c494b26ae2471d6a220a449fc9c294b525a8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 21/59] fix: DoubleML predicts continuous treatments by predict

---
 ylearn/estimator_model/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f745e5d..d7d67a6 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -681,10 +681,10 @@ class DoubleML(BaseEstModel):
             # convert back to a vector with each dimension being a value
             # indicating the corresponding discrete value
             target_converted = convert4onehot(target)
-            pred_func = self.x_pred_func
         else:
             target_converted = target
-            pred_func = self.y_pred_func
+
+        pred_func = self.y_pred_func if is_ymodel else self.x_pred_func
 
         if folds is None:
             wv = args[0]
-- 
2.43.0


From 337365a96cf00f6070f1e90ab7018b4816953828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 22/59] fix: DoubleML applies an array of treatments row by row
 for any control

---
 ylearn/estimator_model/double_ml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index d7d67a6..bd2a7fa 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -517,9 +517,12 @@ class DoubleML(BaseEstModel):
                 treat = treat.reshape(-1, self._x_d)
             if isinstance(control, np.ndarray):
                 control = control.reshape(-1, self._x_d)
-                effect = np.einsum("nji, ni->nji", fij, treat - control)
+
+            diff = treat - control
+            if isinstance(diff, np.ndarray):
+                effect = np.einsum("nji, ni->nji", fij, diff)
             else:
-                effect = fij * (treat - control)
+                effect = fij * diff
 
         if target_outcome is not None:
             assert (
-- 
2.43.0


From c6631bdc2bc6bc986358673f9a2fa456e81d5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 23/59] fix: DoubleML reuses the treat of the last estimate as
 an index

---
 ylearn/estimator_model/double_ml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index bd2a7fa..8d98c93 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -365,6 +365,10 @@ class DoubleML(BaseEstModel):
             adjustment is not None or covariate is not None
         ), "Need adjustment set or covariates to perform estimation."
 
+        # forget the treatment of estimates made before this fit
+        if self.__dict__.pop("_treat_encoded", False):
+            del self.treat
+
         super().fit(
             data,
             outcome,
@@ -477,6 +481,8 @@ class DoubleML(BaseEstModel):
             The estimated causal effect with the type of the quantity.
         """
         fij = self._prepare4est(data=data)
+        # the treatment of the last estimate is an index already
+        treat_encoded = treat is None and self.__dict__.get("_treat_encoded", False)
         if hasattr(self, "treat") and treat is None:
             treat = self.treat
         if hasattr(self, "control") and control is None:
@@ -490,7 +496,7 @@ class DoubleML(BaseEstModel):
         if isinstance(control, pd.Series):
             control = control.values
 
-        if not isinstance(treat, np.ndarray):
+        if not isinstance(treat, np.ndarray) and not treat_encoded:
             treat = get_tr_ctrl(
                 treat,
                 self.comp_transormer,
@@ -509,6 +515,7 @@ class DoubleML(BaseEstModel):
             )
 
         self.treat = treat
+        self._treat_encoded = True
 
         if self.is_discrete_treatment:
             effect = fij[:, :, treat] - fij[:, :, control]
-- 
2.43.0


From 9a1f59ba8ad9d3134bbca1fc07e14803da5dd66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 24/59] fix: the outcome model of DoublyRobust predicts under
 each treatment

---
 ylearn/estimator_model/doubly_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 5cbdfe0..f7cf20d 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -32,7 +32,7 @@ class _YModelWrapper:
 
         for i in range(self.x_d):
             x = np.zeros((n, self.x_d))
-            x[:, i] == 1
+            x[:, i] = 1
             x = np.concatenate((wv, x), axis=1)
             y_nji[:, :, i] = self.model.predict(x).reshape(n, self.y_d)
 
-- 
2.43.0


From 3d762cda3bb419b447fb8fd3e96f4b085c6d8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 25/59] fix: the optimal treatment selection bounds use the
 lowest outcome

They used the no-assumption bound of the effect in its place.
---
 ylearn/estimator_model/approximation_bound.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 9001c9c..bcfadd0 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -378,9 +378,9 @@ class ApproxBound(BaseEstModel):
 
         optimal_upper1 = xt_prob * yt - (1 - x0_prob) * y_lower \
             + (1 - xt_prob - x0_prob) * y_upper
-        optimal_lower1 = x0_prob * lower - x0_prob * y0
-        optimal_upper2 = yt - xt_prob * lower - x0_prob * y0
-        optimal_lower2 = xt_prob * yt + x0_prob * lower - y0
+        optimal_lower1 = x0_prob * y_lower - x0_prob * y0
+        optimal_upper2 = yt - xt_prob * y_lower - x0_prob * y0
+        optimal_lower2 = xt_prob * yt + x0_prob * y_lower - y0
 
         return ((upper, lower), (optimal_upper1, optimal_lower1),
                 (optimal_upper2, optimal_lower2))
-- 
2.43.0


From e6ab101b9e55d577f378a7d11755bd1fc1e6cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 26/59] fix: refitting ApproxBound uses the encoders and
 probabilities of this fit

---
 ylearn/estimator_model/approximation_bound.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index bcfadd0..7ad761e 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -82,6 +82,7 @@ class ApproxBound(BaseEstModel):
         self.y_model = y_model
         self.x_prob = x_prob
         self.x_model = x_model
+        self._fitted_x_prob = None
 
         super().__init__(
             random_state,
@@ -148,13 +149,16 @@ class ApproxBound(BaseEstModel):
         else:
             categories = list(self.categories)
 
+        # fit the encoders on this data, also when the model was fitted before
+        self._is_fitted = False
         x_one_hot = self.comp_transormer(x, categories=categories)
         # self._num_treatments = len(self.treatment_transformer.categories_)
         self._x_d = x_one_hot.shape[1]
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
-        if self.x_prob is None:
+        # do not take the probabilities of a previous fit for given ones
+        if self.x_prob is None or self.x_prob is self._fitted_x_prob:
             if v is not None:
                 if self.is_discrete_covariate:
                     v = OneHotEncoder().fit_transform(v)
@@ -164,6 +168,7 @@ class ApproxBound(BaseEstModel):
             else:
                 self.x_prob = np.unique(self.x_label, return_counts=True)[1]
                 self.x_prob = (self.x_prob / self._n).reshape(1, -1)
+            self._fitted_x_prob = self.x_prob
         else:
             # TODO: modify the following line for multiple treatment
             self.x_prob = self.x_prob.reshape(1, -1)
-- 
2.43.0


From 069deab0343e0297c62c877261febd10f6ee390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 27/59] fix: ApproxBound encodes discrete covariates as dense
 arrays, also of new data

---
 ylearn/estimator_model/approximation_bound.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 7ad761e..6aeee71 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -157,12 +157,13 @@ class ApproxBound(BaseEstModel):
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
+        if v is not None and self.is_discrete_covariate:
+            self.v_transformer = OneHotEncoder().fit(v)
+            v = self.v_transformer.transform(v).toarray()
+
         # do not take the probabilities of a previous fit for given ones
         if self.x_prob is None or self.x_prob is self._fitted_x_prob:
             if v is not None:
-                if self.is_discrete_covariate:
-                    v = OneHotEncoder().fit_transform(v)
-
                 self.x_model.fit(v, self.x_label)
                 self.x_prob = self.x_model.predict_proba(v)
             else:
@@ -354,6 +355,8 @@ class ApproxBound(BaseEstModel):
                     data, self.outcome, self.covariate, self.treatment
                 )
                 n = y.shape[0]
+                if self.is_discrete_covariate:
+                    v = self.v_transformer.transform(v).toarray()
                 x_prob = self.x_model.predict_proba(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
-- 
2.43.0


From b4260a9bb89b52cab6598466a17f4028ec051bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 28/59] fix: ApproxBound groups the rows of new data by encoded
 treatment

---
 ylearn/estimator_model/approximation_bound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 6aeee71..5a9a03d 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -357,6 +357,7 @@ class ApproxBound(BaseEstModel):
                 n = y.shape[0]
                 if self.is_discrete_covariate:
                     v = self.v_transformer.transform(v).toarray()
+                x = convert4onehot(self.comp_transormer(x,))
                 x_prob = self.x_model.predict_proba(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
-- 
2.43.0


From 034724e0f937940879bb589fbd7cc48696dafade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 29/59] fix: ApproxBound keeps given probabilities for new data
 with covariates

---
 ylearn/estimator_model/approximation_bound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 5a9a03d..0c6814a 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -358,7 +358,8 @@ class ApproxBound(BaseEstModel):
                 if self.is_discrete_covariate:
                     v = self.v_transformer.transform(v).toarray()
                 x = convert4onehot(self.comp_transormer(x,))
-                x_prob = self.x_model.predict_proba(v)
+                if self.x_prob is self._fitted_x_prob:
+                    x_prob = self.x_model.predict_proba(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
         y_ctrl = get_groups(control, x.reshape(-1, 1), False, y)[0]
-- 
2.43.0


From a586e2142804edfdda57bf814fe39e947658c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 30/59] fix: CausalModel.estimate checks adjustment sets for
 the given treatment and outcome

They were checked for the treatment and outcome identified last, or failed
when nothing had been identified.
---
 ylearn/causal_model/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 6435c38..ee27570 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -399,9 +399,7 @@ class CausalModel:
         # make sure the adjustment and the covariate are valid backdoor adjustment sets
         if adjustment is None and covariate is None:
             if self._adjustment_set is None:
-                adjustment = self.get_backdoor_set(
-                    self.treatment, self.outcome, "simple"
-                )[0]
+                adjustment = self.get_backdoor_set(treatment, outcome, "simple")[0]
             else:
                 adjustment = self._adjustment_set[0]
         else:
@@ -412,7 +410,7 @@ class CausalModel:
                 temp_set = temp_set.pop()
 
             assert self.is_valid_backdoor_set(
-                temp_set, self.treatment, self.outcome
+                temp_set, treatment, outcome
             ), "The adjustment set should be a valid backdoor adjustment set,"
             f"but was given {temp_set}."
 
-- 
2.43.0


From 4d51df4fb0244d5b0406226931ebe86f2abfdfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 31/59] fix: CausalModel.estimate drops adjustment sets found
 for another treatment or outcome

---
 ylearn/causal_model/model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index ee27570..07743b3 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -112,6 +112,7 @@ class CausalModel:
         """
         self.data = data
         self._adjustment_set = None
+        self._adjustment_query = None
         self.treatment = None
         self.outcome = None
         self.cached_result = defaultdict(list)
@@ -398,7 +399,12 @@ class CausalModel:
 
         # make sure the adjustment and the covariate are valid backdoor adjustment sets
         if adjustment is None and covariate is None:
-            if self._adjustment_set is None:
+            # the cached sets may belong to another treatment or outcome
+            query = tuple(
+                {names} if isinstance(names, str) else set(names)
+                for names in (treatment, outcome)
+            )
+            if self._adjustment_set is None or self._adjustment_query != query:
                 adjustment = self.get_backdoor_set(treatment, outcome, "simple")[0]
             else:
                 adjustment = self._adjustment_set[0]
@@ -679,6 +685,7 @@ class CausalModel:
             if any((adjust == "all", adjust == "minimal")):
                 backdoor_list = backdoor_set_list
                 self._adjustment_set = backdoor_set_list
+                self._adjustment_query = (treatment, outcome)
             else:
                 raise IdentificationError(
                     "Do not support backdoor set styles other than simple, all"
-- 
2.43.0


From abd56984784d11f0e20b32363753064968bdf8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 32/59] fix: CausalModel.estimate and identify_estimate accept
 sets of names

---
 ylearn/causal_model/model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 07743b3..5918958 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -420,6 +420,12 @@ class CausalModel:
             ), "The adjustment set should be a valid backdoor adjustment set,"
             f"but was given {temp_set}."
 
+        # columns of a data frame can not be selected with sets
+        outcome, treatment, covariate, adjustment = (
+            list(names) if isinstance(names, set) else names
+            for names in (outcome, treatment, covariate, adjustment)
+        )
+
         # fit the estimator_model if it is not fitted
         if not estimator_model._is_fitted:
             estimator_model.fit(
@@ -510,6 +516,12 @@ class CausalModel:
 
         self._est_result_dict = defaultdict(list)
 
+        # columns of a data frame can not be selected with sets
+        outcome, treatment = (
+            list(names) if isinstance(names, set) else names
+            for names in (outcome, treatment)
+        )
+
         for sub_adj_set in adj_set:
             est_model = deepcopy(estimator_model)
 
-- 
2.43.0


From 5b317c9b7b4eaa8612d3ea89a8e4682e9a551ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 33/59] fix: identify_estimate supports its default
 identify_method 'auto'

---
 ylearn/causal_model/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 5918958..64404d9 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -509,6 +509,8 @@ class CausalModel:
 
         if isinstance(identify_method, (list, tuple)):
             identify_method = identify_method[1]
+        if identify_method == "auto":
+            identify_method = "all"
 
         adj_set, _ = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
         if identify_method == "simple":
-- 
2.43.0


From e5bf5d2b91d6606a6644aa7c5fb893a67f9be63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 34/59] fix: identify('auto') returns what the possible methods
 find

---
 ylearn/causal_model/model.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 64404d9..7c575a3 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -299,11 +299,26 @@ class CausalModel:
         self.outcome = outcome
 
         if identify_method == "auto":
-            result_dict = {
-                "ID": self.id(outcome, treatment),
-                "backdoor": self.get_backdoor_set(treatment, outcome, "simple"),
-                "frontdoor": self.get_frontdoor_set(treatment, outcome, "simple"),
-            }
+            result_dict = {}
+            for method, identify in (
+                ("ID", lambda: self.id(outcome, treatment)),
+                (
+                    "backdoor",
+                    lambda: self.get_backdoor_set(treatment, outcome, "simple"),
+                ),
+                (
+                    "frontdoor",
+                    lambda: self.get_frontdoor_set(treatment, outcome, "simple"),
+                ),
+            ):
+                # leave out the methods which can not identify the effect
+                try:
+                    result_dict[method] = identify()
+                except IdentificationError:
+                    pass
+            if not result_dict:
+                raise IdentificationError("No method can identify the causal effect.")
+
             self.cached_result[f"Treatment: {treatment}, Outcome: {outcome}"].append(
                 result_dict
             )
-- 
2.43.0


From f60057e739805eaed14c83cc443e89e6a5b1ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 35/59] fix: a new Why object is not fitted

The trailing comma made _is_fitted a non-empty tuple.
---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 896ca40..b2ba7f4 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -168,7 +168,7 @@ class Why:
         self.random_state = random_state
 
         # fitted
-        self._is_fitted = False,
+        self._is_fitted = False
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
-- 
2.43.0


From 3f52254903ea8f563b0204a46570da6876e4cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 36/59] fix: Why leaves the name lists of the caller alone

Treatment names were removed from the adjustment, covariate and instrument
lists of the caller.
---
 ylearn/api/_why.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index b2ba7f4..55a7df8 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -399,9 +399,9 @@ class Why:
         covariate = utils.to_list(covariate, name='covariate')
         instrument = utils.to_list(instrument, name='instrument')
 
-        utils.safe_remove(adjustment, treatment)
-        utils.safe_remove(covariate, treatment)
-        utils.safe_remove(instrument, treatment)
+        adjustment = utils.safe_remove(adjustment, treatment, copy=True)
+        covariate = utils.safe_remove(covariate, treatment, copy=True)
+        instrument = utils.safe_remove(instrument, treatment, copy=True)
 
         if all(map(utils.is_empty, (adjustment, covariate, instrument))):
             if identifier is None:
-- 
2.43.0


From 2d1d702d647834afa86d51b33543a2cd3b71c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 37/59] fix: Why encodes the target outcome of individual
 effects and uplift models

The value given was decoded instead of encoded, and the last class was not
the default as documented.
---
 ylearn/api/_why.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 55a7df8..4a2d074 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -518,9 +518,9 @@ class Why:
         assert self._is_fitted
         return utils.safe_treat_control_list(treatment, t_or_c, name)
 
-    def _inverse_transform_outcome(self, v):
+    def _transform_outcome(self, v):
         if self.y_encoder_ is not None and v is not None:
-            return self.y_encoder_.inverse_transform([v])[0]
+            return self.y_encoder_.transform([v]).tolist()[0]
         else:
             return v
 
@@ -800,8 +800,10 @@ class Why:
 
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
-        if target_outcome is not None:
-            target_outcome = self._inverse_transform_outcome(target_outcome)
+        if self.discrete_outcome:
+            if target_outcome is None:
+                target_outcome = self.y_encoder_.classes_[-1]
+            target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
         for ri in test_data_preprocessed.index:
@@ -1030,7 +1032,7 @@ class Why:
             options = drop_none(control=control, )
             if target_outcome is not None \
                     and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
-                options['target_outcome'] = self._inverse_transform_outcome(target_outcome)
+                options['target_outcome'] = self._transform_outcome(target_outcome)
             effect = estimator.effect_nji(preprocessed_data, **options)
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
@@ -1297,7 +1299,9 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._inverse_transform_outcome(target_outcome)
+        if self.discrete_outcome and target_outcome is None:
+            target_outcome = self.y_encoder_.classes_[-1]
+        target_outcome = self._transform_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
-- 
2.43.0


From 8298dac08312a32650a2d4c1a736c2a82ee907b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 38/59] fix: causal_effect of a single continuous treatment
 accepts its name

---
 ylearn/api/_why.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 4a2d074..e563767 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -716,6 +716,8 @@ class Why:
 
         if treatment is None:
             treatment = self.treatment_
+        else:
+            treatment = utils.to_list(treatment, 'treatment')
 
         test_data_preprocessed = self._preprocess(test_data)
         treat = self._safe_treat_control(treatment, treat, 'treat')
-- 
2.43.0


From 30b844043a19829a98599fdb7a0fa266d8257f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 39/59] fix: whatif applies the cost function to the rows the
 effect is estimated for

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index e563767..0d9f525 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -898,7 +898,7 @@ class Why:
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
                 eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data, eff, self.effect_name)
+                eff = utils.cost_effect(self.fn_cost, test_data.loc[tc_rows.index], eff, self.effect_name)
             effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
         effect = pd.concat(effect, axis=0)
         assert len(effect) == len(df)
-- 
2.43.0


From ff78da7ee43ab006ad91af24f2fd4e666d98c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 40/59] fix: Why.score uses the target outcome it is given

---
 ylearn/api/_why.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 0d9f525..e687b4a 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -953,7 +953,8 @@ class Why:
         assert test_data is not None
 
         if scorer in ['auuc', 'qini']:
-            return self._score_auuc_qini(test_data, treat=treat, control=control, scorer=scorer)
+            return self._score_auuc_qini(test_data, treat=treat, control=control,
+                                         target_outcome=target_outcome, scorer=scorer)
         else:
             return self._score_rloss(test_data, treat=treat, control=control)
 
-- 
2.43.0


From c0b41635db43ba3be148c06b7c012ee3bf2c4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 41/59] fix: effects of an invalid target outcome are refused

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index e687b4a..3b21cc5 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1045,7 +1045,7 @@ class Why:
                 if target_outcome is not None:
                     nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
                     if len(nz) == 0:
-                        assert ValueError(f'Invalid target_outcome: "{target_outcome}"')
+                        raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
                     effect = effect[:, nz[0]:nz[0] + 1, :]
                 else:
                     effect = effect[:, -1:, :]
-- 
2.43.0


From d7b6d4e43410d6f8e667d5837bfc56d0e3cae9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 42/59] fix: Why.causal_graph builds the graph of direct causes

matrix2dict has no threshold, so every discovered graph failed; and without
discovery the arrows were reversed and the treatment did not cause the outcome.
---
 ylearn/api/_why.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 3b21cc5..8224e4b 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -538,22 +538,28 @@ class Why:
         if causation is not None:
             threshold = causation.values.diagonal().max()
             from ylearn.causal_discovery import BaseDiscovery
-            m = BaseDiscovery.matrix2dict(causation, threshold=threshold)
+            m = BaseDiscovery.matrix2dict(causation.where(causation.abs() > threshold, 0), depth=1)
         else:
-            m = {}
             fmt = partial(utils.format, line_limit=1, line_width=20)
             label_y = f'Outcome({self.outcome_})'
             label_x = f'Treatments({fmt(self.treatment_)})'
+            # the causes of each variable
+            m = {label_x: [], label_y: [label_x]}
 
             if self.adjustment_ is not None and len(self.adjustment_) > 0:
                 label_w = f'Adjustments({fmt(self.adjustment_)})'
-                m[label_w] = [label_x, label_y]
+                m[label_w] = []
+                m[label_x].append(label_w)
+                m[label_y].append(label_w)
             if self.covariate_ is not None and len(self.covariate_) > 0:
                 label_v = f'Covariates({fmt(self.covariate_)})'
-                m[label_v] = [label_x, label_y]
+                m[label_v] = []
+                m[label_x].append(label_v)
+                m[label_y].append(label_v)
             if self.instrument_ is not None and len(self.instrument_) > 0:
                 label_z = f'Instruments({fmt(self.instrument_)})'
-                m[label_z] = [label_x, ]
+                m[label_z] = []
+                m[label_x].append(label_z)
 
         cg = CausalGraph(m)
         return cg
-- 
2.43.0


From 69b2c877e696d5cd9b803663f354780eaf14b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 43/59] fix: refitting Why infers discrete outcome and
 treatment anew

What was inferred from the data of the first fit was kept for all later ones.
---
 ylearn/api/_why.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 8224e4b..c8baaac 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -167,6 +167,10 @@ class Why:
         self.effect_name = effect_name
         self.random_state = random_state
 
+        # inferred from the data of each fit
+        self._infer_discrete_outcome = discrete_outcome is None
+        self._infer_discrete_treatment = discrete_treatment is None
+
         # fitted
         self._is_fitted = False
         self.feature_names_in_ = None
@@ -241,6 +245,11 @@ class Why:
         if copy:
             data = data.copy()
 
+        if self._infer_discrete_outcome:
+            self.discrete_outcome = None
+        if self._infer_discrete_treatment:
+            self.discrete_treatment = None
+
         y = data[outcome]
         if self.discrete_outcome is None:
             self.discrete_outcome = utils.is_discrete(y)
-- 
2.43.0


From 88ff61d04a68588256d772926f32f0fc4eea3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 44/59] fix: at most treatment_count_limit treatments are
 identified

A second one was selected before the limit was checked.
---
 ylearn/api/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/utils.py b/ylearn/api/utils.py
index 58477b1..df9712e 100644
--- a/ylearn/api/utils.py
+++ b/ylearn/api/utils.py
@@ -67,11 +67,11 @@ def align_task_to_first(data, columns, count_limit):
     selected = columns[:1]
     discrete = is_discrete(data[selected[0]])
     for x in columns[1:]:
+        if len(selected) >= count_limit:
+            break
         x_discrete = is_discrete(data[x])
         if x_discrete is discrete:
             selected.append(x)
-            if len(selected) >= count_limit:
-                break
 
     return selected
 
-- 
2.43.0


From 161903649169428b636d57d72c8e0fcd14971587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 45/59] fix: Why keeps preprocessed columns under their names

The preprocessor groups columns by type, and a data frame is assigned to a
list of columns by position.
---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index c8baaac..6b3d0a8 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -289,7 +289,7 @@ class Why:
         assert len(columns) > 0
         data_t = preprocessor.fit_transform(data[columns], y)
         assert isinstance(data_t, pd.DataFrame) and set(data_t.columns.tolist()) == set(columns)
-        data[columns] = data_t
+        data[columns] = data_t[columns]
 
         # fit estimator
         estimator_keys = treatment.copy()
@@ -507,7 +507,7 @@ class Why:
             if self.preprocessor_ is not None:
                 var_columns = utils.join_list(self.adjustment_, self.covariate_, self.instrument_)
                 assert len(var_columns) > 0
-                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])
+                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])[var_columns]
 
             if encode_outcome and self.y_encoder_ is not None and self.outcome_ in columns:
                 test_data[self.outcome_] = self.y_encoder_.transform(test_data[self.outcome_])
-- 
2.43.0


From 5ce6ec85b11cdae08dd75485fdad326a81ce0f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 46/59] fix: NP2SLS averages effects with numpy arguments

---
 ylearn/estimator_model/iv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ebcf7ff..95efc53 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -252,9 +252,9 @@ class NP2SLS(BaseEstModel):
             assert (
                 self.covariate is not None
             ), "Need caovariate to compute the CATE in this case."
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         if quantity == "ATE":
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         elif quantity is None:
             return yt - y0
         else:
-- 
2.43.0


From 00a9ddd372a2a0dd564f9ebcf73086b059597efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 47/59] fix: NP2SLS.effect_nji for one discrete or for
 continuous treatments

---
 ylearn/estimator_model/iv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 95efc53..35e28f0 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -281,7 +281,7 @@ class NP2SLS(BaseEstModel):
 
                     y_nji[:, :, treat] = y_pred
 
-                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, aixs=2)
+                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, axis=2)
             else:
                 labels = [
                     np.arange(len(i)) for i in self.treatment_transformer.categories_
@@ -303,14 +303,16 @@ class NP2SLS(BaseEstModel):
                 )
 
         else:
-            yt, y0 = self._prepare4est(data=data, marginal_effect=False)
+            yt, y0 = self._prepare4est(
+                data=data, treat=None, control=None, marginal_effect=False
+            )
             # TODO: the definition of effect_nji may need to be modified in the future verison in this case
             if yt.ndim == 1:
                 yt = yt.reshape(-1, 1)
                 y0 = y0.reshape(-1, 1)
 
             n, y_d = yt.shape
-            y_nji = np.full(n, y_d, 2)
+            y_nji = np.full((n, y_d, 2), np.nan)
 
             y_nji[:, :, 0] = y0
             y_nji[:, :, 1] = yt
-- 
2.43.0


From da01f5c9f26138a0311994f0676abf3c91057e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 48/59] fix: NP2SLS can be fitted without covariates

---
 ylearn/estimator_model/iv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 35e28f0..806bc86 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -194,7 +194,10 @@ class NP2SLS(BaseEstModel):
         # get expansion basis functions for parameters
         x_transformed = self._x_basis_func.fit_transform(x)
         z_transformed = self._z_basis_func.fit_transform(z)
-        v_transformed = self._v_basis_func.fit_transform(v)
+        if v is not None:
+            v_transformed = self._v_basis_func.fit_transform(v)
+        else:
+            v_transformed = None
 
         self._v_transformed = v_transformed
         self._w = w
-- 
2.43.0


From 1223e3ac867cfdef3fcbed5f0baf30069cce4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 49/59] fix: NP2SLS encodes discrete instruments as a dense
 array

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 806bc86..9f99728 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -169,7 +169,7 @@ class NP2SLS(BaseEstModel):
         if self.is_discrete_instrument:
             self.instrument_transformer = OneHotEncoder()
             self.instrument_transformer.fit(z)
-            z = self.instrument_transformer.transform(z)
+            z = self.instrument_transformer.transform(z).toarray()
 
         if isinstance(treatment_basis, list) or isinstance(treatment_basis, tuple):
             method, degree = treatment_basis[0], treatment_basis[1]
-- 
2.43.0


From ccea0f729cf9b5e26444dd8ce7674033e8623e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:05 +0000
Subject: [PATCH 50/59] fix: NP2SLS compares the second and the first value of
 discrete treatments by default

---
 ylearn/estimator_model/iv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 9f99728..6620d8b 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -343,6 +343,8 @@ class NP2SLS(BaseEstModel):
                 #     treat.shape[1] == self._x_d
                 # ), f"Expect dimension of treat as {self._x_d}, but was given {treat.shape[1]}"
                 treat = treat.reshape(-1, self._x_d)
+                if self.is_discrete_treatment:
+                    treat = self.treatment_transformer.transform(treat)
             else:
                 treat = np.array([[1 for i in range(self._x_d)]])
 
@@ -358,6 +360,8 @@ class NP2SLS(BaseEstModel):
                 if not isinstance(control, np.ndarray):
                     control = np.array([control]).reshape(1, -1)
                 control = control.reshape(-1, self._x_d)
+                if self.is_discrete_treatment:
+                    control = self.treatment_transformer.transform(control)
                 # assert (
                 #     control.shape[1] == self._x_d
                 # ), f"Expect dimension of control as {self._x_d}, but was given {control.shape[1]}"
@@ -372,9 +376,6 @@ class NP2SLS(BaseEstModel):
                     x0.shape[0] == n
                 ), f"The number of control {x0.shape[0]} does not match the number of the samples"
 
-            if self.is_discrete_treatment:
-                xt = self.treatment_transformer.transform(xt)
-                x0 = self.treatment_transformer.transform(x0)
             # else:
             #     if treat is not None and not isinstance(treat, np.ndarray):
             #         treat = np.array([treat]).reshape(-1, 1)
-- 
2.43.0


From 918839ca3703afb577579d14f3be4c263f6051af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 51/59] fix: NP2SLS counterfactuals on the training data and
 for discrete treatments

---
 ylearn/estimator_model/iv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 6620d8b..64542ae 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -160,6 +160,7 @@ class NP2SLS(BaseEstModel):
             data, outcome, treatment, instrument, adjustment, covariate
         )
         self._y_d = y.shape[1]
+        self._x = x
 
         if self.is_discrete_treatment:
             self.treatment_transformer = OrdinalEncoder()
@@ -396,6 +397,8 @@ class NP2SLS(BaseEstModel):
             # x0 = np.repeat(np.array([[control]]), n, axis=0)
         else:
             xt = x
+            if self.is_discrete_treatment:
+                xt = self.treatment_transformer.transform(xt)
             x0 = deepcopy(xt)
 
         # xt = self._x_basis_func.fit_transform(xt)
@@ -422,7 +425,7 @@ class NP2SLS(BaseEstModel):
         if data is None:
             v = self._v_transformed
             w = self._w
-            x = None
+            x = self._x
             n = self._n
         else:
             w, x, v = convert2array(
-- 
2.43.0


From 28196dd32b927571df761215232983dc5b7a78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 52/59] fix: NP2SLS accepts treatment models that predict a
 flat array

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 64542ae..ea7c7a1 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -214,7 +214,7 @@ class NP2SLS(BaseEstModel):
         self.x_model.fit(zvw, x_transformed)
 
         # stage 2: fit the y_model on x, and w, v
-        x_hat = self.x_model.predict(zvw)
+        x_hat = self.x_model.predict(zvw).reshape(zvw.shape[0], -1)
 
         if v_transformed is not None:
             xv = nd_kron(x_hat, v_transformed)
-- 
2.43.0


From 9ec7a3298cb202af59cdd9b82c0d3baa152c5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 53/59] fix: trim_cycle handles negative weights

---
 ylearn/causal_discovery/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index c1bef28..566f16f 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -16,7 +16,8 @@ class BaseDiscovery:
         assert isinstance(matrix, np.ndarray)
         assert matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1]
 
-        g = nx.from_numpy_array(matrix, create_using=nx.DiGraph)  # .reverse()
+        # arcs are compared by the magnitude of their weights
+        g = nx.from_numpy_array(np.abs(matrix), create_using=nx.DiGraph)  # .reverse()
 
         def trim_with_weight():
             edge_weights = nx.get_edge_attributes(g, 'weight')
@@ -36,7 +37,7 @@ class BaseDiscovery:
             pass
 
         assert nx.is_directed_acyclic_graph(g)
-        return nx.to_numpy_array(g)
+        return np.where(nx.to_numpy_array(g) > 0, matrix, 0.0)
 
     @staticmethod
     def matrix2dict(matrix, names=None, depth=None):
-- 
2.43.0


From a81b2b3f10741122b3789a9828ab61b15f340007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 54/59] fix: trim_cycle drops self loops

---
 ylearn/causal_discovery/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index 566f16f..aeebf8e 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -18,6 +18,7 @@ class BaseDiscovery:
 
         # arcs are compared by the magnitude of their weights
         g = nx.from_numpy_array(np.abs(matrix), create_using=nx.DiGraph)  # .reverse()
+        g.remove_edges_from(list(nx.selfloop_edges(g)))
 
         def trim_with_weight():
             edge_weights = nx.get_edge_attributes(g, 'weight')
-- 
2.43.0


From 7ba9901b1db116b64007cf6d9012043fb728f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 55/59] fix: matrix2array of an ndarray compares both
 directions

---
 ylearn/causal_discovery/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index aeebf8e..05d2cb5 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -91,7 +91,7 @@ class BaseDiscovery:
                     vt = matrix.iloc[col, row]
                 else:
                     v = matrix[row, col]
-                    vt = matrix[row, col]
+                    vt = matrix[col, row]
                 if abs(v) >= abs(vt):
                     r.append([row, col, v])
                 else:
-- 
2.43.0


From b4c7c6d2f2609c7fe4b419b18a29961d20caac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:16 +0000
Subject: [PATCH 56/59] fix: PermutedLearner.effect_nji has one column for the
 null effect of several outcomes

---
 ylearn/estimator_model/_permuted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index c438ea0..5b7f188 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -46,7 +46,7 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
     y_count = 1 if isinstance(outcome, str) else len(outcome)
 
     if treat == control:
-        effect = np.zeros((len(data), y_count, y_count))
+        effect = np.zeros((len(data), y_count, 1))
     else:
         assert isinstance(learner_and_sign, tuple)
 
-- 
2.43.0


From 014932090d32c13a5e7234a75cee1d8daf86c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:16 +0000
Subject: [PATCH 57/59] fix: PermutedLearner.effect_nji works without data

---
 ylearn/estimator_model/_permuted.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index 5b7f188..94f6f91 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -42,11 +42,11 @@ def _copy_and_fit(learner, data, outcome, treatment, treat, control, **kwargs):
     return learner
 
 
-def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, target_outcome):
+def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, target_outcome, n_rows):
     y_count = 1 if isinstance(outcome, str) else len(outcome)
 
     if treat == control:
-        effect = np.zeros((len(data), y_count, 1))
+        effect = np.zeros((n_rows, y_count, 1))
     else:
         assert isinstance(learner_and_sign, tuple)
 
@@ -96,6 +96,7 @@ class PermutedLearner(BaseEstModel):
 
         # fitted
         self.learners_ = {}
+        self._n_rows = None
         self._is_fitted = False
 
         # others
@@ -190,6 +191,7 @@ class PermutedLearner(BaseEstModel):
                 learners[(t, c)] = l
 
         self.learners_ = learners
+        self._n_rows = len(data)
         self._is_fitted = True
         return self
 
@@ -236,18 +238,19 @@ class PermutedLearner(BaseEstModel):
         else:
             treats = product(*[self.treats_[x] for x in treatment])
 
+        n_rows = len(data) if data is not None else self._n_rows
         if n_jobs in {0, 1}:
             # estimate learners one by one
             effects = [_effect_nji(
                 self._get_learner(treat, control, silent=True),
-                data, self.outcome, self.treatment, treat, control, target_outcome)
+                data, self.outcome, self.treatment, treat, control, target_outcome, n_rows)
                 for treat in treats]
         else:
             # estimate learners with joblib
             job_options = self._get_job_options(n_jobs)
             effects = Parallel(**job_options)(delayed(_effect_nji)(
                 self._get_learner(treat, control, silent=True),
-                data, self.outcome, self.treatment, treat, control, target_outcome
+                data, self.outcome, self.treatment, treat, control, target_outcome, n_rows
             ) for treat in treats)
 
         effects = np.concatenate(effects, axis=2)
-- 
2.43.0


From 437ef1d85655cbaf707d1621fee24e96afb67312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:29 +0000
Subject: [PATCH 58/59] fix: RLoss can be refitted with other treatment values

---
 ylearn/estimator_model/effect_score.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index d883c4e..4593b23 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -271,6 +271,7 @@ class RLoss(DoubleML):
                 categories = list(self.categories)
 
             # convert discrete treatment features to onehot vectors
+            self._is_fitted = False
             x = self.comp_transormer(x, categories)
 
         self._x_d = x.shape[1]
-- 
2.43.0


From afe8ead2387a2c0b68d786349eb668345c9e2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:29 +0000
Subject: [PATCH 59/59] fix: RLoss.score hands the columns to the estimator
 under their own names

---
 ylearn/estimator_model/effect_score.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index 4593b23..d39cc87 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -335,13 +335,13 @@ class RLoss(DoubleML):
         v = self._v
         w = self._w
 
+        # v and w are the columns named when this model was fitted
         data_dict = {}
-        if self.covariate is not None:
-            for i, name in enumerate(test_estimator.covariate):
-                data_dict[name] = v[:, i]
-        if self.adjustment is not None:
-            for i, name in enumerate(test_estimator.adjustment):
-                data_dict[name] = w[:, i]
+        for names, values in ((self.covariate, v), (self.adjustment, w)):
+            if names is not None:
+                names = [names] if isinstance(names, str) else names
+                for i, name in enumerate(names):
+                    data_dict[name] = values[:, i]
 
         test_data = pd.DataFrame(data_dict)
 
-- 
2.43.0

