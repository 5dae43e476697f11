From 711e55f4ab4ecdbe79058ce7b23b8256848685e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 01/58] fix: a time window given by t_start or t_stop raised
 TypeError

np.where returns an array for the axis; recent numpy refuses to convert a
one-element array to int, so no window could be used at all.
---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From 5e56d5357b949dc0d4b7997873715996ec969bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 02/58] fix: merging overlapping events lost contact time

The merged event took the end of the second event even if the first one
lasted longer, the extended event was not carried along a chain of overlaps,
its duration was not updated and rows were addressed by label.
---
 src/flowstab/temporal_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..7c5c488 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1814,9 +1814,10 @@ class ContTempNetwork:
                     # ev1
                     if ev2.starting_times < ev1.ending_times:
                         #merge
-                        events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        events_to_keep[self.events_table.index.get_loc(ev2.Index)] = False
+                        ending_time = max(ev1.ending_times, ev2.ending_times)
+                        self.events_table.loc[ev1.Index,"ending_times"] = ending_time
+                        ev1 = ev1._replace(ending_times=ending_time)
                         merged += 1
                     else:
                         ev1 = ev2
@@ -1829,6 +1830,9 @@ class ContTempNetwork:
 
         self.events_table.reset_index(inplace=True, drop=True)
 
+        self.events_table["durations"] = self.events_table.ending_times - \
+                            self.events_table.starting_times
+
         self.num_nodes = self.node_array.shape[0]
 
         self.num_events = self.events_table.shape[0]
-- 
2.43.0


From d402e1a902c63932e5e571132e84cb6291e6ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:45 +0000
Subject: [PATCH 03/58] fix: networks built from an events table were not
 relabelled

A table read from a file raised AttributeError (the path was used as the
table), and in all cases the labels were recorded but the nodes of the table
kept, so that labels other than 0..N-1 broke the matrices. The caller's table
was also modified in place.
---
 src/flowstab/temporal_network.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 7c5c488..1be822b 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -175,7 +175,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # the table of the caller stays as it is
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -185,10 +186,16 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+
+                self.events_table = self.events_table.assign(
+                    source_nodes=[self.label_to_node_dict[n] for n in
+                                  self.events_table.source_nodes],
+                    target_nodes=[self.label_to_node_dict[n] for n in
+                                  self.events_table.target_nodes])
             else:
                 self.node_to_label_dict=node_to_label_dict
 
-- 
2.43.0


From 07829423d74d2e33076d1c673c0331c333d6d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:01 +0000
Subject: [PATCH 04/58] fix: a contact ended with the first of several
 overlapping events

When events between the same two nodes overlap, or one starts at the very
time the previous one ends but comes first in the table, the end of one event
removed the edge from the Laplacians although another one was still ongoing.
---
 src/flowstab/temporal_network.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 1be822b..18b533f 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -23,6 +23,7 @@ import gzip
 import os
 import pickle
 import time
+from collections import Counter
 from functools import partial
 
 import numpy as np
@@ -1199,6 +1200,8 @@ class ContTempNetwork:
         Dm1 = I.copy()
         # self loop matrix
         S = I.copy()
+        # number of ongoing events between each pair of nodes
+        num_ongoing = Counter()
 
 
         self.laplacians = []
@@ -1239,6 +1242,8 @@ class ContTempNetwork:
             for event in self.events_table.loc[mask_ini][["source_nodes",
                                           "target_nodes"]].itertuples():
 
+                num_ongoing[frozenset((event.source_nodes, event.target_nodes))] += 1
+
                 if A[event.source_nodes, event.target_nodes] != 1:
                         A[event.source_nodes, event.target_nodes] = 1
                         A[event.target_nodes, event.source_nodes] = 1
@@ -1286,8 +1291,10 @@ class ContTempNetwork:
 
             #update instantaneous matrices
             for event, is_start in zip(events_k, is_starts):
+                pair = frozenset((event.source_nodes, event.target_nodes))
+                num_ongoing[pair] += 1 if is_start else -1
                 # unweighted, undirected
-                if is_start:
+                if num_ongoing[pair] > 0:
                     # if they are not already connected (can happen if the
                     # opposite event overlap)
                     if A[event.source_nodes, event.target_nodes] != 1:
-- 
2.43.0


From 182e7a527afe9bebc49daf954695d78dd0dadc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 05/58] fix: transition matrices of a previous time window were
 reused

Computing the Laplacians for another window left the matrices derived from
the previous ones in place, and as they are cached by lamda alone they were
taken for those of the new window.
---
 src/flowstab/temporal_network.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 18b533f..f43297a 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1147,6 +1147,13 @@ class ContTempNetwork:
         return t, k
 
 
+    def _reset_derived_matrices(self):
+        """Remove all the matrices computed from previous Laplacians."""
+        for mat in ["adjacencies", "inter_T", "inter_T_lin", "T", "T_lin",
+                    "_stationary_trans", "delta_inter_T", "delta_inter_T_lin"]:
+            if hasattr(self, mat):
+                delattr(self, mat)
+
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
         """Computes the laplacian matrices and saves them in `self.laplacians`
@@ -1204,6 +1211,7 @@ class ContTempNetwork:
         num_ongoing = Counter()
 
 
+        self._reset_derived_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
@@ -2028,6 +2036,7 @@ class ContTempInstNetwork(ContTempNetwork):
         S = I.copy()
 
 
+        self._reset_derived_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
-- 
2.43.0


From a49309d8ad8be3800588bfe71d2081d00f793a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 06/58] fix: flow clustering of a time window used the times of
 the whole network

The inter transition matrices cover the window only; paired with all the event
times they got wrong durations, or the integral was empty.
---
 src/flowstab/flow_stability.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..fb09bd5 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -648,7 +648,9 @@ class FlowStability(metaclass=StateMeta, states=States):
             kwargs.update(dict(
                 T_inter_list=[T.toarray()
                               for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                time_list=self.temporal_network.times[
+                    self.temporal_network._k_start_laplacians:
+                    self.temporal_network._k_stop_laplacians+1],
             ))
             if self.time_direction <= 0:
                 logger.info(
-- 
2.43.0


From e7b64d4f2b2dbdf373eb514c8f548f713fefd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 07/58] fix: compute_inter_transition_matrices rejected
 time_scale and lamda

'lamba' raised KeyError, and time_scale was passed on to the network, which
does not know it.
---
 src/flowstab/flow_stability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index fb09bd5..39e6b4e 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -521,9 +521,9 @@ class FlowStability(metaclass=StateMeta, states=States):
 
         _time_scale = None
         if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
+            _time_scale = kwargs.pop('time_scale')
         elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+            _time_scale = 1 / kwargs['lamda']
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From e69aecb5f9314534864750de9c1164647f002b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 08/58] fix: an iterator given as time_scale was exhausted by
 its validation

---
 src/flowstab/flow_stability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 39e6b4e..6150bb6 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -313,8 +313,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # we use a shallow copy (an iterator can only be read once)
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
-- 
2.43.0


From 73ff7fe61b3d863ccd17047c7427520c5ea54ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 09/58] fix: no clustering could be found for a single time
 direction

find_louvain_clustering required both the forward and the backward flow
clustering to be set, but set_flow_clustering only sets the one that
time_direction asks for.
---
 src/flowstab/flow_stability.py | 4 ++--
 src/flowstab/state_tracking.py | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 6150bb6..0b18495 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -553,7 +553,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         return self._flow_clustering_forward
 
-    @register(next_state=States.CLUSTERING)
+    @register(next_state=States.CLUSTERING, required=False)
     @flow_clustering_forward.setter
     def flow_clustering_forward(
         self,
@@ -593,7 +593,7 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         return self._flow_clustering_backward
 
-    @register(next_state=States.CLUSTERING)
+    @register(next_state=States.CLUSTERING, required=False)
     @flow_clustering_backward.setter
     def flow_clustering_backward(
         self,
diff --git a/src/flowstab/state_tracking.py b/src/flowstab/state_tracking.py
index 87b7c51..0b3d97b 100644
--- a/src/flowstab/state_tracking.py
+++ b/src/flowstab/state_tracking.py
@@ -231,7 +231,8 @@ class StateMeta(type):
                 _state_map[key] = value.fset.next_state
                 _minimal_state_map[key] = getattr(value.fset,
                                                   'minimal_state', None)
-                _property_next_state[key] = value.fset.next_state
+                if getattr(value.fset, 'required', True):
+                    _property_next_state[key] = value.fset.next_state
 
         _all_states = set(
             _minimal_state_map.values()).union(set(
@@ -314,7 +315,7 @@ class StateMeta(type):
 
     @staticmethod
     def register(*, next_state: Enum, minimal_state: Enum|None = None,
-                 ignore_none:bool=True):
+                 ignore_none:bool=True, required:bool=True):
         """
         Decorator to register a method or property setter for state management.
 
@@ -326,6 +327,9 @@ class StateMeta(type):
             Minimal state required to execute the method/setter.
         ignore_none : bool, optional
             If True, value=None will mark the property unset.
+        required : bool, optional
+            If False, the property does not need to be set to move on from
+            `next_state`.
 
         Returns
         -------
@@ -353,6 +357,7 @@ class StateMeta(type):
 
                     wrapped_setter.minimal_state = minimal_state
                     wrapped_setter.next_state = next_state
+                    wrapped_setter.required = required
 
                     # Return the property with the decorated setter
                     return property(func.fget, wrapped_setter, func.fdel, func.__doc__)
-- 
2.43.0


From 23f5e887667a79ccbd1cc1e5bf7eba36750f82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 10/58] fix: an analysis could not start from an existing
 temporal network

A network given on initialization or assigned to temporal_network left the
state at INITIAL, where only set_temporal_network can be run, which replaces
the network.
---
 src/flowstab/flow_stability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 0b18495..e773a68 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -231,6 +231,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                 "Set the temporal network: "
                 f"{self.temporal_network}"
             )
+            # same as with `set_temporal_network`
+            self.state.current = max(self.state.current, States.TEMP_NW)
         elif temporal_network is None:
             logger.info("Set an empty temporal network.")
             self._temporal_network = None
-- 
2.43.0


From 6a19501df3b286a7437c5bfdf282dc8868a19ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:02 +0000
Subject: [PATCH 11/58] fix: a rejected temporal network counted as set

The setter drops an object that is not a temporal network, but the property was
marked as set and the Laplacians were then computed on None.
---
 src/flowstab/state_tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/state_tracking.py b/src/flowstab/state_tracking.py
index 0b3d97b..25fcf91 100644
--- a/src/flowstab/state_tracking.py
+++ b/src/flowstab/state_tracking.py
@@ -347,7 +347,7 @@ class StateMeta(type):
                     def wrapped_setter(self, value):
                         # Run pre-run checks (if needed)
                         original_setter(self, value)
-                        if value is None and ignore_none:
+                        if ignore_none and (value is None or func.fget(self) is None):
                             self._state.properties_set[func_name] = False
                         else:
                             self._state.properties_set[func_name] = True
-- 
2.43.0


From e45a32e5d20e28797a1c3c03fb3ea805b1ed3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:53 +0000
Subject: [PATCH 12/58] fix: rounding the differences between matrices removed
 the negative ones

set_to_zeroes compares values, not their magnitudes, unless told otherwise, so
matrices restored from a file saved with save_delta were wrong.
---
 src/flowstab/temporal_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f43297a..5c14261 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1890,7 +1890,7 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol)
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1918,7 +1918,7 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
-- 
2.43.0


From b0a73b1ee4dfcfcfc819cb53eaf729008247a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:53 +0000
Subject: [PATCH 13/58] fix: saving the matrices of all lamdas lost some or
 raised KeyError

With lamda=None, save_inter_T(save_delta=True) looked up inter_T[None] and,
because the loop reused the name, saved the last lamda only; save_inter_T_lin
read the lamdas from the (missing) differences. Differences computed before a
new lamda or t_s were not completed.
---
 src/flowstab/temporal_network.py | 52 ++++++++++++++------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5c14261..17348f6 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -497,23 +497,18 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
-                                  SparseStochMat),\
+                assert not any(isinstance(self.inter_T[_lamda][0],
+                                  SparseStochMat) for _lamda in
+                               (self.inter_T if lamda is None else [lamda])),\
                                 "inter_T must not be SparseStochMat"
 
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
+                if lamda is not None:
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                                                  tol=tol)
+                else:
+                    #computes it for all lamda
+                    for _lamda in self.inter_T.keys():
+                        self._compute_delta_trans_mat(_lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
@@ -619,19 +614,13 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
+                if lamda is not None:
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                                                  tol=tol)
+                else:
+                    #computes it for all lamda
+                    for _lamda in self.inter_T_lin.keys():
+                        self._compute_delta_trans_mat(_lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
 
@@ -664,7 +653,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
@@ -1906,11 +1895,14 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T_lin"):
                 self.delta_inter_T_lin = dict()
 
-            if lamda not in self.delta_inter_T_lin.keys():
+            new_t_s = [t_s for t_s in self.inter_T_lin[lamda].keys()
+                       if t_s not in self.delta_inter_T_lin.get(lamda, {})]
+
+            if new_t_s:
 
-                self.delta_inter_T_lin[lamda] = dict()
+                self.delta_inter_T_lin.setdefault(lamda, dict())
 
-                for t_s in self.inter_T_lin[lamda].keys():
+                for t_s in new_t_s:
 
                     self.delta_inter_T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
                                                       self.inter_T_lin[lamda][t_s][k] for k in \
-- 
2.43.0


From 3dc5e7d51ceee687fba00dc850af18be251b8793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:53 +0000
Subject: [PATCH 14/58] fix: saving inter_T rounded the matrices in memory

save_inter_T and save_inter_T_lin rounded the SparseStochMat instances of the
network itself; like save_T they now round a copy.
---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 17348f6..3363913 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -548,6 +548,7 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -667,6 +668,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
-- 
2.43.0


From 7724add2b231f129d8f0d0bec304874071dec70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:53 +0000
Subject: [PATCH 15/58] fix: instantaneous networks could not be built from an
 events table

Given events_table, the initialization of the network was skipped, so that
ContTempInstNetwork.load raised AttributeError.
---
 src/flowstab/temporal_network.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 3363913..659a613 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1979,15 +1979,18 @@ class ContTempInstNetwork(ContTempNetwork):
 
             ending_times = [end_times_map[t] for t in starting_times]
 
-            super().__init__(source_nodes=source_nodes,
-                             target_nodes=target_nodes,
-                             starting_times=starting_times,
-                             ending_times=ending_times,
-                             relabel_nodes=relabel_nodes,
-                             reset_event_table_index=reset_event_table_index,
-                             node_to_label_dict=node_to_label_dict,
-                             merge_overlapping_events=False,
-                             events_table=events_table)
+        else:
+            ending_times = []
+
+        super().__init__(source_nodes=source_nodes,
+                         target_nodes=target_nodes,
+                         starting_times=starting_times,
+                         ending_times=ending_times,
+                         relabel_nodes=relabel_nodes,
+                         reset_event_table_index=reset_event_table_index,
+                         node_to_label_dict=node_to_label_dict,
+                         merge_overlapping_events=False,
+                         events_table=events_table)
 
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
-- 
2.43.0


From 6d7fda4543aea38d962a78c0c5d361f56c2e51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:53 +0000
Subject: [PATCH 16/58] fix: linear transition matrices of a window without
 events raised AttributeError

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 659a613..5c02787 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1565,7 +1565,7 @@ class ContTempNetwork:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
                     self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
                                                       dtype=np.float64,
-- 
2.43.0


From 5bd8e5fc414529a4a82b7aa09a17ae7dc51b4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 17/58] fix: computing T with a tolerance rounded the inter_T
 matrices in place

---
 src/flowstab/temporal_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5c02787..925b062 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1616,6 +1616,7 @@ class ContTempNetwork:
                     self.T[lamda] = [self.inter_T[lamda][k_init]]
 
                 if tol is not None:
+                    self.T[lamda][0] = self.T[lamda][0].copy()
                     set_to_zeroes(self.T[lamda][0],tol)
                     inplace_csr_row_normalize(self.T[lamda][0])
             else:
@@ -1625,6 +1626,7 @@ class ContTempNetwork:
                     self.T[lamda] = self.inter_T[lamda][k_init]
 
                 if tol is not None:
+                    self.T[lamda] = self.T[lamda].copy()
                     set_to_zeroes(self.T[lamda],tol)
                     inplace_csr_row_normalize(self.T[lamda])
 
@@ -1642,6 +1644,7 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
-- 
2.43.0


From b2cdbc7587d4f006dd003c031aba68b3b9935632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 18/58] fix: cached transition matrices were returned for other
 parameters

The matrices are cached by lamda (and t_s) only: asking for fix_tau_k, for the
reversed time, for another tolerance or for all intermediate products after a
first computation silently kept the matrices of the first one.
---
 src/flowstab/temporal_network.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 925b062..1c28074 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1144,6 +1144,20 @@ class ContTempNetwork:
                     "_stationary_trans", "delta_inter_T", "delta_inter_T_lin"]:
             if hasattr(self, mat):
                 delattr(self, mat)
+        self._matrix_params = dict()
+
+    def _forget_if_changed(self, mats, *keys, **params):
+        """Remove the matrices cached under `keys` in the dictionaries `mats`
+        if the first of them was computed with other parameters than `params`.
+        """
+        stored = self.__dict__.setdefault("_matrix_params", dict())
+        if stored.get((mats[0], *keys), params) != params:
+            for mat in mats:
+                cached = getattr(self, mat, {})
+                for key in keys[:-1]:
+                    cached = cached.get(key, {})
+                cached.pop(keys[-1], None)
+        stored[(mats[0], *keys)] = params
 
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
@@ -1404,6 +1418,9 @@ class ContTempNetwork:
                         "interevent time")
             lamda = 1/np.median(np.diff(self.times))
 
+        self._forget_if_changed(["inter_T", "T", "delta_inter_T"], lamda,
+                                fix_tau_k=fix_tau_k)
+
         # new value of lamda, we need to recompute
         if lamda not in self.inter_T.keys():
 
@@ -1500,6 +1517,9 @@ class ContTempNetwork:
             )
             lamda = 1/np.median(np.diff(self.times))
 
+        self._forget_if_changed(["inter_T_lin", "T_lin", "delta_inter_T_lin"],
+                                lamda, t_s, fix_tau_k=fix_tau_k)
+
         compute = True
 
         if lamda in self.inter_T_lin.keys():
@@ -1605,6 +1625,9 @@ class ContTempNetwork:
             k_range = range(1,len(self.inter_T[lamda]))
 
 
+        self._forget_if_changed(["T"], lamda, reverse_time=reverse_time,
+                                save_intermediate=save_intermediate, tol=tol)
+
         if lamda not in self.T.keys():
             if save_intermediate:
                 if force_csr:
@@ -1690,6 +1713,9 @@ class ContTempNetwork:
         if not hasattr(self, "T_lin"):
             self.T_lin = dict()
 
+        self._forget_if_changed(["T_lin"], lamda, t_s, reverse_time=reverse_time,
+                                save_intermediate=save_intermediate)
+
         compute = True
 
         if lamda in self.T_lin.keys():
-- 
2.43.0


From 5ed15334d8b4593c27972f8bcd047d865d77a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 19/58] fix: flow clustering ignored linear_approx

set_flow_clustering only looked at the exponential matrices: it raised
AttributeError after compute_inter_transition_matrices(linear_approx=True), or
used exponential matrices computed before.
---
 src/flowstab/flow_stability.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index e773a68..530937f 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -521,6 +521,9 @@ class FlowStability(metaclass=StateMeta, states=States):
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
 
+        self._linear_approx = linear_approx
+        self._t_s = kwargs.get('t_s', 10)
+
         _time_scale = None
         if 'time_scale' in kwargs:
             _time_scale = kwargs.pop('time_scale')
@@ -647,9 +650,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
 
+            if self._linear_approx:
+                inter_T = self.temporal_network.inter_T_lin[_lambda][self._t_s]
+            else:
+                inter_T = self.temporal_network.inter_T[_lambda]
+
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in inter_T],
                 time_list=self.temporal_network.times[
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians+1],
-- 
2.43.0


From 6070b9f6beedcc0dcd8bc0ecd7008e9ae1daead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:21 +0000
Subject: [PATCH 20/58] fix: flow clusterings of previous parameters remained
 among the results

With another time direction, or when a clustering could not be initiated, the
entry of a previous run stayed in place for the same time scale.
---
 src/flowstab/flow_stability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 530937f..352f00d 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -661,6 +661,10 @@ class FlowStability(metaclass=StateMeta, states=States):
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians+1],
             ))
+            # clusterings of previous parameters do not count any more
+            self._flow_clustering_backward.pop(_ts, None)
+            self._flow_clustering_forward.pop(_ts, None)
+
             if self.time_direction <= 0:
                 logger.info(
                     f"\t- Creating the time backward clustering."
-- 
2.43.0


From f4042a1e5046c1fcfc60cf13caf8fdd5f46002d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:02 +0000
Subject: [PATCH 21/58] fix: integral_time_grid raised TypeError

Recent numpy refuses to convert a one-element array to int.
---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..e47bdb7 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1903,7 +1903,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
-- 
2.43.0


From 718b4a316491b99fe56e23315868f289edebb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:02 +0000
Subject: [PATCH 22/58] fix: jaccard_distance did not return the distance

---
 src/flowstab/network_clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e47bdb7..4ab6c0d 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2182,6 +2182,12 @@ def jaccard_distance(clusters1, clusters2):
         if same_in_1 and not same_in_2:
             diff += 1
 
+    # no pair is together in any of the two clusterings
+    if same + diff == 0:
+        return 0.0
+
+    return diff/(same + diff)
+
 
 def norm_mutual_information(clusters1, clusters2):
     """Returns the normalized mutial information between two
-- 
2.43.0


From dd0104dc3cea995fdf7c981656f197be94146bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 23/58] fix: an entry of another node was added to the gain of
 moving a node

compute_delta_PT_moveto/moveout look up PT[k,k] in row k. If row k is empty
(a node with p1=0), the first entry of a later row was read instead (or memory
behind the array), and added if its column happened to be k.
---
 src/flowstab/_cython_sparse_stoch.pyx | 16 ++++++----------
 src/flowstab/_cython_subst.py         | 12 ++++--------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..4afaeee 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -753,7 +753,7 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -771,12 +771,10 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
     # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
@@ -843,7 +841,7 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -861,12 +859,10 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
     # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..9893208 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -419,12 +419,10 @@ def compute_delta_PT_moveto(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
     # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
@@ -500,12 +498,10 @@ def compute_delta_PT_moveout(
                     
     # add PT_kk
     j = PTindptr[k]
-    l = PTindices[j]
     # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
+    while j < PTindptr[k+1] and PTindices[j] < k:
         j += 1
-        l = PTindices[j]
-    if l == k:
+    if j < PTindptr[k+1] and PTindices[j] == k:
         s += PTdata[j]
         
     return s
-- 
2.43.0


From f90db1f4d59089f5820795471308583976b81b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 24/58] fix: aggregating an autocovariance dropped negative
 entries

aggregate_csr_mat kept only the positive sums, aggregate_csr_mat_2 keeps all.
Negative entries of PT are normal with the linearized Markov stability.
---
 src/flowstab/_cython_sparse_stoch.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 4afaeee..20de6d4 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -688,7 +688,7 @@ def aggregate_csr_mat(double[:] Adata,
                                       Aindptr, 
                                       idxs_array[idxptr[row]:idxptr[row+1]],
                                       idxs_array[idxptr[col]:idxptr[col+1]])
-            if pt > 0.0:
+            if pt != 0.0:
                 Bdata.push_back(pt)
                 Brows.push_back(row)
                 Bcols.push_back(col)
-- 
2.43.0


From 7d1c1801c08f622ee2f49fb33b0c7e63310699fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:23 +0000
Subject: [PATCH 25/58] fix: SparseStochMat.from_full_csr_matrix wrote outside
 of its arrays

The size of the arrays assumed exactly one stored entry in each row that is left
out, which does not hold for diag_val=0 (no entry) or with explicit zeros.
---
 src/flowstab/_cython_sparse_stoch.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 20de6d4..80c0419 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -604,8 +604,11 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
         
         cdef Py_ssize_t k, its, tsrow, tbrow, i, nzr        
         
-        cdef Py_ssize_t Ts_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
         cdef Py_ssize_t Ts_size = nz_rowcols.shape[0]
+        # the number of entries in the rows that are kept
+        cdef Py_ssize_t Ts_nnz = 0
+        for k in range(Ts_size):
+            Ts_nnz += Tf_indptr[nz_rowcols[k]+1] - Tf_indptr[nz_rowcols[k]]
 
         
         cdef double[:] Ts_data = np.zeros(Ts_nnz, dtype=np.float64)
-- 
2.43.0


From 79148bd7ce4619a6683530e953d3457f4ea2b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:41 +0000
Subject: [PATCH 26/58] fix: Louvain starting from a given partition returned a
 wrong partition

In the first loop the nodes that are moved are the original nodes, but they were
taken for the clusters of the partition the search started with. Unless that was
the partition in singletons, the result was not the partition that was found
(running find_louvain_clustering a second time could merge all clusters).
---
 src/flowstab/network_clustering.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 4ab6c0d..f392323 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -871,6 +871,14 @@ class BaseClustering:
         og_old_part.remove_empty_clusters()
         meta_new_part.remove_empty_clusters()
 
+        if meta_new_part.num_nodes == og_old_part.num_nodes:
+            # nothing was aggregated yet, the meta nodes are the original nodes
+            return Partition(og_old_part.num_nodes,
+                             node_to_cluster_dict={
+                                 node : meta_new_part.node_to_cluster_dict[node]
+                                 for nodes in og_old_part.cluster_list
+                                 for node in nodes})
+
         new_node_to_cluster_dict = dict()
         # this is the state before moving nodes
         for meta_node, original_nodes in enumerate(og_old_part.cluster_list):
-- 
2.43.0


From 7feedaf3f9dc4744165206b6903969283ae1b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:23 +0000
Subject: [PATCH 27/58] fix: wrong stationary distribution of directed static
 networks

static_clustering(directed=True) took the first eigenvector, but the eigenvalues
are in no particular order, and periodic networks have several eigenvalues of
magnitude 1. The distribution was wrong (negative, nan) or an AssertionError
was raised.
---
 src/flowstab/network_clustering.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index f392323..d74e8fa 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2464,7 +2464,8 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
 
         if is_csr:
 
-            w, v = eigs(Tstat.T, k=1, which="LM")
+            # eigenvalue 1 (others can have the same magnitude)
+            w, v = eigs(Tstat.T, k=1, which="LR")
 
             assert np.allclose(np.abs(w[0]) ,1)
 
@@ -2474,9 +2475,12 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         else:
             w, v = np.linalg.eig(Tstat.T)
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            # eigenvalue 1 (the eigenvalues are not sorted)
+            k = np.abs(w - 1).argmin()
+
+            assert np.allclose(np.abs(w[k]) ,1)
 
-            pi = v[:,0].real
+            pi = v[:,k].real
             pi = pi/pi.sum()
     else:
         pi = degs/degs.sum()
-- 
2.43.0


From e82c4b0f5b2741e7d0d027481de202f1a90ea0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:23 +0000
Subject: [PATCH 28/58] fix: norm_mutual_information raised ZeroDivisionError

for two partitions in one cluster, which are identical.
---
 src/flowstab/_cython_fast_funcs.pyx | 4 ++++
 src/flowstab/network_clustering.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/flowstab/_cython_fast_funcs.pyx b/src/flowstab/_cython_fast_funcs.pyx
index 3f3c5d4..3eaad96 100644
--- a/src/flowstab/_cython_fast_funcs.pyx
+++ b/src/flowstab/_cython_fast_funcs.pyx
@@ -156,6 +156,10 @@ def cython_nmi(list clusters1, list clusters2, int N, int n1, int n2):
             H12 -= p12[j]*log2(p12[j])
 
 
+    # both are the partition in one cluster
+    if H1 == 0.0 and H2 == 0.0:
+        return 1.0
+
     return (H1 + H2 - H12)/fmax(H1,H2)
 
 
diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index d74e8fa..5be1ae2 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2267,6 +2267,10 @@ def norm_mutual_information(clusters1, clusters2):
         # Mutual information
         MI = H1 + H2 - H12
 
+        # both are the partition in one cluster
+        if H1 == 0.0 and H2 == 0.0:
+            return 1.0
+
         return MI/max((H1,H2))
 
 
-- 
2.43.0


From 4cd7ff33d3f619c3e78ae56619cdaf55a734d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:23 +0000
Subject: [PATCH 29/58] fix: parallel clustering optimized another quality
 function

The workers rebuilt the autocovariance matrix of a SparseClustering with the
p1 and p2 of the clustering instead of those of the matrix (they differ for flow
integrals) and always as if it were symmetric.
---
 src/flowstab/parallel_clustering.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..78d588b 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -42,11 +42,11 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
     global var_dict
     # create arrays to share between processes
 
-    p1raw = RawArray("d", clustering.p1)
-    p2raw = RawArray("d", clustering.p2)
     N = clustering.num_nodes
 
     if type(clustering) is Clustering:
+        p1raw = RawArray("d", clustering.p1)
+        p2raw = RawArray("d", clustering.p2)
         Sraw = RawArray("d", clustering._S.flat)
         Traw = RawArray("d", clustering.T.flat)
 
@@ -76,6 +76,9 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
         PTindices = RawArray("l", clustering._S.PT.indices)
         PTindptr = RawArray("l", clustering._S.PT.indptr)
         PTdata = RawArray("d", clustering._S.PT.data)
+        # the probabilities of the autocovariance can be scalars
+        p1raw = RawArray("d", np.ones(N)*clustering._S.p1)
+        p2raw = RawArray("d", np.ones(N)*clustering._S.p2)
 
 
 
@@ -90,7 +93,8 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
-- 
2.43.0


From 26df4ed9be370f0eb52fe881531e03eaa4dbe12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:38 +0000
Subject: [PATCH 30/58] fix: IndexError clustering an integral whose time grid
 starts later

With an integral_time_grid that does not start at the initial time (or with
repeated times) the transition matrix of another time was used with I_list[k],
and the last integral could not be clustered.
---
 src/flowstab/network_clustering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 5be1ae2..90be526 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2131,8 +2131,12 @@ class FlowIntegralClustering:
         else:
 
             if self.is_nparray:
+                # I_list has an integral until each time of the grid, except
+                # the initial time
+                k_ends = sorted({kg for kg in self._k_integral_grid if kg > 0})
+
                 self.clustering[k] = Clustering(p1=self.p1, p2=None,
-                                  T=self.T_list[self._k_integral_grid[k+1]-1],
+                                  T=self.T_list[k_ends[k]-1],
                                   S=self.I_list[k],
                                   cluster_list=cluster_list,
                                   node_to_cluster_dict=node_to_cluster_dict,
-- 
2.43.0


From 55eda20140695c8582ec3bea4eae41f5daa62b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:18 +0000
Subject: [PATCH 31/58] fix: sparse stochastic matrices could not be multiplied
 after row normalization

Row normalization changed the type of the indices to one that the
operations between sparse stochastic matrices do not accept, so that
cumulative transition matrices of sparse stochastic matrices raised
ValueError.
---
 src/flowstab/sparse_stoch_mat.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..8359760 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -196,8 +196,8 @@ class SparseStochMat:
         res = _css.sparse_stoch_from_full_csr(
                 np.array(nz_rowcols, dtype=np.int32),
                 Tcsr.data.astype(dtype=np.float64),
-                Tcsr.indices,
-                Tcsr.indptr,
+                Tcsr.indices.astype(np.int32, copy=False),
+                Tcsr.indptr.astype(np.int32, copy=False),
                 diag_val)
 
         return cls(*res)
@@ -223,10 +223,9 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        # the indices keep their type, which the other operations rely on
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
@@ -571,16 +570,15 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #             X.data[X.indptr[i]:X.indptr[i+1]] -= row_sum_tmp/(X.indptr[i+1]-X.indptr[i])
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
-        X.indptr = X.indptr.astype(np.int64, copy=False)
-        X.indices = X.indices.astype(np.int64, copy=False)
+        indptr = X.indptr.astype(np.int64, copy=False)
         if isinstance(row_sum, float):
-            _css.inplace_csr_row_normalize(X.data, X.indptr,
+            _css.inplace_csr_row_normalize(X.data, indptr,
                                                 X.shape[0], row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
             assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
 
-            _css.inplace_csr_row_normalize_array(X.data, X.indptr,
+            _css.inplace_csr_row_normalize_array(X.data, indptr,
                                                     X.shape[0], row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
-- 
2.43.0


From 4c09601b51433010de7aaccc0917c3ba2d818964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:18 +0000
Subject: [PATCH 32/58] fix: merging removed all of several overlapping events

The events of a pair were merged once from each of its nodes; the second
time, the events that had already been marked as merged could replace the
one that was kept, so that the whole contact was lost.
---
 src/flowstab/temporal_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 1c28074..f60204e 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1834,6 +1834,9 @@ class ContTempNetwork:
 
             for n2 in (A[n1,:] > 0).nonzero()[1]:
 
+                # the events of a pair are merged once
+                if n2 < n1:
+                    continue
 
                 mask_12 = np.logical_and(self.events_table.source_nodes.values == n1,
                                          self.events_table.target_nodes.values == n2)
-- 
2.43.0


From 12eb3038f1688d9c4bddd569b73a1ac49aad4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:59 +0000
Subject: [PATCH 33/58] fix: set_to_zeroes removed negative values of sparse
 stochastic matrices

use_absolute_value was not passed on, so that the rounded differences
between sparse stochastic transition matrices lost their negative values.
---
 src/flowstab/temporal_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f60204e..e33d1e3 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2706,7 +2706,8 @@ def set_to_zeroes(Tcsr, tol=1e-8, relative=True, use_absolute_value=False):
     """
     if tol is not None:
         if isinstance(Tcsr, SparseStochMat):
-            Tcsr.set_to_zeroes(tol, relative=relative)
+            Tcsr.set_to_zeroes(tol, relative=relative,
+                               use_absolute_value=use_absolute_value)
         elif isinstance(Tcsr, (csr_matrix,csc_matrix)):
             if Tcsr.data.size > 0:
                 if relative:
-- 
2.43.0


From 11087d4b49e709491c90db575681b2f4dae43e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:22 +0000
Subject: [PATCH 34/58] fix: a restored network returned cached matrices of
 other parameters

The parameters that the transition matrices were computed with were not
saved, so that a loaded network could not tell that matrices have to be
computed again.
---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e33d1e3..9cc4aa6 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -303,6 +303,7 @@ class ContTempNetwork:
                       "_t_stop_laplacians",
                       "_k_stop_laplacians",
                       "_overlapping_events_merged",
+                      "_matrix_params",
                       "is_directed"]
 
         if attributes_list is None:
@@ -387,6 +388,7 @@ class ContTempNetwork:
                       "_t_stop_laplacians",
                       "_k_stop_laplacians",
                       "_overlapping_events_merged",
+                      "_matrix_params",
                       "is_directed"]
 
         if attributes_list is None:
-- 
2.43.0


From 5d0006c2b96187a4f2bb217201f694c89e2b9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:08 +0000
Subject: [PATCH 35/58] fix: sparse_outer of a vector with a single value
 raised ValueError

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 8359760..43afff8 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1127,11 +1127,11 @@ def sparse_outer(p, use_mkl=True, triu=True, verbose=False, log_message=""):
         if triu:
             Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size))[np.triu_indices(p.data.size)]
         else:
-            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2,1).squeeze()
+            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2)
     elif triu:
         Odata = np.outer(p.data,p.data)[np.triu_indices(p.data.size)]
     else:
-        Odata = np.outer(p.data,p.data).reshape(p.data.size**2,1).squeeze()
+        Odata = np.outer(p.data,p.data).reshape(p.data.size**2)
 
     if triu:
         indices_list = [p.indices[p.indices >= r] for r in p.indices]
-- 
2.43.0


From 0298348d1e66ff807ae3bb58acf1f639916bda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 36/58] fix: clustering with zero rows in the transition matrix
 raised AssertionError

---
 src/flowstab/network_clustering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 90be526..ad957a1 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -856,8 +856,10 @@ class BaseClustering:
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
 
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T (which can have zero rows)
+        T_sums = T.sum(axis=1)
+        T_sums[T_sums == 0] = 1
+        T = T/T_sums[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
@@ -1404,8 +1406,10 @@ class Clustering(BaseClustering):
                                t_cluster_to_node_list[t]].sum()
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T (which can have zero rows)
+        T_sums = T.sum(axis=1)
+        T_sums[T_sums == 0] = 1
+        T = T/T_sums[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
-- 
2.43.0


From 17daea7431842109e5242abf263a43ae61cafca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 37/58] fix: variation of information with unused cluster
 numbers was wrong

---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index ad957a1..a2d725c 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2325,6 +2325,10 @@ def norm_var_information(clusters1, clusters2, N=None, use_clust_list=False):
         # make sure it is a list of sets
         clusters2 = [set(c) for c in clusters2]
 
+    # cluster numbers can be unused
+    clusters1 = [c for c in clusters1 if len(c) > 0]
+    clusters2 = [c for c in clusters2 if len(c) > 0]
+
     # num nodes
     if N is None:
         N = sum(len(clust) for clust in clusters1)
-- 
2.43.0


From 2c8228a57c7be0a70bfeeb93d5159d51dd931627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:21 +0000
Subject: [PATCH 38/58] fix: check_integrity accepted clusters of unknown nodes

---
 src/flowstab/network_clustering.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index a2d725c..a08ee56 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -260,10 +260,8 @@ class Partition:
             If the partition is not valid.
         """
         inter = set()
-        total_len = 0
         num_clusters = self.get_num_clusters()
         for i in range(num_clusters):
-            total_len += len(self.cluster_list[i])
             for j in range(num_clusters):
                 if i != j:
                     inter.update(self.cluster_list[i].intersection(self.cluster_list[j]))
@@ -271,7 +269,13 @@ class Partition:
         if len(inter) > 0:
             raise ValueError("Overlapping clusters.")
 
-        if total_len != self.num_nodes:
+        nodes = set(range(self.num_nodes))
+        clustered = set().union(*self.cluster_list)
+
+        if clustered - nodes:
+            raise ValueError("Some clusters have unknown nodes.")
+
+        if nodes - clustered:
             raise ValueError("Some nodes have no clusters.")
 
 
-- 
2.43.0


From 970281471531b3fc53ca11a7bb3e79ec215a2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:01 +0000
Subject: [PATCH 39/58] fix: simulations mixed up individuals that are not
 listed in the order of their IDs

The individuals are accessed by their ID as position in the list: given in
another order, an individual had the group and the distributions of another.
---
 src/flowstab/synth_temp_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..ea60e5a 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,7 +268,8 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
+        # list of individuals, each at the position given by its ID
+        individuals = sorted(individuals, key=lambda ind: ind.ID)
         self.individuals = individuals
 
         # list of individual IDs
-- 
2.43.0


From 131b4149054acb620efb2e2cba56bf66463a1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:01 +0000
Subject: [PATCH 40/58] fix: simulations with a group that interacts with no
 group raised ValueError

Normalizing a row of zeros gave NaN probabilities, although rows of zeros are
meant to be individuals without possible partners.
---
 src/flowstab/synth_temp_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index ea60e5a..83536af 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -335,8 +335,10 @@ class SynthTempNetwork:
         if next_event_method == "block_probs":
             # make sure inter_group_probs is properly normalized
             # i.e. sum_j p[i,j] = 1 for all i
+            # (groups without any interaction keep a row of zeros)
+            row_sums = self.inter_group_probs.sum(axis=1)
             self.inter_group_probs = \
-                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T
+                (self.inter_group_probs.T/np.where(row_sums == 0, 1, row_sums)).T
 
         if next_event_method == "block_probs_mod":
             if block_prob_mod_func is None:
-- 
2.43.0


From 9640560e0290bc98ed92227d3b32090d1765ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:06 +0000
Subject: [PATCH 41/58] fix: saving differences with other rounding than before
 reused the rounded ones

---
 src/flowstab/temporal_network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 9cc4aa6..ad12023 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1907,6 +1907,9 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T"):
                 self.delta_inter_T = dict()
 
+            self._forget_if_changed(["delta_inter_T"], lamda,
+                                    round_zeros=round_zeros, tol=tol)
+
             if lamda not in self.delta_inter_T.keys():
 
                 self.delta_inter_T[lamda] = [self.inter_T[lamda][k+1] - \
@@ -1931,6 +1934,10 @@ class ContTempNetwork:
             if not hasattr(self, "delta_inter_T_lin"):
                 self.delta_inter_T_lin = dict()
 
+            for t_s in self.inter_T_lin[lamda]:
+                self._forget_if_changed(["delta_inter_T_lin"], lamda, t_s,
+                                        round_zeros=round_zeros, tol=tol)
+
             new_t_s = [t_s for t_s in self.inter_T_lin[lamda].keys()
                        if t_s not in self.delta_inter_T_lin.get(lamda, {})]
 
-- 
2.43.0


From bc65ae7d87f047d1c6b94b195411d693132f201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:08 +0000
Subject: [PATCH 42/58] fix: transition matrices saved in compact form and
 others could not be loaded together

---
 src/flowstab/temporal_network.py | 35 ++++++++------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ad12023..d25c12b 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1004,38 +1004,21 @@ class ContTempNetwork:
         if "T" in load_dict.keys():
             return_dict["T"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = \
-                        SparseStochMat(**load_dict["T"][lamda])
-
-            else:
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = load_dict["T"][lamda]
+            for lamda, T in load_dict["T"].items():
+                # SparseStochMat instances are saved as dictionaries
+                return_dict["T"][lamda] = SparseStochMat(**T) \
+                    if isinstance(T, dict) else T
 
 
         if "T_lin" in load_dict.keys():
             return_dict["T_lin"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
-
-                        return_dict["T_lin"][lamda][t_s] = \
-                            SparseStochMat(**load_dict["T_lin"][lamda][t_s])
-
-            else:
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
+            for lamda in load_dict["T_lin"].keys():
+                return_dict["T_lin"][lamda] = dict()
 
-                        return_dict["T_lin"][lamda][t_s] = \
-                                            load_dict["T_lin"][lamda][t_s]
+                for t_s, T in load_dict["T_lin"][lamda].items():
+                    return_dict["T_lin"][lamda][t_s] = SparseStochMat(**T) \
+                        if isinstance(T, dict) else T
 
 
 
-- 
2.43.0


From 6ea514087cc69bf5218f7faf9cf080e0b04f14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 43/58] fix: flow clusterings of earlier time scales stayed
 among the current ones

---
 src/flowstab/flow_stability.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 352f00d..61fcfee 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -641,6 +641,10 @@ class FlowStability(metaclass=StateMeta, states=States):
         self : FlowStability
             The instance itself.
         """
+        # clusterings of previous parameters do not count any more
+        self._flow_clustering_backward = {}
+        self._flow_clustering_forward = {}
+
         for _ts in self.time_scale:
             logger.info(
                 f"Creating a flow integral clustering for time_scale={_ts}."
@@ -661,10 +665,6 @@ class FlowStability(metaclass=StateMeta, states=States):
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians+1],
             ))
-            # clusterings of previous parameters do not count any more
-            self._flow_clustering_backward.pop(_ts, None)
-            self._flow_clustering_forward.pop(_ts, None)
-
             if self.time_direction <= 0:
                 logger.info(
                     f"\t- Creating the time backward clustering."
-- 
2.43.0


From 1568e114501fc5b0426f0af1846b17e1bdca0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:10 +0000
Subject: [PATCH 44/58] fix: clustering a sparse static network after zero
 steps raised TypeError

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index a08ee56..e1fda9b 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2452,7 +2452,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         is_csr = True
         D = lambda d : diags(d, format="csr")
         I = lambda size : eye(size, format="csr")
-        power = lambda M, n : M.__pow__(n)
+        power = lambda M, n : csr_matrix(M.__pow__(n))
     elif isinstance(A, np.ndarray) and not isinstance(A, np.matrix):
         is_csr = False
         D = lambda d : np.diag(d)
-- 
2.43.0


From baca9c690d061d86c9b54d283996453b573e2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:10 +0000
Subject: [PATCH 45/58] fix: numpy integers given as discrete time were taken
 as continuous time

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e1fda9b..d7b559f 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2506,7 +2506,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         pi = degs/degs.sum()
 
     # transition matrix at time t
-    if discrete_time_rw and isinstance(t,int):
+    if discrete_time_rw and isinstance(t,(int, np.integer)):
 
         T = power(Tstat,t)
 
-- 
2.43.0


From b03d2cc99d16119a15015adf00f9873733e59241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:10 +0000
Subject: [PATCH 46/58] fix: KeyError in the flow clustering of the default
 time scale

---
 src/flowstab/flow_stability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 61fcfee..c88cf33 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -650,7 +650,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                 f"Creating a flow integral clustering for time_scale={_ts}."
             )
             if _ts is None:
-                _lambda = None
+                # the default of the temporal network
+                _lambda = 1 / np.median(np.diff(self.temporal_network.times))
             else:
                 _lambda = 1 / _ts
 
-- 
2.43.0


From a52e32b17513e610f77057dcb89e9349213c1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:10 +0000
Subject: [PATCH 47/58] fix: events of a table with repeated index values were
 mixed up

---
 src/flowstab/temporal_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index d25c12b..9272c52 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -184,7 +184,8 @@ class ContTempNetwork:
                     "path to a CSV file. "
                     f"'{type(events_table)} is not acceptable."
                 )                               
-            reset_event_table_index = False     
+            # events are identified by the index
+            reset_event_table_index = not self.events_table.index.is_unique
             if relabel_nodes:                   
                 all_nodes = set()
                 all_nodes.update(self.events_table.source_nodes.tolist())
-- 
2.43.0


From 966026b49358f32eb8bf55c8b0d85e752dc43b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:10 +0000
Subject: [PATCH 48/58] fix: tables with a named index or an attribute 'index'
 had no or wrong Laplacians

---
 src/flowstab/temporal_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 9272c52..52058ba 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1087,13 +1087,15 @@ class ContTempNetwork:
             columns=["times", "id", "is_start"],
             index=range(self.events_table.shape[0]*2)
         )
+        events = self.events_table.assign(index=self.events_table.index).\
+                        reset_index(drop=True)
         self.time_grid.iloc[:self.events_table.shape[0],[0,1]] = \
-                     self.events_table.reset_index()[["starting_times","index"]]
+                     events[["starting_times","index"]]
         self.time_grid["is_start"] = False
         self.time_grid.loc[0:self.events_table.shape[0]-1,"is_start"] = True
 
         self.time_grid.iloc[self.events_table.shape[0]:,[0,1]] = \
-                      self.events_table.reset_index()[["ending_times","index"]]
+                      events[["ending_times","index"]]
 
         self.time_grid.times = pd.to_numeric(self.time_grid.times)
 
-- 
2.43.0


From e4cb073350d1fbaecb86b99fe87cec824b6e965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:10 +0000
Subject: [PATCH 49/58] fix: linear transition matrices of a rate were compact
 although ordinary ones were asked for

---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 52058ba..96bd2ee 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2261,6 +2261,8 @@ def lin_approx_trans_matrix(T, t, Pi=None,t_s=10):
 
         if Pi is None:
             Pi = compute_stationary_transition(T)
+        elif isinstance(Pi, SparseStochMat):
+            Pi = Pi.to_full_mat()
 
         if t < t_s:
 
-- 
2.43.0


From bd0c8096aa8c353207648ef80c5e33fa8204618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 50/58] fix: without the extensions, compact matrices had
 entries too many or too few

---
 src/flowstab/_cython_subst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 9893208..ef8208e 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -9,7 +9,8 @@ from scipy.sparse import (
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    # number of stored values in the rows that are kept
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
-- 
2.43.0


From f0f5383bef2b4fd656b0833a6141275e5323326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 51/58] fix: without the extensions, rows could not be
 normalized to a sum of zero

---
 src/flowstab/_cython_subst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index ef8208e..5e46b82 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -42,7 +42,11 @@ def inplace_csr_row_normalize(Tf_data, Tf_indptr, n_row:int, row_sum:float):
     """
     for i in range(n_row):
         row_sum_tmp = Tf_data[Tf_indptr[i]:Tf_indptr[i+1]].sum()
-        if row_sum_tmp != 0:
+        if row_sum_tmp == 0:
+            continue
+        if row_sum == 0:
+            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] -= row_sum_tmp/(Tf_indptr[i+1]-Tf_indptr[i])
+        else:
             Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
 
 class SPA:
-- 
2.43.0


From 495951f51d35b299c376b0ed1294b8fda9a26c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 52/58] fix: without the extensions, the gain of moving a node
 out was missing

---
 src/flowstab/_cython_subst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 5e46b82..d84860e 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -511,7 +511,7 @@ def compute_delta_PT_moveout(
         
     return s
 
-def cython_compute_delta_S_moveout(
+def compute_delta_S_moveout(
     PTdata,
     PTindices,
     PTindptr,
-- 
2.43.0


From 4d58d5e35d10934a2dbd983df0c3ec6b0681b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 53/58] fix: without the extensions, sparse matrices could not
 be aggregated

---
 src/flowstab/_cython_subst.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index d84860e..aa2f534 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -376,7 +376,20 @@ def aggregate_csr_mat(
         
         performs B.shape[0]**2 operations
     """
-    raise NotImplementedError
+    Bdata, Brows, Bcols = [], [], []
+    new_size = len(idxptr) - 1
+
+    for row in range(new_size):
+        for col in range(new_size):
+            pt = get_submat_sum(Adata, Aindices, Aindptr,
+                                idxs_array[idxptr[row]:idxptr[row+1]],
+                                idxs_array[idxptr[col]:idxptr[col+1]])
+            if pt != 0.0:
+                Bdata.append(pt)
+                Brows.append(row)
+                Bcols.append(col)
+
+    return Bdata, Brows, Bcols, new_size
 
 def aggregate_csr_mat_2(
     Adata,
@@ -390,7 +403,23 @@ def aggregate_csr_mat_2(
         
         Performs Adata.size operations
     """
-    raise NotImplementedError
+    Bdata, Brows, Bcols = [], [], []
+    new_size = len(idxptr) - 1
+
+    # map indices of A to indicies of B
+    AtoB = {}
+    for kb in range(new_size):
+        for ka in range(idxptr[kb], idxptr[kb+1]):
+            AtoB[idxs_array[ka]] = kb
+
+    # loop over values of A
+    for row in range(len(Aindptr) - 1):
+        for k in range(Aindptr[row], Aindptr[row+1]):
+            Bdata.append(Adata[k])
+            Brows.append(AtoB[row])
+            Bcols.append(AtoB[Aindices[k]])
+
+    return Bdata, Brows, Bcols, new_size
 
 def compute_delta_PT_moveto(
     PTdata,
-- 
2.43.0


From da1dfc230740acffc7b4f2a3c9b818137b4b57ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 54/58] fix: without the extensions, gains of sparse matrices
 failed for arrays

---
 src/flowstab/_cython_subst.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index aa2f534..2dba009 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -350,8 +350,8 @@ def get_submat_sum(
     """
     s = 0.0
     col_set = []
-    num_row = row_idx.shape[0]
-    num_col = col_idx.shape[0]
+    num_row = len(row_idx)
+    num_col = len(col_idx)
     
     for i in range(num_col):
         col_set.append(col_idx[i])
@@ -437,7 +437,7 @@ def compute_delta_PT_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     idx_set = list()
     
     for i in range(num_idx):
@@ -479,7 +479,7 @@ def compute_delta_S_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     s = compute_delta_PT_moveto(PTdata,
                                 PTindices,
@@ -515,7 +515,7 @@ def compute_delta_PT_moveout(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     idx_set = list()
     
@@ -559,7 +559,7 @@ def compute_delta_S_moveout(
     """
     
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     s = compute_delta_PT_moveout(PTdata, PTindices, PTindptr,
                                  PTcscdata, PTcscindices, PTcscindptr,
                                  k, idx)
-- 
2.43.0


From e0258cb91d76aad47296f46c47ea89311df316c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 55/58] fix: without the extensions, stored zeros had no place
 in compact matrices

---
 src/flowstab/_cython_subst.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 2dba009..7bb2a33 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -24,14 +24,16 @@ def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_
     for tsrow, tbrow in enumerate(nz_rowcols):
         nzr = 0
         for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):
+            if Tf_indices[k] not in BtoS:
+                continue # a stored zero
             T_s_data[its] = Tf_data[k]
             T_s_indices[its] = BtoS[Tf_indices[k]]
             its += 1
             nzr += 1
         T_s_indptr[tsrow+1] = T_s_indptr[tsrow] + nzr
     return (Tf_indptr.shape[0] - 1,
-            T_s_data,
-            T_s_indices,
+            T_s_data[:its],
+            T_s_indices[:its],
             T_s_indptr,
             nz_rowcols,
             diag_val)
-- 
2.43.0


From fccdba079845c67b137ef0bd235ef7bb8102cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:21 +0000
Subject: [PATCH 56/58] fix: the stationary transition of a dense matrix failed

---
 src/flowstab/temporal_network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 96bd2ee..203a6f8 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2288,9 +2288,10 @@ def compute_stationary_transition(T):
     """
     num_nodes = T.shape[0]
 
-    # otherwise 0 values may count as an edge
-    T.eliminate_zeros()
-    T.sort_indices()
+    if isspmatrix(T):
+        # otherwise 0 values may count as an edge
+        T.eliminate_zeros()
+        T.sort_indices()
 
     n_comp, comp_labels = connected_components(T,directed=False)
     comp_sizes = np.bincount(comp_labels)
-- 
2.43.0


From e499af54d9e85b327809e36a1cde7d8bb72d42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:21 +0000
Subject: [PATCH 57/58] fix: the spectral gap was wrong

---
 src/flowstab/temporal_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 203a6f8..4d31b6b 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2445,11 +2445,11 @@ def find_spectral_gap(L):
 
     Lsym = D12 @ Lcsr @ Dm12
 
-    # stationary solution
-    Pi = np.vstack([degs/degs.sum()]*L.shape[0])
+    # stationary solution (eigenvector of Lsym for the eigenvalue 0)
+    v = np.sqrt(degs/degs.sum())
 
-
-    gap = eigsh(Lsym.toarray()-Pi,1,sigma=0,
+    # eigenvalues of Lsym are between 0 and 2: the one of v is moved to 2
+    gap = eigsh(Lsym.toarray()+2*np.outer(v,v),1,sigma=0,
                 return_eigenvectors=False)
 
     return gap
-- 
2.43.0


From b0cd6eed73a645b6e02f3678cb7cb6e9dfdcb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:21 +0000
Subject: [PATCH 58/58] fix: the suggested next step depended on the order of
 the steps in the class

---
 src/flowstab/state_tracking.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/state_tracking.py b/src/flowstab/state_tracking.py
index 25fcf91..bfc0597 100644
--- a/src/flowstab/state_tracking.py
+++ b/src/flowstab/state_tracking.py
@@ -253,9 +253,11 @@ class StateMeta(type):
             for key, _state in _method_required_state.items():
                 if _state is not None and _state in _included_states:
                     _method_required[_current_state].append(key)
-            for key, _state in _next_method_map.items():
-                if _state is not None and _state in _included_states:
-                    _next_method[_current_state] = key
+            # steps of later states come after those of earlier ones
+            for _before_state in _included_states:
+                for key, _state in _next_method_map.items():
+                    if _state is not None and _state == _before_state:
+                        _next_method[_current_state] = key
             for key, _state in _property_next_state.items():
                 if _state is not None and _state in _included_states:
                     _property_required[_current_state].append(key)
-- 
2.43.0

