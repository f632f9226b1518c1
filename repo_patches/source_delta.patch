From af2e8525444dcb8413384ccbaa772acee37d7a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:44 +0000
Subject: [PATCH 01/35] fix: use a hash base larger than any code point so that
 different names do not collide

---
 src/python/ficus/legacy/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 5cb0bda..a88d4a0 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -3,8 +3,9 @@ import random
 import time
 from typing import Any, Hashable, Callable
 
-mod = 10 ** 9 + 7
-p = 31
+# The base exceeds the number of unicode code points, otherwise different short names (e.g. 'aA' and 'BB') collide
+mod = 2 ** 61 - 1
+p = 1114117
 concept_name = 'concept:name'
 time_timestamp = 'time:timestamp'
 lifecycle_transition = 'lifecycle:transition'
-- 
2.43.0


From 4c36abfc37f2ae4550c8ebbdc6cfe24c151c2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:40 +0000
Subject: [PATCH 02/35] fix: do not treat payloads as equal when only the
 key/value boundary differs

---
 src/python/ficus/legacy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index a88d4a0..2794c4d 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -42,7 +42,7 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
 
 
 def calculate_dict_hash(current_map: dict[Any, Any]) -> int:
-    sorted_joined_pairs = list(sorted(map(lambda x: str(x[0]) + str(x[1]), current_map.items())))
+    sorted_joined_pairs = list(sorted(map(lambda x: str((str(x[0]), str(x[1]))), current_map.items())))
     return calculate_poly_hash_for_collection(list(map(calculate_string_poly_hash, sorted_joined_pairs)))
 
 
-- 
2.43.0


From b8886501044a077cd3b9928f8b1b424c03f85ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:44 +0000
Subject: [PATCH 03/35] fix: a log with one empty trace is not equal to a log
 without traces

---
 src/python/ficus/legacy/log/event_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..75bbf37 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -104,7 +104,7 @@ class MyEventLog(Sequence):
         self.traces.append(trace)
 
     def __hash__(self):
-        current_hash = combine_list_of_hashes(list(map(hash, self.traces)))
+        current_hash = combine_two_hashes(len(self.traces), combine_list_of_hashes(list(map(hash, self.traces))))
         current_hash = combine_two_hashes(current_hash, calculate_dict_hash(self.attributes))
         current_hash = combine_two_hashes(current_hash, calculate_dict_hash(self.extensions))
         current_hash = combine_two_hashes(current_hash, calculate_dict_hash(self.classifiers))
-- 
2.43.0


From ef2ff74f3496af8e8272ecb237116480ce290ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:49 +0000
Subject: [PATCH 04/35] fix: keep trace attributes and global values when a
 trace or a log is copied

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 75bbf37..9b95346 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From 7a8b143398544e6b2db7fd9906384ed1aabc2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 05/35] fix: write log properties to XES as typed key/value
 tags, so that they can be read back

---
 src/python/ficus/legacy/log/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..60b7bcd 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -233,9 +233,10 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        if not _should_serialize_payload_key_value(key, value):
+            continue
+
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From 5e876b7d1525590dcdcb9e019eacb53682496b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:58 +0000
Subject: [PATCH 06/35] fix: read false XES boolean values as False

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 60b7bcd..e804f5c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str):
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From 37731284076542e806006483194ceb310aa24fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:02 +0000
Subject: [PATCH 07/35] fix: save XES logs in UTF-8 and under a path without a
 directory part

---
 src/python/ficus/legacy/log/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index e804f5c..973ab41 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -299,8 +299,8 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
-    with open(save_path, 'w') as fout:
+    os.makedirs(os.path.dirname(os.path.abspath(save_path)), exist_ok=True)
+    with open(save_path, 'w', encoding='utf-8') as fout:
         fout.write(log_xes_string)
 
 
-- 
2.43.0


From bbb18a1fd23b3a71757f66d26c9e79fa97bff03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 08/35] fix: do not combine hashes of names with the base those
 hashes are built with

---
 src/python/ficus/legacy/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 2794c4d..8a2e400 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -33,10 +33,9 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
 
     end_index = len(collection) if end_index is None else end_index
     hash_so_far = 1
-    p_pow = 1
     for i in range(start_index, end_index):
-        hash_so_far = (hash_so_far + (1 + hash(collection[i])) * p_pow) % mod
-        p_pow = (p_pow * p) % mod
+        # not a sum of powers of the base of the string hash: otherwise ('ab', 'b') and ('ac', 'a') would collide
+        hash_so_far = combine_two_hashes(hash_so_far, hash(collection[i]))
 
     return hash_so_far
 
-- 
2.43.0


From ae27aba19d491d7d45eeca772553a3e1a9861f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 09/35] fix: positional entropy of a log with one non-empty
 trace is zero, not NaN

---
 src/python/ficus/legacy/analysis/event_log_analysis_entropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
index aac94d6..e17eabb 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
@@ -219,6 +219,9 @@ def calculate_position_entropies_fast(log: MyEventLog,
 
 
 def _do_calculate_position_entropy(probabilities: np.array, traces_count: int) -> float:
+    if traces_count == 1:
+        return 0.0
+
     probabilities = probabilities[probabilities != 0]
     logs = np.log(probabilities) / np.log(traces_count)
     return np.sum(-logs) / len(probabilities)
-- 
2.43.0


From 39a4d66c5ba5a7adb8d5d86c4acebae14bf9480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:36 +0000
Subject: [PATCH 10/35] fix: entropy filters stop when no event may be removed

---
 .../ficus/legacy/filtering/event_log_filters.py    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..8abbfc1 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -47,6 +47,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -58,6 +61,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, -math.inf
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -98,6 +104,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -201,6 +209,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
 
+        if min_event_name is None:
+            return log
+
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -224,6 +235,9 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
 
+        if min_event_name is None:
+            break
+
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((min_event_name, pos_entropy_before_removal))
-- 
2.43.0


From c39722cd29752ade15942f81dc0d69bb81c0a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:41 +0000
Subject: [PATCH 11/35] fix: indirect DFG entropy filter considers at least one
 event class

---
 src/python/ficus/legacy/filtering/event_log_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index 8abbfc1..8e8152e 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -17,7 +17,7 @@ def next_removal_default_entropy_indirect(log: MyEventLog,
 
     entropies = calculate_laplace_or_default_entropies(log, laplace=laplace)
     sorted_entropies = list(sorted(entropies.items(), key=lambda x: x[1]))
-    top = sorted_entropies[len(sorted_entropies) - int(len(sorted_entropies) * top_percent):]
+    top = sorted_entropies[len(sorted_entropies) - max(1, int(len(sorted_entropies) * top_percent)):]
 
     for key, _ in top:
         if untouchable_event_func(key):
-- 
2.43.0


From 747c04128b7a1cc5020704b1dd9882c4998ae7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 12/35] fix: find a tandem array also when its block occurs
 earlier in the trace without being repeated

---
 src/python/ficus/legacy/analysis/patterns/event_log_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index a0cb6e3..3c25cdd 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -34,9 +34,9 @@ def _find_maximal_tandem_arrays(traces: list[list[int]],
                 if sub_array_hash in visited:
                     continue
 
-                visited.add(sub_array_hash)
                 candidate_tandem_array = _try_extract_tandem_array(trace, i, length)
                 if candidate_tandem_array is not None:
+                    visited.add(sub_array_hash)
                     tandem_arrays.append(candidate_tandem_array)
 
         result.append(tandem_arrays)
-- 
2.43.0


From 825ffa34b37a88e87032ce3813af9899947f1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 13/35] fix: honour should_narrow_activity when activities are
 discovered from tandem arrays and repeats

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..653bbad 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From b7d00023e0d164a6c6113a2b26563a511e89674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 14/35] fix: do not change the activities of other contexts
 when activities from unattached events are added

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 653bbad..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -130,8 +130,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From 2bd467bf14434c52b972577d7ede00b152eb8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 15/35] fix: edges of activity graphs join the activities, also
 when their names hold colons or angle brackets

---
 .../legacy/analysis/patterns/patterns_graphs.py   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..c81e47e 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -1,4 +1,5 @@
 import dataclasses
+import re
 from typing import Callable, Optional
 
 import graphviz
@@ -204,6 +205,11 @@ def _do_draw_graph(graph: graphviz.Digraph, save_path: Optional[str] = None):
         display(image)
 
 
+def _create_node_id(name: str) -> str:
+    # graphviz treats a colon in the end of an edge as the start of a port, and a name in angle brackets as html
+    return re.sub('[%:<>]', lambda match: f'%{ord(match.group()):02X}', name)
+
+
 def build_graph(nodes: list[GraphNode],
                 graph_name: str,
                 add_root_node: bool = True,
@@ -214,20 +220,21 @@ def build_graph(nodes: list[GraphNode],
 
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
+        node_id = _create_node_id(name)
         if name in added_names:
             if parent_node is not None:
-                current_graph.edge(name, parent_node)
+                current_graph.edge(node_id, parent_node)
 
             return
 
         added_names.add(name)
 
         if parent_node is not None:
-            current_graph.edge(name, parent_node)
+            current_graph.edge(node_id, parent_node)
 
-        current_graph.node(name)
+        current_graph.node(node_id, label=None if node_id == name else graphviz.nohtml(name))
         for child_activity in node.child_nodes:
-            add_node(current_graph, name, child_activity)
+            add_node(current_graph, node_id, child_activity)
 
     root_name = None if not add_root_node else 'root'
     for top_level_node in nodes:
-- 
2.43.0


From b3b78eb54dd26dc7bbd0a47597d89df99cb4c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 16/35] fix: draw the histogram of trace variants of one log

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..577f0f4 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,7 +53,7 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
+    _do_paint_hist(plt.gca(), hist, classes_count)
     plt.suptitle(title)
 
     if save_path is None:
@@ -80,7 +80,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0


From 4be67f8efcd1f56893b3919daef22d9b1e68f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 17/35] fix: save diagrams under a path without a directory
 part

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 src/python/ficus/legacy/discovery/petri_net.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 577f0f4..88b01bc 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -181,7 +181,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     if save_path is None:
         current_figure.show()
     else:
-        os.makedirs(os.path.dirname(save_path), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(save_path)), exist_ok=True)
         current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
         plt.close(current_figure)
 
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..919006f 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -68,7 +68,7 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
     if export_path is None:
         display(g)
     else:
-        dir_name = os.path.dirname(export_path)
+        dir_name = os.path.dirname(os.path.abspath(export_path))
         if not os.path.exists(dir_name):
             os.makedirs(dir_name, exist_ok=True)
 
-- 
2.43.0


From 8b6e67a58a602a6b9962a14d73f07394915e2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 18/35] fix: list the undefined activity in the legend when it
 is only drawn at the end of traces

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index c81e47e..5c95c2f 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -151,6 +151,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                      fc=colors_provider(undefined_activity))
+                ctx.names_to_rects[undefined_activity] = rect
                 patches.append(rect)
 
             ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
-- 
2.43.0


From 8c125dbba12afdf1475fcce02c02fe1c91143ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 19/35] fix: do not give selected events the color of the other
 ones

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 88b01bc..0b2f3c0 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -304,8 +304,8 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
     default_color = '#000000'
+    colors_provider.used_colors.add(default_color)
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
-- 
2.43.0


From 7df90a3a59a5cb4f2b1451289b6302174f4de0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 20/35] fix: keep the children of a node in a drawn graph when
 another node has the same name

---
 .../legacy/analysis/patterns/patterns_graphs.py     | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 5c95c2f..1047501 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -222,18 +222,13 @@ def build_graph(nodes: list[GraphNode],
     def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
         name = node_name_creator(node)
         node_id = _create_node_id(name)
-        if name in added_names:
-            if parent_node is not None:
-                current_graph.edge(node_id, parent_node)
-
-            return
-
-        added_names.add(name)
-
         if parent_node is not None:
             current_graph.edge(node_id, parent_node)
 
-        current_graph.node(node_id, label=None if node_id == name else graphviz.nohtml(name))
+        if name not in added_names:
+            added_names.add(name)
+            current_graph.node(node_id, label=None if node_id == name else graphviz.nohtml(name))
+
         for child_activity in node.child_nodes:
             add_node(current_graph, node_id, child_activity)
 
-- 
2.43.0


From 0c9dfa0076279e64e7093c140d2f4e5f013dfcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 21/35] fix: send the event log info as a context value

---
 src/python/ficus/grpc_pipelines/context_values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..f9dbca8 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,9 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=self.events_count,
+                                                                traces_count=self.traces_count,
+                                                                event_classes_count=self.event_classes_count))
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
-- 
2.43.0


From 811ed4b137822bce9406e5e6951145e447e513bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 22/35] fix: send the max array length when activities are
 discovered until no more

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From 7a8868a34682ae381c9602293ffdd5bbba08ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 23/35] fix: execute the inner pipeline of
 PrintEventlogInfoBeforeAfter and print the infos

---
 src/python/ficus/grpc_pipelines/util_parts.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..abadd28 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,18 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.print_before = PrintEventLogInfo2()
+        self.print_after = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
 
-        pipeline = Pipeline2(
-            PrintEventLogInfo2(),
-        )
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
 
-        for part in self.inner_pipeline.parts:
-            pipeline.parts.append(part)
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
 
-        pipeline.parts.append(PrintEventLogInfo2())
-
-        append_pipeline_value(config, const_pipeline, pipeline)
-
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+    def _create_pipeline(self) -> Pipeline2:
+        return Pipeline2(self.print_before, *self.inner_pipeline.parts, self.print_after)
-- 
2.43.0


From 3c11297ea3d5ab200a7c168d05e0444cf59a94e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 24/35] fix: do not remove the backend address from the context
 of the caller

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..9bda614 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -28,9 +28,8 @@ class Pipeline2:
         options = [('grpc.max_send_message_length', 512 * 1024 * 1024),
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
-        addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
-        if ficus_backend_addr_key in initial_context:
-            del initial_context[ficus_backend_addr_key]
+        initial_context = dict(initial_context)
+        addr = initial_context.pop(ficus_backend_addr_key, 'localhost:8080')
 
         with grpc.insecure_channel(addr, options=options) as channel:
             stub = GrpcBackendServiceStub(channel)
-- 
2.43.0


From 328a0e29cffcb59de4d3aed40f9d041ab550ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 25/35] fix: draw names of graphs and petri nets literally

---
 src/python/ficus/legacy/discovery/graph.py     | 6 +++---
 src/python/ficus/legacy/discovery/petri_net.py | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/graph.py b/src/python/ficus/legacy/discovery/graph.py
index 1a246d0..4fe21d3 100644
--- a/src/python/ficus/legacy/discovery/graph.py
+++ b/src/python/ficus/legacy/discovery/graph.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import graphviz
 
-from .petri_net import _draw_graph_like_formalism
+from .petri_net import _draw_graph_like_formalism, _escape_label
 
 
 class Graph:
@@ -29,10 +29,10 @@ def draw_graph(graph: Graph,
                rankdir: str = 'LR'):
     def draw_func(g: graphviz.Digraph):
         for node in graph.nodes:
-            g.node(str(node.id), label=node.data, style='filled', border='1', shape='circle')
+            g.node(str(node.id), label=_escape_label(node.data), style='filled', border='1', shape='circle')
 
         for edge in graph.edges:
-            g.edge(str(edge.from_node), str(edge.to_node), edge.data)
+            g.edge(str(edge.from_node), str(edge.to_node), _escape_label(edge.data))
 
     _draw_graph_like_formalism(draw_func,
                                name=name,
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index 919006f..1fb925d 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -102,11 +102,11 @@ def draw_petri_net(net: PetriNet,
             elif place.id in final_marking_places:
                 g.node(str(place.id), '<&#9679;>', style='filled', border='1', shape='doublecircle')
             else:
-                label = place.name if show_places_names else ''
+                label = _escape_label(place.name) if show_places_names else ''
                 g.node(str(place.id), label=label, style='filled', border='1', shape='circle')
 
         for transition in net.transitions.values():
-            g.node(str(transition.id), label=transition.data, shape='box')
+            g.node(str(transition.id), label=_escape_label(transition.data), shape='box')
 
         for transition in net.transitions.values():
             for arc in transition.incoming_arcs:
@@ -125,6 +125,11 @@ def draw_petri_net(net: PetriNet,
                                rankdir=rankdir)
 
 
+def _escape_label(label: Optional[str]) -> Optional[str]:
+    # otherwise names like '<init>' are interpreted as html and backslashes as escape sequences
+    return graphviz.escape(label) if label is not None else None
+
+
 def _create_temp_file_name() -> str:
     tmp_save_file = tempfile.NamedTemporaryFile(suffix='.gv')
     tmp_save_file.close()
-- 
2.43.0


From d551101fd01fae00686b1e256d42d6b22fe3129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:14 +0000
Subject: [PATCH 26/35] fix: honour the width scale when placements of events
 are drawn

---
 src/python/ficus/legacy/analysis/event_log_analysis.py       | 4 +++-
 src/python/ficus/legacy/pipelines/analysis/analysis_parts.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 0b2f3c0..2187de2 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -302,7 +302,8 @@ def draw_placements_of_events(log: MyEventLog,
                               title: str = None,
                               save_path: str = None,
                               height_scale: int = 1,
-                              plot_legend: bool = True):
+                              plot_legend: bool = True,
+                              width_scale: int = 1):
     colors_provider = random_unique_color_provider_instance
     default_color = '#000000'
     colors_provider.used_colors.add(default_color)
@@ -323,6 +324,7 @@ def draw_placements_of_events(log: MyEventLog,
                                         save_path=save_path,
                                         plot_legend=plot_legend,
                                         height_scale=height_scale,
+                                        width_scale=width_scale,
                                         colors_provider=generate_color)
 
 
diff --git a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
index 2203601..c4c101e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/analysis_parts.py
@@ -103,7 +103,8 @@ class DrawPlacementOfEvents(InternalDrawingPipelinePart):
                                   title=self.title,
                                   save_path=self._get_save_path(current_input),
                                   height_scale=self.height_scale,
-                                  plot_legend=self.plot_legend)
+                                  plot_legend=self.plot_legend,
+                                  width_scale=self.width_scale)
 
         return current_input
 
-- 
2.43.0


From 6bceb1140d1d709958861210bbc26951a4a397b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:14 +0000
Subject: [PATCH 27/35] fix: honour the width scale when the placement of a
 single activity is drawn

---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py       | 6 ++++--
 .../legacy/pipelines/analysis/patterns/patterns_parts.py    | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 1047501..e79e59f 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -247,7 +247,8 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                     plot_legend: bool = False,
                                     title: str = None,
                                     height_scale: int = 1,
-                                    save_path: str = None):
+                                    save_path: str = None,
+                                    width_scale: int = 1):
     def draw_func(ctx: TraceDiversityLikeDiagramContext):
         color_provider = random_unique_color_provider_instance if use_different_colors else SingleColorProvider()
         undefined_color = to_hex((0, 0, 0))
@@ -277,7 +278,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                     current_x += width
 
             if last_draw_index < len(trace):
-                width = len(trace) - last_draw_index
+                width = (len(trace) - last_draw_index) * ctx.rect_width
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height, fc=undefined_color)
                 ctx.names_to_rects[undefined_activity_name] = rect
                 patches.append(rect)
@@ -290,6 +291,7 @@ def draw_activity_placement_diagram(log: MyEventLog,
                                                  draw_func,
                                                  plot_legend=plot_legend,
                                                  height_scale=height_scale,
+                                                 width_scale=width_scale,
                                                  title=title,
                                                  save_path=save_path)
 
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..3a9dcde 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -363,7 +363,8 @@ class DrawSingleActivityPlacement(InternalDrawingPipelinePart):
                                         plot_legend=self.plot_legend,
                                         height_scale=self.height_scale,
                                         title=self.title,
-                                        save_path=self._get_save_path(current_input))
+                                        save_path=self._get_save_path(current_input),
+                                        width_scale=self.width_scale)
 
         return current_input
 
-- 
2.43.0


From 4c90c36f08587b25dbdc1955f76952a942efe9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 28/35] fix: draw the histogram of trace variants on a figure
 of its own

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 2187de2..186c6e1 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,13 +53,15 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.gca(), hist, classes_count)
-    plt.suptitle(title)
+    current_figure, ax = plt.subplots()
+    _do_paint_hist(ax, hist, classes_count)
+    current_figure.suptitle(title)
 
     if save_path is None:
         plt.show()
     else:
-        plt.savefig(save_path)
+        current_figure.savefig(save_path)
+        plt.close(current_figure)
 
 
 def _do_paint_hist(drawer: Union[axes.Axes], hist: list[int], classes_count: int):
-- 
2.43.0


From eec62e0fffcff0d72e72afb5b6d53afab28e16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:25 +0000
Subject: [PATCH 29/35] fix: put the last tick of a coloured log at the end of
 the longest trace

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 186c6e1..d4c04b1 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -159,7 +159,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     elif isinstance(log, list):
         x_ticks_count = 0
         for trace in log:
-            trace_len = width_scale
+            trace_len = 1
             for colored_rect in trace:
                 trace_len += colored_rect.length * width_scale
 
-- 
2.43.0


From 47761e792cbec512de61dc0959a60c127ed388bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:15 +0000
Subject: [PATCH 30/35] fix: save names of activities below of an activity
 whose name was saved before

---
 .../legacy/pipelines/analysis/patterns/patterns_parts.py  | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 3a9dcde..94b6fe3 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -474,11 +474,9 @@ class SaveAllActivitiesNames(InternalPipelinePart):
                 q = [root for root in activities_for_level]
                 while len(q) > 0:
                     current_activity = q.pop()
-                    if current_activity.name in visited:
-                        continue
-
-                    visited.add(current_activity.name)
-                    fout.write(f'{current_activity.name}\n')
+                    if current_activity.name not in visited:
+                        visited.add(current_activity.name)
+                        fout.write(f'{current_activity.name}\n')
 
                     for child in current_activity.child_nodes:
                         q.append(child)
-- 
2.43.0


From 1b2d054f377ac3d205de0ed0801cc3eb6f0f9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:08 +0000
Subject: [PATCH 31/35] fix: promote instances of activities discovered in
 merged traces or unattached events

The repeat set of such an activity points into another log, so the events of
the activity were looked up at a wrong place and its instances were dropped.
---
 .../ficus/legacy/analysis/patterns/event_log_patterns.py  | 4 ++--
 src/python/ficus/legacy/analysis/patterns/util.py         | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index 3c25cdd..a4e78dc 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -7,7 +7,7 @@ from .constants import *
 from .patterns_models import TandemArrayInfo, MaximalRepeatInfo, SubArrayWithTraceIndex, ActivityNode, \
     ActivityInTraceInfo, UndefinedActivityHandlingStrategy, EventClassNode
 from .util import _create_hashes_traces_with_selector, default_class_extractor, _split_activity_nodes_by_size, \
-    _do_create_hashes, _find_events_for_repeat_set
+    _do_create_hashes, _find_events_of_activity
 from ..common.common_models import SubArrayInEventLog
 from ...analysis.event_log_info import create_log_information
 from ...analysis.type_aliases import *
@@ -650,7 +650,7 @@ def create_logs_for_activities_with_promote(log: MyEventLog,
             extractor = class_extractors[desired_activity_level] if adjust_events_to_max_level else default_class_extractor
             return _create_trace_for_activity(trace, info, extractor)
 
-        repeat_events = _find_events_for_repeat_set(log, info.node.repeat_set)
+        repeat_events = _find_events_of_activity(log, info.node)
         this_activity_events_orig = trace[info.start_pos:(info.start_pos + info.length)]
         this_activity_events_copy = list(map(copy.copy, this_activity_events_orig))
         for extractor in class_extractors[level:(desired_activity_level + 1)]:
diff --git a/src/python/ficus/legacy/analysis/patterns/util.py b/src/python/ficus/legacy/analysis/patterns/util.py
index f6e8c90..04895d0 100644
--- a/src/python/ficus/legacy/analysis/patterns/util.py
+++ b/src/python/ficus/legacy/analysis/patterns/util.py
@@ -150,9 +150,11 @@ def substitute_original_events(events: MyTrace) -> MyTrace:
     return trace
 
 
-def _find_events_for_repeat_set(log: MyEventLog, sub_array: SubArrayWithTraceIndex) -> list[MyEvent]:
-    trace = log[sub_array.trace_index]
-    return trace[sub_array.first_pos:(sub_array.first_pos+sub_array.length)]
+def _find_events_of_activity(log: MyEventLog, node: ActivityNode) -> list[MyEvent]:
+    # the repeat set of the node may point into another log (merged traces, unattached events), so look for the classes
+    hashes_traces = _create_hashes_traces_with_selector(log, node.class_extractor)
+    return [event for trace, hashes in zip(log, hashes_traces)
+            for event, event_hash in zip(trace, hashes) if event_hash in node.set_of_events]
 
 
 def split_activities_by_levels_dict(activities: list[ActivityNode]) -> dict[int, list[ActivityNode]]:
-- 
2.43.0


From 4894efd3cbb90e155f3e569acf5180fd6821d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 32/35] fix: read global XES values with their types and ignore
 what is not a value

---
 src/python/ficus/legacy/log/functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 973ab41..9a997e2 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -80,8 +80,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
                 log.global_values[scope] = {}
 
             for global_child in child:
-                attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                if _is_value_tag(global_child):
+                    log.global_values[scope][global_child.attrib[const_attr_key]] = _parse_value_tag(global_child)
 
             continue
 
@@ -294,7 +294,9 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    # values which only compare equal (e.g. 1, 1.0 and True) must not be replaced with each other
+    return type(default_value) == type(value) and str(default_value) == str(value)
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From 263ce1bdc400c03d9479cff47a70d1c5d8a6acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 33/35] fix: do not confuse classes with the root of a graph,
 show backslashes and ampersands in their names

---
 .../analysis/patterns/patterns_graphs.py      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index e79e59f..322cb42 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -206,9 +206,20 @@ def _do_draw_graph(graph: graphviz.Digraph, save_path: Optional[str] = None):
         display(image)
 
 
+root_node_id = 'root'
+
+
 def _create_node_id(name: str) -> str:
-    # graphviz treats a colon in the end of an edge as the start of a port, and a name in angle brackets as html
-    return re.sub('[%:<>]', lambda match: f'%{ord(match.group()):02X}', name)
+    if name == root_node_id:
+        return f'%{name}'
+
+    # graphviz treats a colon in the end of an edge as the start of a port, a name in angle brackets as html,
+    # backslashes and ampersands as the start of escape sequences and of entities, and may lose line breaks
+    return re.sub(r'[%:<>&\\\n]', lambda match: f'%{ord(match.group()):02X}', name)
+
+
+def _create_node_label(name: str) -> str:
+    return graphviz.nohtml(name.replace('&', '&amp;').replace('\\', '\\\\').replace('\n', '\\n'))
 
 
 def build_graph(nodes: list[GraphNode],
@@ -227,12 +238,12 @@ def build_graph(nodes: list[GraphNode],
 
         if name not in added_names:
             added_names.add(name)
-            current_graph.node(node_id, label=None if node_id == name else graphviz.nohtml(name))
+            current_graph.node(node_id, label=None if node_id == name else _create_node_label(name))
 
         for child_activity in node.child_nodes:
             add_node(current_graph, node_id, child_activity)
 
-    root_name = None if not add_root_node else 'root'
+    root_name = None if not add_root_node else root_node_id
     for top_level_node in nodes:
         add_node(graph, root_name, top_level_node)
 
-- 
2.43.0


From 8618236c08a97de1031edd77d5a15338137a8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 34/35] fix: show ampersands in names of graphs and petri nets
 literally

---
 src/python/ficus/legacy/discovery/petri_net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index 1fb925d..550d6c3 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -126,8 +126,8 @@ def draw_petri_net(net: PetriNet,
 
 
 def _escape_label(label: Optional[str]) -> Optional[str]:
-    # otherwise names like '<init>' are interpreted as html and backslashes as escape sequences
-    return graphviz.escape(label) if label is not None else None
+    # otherwise names like '<init>' are interpreted as html, backslashes as escape sequences and '&lt;' as an entity
+    return graphviz.escape(label.replace('&', '&amp;')) if label is not None else None
 
 
 def _create_temp_file_name() -> str:
-- 
2.43.0


From f7f1d2fc0b401bee3e7728dce61a15b6c03073d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 35/35] fix: entropy filters remove nothing when no removals
 are allowed

---
 .../ficus/legacy/filtering/event_log_filters.py  | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index 8e8152e..afbcc93 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -39,7 +39,7 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
                                            untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_remove:
             return log
 
         if calculate_default_entropy_average(log, laplace) <= threshold:
@@ -52,10 +52,7 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
-
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def _determine_next_event_to_remove_direct(log: MyEventLog,
@@ -74,7 +71,7 @@ def _do_filter_by_metric_direct(log: MyEventLog,
                                 max_events_to_delete: int = 1e9) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_delete:
             return log
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
@@ -83,8 +80,6 @@ def _do_filter_by_metric_direct(log: MyEventLog,
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
-            if removed_events_count == max_events_to_delete:
-                return log
         else:
             return log
 
@@ -198,7 +193,7 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
                                        max_events_to_remove: int = int(1e9),
                                        untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
-    while True:
+    while removed_events_count < max_events_to_remove:
         trace_counts = calculate_events_in_each_trace(log)
         info = create_log_information(log)
         positions = create_events_positions(log)
@@ -214,10 +209,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
-
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
+
+    return log
 
 
 def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
-- 
2.43.0

