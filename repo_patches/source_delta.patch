From 586b20f4297e6c1d6c5a85978c3ca68b610b40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 01/35] fix: do not remove the backend address from the
 caller's context on execute

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..9bda614 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -28,9 +28,8 @@ class Pipeline2:
         options = [('grpc.max_send_message_length', 512 * 1024 * 1024),
                    ('grpc.max_receive_message_length', 512 * 1024 * 1024)]
 
-        addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
-        if ficus_backend_addr_key in initial_context:
-            del initial_context[ficus_backend_addr_key]
+        initial_context = dict(initial_context)
+        addr = initial_context.pop(ficus_backend_addr_key, 'localhost:8080')
 
         with grpc.insecure_channel(addr, options=options) as channel:
             stub = GrpcBackendServiceStub(channel)
-- 
2.43.0


From fb1265dcf501931eba5607159a00e84553e12a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 02/35] fix: send max_array_length of
 DiscoverActivitiesUntilNoMore2 to the backend

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From 1d9d737922112650d6be3093d355d6aa46d930f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 03/35] fix: make PrintEventlogInfoBeforeAfter produce a
 request and receive its callbacks

---
 src/python/ficus/grpc_pipelines/util_parts.py | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..c1c7096 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,18 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.before_part = PrintEventLogInfo2()
+        self.after_part = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
 
-        pipeline = Pipeline2(
-            PrintEventLogInfo2(),
-        )
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
 
-        for part in self.inner_pipeline.parts:
-            pipeline.parts.append(part)
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
 
-        pipeline.parts.append(PrintEventLogInfo2())
-
-        append_pipeline_value(config, const_pipeline, pipeline)
-
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+    def _create_pipeline(self) -> Pipeline2:
+        return Pipeline2(self.before_part, *self.inner_pipeline.parts, self.after_part)
-- 
2.43.0


From cfc446db8fcb82ab6306dab0b64f637d7b383834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 04/35] fix: export graphs through a private temporary
 directory, also to a bare file name

The temporary name came from a file that was already deleted, so another export
could take it, and the .gv source stayed behind after every call.
---
 .../ficus/legacy/discovery/petri_net.py       | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index f732f2d..6a3a203 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -62,19 +62,17 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
 
     g.attr(overlap='false')
 
-    tmp_file_path = _create_temp_file_name()
-    g.save(tmp_file_path)
-
     if export_path is None:
         display(g)
     else:
-        dir_name = os.path.dirname(export_path)
-        if not os.path.exists(dir_name):
-            os.makedirs(dir_name, exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(export_path)), exist_ok=True)
 
         _, extension = os.path.splitext(export_path)
-        graphviz.render(engine, extension[1::], tmp_file_path)
-        shutil.move(tmp_file_path + extension, export_path)
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            tmp_file_path = os.path.join(tmp_dir, 'graph.gv')
+            g.save(tmp_file_path)
+            graphviz.render(engine, extension[1::], tmp_file_path)
+            shutil.move(tmp_file_path + extension, export_path)
 
 
 def draw_petri_net(net: PetriNet,
@@ -123,10 +121,3 @@ def draw_petri_net(net: PetriNet,
                                engine=engine,
                                export_path=export_path,
                                rankdir=rankdir)
-
-
-def _create_temp_file_name() -> str:
-    tmp_save_file = tempfile.NamedTemporaryFile(suffix='.gv')
-    tmp_save_file.close()
-
-    return tmp_save_file.name
-- 
2.43.0


From fe1a7036923d9c3f14a75fd997ef89281d3889b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 05/35] fix: save traces diversity diagrams to a bare file name

---
 src/python/ficus/legacy/analysis/event_log_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 67be375..3839395 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -181,7 +181,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     if save_path is None:
         current_figure.show()
     else:
-        os.makedirs(os.path.dirname(save_path), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(save_path)), exist_ok=True)
         current_figure.savefig(save_path, bbox_inches='tight', dpi=150)
         plt.close(current_figure)
 
-- 
2.43.0


From bfddb708a8c0c8e1ad89ab47eb8417f9a89f2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 06/35] fix: show graph and petri net labels literally,
 whatever characters they hold

---
 src/python/ficus/legacy/discovery/graph.py     |  6 +++---
 src/python/ficus/legacy/discovery/petri_net.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/graph.py b/src/python/ficus/legacy/discovery/graph.py
index 1a246d0..16de320 100644
--- a/src/python/ficus/legacy/discovery/graph.py
+++ b/src/python/ficus/legacy/discovery/graph.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import graphviz
 
-from .petri_net import _draw_graph_like_formalism
+from .petri_net import _draw_graph_like_formalism, escape_label
 
 
 class Graph:
@@ -29,10 +29,10 @@ def draw_graph(graph: Graph,
                rankdir: str = 'LR'):
     def draw_func(g: graphviz.Digraph):
         for node in graph.nodes:
-            g.node(str(node.id), label=node.data, style='filled', border='1', shape='circle')
+            g.node(str(node.id), label=escape_label(node.data), style='filled', border='1', shape='circle')
 
         for edge in graph.edges:
-            g.edge(str(edge.from_node), str(edge.to_node), edge.data)
+            g.edge(str(edge.from_node), str(edge.to_node), escape_label(edge.data))
 
     _draw_graph_like_formalism(draw_func,
                                name=name,
diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index 6a3a203..e9e6ce0 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -47,6 +47,10 @@ class SinglePlaceMarking:
         self.tokens_count = tokens_count
 
 
+def escape_label(label: Optional[str]) -> Optional[str]:
+    return None if label is None else graphviz.escape(label)
+
+
 def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
                                name: str = 'petri_net',
                                background_color: str = 'white',
@@ -101,19 +105,19 @@ def draw_petri_net(net: PetriNet,
                 g.node(str(place.id), '<&#9679;>', style='filled', border='1', shape='doublecircle')
             else:
                 label = place.name if show_places_names else ''
-                g.node(str(place.id), label=label, style='filled', border='1', shape='circle')
+                g.node(str(place.id), label=escape_label(label), style='filled', border='1', shape='circle')
 
         for transition in net.transitions.values():
-            g.node(str(transition.id), label=transition.data, shape='box')
+            g.node(str(transition.id), label=escape_label(transition.data), shape='box')
 
         for transition in net.transitions.values():
             for arc in transition.incoming_arcs:
                 label = annotation[arc.id] if annotation is not None and arc.id in annotation else ''
-                g.edge(str(arc.place_id), str(transition.id), label)
+                g.edge(str(arc.place_id), str(transition.id), escape_label(label))
 
             for arc in transition.outgoing_arcs:
                 label = annotation[arc.id] if annotation is not None and arc.id in annotation else ''
-                g.edge(str(transition.id), str(arc.place_id), label)
+                g.edge(str(transition.id), str(arc.place_id), escape_label(label))
 
     _draw_graph_like_formalism(draw_func,
                                name=name,
-- 
2.43.0


From 331a131d6b72b584bcac2b3b3dc74a6198e6c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:58 +0000
Subject: [PATCH 07/35] fix: draw an empty log instead of failing on it

---
 src/python/ficus/legacy/analysis/event_log_analysis.py        | 4 ++--
 src/python/ficus/legacy/analysis/event_log_analysis_canvas.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 3839395..395c8a1 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -153,9 +153,9 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     ax.set_yticks(range(y_ticks_count))
 
     if isinstance(log, MyEventLog):
-        x_ticks_count = max([len(t) for t in log]) * width_scale + 1
+        x_ticks_count = max([len(t) for t in log], default=0) * width_scale + 1
     elif isinstance(log, list):
-        x_ticks_count = 0
+        x_ticks_count = width_scale
         for trace in log:
             trace_len = width_scale
             for colored_rect in trace:
diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
index c25928a..1968e39 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_canvas.py
@@ -59,7 +59,7 @@ def draw_colors_event_log_canvas(log: list[list[ColoredRectangle]],
 
 
 def _calculate_canvas_width(log: list[list[ColoredRectangle]]):
-    return max(map(lambda t: sum(map(lambda r: r.length, t)), log))
+    return max(map(lambda t: sum(map(lambda r: r.length, t)), log), default=0)
 
 
 def _draw_actual_traces_diversity_diagram(log: list[list[ColoredRectangle]],
-- 
2.43.0


From e6e6e774da20c28b9c4fe201b2a80041bdd90d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 08/35] fix: write log properties to XES as typed key and value
 tags that can be read back

---
 src/python/ficus/legacy/log/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..60b7bcd 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -233,9 +233,10 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        if not _should_serialize_payload_key_value(key, value):
+            continue
+
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From af6bbacc3d524cdd19060a28be3b56bf9fe318b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 09/35] fix: read false boolean attributes of XES as false

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 60b7bcd..e804f5c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str):
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From 781ece8d272bef0cb0ec097a04c9b532fd848402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 10/35] fix: save XES as UTF-8 whatever the locale, also to a
 bare file name

---
 src/python/ficus/legacy/log/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index e804f5c..973ab41 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -299,8 +299,8 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
-    with open(save_path, 'w') as fout:
+    os.makedirs(os.path.dirname(os.path.abspath(save_path)), exist_ok=True)
+    with open(save_path, 'w', encoding='utf-8') as fout:
         fout.write(log_xes_string)
 
 
-- 
2.43.0


From 4be6415a6e7afa9ca98b874a49292ff9a07a0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:48 +0000
Subject: [PATCH 11/35] fix: keep the types of XES global defaults

---
 src/python/ficus/legacy/log/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 973ab41..29ba2ab 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -80,8 +80,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
                 log.global_values[scope] = {}
 
             for global_child in child:
-                attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                if _is_value_tag(global_child):
+                    log.global_values[scope][global_child.attrib[const_attr_key]] = _parse_value_tag(global_child)
 
             continue
 
@@ -294,7 +294,8 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    return type(default_value) == type(value) and default_value == value
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From 736593290e27c745ecf26689bcef2f005d6a271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 12/35] fix: do not extend the activities list shared with
 copies of the pipeline input

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..e44672e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -128,8 +128,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From 791b748cc603abe493f262ade31838554eb1906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 13/35] fix: give activities unique names also when they are
 discovered concurrently

---
 .../ficus/legacy/analysis/patterns/patterns_models.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_models.py b/src/python/ficus/legacy/analysis/patterns/patterns_models.py
index d85006d..ebfdaa8 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_models.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_models.py
@@ -1,3 +1,4 @@
+import itertools
 from dataclasses import dataclass
 from enum import Enum
 
@@ -21,7 +22,8 @@ class SubArrayWithTraceIndex(SubArrayInEventLog):
     trace_index: int
 
 
-unique_activity_node_index = 0
+unique_activity_node_indices = itertools.count()
+
 
 class ActivityNode(GraphNode):
     def __init__(self,
@@ -38,9 +40,7 @@ class ActivityNode(GraphNode):
         self.set_of_events: set[int] = set_of_events
         self.length = len(self.set_of_events)
 
-        global unique_activity_node_index
-        self._unique_index = unique_activity_node_index
-        unique_activity_node_index += 1
+        self._unique_index = next(unique_activity_node_indices)
 
     def contains_other(self, other: 'ActivityNode') -> bool:
         return self.set_of_events.issuperset(other.set_of_events)
-- 
2.43.0


From 31c47c4c666144340e43d020fc5a228802ff3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 14/35] fix: never give an event or activity the color of
 another one or of undefined activities

---
 .../ficus/legacy/analysis/event_log_analysis.py      |  7 +++----
 .../legacy/analysis/patterns/patterns_graphs.py      |  2 +-
 src/python/ficus/legacy/util.py                      | 12 ++++++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 395c8a1..44d3b21 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -198,7 +198,7 @@ def _draw_traces_diversity_like_diagram(log: MyEventLog,
         colors = random_unique_color_provider_instance
 
         def generate_color(_: str):
-            return colors.next()
+            return colors.next(cached_colors.values())
 
         colors_provider = generate_color
 
@@ -304,15 +304,14 @@ def draw_placements_of_events(log: MyEventLog,
                               height_scale: int = 1,
                               plot_legend: bool = True):
     colors_provider = random_unique_color_provider_instance
-    colors_provider.used_colors.add((0, 0, 0))
-    default_color = '#000000'
+    default_color = undefined_color
 
     def generate_color(name: str) -> str:
         if events_predicate(name):
             if name in cached_colors:
                 return cached_colors[name]
 
-            cached_colors[name] = colors_provider.next()
+            cached_colors[name] = colors_provider.next(cached_colors.values())
             return cached_colors[name]
 
         return default_color
diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ccc894f..03835ba 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -94,7 +94,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
         if name == undefined_activity:
             return to_hex((0, 0, 0))
 
-        generated_color = real_colors_provider.next()
+        generated_color = real_colors_provider.next(cached_colors.values())
         cached_colors[name] = generated_color
         return generated_color
 
diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 5cb0bda..8422d50 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -1,7 +1,7 @@
 import copy
 import random
 import time
-from typing import Any, Hashable, Callable
+from typing import Any, Hashable, Callable, Iterable
 
 mod = 10 ** 9 + 7
 p = 31
@@ -79,11 +79,15 @@ class ColorsProvider:
         raise NotImplementedError()
 
 
+undefined_color = '#000000'
+
+
 class RandomUniqueColorsProvider(ColorsProvider):
     def __init__(self):
-        self.used_colors = set()
+        self.used_colors = {undefined_color}
 
-    def next(self) -> (int, int, int):
+    def next(self, already_used_colors: Iterable[str] = ()) -> (int, int, int):
+        self.used_colors.update(already_used_colors)
         if len(self.used_colors) == 256 ** 3:
             raise OverflowError()
 
@@ -95,7 +99,7 @@ class RandomUniqueColorsProvider(ColorsProvider):
         return color
 
     def reset(self):
-        self.used_colors.clear()
+        self.used_colors = {undefined_color}
 
 
 random_unique_color_provider_instance = RandomUniqueColorsProvider()
-- 
2.43.0


From e1267e1024266e95f64c8499e3f8dc57e062b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 15/35] fix: stop filtering when no event is left to remove

---
 .../legacy/filtering/event_log_filters.py      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..fc05d83 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -17,7 +17,7 @@ def next_removal_default_entropy_indirect(log: MyEventLog,
 
     entropies = calculate_laplace_or_default_entropies(log, laplace=laplace)
     sorted_entropies = list(sorted(entropies.items(), key=lambda x: x[1]))
-    top = sorted_entropies[len(sorted_entropies) - int(len(sorted_entropies) * top_percent):]
+    top = sorted_entropies[-max(1, int(len(sorted_entropies) * top_percent)):]
 
     for key, _ in top:
         if untouchable_event_func(key):
@@ -47,6 +47,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -58,6 +61,9 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, 0
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -73,7 +79,7 @@ def _do_filter_by_metric_direct(log: MyEventLog,
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
 
-        if metric > threshold:
+        if event_name is not None and metric > threshold:
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
@@ -98,6 +104,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -201,6 +209,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
 
+        if min_event_name is None:
+            return log
+
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
@@ -224,6 +235,9 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
 
+        if min_event_name is None:
+            break
+
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((min_event_name, pos_entropy_before_removal))
-- 
2.43.0


From cb0619a1eb147530ff85cc745aef739637eac0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 16/35] fix: keep trace attributes and global values when
 copying logs and traces

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From d74b67817b04a94672ebcc048a76f85ec9eaf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 17/35] fix: draw traces histograms on a figure of their own,
 also for a single log

---
 .../ficus/legacy/analysis/event_log_analysis.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 44d3b21..3af6a04 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -53,13 +53,15 @@ def draw_traces_histogram(log: MyEventLog,
                           save_path: str = None,
                           title: str = None):
     hist, classes_count = _create_array_for_hist(log)
-    _do_paint_hist(plt.axis(), hist, classes_count)
-    plt.suptitle(title)
+    current_figure, ax = plt.subplots()
+    _do_paint_hist(ax, hist, classes_count)
+    current_figure.suptitle(title)
 
     if save_path is None:
-        plt.show()
+        current_figure.show()
     else:
-        plt.savefig(save_path)
+        current_figure.savefig(save_path)
+        plt.close(current_figure)
 
 
 def _do_paint_hist(drawer: Union[axes.Axes], hist: list[int], classes_count: int):
@@ -80,7 +82,7 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
     side_length = int(math.ceil(math.sqrt(len(logs))))
     log_index = 0
 
-    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12))
+    current_figure, ax = plt.subplots(side_length, side_length, figsize=(12, 12), squeeze=False)
 
     for row in range(side_length):
         for col in range(side_length):
-- 
2.43.0


From f434274024639a09f4b910ebbfd8c919f482d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 18/35] fix: do not let string hash randomisation order class
 trees and printed events

---
 .../ficus/legacy/analysis/patterns/event_log_patterns.py      | 4 ++--
 .../legacy/pipelines/analysis/patterns/patterns_parts.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index a0cb6e3..a2e80a9 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -563,8 +563,8 @@ def add_unattached_activities(log: MyEventLog,
 
 def build_class_tree(log: MyEventLog,
                      class_extractors: list[Callable[[str], str]]) -> list[EventClassNode]:
-    initial_set_of_names = set(create_log_information(log).events_count.keys())
-    first_layer_of_nodes = list(map(lambda name: EventClassNode(name), initial_set_of_names))
+    initial_names = create_log_information(log).events_count.keys()
+    first_layer_of_nodes = list(map(lambda name: EventClassNode(name), initial_names))
     nodes_by_level = [first_layer_of_nodes]
 
     for extractor in class_extractors:
diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..3c57d0c 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -165,10 +165,10 @@ class PrintActivities(InternalPipelinePart):
 class PrintUnattachedEvents(InternalPipelinePart):
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
         unattached_events_log = create_unattached_events_log(log(current_input), traces_activities(current_input))
-        names = set()
+        names = dict()
         for trace in unattached_events_log:
             for event in trace:
-                names.add(event[concept_name])
+                names[event[concept_name]] = None
 
         print(list(names))
         return current_input
-- 
2.43.0


From fae94dc520b00242a9e7a0dce673fa2a6eb47001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:03 +0000
Subject: [PATCH 19/35] fix: draw activity and class graphs by quoted ids, so
 that names with colons keep their edges

---
 .../analysis/patterns/patterns_graphs.py      | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 03835ba..ea2b717 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -1,5 +1,6 @@
 import dataclasses
 from typing import Callable, Optional
+from urllib.parse import quote
 
 import graphviz
 from IPython.core.display import Image
@@ -212,26 +213,32 @@ def build_graph(nodes: list[GraphNode],
     graph = graphviz.Digraph(graph_name)
     added_names = set()
 
-    def add_node(current_graph: graphviz.Digraph, parent_node: str, node: GraphNode):
+    # graphviz reads colons in ids of edges as ports, ids are quoted and names are shown through labels
+    def create_id(name: str) -> str:
+        return quote(name, safe='')
+
+    def add_node(current_graph: graphviz.Digraph, parent_id: str, node: GraphNode):
         name = node_name_creator(node)
-        if name in added_names:
-            if parent_node is not None:
-                current_graph.edge(name, parent_node)
+        node_id = create_id(name)
 
+        if parent_id is not None:
+            current_graph.edge(node_id, parent_id)
+
+        if name in added_names:
             return
 
         added_names.add(name)
-
-        if parent_node is not None:
-            current_graph.edge(name, parent_node)
-
-        current_graph.node(name)
+        current_graph.node(node_id, label=graphviz.escape(name))
         for child_activity in node.child_nodes:
-            add_node(current_graph, name, child_activity)
+            add_node(current_graph, node_id, child_activity)
+
+    root_id = None
+    if add_root_node and len(nodes) > 0:
+        root_id = '%root'
+        graph.node(root_id, label='root')
 
-    root_name = None if not add_root_node else 'root'
     for top_level_node in nodes:
-        add_node(graph, root_name, top_level_node)
+        add_node(graph, root_id, top_level_node)
 
     set_attributes_to_func(graph)
     return graph
-- 
2.43.0


From b2eca2773afcd3269cf5fcb32462c2e346bf725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 20/35] fix: keep separators of merged traces apart from all
 event classes

---
 src/python/ficus/legacy/analysis/event_log_split.py | 6 +++++-
 src/python/ficus/legacy/analysis/patterns/util.py   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_split.py b/src/python/ficus/legacy/analysis/event_log_split.py
index 5c7244a..1a1fc69 100644
--- a/src/python/ficus/legacy/analysis/event_log_split.py
+++ b/src/python/ficus/legacy/analysis/event_log_split.py
@@ -69,7 +69,11 @@ def merge_all_traces_in_one_log(log: MyEventLog) -> MyEventLog:
     return new_log
 
 
+class UniqueEvent(MyEvent):
+    """Separates merged traces, is of a class of its own for every class extractor"""
+
+
 def create_unique_event() -> MyEvent:
-    unique_event = MyEvent()
+    unique_event = UniqueEvent()
     unique_event[concept_name] = str(uuid.uuid4())
     return unique_event
diff --git a/src/python/ficus/legacy/analysis/patterns/util.py b/src/python/ficus/legacy/analysis/patterns/util.py
index f6e8c90..372d7e9 100644
--- a/src/python/ficus/legacy/analysis/patterns/util.py
+++ b/src/python/ficus/legacy/analysis/patterns/util.py
@@ -1,6 +1,7 @@
 
 from .constants import activity_name_sep, underlying_events_key
 from ..common.common_models import SubArrayInEventLog
+from ..event_log_split import UniqueEvent
 from ..type_aliases import ClassExtractor
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, SubArrayWithTraceIndex, ActivityNode
 from ...log.event_log import *
@@ -48,7 +49,7 @@ def _create_hashes_traces(log: MyEventLog) -> list[list[int]]:
 def _do_create_hashes_traces(log: MyEventLog,
                              event_class_extractor: ClassExtractor = None):
     def calculate_event_hash(event: MyEvent):
-        if event_class_extractor is not None:
+        if event_class_extractor is not None and not isinstance(event, UniqueEvent):
             return calculate_string_poly_hash(event_class_extractor(event))
 
         return calculate_string_poly_hash(event[concept_name])
-- 
2.43.0


From 5f067951f7d9267da2c312dca81b73c5d8823f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:07 +0000
Subject: [PATCH 21/35] fix: list undefined activities in the legend also when
 they only end a trace

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index ea2b717..01f3e93 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -151,6 +151,7 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
                 rect = plt.Rectangle((current_x, current_y), width, ctx.rect_height,
                                      fc=colors_provider(undefined_activity))
+                ctx.names_to_rects[undefined_activity] = rect
                 patches.append(rect)
 
             ctx.drawer.add_collection(PatchCollection(patches, match_original=True))
-- 
2.43.0


From 7379bb6f3e3412d5a7714020bb4153a243b8c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 22/35] fix: do not take different event classes and sequences
 for one because of colliding hashes

---
 src/python/ficus/legacy/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/util.py b/src/python/ficus/legacy/util.py
index 8422d50..4c1e7c9 100644
--- a/src/python/ficus/legacy/util.py
+++ b/src/python/ficus/legacy/util.py
@@ -3,8 +3,10 @@ import random
 import time
 from typing import Any, Hashable, Callable, Iterable
 
-mod = 10 ** 9 + 7
-p = 31
+mod = 2 ** 61 - 1
+# bases of string and collection hashes: above any character code, and apart from each other
+p = 1114117
+collection_p = 1234567890123456817
 concept_name = 'concept:name'
 time_timestamp = 'time:timestamp'
 lifecycle_transition = 'lifecycle:transition'
@@ -35,7 +37,7 @@ def calculate_poly_hash_for_collection(collection: list[Hashable],
     p_pow = 1
     for i in range(start_index, end_index):
         hash_so_far = (hash_so_far + (1 + hash(collection[i])) * p_pow) % mod
-        p_pow = (p_pow * p) % mod
+        p_pow = (p_pow * collection_p) % mod
 
     return hash_so_far
 
-- 
2.43.0


From b4640f5141db6c729d0cd55ec917debb038fe008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:40 +0000
Subject: [PATCH 23/35] fix: draw equal patterns in one color whatever else
 their events hold

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 01f3e93..60fb835 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -10,6 +10,7 @@ from matplotlib import pyplot as plt
 from matplotlib.collections import PatchCollection
 
 from .constants import undefined_activity, activity_name_sep
+from .util import _do_create_hashes
 from ..common.common_models import GraphNode, SubArrayInEventLog
 from ..event_log_analysis import TraceDiversityLikeDiagramContext, _draw_traces_diversity_like_diagram_internal
 from ...analysis.patterns.patterns_models import ActivityInTraceInfo, ActivityNode, EventClassNode
@@ -325,7 +326,7 @@ def draw_patterns(log: MyEventLog,
             trace_dtos = []
             for pattern in trace_patterns:
                 pattern_seq = trace[pattern.first_pos:(pattern.first_pos + pattern.length)]
-                pattern_hash = calculate_poly_hash_for_collection(pattern_seq)
+                pattern_hash = calculate_poly_hash_for_collection(_do_create_hashes(pattern_seq))
                 trace_dtos.append(SubTraceDrawingDto(
                     pattern.first_pos,
                     pattern.length,
-- 
2.43.0


From e4b91e508e31ef4da54b13444ff0381ff501ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 24/35] fix: narrow activities in discovery from repeats and
 tandem arrays only when asked to

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index e44672e..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From 3cd093eac0f6f9dda97e996ed6ff5eea804a0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 25/35] fix: show the children of every node in graphs, also of
 nodes that share their name

---
 .../ficus/legacy/analysis/patterns/patterns_graphs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 60fb835..18fc4e9 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -214,6 +214,7 @@ def build_graph(nodes: list[GraphNode],
                 set_attributes_to_func: Callable[[graphviz.Digraph], None] = default_graph_attr_setter):
     graph = graphviz.Digraph(graph_name)
     added_names = set()
+    visited_nodes = set()
 
     # graphviz reads colons in ids of edges as ports, ids are quoted and names are shown through labels
     def create_id(name: str) -> str:
@@ -226,11 +227,15 @@ def build_graph(nodes: list[GraphNode],
         if parent_id is not None:
             current_graph.edge(node_id, parent_id)
 
-        if name in added_names:
+        if name not in added_names:
+            added_names.add(name)
+            current_graph.node(node_id, label=graphviz.escape(name))
+
+        # different nodes can share a name, each of them has children of its own
+        if id(node) in visited_nodes:
             return
 
-        added_names.add(name)
-        current_graph.node(node_id, label=graphviz.escape(name))
+        visited_nodes.add(id(node))
         for child_activity in node.child_nodes:
             add_node(current_graph, node_id, child_activity)
 
-- 
2.43.0


From 9df5e971da9a5d816dda881b52a0db1aeb573e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:23 +0000
Subject: [PATCH 26/35] fix: save names of the children of every activity, also
 of activities that share their name

---
 .../legacy/pipelines/analysis/patterns/patterns_parts.py  | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 3c57d0c..09008b0 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -473,11 +473,9 @@ class SaveAllActivitiesNames(InternalPipelinePart):
                 q = [root for root in activities_for_level]
                 while len(q) > 0:
                     current_activity = q.pop()
-                    if current_activity.name in visited:
-                        continue
-
-                    visited.add(current_activity.name)
-                    fout.write(f'{current_activity.name}\n')
+                    if current_activity.name not in visited:
+                        visited.add(current_activity.name)
+                        fout.write(f'{current_activity.name}\n')
 
                     for child in current_activity.child_nodes:
                         q.append(child)
-- 
2.43.0


From fc4ac04cc46f16c280955ee8ef0bb4de132df0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:42 +0000
Subject: [PATCH 27/35] fix: display activity and class graphs without sharing
 a file in the working directory

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 18fc4e9..0cbea7e 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -202,8 +202,7 @@ def _do_draw_graph(graph: graphviz.Digraph, save_path: Optional[str] = None):
     if save_path is not None:
         graph.render(filename=save_path, format='png')
     else:
-        graph.format = 'png'
-        image = Image(graph.render())
+        image = Image(graph.pipe(format='png'))
         display(image)
 
 
-- 
2.43.0


From 45525c66dfd657c8f392b63f0f1f19e8e3a9c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:40 +0000
Subject: [PATCH 28/35] fix: draw activities of different names in different
 colors

---
 src/python/ficus/legacy/analysis/patterns/patterns_graphs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
index 0cbea7e..a3cb110 100644
--- a/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
+++ b/src/python/ficus/legacy/analysis/patterns/patterns_graphs.py
@@ -101,7 +101,6 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
         return generated_color
 
     current_y = 0
-    activities_colors = dict()
 
     for trace_activities, real_trace in zip(activities, log):
         if len(trace_activities) == 0:
@@ -131,14 +130,12 @@ def _sub_traces_draw_func(ctx: TraceDiversityLikeDiagramContext,
 
 
                 activity_name = dto.name
-                if dto.hash not in activities_colors:
-                    activities_colors[dto.hash] = colors_provider(activity_name)
 
                 activity_x_width = ctx.rect_width
                 if not draw_short_diagram:
                     activity_x_width *= dto.length
 
-                color = activities_colors[dto.hash]
+                color = colors_provider(activity_name)
                 rect = plt.Rectangle((current_x, current_y), activity_x_width, ctx.rect_height, fc=color)
                 ctx.names_to_rects[activity_name] = rect
                 patches.append(rect)
-- 
2.43.0


From 34014f37d1851b89da4847ff3f4660327969d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 29/35] fix: keep spaces in the keys of XES classifiers

---
 src/python/ficus/legacy/log/functions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 29ba2ab..4d4438f 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -1,4 +1,5 @@
 import os.path
+import re
 import xml.etree.ElementTree as ET
 from datetime import datetime
 from typing import Union, Any
@@ -67,7 +68,7 @@ def read_log_from_xes(path: str) -> MyEventLog:
         if tag_name == const_tag_classifier:
             classifier_name = child.attrib[const_classifier_name]
             classifier_keys = child.attrib[const_classifier_keys]
-            log.classifiers[classifier_name] = classifier_keys.split(' ')
+            log.classifiers[classifier_name] = _parse_classifier_keys(classifier_keys)
             continue
 
         if _is_value_tag(child):
@@ -120,6 +121,15 @@ def get_tag_wo_xmlns(tag: str):
     return tag[tag.index('}')+1:] if '}' in tag else tag
 
 
+def _parse_classifier_keys(keys: str) -> list[str]:
+    # keys with spaces are quoted with apostrophes
+    return [quoted or key for quoted, key in re.findall(r"'([^']*)'(?= |$)|([^ ]+)", keys)]
+
+
+def _serialize_classifier_keys(keys: list[str]) -> str:
+    return ' '.join(f"'{key}'" if key == '' or ' ' in key else key for key in keys)
+
+
 def _parse_datetime(value: str):
     return parser.parse(value)
 
@@ -233,7 +243,7 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
     for classifier_name, classifier_content in log.classifiers.items():
         classifier_element = ET.Element(const_tag_classifier)
         classifier_element.attrib[const_classifier_name] = classifier_name
-        classifier_element.attrib[const_classifier_keys] = ' '.join(classifier_content)
+        classifier_element.attrib[const_classifier_keys] = _serialize_classifier_keys(classifier_content)
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-- 
2.43.0


From 0a718d18b3c4a9463944590665feda9d3aa6e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 30/35] fix: load dates whose time zone offset has seconds

---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 4d4438f..e815887 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -131,7 +131,11 @@ def _serialize_classifier_keys(keys: list[str]) -> str:
 
 
 def _parse_datetime(value: str):
-    return parser.parse(value)
+    try:
+        return parser.parse(value)
+    except parser.ParserError:
+        # time zone offsets with seconds, as local mean time has, are unknown to dateutil
+        return datetime.fromisoformat(value)
 
 
 def _parse_bool(value: str):
-- 
2.43.0


From 67f8005165b5940ee7acd4204dacc48baaffd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:35 +0000
Subject: [PATCH 31/35] fix: refuse to save characters that XML can not hold

---
 src/python/ficus/legacy/log/functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index e815887..b337254 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -290,7 +290,12 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
 
         log_element.append(trace_element)
 
-    return ET.tostring(log_element, encoding="unicode")
+    xes = ET.tostring(log_element, encoding="unicode")
+    illegal_character = re.search('[^\t\n\r -\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', xes)
+    if illegal_character is not None:
+        raise ValueError(f'XML can not hold the character {illegal_character.group()!a}')
+
+    return xes
 
 
 def _should_serialize_payload_key_value(key: str, value: Any):
-- 
2.43.0


From 7c5373d9046fbc458f590b3234cacaac85290db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:17 +0000
Subject: [PATCH 32/35] fix: save timestamps that are of a derived type, as the
 ones of pm4py logs

---
 src/python/ficus/legacy/log/functions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index b337254..aa9d4c5 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -169,8 +169,16 @@ types_to_names = {
 }
 
 
+def _find_value_tag_name(value: Any) -> Union[str, None]:
+    if type(value) in types_to_names:
+        return types_to_names[type(value)]
+
+    # timestamps of pandas, which pm4py gives, are datetimes too, and only their NaT is not equal to itself
+    return const_tag_date if isinstance(value, datetime) and value == value else None
+
+
 def _create_value_tag(name: str, value: Union[str, datetime, int, float, bool]) -> ET.Element:
-    element = ET.Element(types_to_names[type(value)])
+    element = ET.Element(_find_value_tag_name(value))
     element.attrib[const_attr_key] = name
     element.attrib[const_attr_value] = str(value)
     return element
@@ -299,7 +307,7 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
 
 
 def _should_serialize_payload_key_value(key: str, value: Any):
-    return type(value) in types_to_names
+    return _find_value_tag_name(value) is not None
 
 
 def _check_if_default_value(log: MyEventLog,
-- 
2.43.0


From 7538ae796059e03ae627d6c5a0c0ba058c5dd753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 33/35] fix: report a stream that ends without a final result
 as an error

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 9bda614..2460d46 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -70,6 +70,9 @@ class Pipeline2:
                 if last_result.HasField('logMessage'):
                     print(part_result.logMessage.message)
 
+            if last_result is None or not last_result.HasField('finalResult'):
+                raise RuntimeError('The backend ended the stream without a final result')
+
             if last_result.finalResult.HasField('success'):
                 guid = last_result.finalResult.success
                 stub.DropExecutionResult(guid)
-- 
2.43.0


From 01ee66293875b5079415e3b6bf77711a665463d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:12 +0000
Subject: [PATCH 34/35] fix: keep the earlier export when storage fails while a
 graph is exported

---
 src/python/ficus/legacy/discovery/petri_net.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/discovery/petri_net.py b/src/python/ficus/legacy/discovery/petri_net.py
index e9e6ce0..6e4738a 100644
--- a/src/python/ficus/legacy/discovery/petri_net.py
+++ b/src/python/ficus/legacy/discovery/petri_net.py
@@ -1,5 +1,4 @@
 import os
-import shutil
 import tempfile
 from typing import Optional, Callable
 
@@ -69,14 +68,16 @@ def _draw_graph_like_formalism(draw_func: Callable[[graphviz.Digraph], None],
     if export_path is None:
         display(g)
     else:
-        os.makedirs(os.path.dirname(os.path.abspath(export_path)), exist_ok=True)
+        export_dir = os.path.dirname(os.path.abspath(export_path))
+        os.makedirs(export_dir, exist_ok=True)
 
         _, extension = os.path.splitext(export_path)
-        with tempfile.TemporaryDirectory() as tmp_dir:
+        # next to the target, a rename within a file system can not leave a part of the picture
+        with tempfile.TemporaryDirectory(dir=export_dir) as tmp_dir:
             tmp_file_path = os.path.join(tmp_dir, 'graph.gv')
             g.save(tmp_file_path)
             graphviz.render(engine, extension[1::], tmp_file_path)
-            shutil.move(tmp_file_path + extension, export_path)
+            os.replace(tmp_file_path + extension, export_path)
 
 
 def draw_petri_net(net: PetriNet,
-- 
2.43.0


From 344841077bdcf8f6f651eec84a1d4e821587b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:34 +0000
Subject: [PATCH 35/35] fix: show names and titles in diagrams literally, also
 with leading underscores and dollar signs

---
 .../legacy/analysis/event_log_analysis.py     | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis.py b/src/python/ficus/legacy/analysis/event_log_analysis.py
index 3af6a04..1908697 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis.py
@@ -55,7 +55,7 @@ def draw_traces_histogram(log: MyEventLog,
     hist, classes_count = _create_array_for_hist(log)
     current_figure, ax = plt.subplots()
     _do_paint_hist(ax, hist, classes_count)
-    current_figure.suptitle(title)
+    current_figure.suptitle(title, parse_math=False)
 
     if save_path is None:
         current_figure.show()
@@ -91,14 +91,14 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
 
             file_name = os.path.basename(logs_names[log_index])
             file_name_wo_ext = os.path.splitext(file_name)[0]
-            ax[row, col].set_title(file_name_wo_ext, fontsize=10)
+            ax[row, col].set_title(file_name_wo_ext, fontsize=10, parse_math=False)
 
             (hist, classes_count) = _create_array_for_hist(logs[log_index])
             _do_paint_hist(ax[row, col], hist, classes_count)
 
             log_index += 1
 
-    current_figure.suptitle(title)
+    current_figure.suptitle(title, parse_math=False)
 
     if save_path is not None:
         current_figure.savefig(save_path)
@@ -107,6 +107,16 @@ def plot_logs_traces_histograms(logs: List[MyEventLog],
         current_figure.show()
 
 
+def _draw_legend(ax: axes.Axes, handles, names, **kwargs):
+    # matplotlib leaves out labels which start with an underscore and takes text between dollar signs for a formula,
+    # so the names are put into the legend when it is already created
+    legend = ax.legend(list(handles), ['' for _ in names], **kwargs)
+
+    for text, name in zip(legend.get_texts(), names):
+        text.set_parse_math(False)
+        text.set_text(name)
+
+
 class TraceDiversityLikeDiagramContext:
     def __init__(self,
                  log: MyEventLog,
@@ -141,11 +151,12 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     draw_func(ctx)
 
     if plot_legend:
-        ax.legend(ctx.names_to_rects.values(),
-                  ctx.names_to_rects.keys(),
-                  loc='upper center',
-                  bbox_to_anchor=(0.5, -0.15),
-                  fontsize=20)
+        _draw_legend(ax,
+                     ctx.names_to_rects.values(),
+                     ctx.names_to_rects.keys(),
+                     loc='upper center',
+                     bbox_to_anchor=(0.5, -0.15),
+                     fontsize=20)
 
     y_ticks_count = len(log) * height_scale + 1
     y_ticks = ['' for _ in range(y_ticks_count)]
@@ -178,7 +189,7 @@ def _draw_traces_diversity_like_diagram_internal(log: Union[MyEventLog, list[lis
     ax.axis('scaled')
 
     if title is not None:
-        ax.set_xlabel(title)
+        ax.set_xlabel(title, parse_math=False)
 
     if save_path is None:
         current_figure.show()
@@ -355,11 +366,11 @@ def draw_events_entropy_histogram(log: MyEventLog,
     keys = [f'{key} {entropies[key]}' for key, _, _ in lst]
     rects = [rect for _, rect, _ in lst]
 
-    ax.legend(rects, keys, loc='upper center', bbox_to_anchor=(0.5, -0.05))
+    _draw_legend(ax, rects, keys, loc='upper center', bbox_to_anchor=(0.5, -0.05))
     ax.axis('scaled')
 
     if title is not None:
-        ax.set_xlabel(title)
+        ax.set_xlabel(title, parse_math=False)
 
     if save_path is None:
         current_figure.show()
-- 
2.43.0

