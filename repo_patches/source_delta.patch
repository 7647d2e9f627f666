From 474f575a347bae1a902589fa81db5431542931e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 01/24] fix: check every row of an item for overlap when
 fitting it

_check_fitting skipped the item's last row except for its two corner
cells, so an item could be placed over the middle of another one.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 671012feb38fcd2b712bd93df3c22972365a3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 02/24] fix: strip utilization must use the full height of the
 solution

The utilization of a strip was divided by the index of the topmost
occupied row instead of the height, one too low, so that it could
exceed 100%.
---
 hyperpack/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..30ac8e3 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -529,9 +529,9 @@ class PointGenerationMixin:
         if strip_pack:
             height_of_solution = 1
 
-            for y in range(L - 1, 0, -1):
+            for y in range(L - 1, -1, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From 926983ed2cbccf339ec875559ab7c143db2e5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 03/24] fix: strip packing hypersearch must not accept a
 solution missing items

A strategy whose first solution lost items could win the hypersearch by
its higher utilization, although without a minimum height every solution
not including all the items must be rejected.
---
 hyperpack/heuristics.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..6eac7f1 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -422,10 +422,9 @@ class HyperPack(
             )
 
     def _check_solution(self, new_obj_val, best_obj_value):
-        if new_obj_val > best_obj_value:
-            return True
-        else:
-            return False
+        # same acceptance rule as in local search. In strip packing without a
+        # minimum height, solutions missing items must not be accepted
+        return self.compare_node(new_obj_val, best_obj_value)
 
     def _get_array_optimum(self, array):
         """
-- 
2.43.0


From 62deebdbaeb9bd01563dae7baa55fa27aeafee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 04/24] fix: multiprocess hypersearch deadlock on large
 solutions

The processes were joined before their output was received. A process
whose output doesn't fit in the queue's pipe never terminates in that
case, and hypersearch hanged.
---
 hyperpack/heuristics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 6eac7f1..bfa6287 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -520,6 +520,9 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+        # outputs must be received before joining. A process doesn't
+        # terminate until its queued output has been consumed
+        processes_metrics = [p.queue.get() for p in processes]
         for p in processes:
             p.join()
         # at this point the processes concluded operation
@@ -537,7 +540,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = processes_metrics[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
-- 
2.43.0


From 40aa76ff0fde240b72a516187ef87961e01b1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 05/24] fix: multiprocess hypersearch hanged when a process was
 killed

A process terminated without delivering an output (killed, out of
memory) was never counted as failed, and hypersearch waited for its
output forever. Now it counts as any other failed process.
---
 hyperpack/heuristics.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index bfa6287..a1b101f 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -4,6 +4,7 @@ import sys
 import time
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
+from queue import Empty
 
 from . import constants
 from . import mixins
@@ -488,6 +489,19 @@ class HyperPack(
                 break
         return *retain_solution, best_strategy
 
+    def _get_process_metrics(self, process):
+        """
+        Waits for the output of a hypersearch process and returns it.
+        Returns None if the process was terminated before delivering it.
+        """
+        while True:
+            terminated = not process.is_alive()
+            try:
+                return process.queue.get(timeout=0.1)
+            except Empty:
+                if terminated:
+                    return None
+
     def _multi_process_hypersearch(
         self, strategies: tuple, throttle: bool, _force_raise_error_index
     ):
@@ -522,11 +536,15 @@ class HyperPack(
             p.start()
         # outputs must be received before joining. A process doesn't
         # terminate until its queued output has been consumed
-        processes_metrics = [p.queue.get() for p in processes]
+        processes_metrics = [self._get_process_metrics(p) for p in processes]
         for p in processes:
             p.join()
         # at this point the processes concluded operation
-        shared_list = list(shared_Array)
+        # a process that was terminated without delivering an output has failed
+        shared_list = [
+            obj_val if metrics is not None else -1
+            for obj_val, metrics in zip(shared_Array, processes_metrics)
+        ]
 
         # check if all/some processes failed
         if max(shared_list) == -1:
-- 
2.43.0


From 055ba5f22818dd8aa4a798f9734c02f8f3dc10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 06/24] fix: multiprocess hypersearch ignored the strip's
 container_height

The processes always packed in a strip of the initial height, so the
solution could be higher than the container_height of the problem.
---
 hyperpack/heuristics.py | 2 ++
 hyperpack/processes.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index a1b101f..2d50358 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -515,6 +515,7 @@ class HyperPack(
         min_val = 0
         shared_Array = Array("d", [min_val] * len(strategies_chunks))
         container_min_height = getattr(self, "container_min_height", None)
+        container_height = getattr(self, "container_height", None)
         for i, strategies_chunk in enumerate(strategies_chunks):
             processes.append(
                 HyperSearchProcess(
@@ -529,6 +530,7 @@ class HyperPack(
                     shared_array=shared_Array,
                     throttle=throttle,
                     container_min_height=container_min_height,
+                    container_height=container_height,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..df5c6a1 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -32,6 +32,7 @@ class HyperSearchProcess(Process):
         *,
         strip_pack=False,
         container_min_height=None,
+        container_height=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -56,6 +57,8 @@ class HyperSearchProcess(Process):
 
         self.instance = HyperPack(**params)
         self.instance._container_min_height = container_min_height
+        if strip_pack and container_height is not None:
+            self.instance._container_height = container_height
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From b070a88662b34f4caa26785346cf55cdc0769fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 07/24] fix: searches must stop when the maximum utilization is
 found

The optimum objective value was never defined for the packing problems
(infinity was used), so local search and hypersearch never stopped on
the documented criterion of total utilization of all the containers.
---
 hyperpack/abstract.py   |  2 +-
 hyperpack/heuristics.py |  8 ++++----
 hyperpack/mixins.py     | 10 ++++++++++
 hyperpack/processes.py  |  3 +++
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/hyperpack/abstract.py b/hyperpack/abstract.py
index cfe7808..0925986 100644
--- a/hyperpack/abstract.py
+++ b/hyperpack/abstract.py
@@ -118,7 +118,7 @@ class AbstractLocalSearch(ABC):
         if hasattr(self, "init_operations"):
             self.init_operations()
 
-        continue_criterion = True
+        continue_criterion = not self.global_check(best_obj_value, optimum_obj_value)
 
         # START of local search
         while continue_criterion:
diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 2d50358..4b28e81 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -468,6 +468,10 @@ class HyperPack(
         best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
 
         for strategy in strategies:
+            if self.global_check(best_obj_value, optimum_obj_value):
+                hyperLogger.debug("Terminating due to max objective value obtained")
+                break
+
             # set the construction heuristic's potential points strategy
             self._potential_points_strategy = strategy
 
@@ -480,10 +484,6 @@ class HyperPack(
                 best_strategy = [point for point in strategy]
                 hyperLogger.debug(f"\tNew best solution: {best_obj_value}\n")
 
-                if self.global_check(new_obj_val, optimum_obj_value):
-                    hyperLogger.debug("Terminating due to max objective value obtained")
-                    break
-
             if time.time() - self.start_time > self._max_time_in_seconds:
                 hyperLogger.debug("Terminating due to surpassed max time")
                 break
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 30ac8e3..e8cffa4 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1129,6 +1129,16 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
         best_obj_val_per_container = self._copy_objective_val_per_container()
         return best_solution, best_obj_val_per_container
 
+    def get_optimum_objective_val(self):
+        """
+        The value of ``calculate_obj_value`` when all
+        the containers are totally utilized.
+        """
+        if self._containers_num == 1:
+            return 1
+        else:
+            return self._containers_num - 1 + 0.7
+
     def extra_node_operations(self, **kwargs):
         if self._strip_pack:
             # new height is used for the container
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index df5c6a1..20ade5e 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -80,6 +80,9 @@ class HyperSearchProcess(Process):
             max_time_in_seconds = self.instance._max_time_in_seconds
 
             for strategy in self.strategies_chunk:
+                if is_global(best_obj_value, optimum_obj_value):
+                    break
+
                 # set the construction's heuristic potential points strategy
                 self.instance._potential_points_strategy = strategy
 
-- 
2.43.0


From 1a2c9b3e0f884c852d04cb02e8181d9ef360be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 08/24] fix: log_solution failed on a strip packing solution
 without items

Height of the empty strip is zero, and the utilization calculation
raised a ZeroDivisionError.
---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index e8cffa4..a667656 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -653,7 +653,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # height is zero if no items are placed in strip packing
+            util = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {util:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From 06ad96c41a0ae9884132fdf7dc5a4e1872fe57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 09/24] fix: in-place update (|=) of containers/items bypassed
 validation and solution resetting

---
 hyperpack/heuristics.py |  6 ++++++
 hyperpack/structures.py | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4b28e81..3e0b70d 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -111,6 +111,9 @@ class BasePackingProblem:
 
     @items.setter
     def items(self, value):
+        # in-place operators (|=) re-assign the already updated object
+        if value is self._items:
+            return
         self._items = Items(value, self)
 
     @items.deleter
@@ -127,6 +130,9 @@ class BasePackingProblem:
     def containers(self, value):
         if self._strip_pack:
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
+        # in-place operators (|=) re-assign the already updated object
+        if value is self._containers:
+            return
         self._containers = Containers(value, self)
         self._containers_num = len(value)
 
diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..71ba858 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -118,6 +118,12 @@ class Dimensions(UserDict):
         if self.instance is not None:
             self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # UserDict's implementation updates data directly, without
+        # validation and resetting of the solution
+        self.update(other)
+        return self
+
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
@@ -170,11 +176,22 @@ class AbstractStructureSet(UserDict):
         if self.instance._strip_pack and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
+        # in-place operators (|=) re-assign the already updated object
+        if isinstance(structure_id, str) and new_dimensions is not None:
+            if new_dimensions is self.data.get(structure_id):
+                return
+
         self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
 
         if self.instance is not None:
             self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # UserDict's implementation updates data directly, without
+        # validation and resetting of the solution
+        self.update(other)
+        return self
+
     def __delitem__(self, key):
         if len(self.data) == 1:
             raise self.ERROR_CLASS(self.ERROR_CLASS.CANT_DELETE_STRUCTURE)
-- 
2.43.0


From c1dc24b111a3d75c067e4fc962877e14877c24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 10/24] fix: workers_num setting accepted non-integer values

---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 3e0b70d..9873709 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -404,10 +404,7 @@ class HyperPack(
         # % ----------------------------------------------------------------------------
         workers_num = self._settings.get("workers_num")
         if workers_num is not None:
-            try:
-                if not workers_num > 0:
-                    raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
-            except Exception:
+            if not isinstance(workers_num, int) or workers_num <= 0:
                 raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
             self._workers_num = workers_num
         else:
-- 
2.43.0


From 6d6c9b14e3a1b97d4d65e2dac65d68294a8547a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 11/24] fix: best_strategy of hypersearch when the initial
 solution is not improved

---
 hyperpack/heuristics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 9873709..770bd02 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -468,7 +468,8 @@ class HyperPack(
         retain_solution = self.get_init_solution()
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
-        best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+        # the strategy of the first solution is the instance's current strategy
+        best_strategy = self._potential_points_strategy
 
         for strategy in strategies:
             if self.global_check(best_obj_value, optimum_obj_value):
-- 
2.43.0


From aea659649aec8d509c03b7c8c478f8fe9ec1b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 12/24] fix: figures of containers with more than 1000 items

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a667656..a478320 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -811,7 +811,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From dad0e98fd4abeef543a674a901d21f8a6e760a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 13/24] fix: width/height values of html figures were not
 validated

---
 hyperpack/mixins.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a478320..b6294e7 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -793,14 +793,14 @@ class SolutionFigureMixin:
                     if not self._kaleido_ver_ok:
                         raise SettingsError(SettingsError.FIGURE_EXPORT_KALEIDO_VERSION)
 
-                    export_width = export.get("width")
-                    if export_width is not None:
-                        if not isinstance(export_width, int) or export_width <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
-                    export_height = export.get("height")
-                    if export_height is not None:
-                        if not isinstance(export_height, int) or export_height <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
+                export_width = export.get("width")
+                if export_width is not None:
+                    if not isinstance(export_width, int) or export_width <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
+                export_height = export.get("height")
+                if export_height is not None:
+                    if not isinstance(export_height, int) or export_height <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
 
             show = figure_settings.get("show", False)
             if not isinstance(show, bool):
-- 
2.43.0


From 76a6352fe7bdc6fdb59c57db0336b7663dc5afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 14/24] fix: plotly/kaleido versions were compared as text

---
 hyperpack/mixins.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index b6294e7..8083966 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -688,10 +688,19 @@ class SolutionFigureMixin:
     FIGURE_DEFAULT_FILE_NAME = "PlotlyGraph"
     ACCEPTED_IMAGE_EXPORT_FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
     # settings constraints
-    PLOTLY_MIN_VER = ("5", "14", "0")
-    PLOTLY_MAX_VER = ("6", "0", "0")
-    KALEIDO_MIN_VER = ("0", "2", "1")
-    KALEIDO_MAX_VER = ("0", "3", "0")
+    PLOTLY_MIN_VER = (5, 14, 0)
+    PLOTLY_MAX_VER = (6, 0, 0)
+    KALEIDO_MIN_VER = (0, 2, 1)
+    KALEIDO_MAX_VER = (0, 3, 0)
+
+    def _get_version_numbers(self, version: str) -> tuple:
+        """
+        Returns the (major, minor, patch) numbers of the version, for numeric
+        comparison (as text "9" is greater than "14").
+        """
+        components = [*version.split("."), "0", "0"][:3]
+        numbers = [re.match(r"\d*", x).group() for x in components]
+        return tuple(int(x or 0) for x in numbers)
 
     def _check_plotly_kaleido_versions(self) -> None:
         self._plotly_installed = False
@@ -705,7 +714,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._plotly_installed = True
-            plotly_ver = tuple([x for x in plotly.__version__.split(".")][:3])
+            plotly_ver = self._get_version_numbers(plotly.__version__)
             if plotly_ver >= self.PLOTLY_MIN_VER and plotly_ver < self.PLOTLY_MAX_VER:
                 self._plotly_ver_ok = True
 
@@ -715,7 +724,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._kaleido_installed = True
-            kaleido_ver = tuple([x for x in kaleido.__version__.split(".")][:3])
+            kaleido_ver = self._get_version_numbers(kaleido.__version__)
             if kaleido_ver >= self.KALEIDO_MIN_VER and kaleido_ver < self.KALEIDO_MAX_VER:
                 self._kaleido_ver_ok = True
 
-- 
2.43.0


From 5115ed77d5eb77ab7246d5f4ed0a51641334359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 15/24] fix: generate_problem_data item lengths and
 non-positive dimensions

---
 hyperpack/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..31616a7 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -51,16 +51,17 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_h_val = max(round(items_length * 0.6), 1)
 
+    # dimensions must be positive
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
     lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+        max(items_length - deviation_h_val, 1),
+        items_length + deviation_h_val,
     )
     items = {}
     total_items_num = items_num * containers_num
-- 
2.43.0


From 794191b81abd6dbb35140d6e01efacee6f62cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 16/24] fix: hypersearch result depended on the process's hash
 seed

---
 hyperpack/heuristics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 770bd02..d29a53c 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -449,12 +449,16 @@ class HyperPack(
             else self.STRATEGIES_SUFFIX
         )
         if _exhaustive:
-            points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
-            points_to_permutate = points.difference(set(suffixes))
+            # a set would order the points according to the hash seed of the process
+            points_to_permutate = [
+                point
+                for point in self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+                if point not in suffixes
+            ]
             return [
                 x + self.STRATEGIES_SUFFIX
                 for x in list(
-                    permutations(list(points_to_permutate), len(points_to_permutate))
+                    permutations(points_to_permutate, len(points_to_permutate))
                 )
             ]
         else:
-- 
2.43.0


From 9ca7871ce33851468d7d32b9ddb4786ec9a61b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 17/24] fix: multiprocess hypersearch ignored the instance's
 strategy for the first solution

---
 hyperpack/heuristics.py | 1 +
 hyperpack/processes.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index d29a53c..e7ff6d6 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -539,6 +539,7 @@ class HyperPack(
                     throttle=throttle,
                     container_min_height=container_min_height,
                     container_height=container_height,
+                    potential_points_strategy=self._potential_points_strategy,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 20ade5e..7b1880b 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -33,6 +33,7 @@ class HyperSearchProcess(Process):
         strip_pack=False,
         container_min_height=None,
         container_height=None,
+        potential_points_strategy=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -59,6 +60,8 @@ class HyperSearchProcess(Process):
         self.instance._container_min_height = container_min_height
         if strip_pack and container_height is not None:
             self.instance._container_height = container_height
+        if potential_points_strategy is not None:
+            self.instance._potential_points_strategy = potential_points_strategy
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 609a97d940d0d832c848117e44b6ae44363cb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 18/24] fix: utilization of a full container was not exactly
 the maximum

Rounding errors of the summed utilization let completely filled containers
report values slightly below or above 1, so the maximum was not recognised
by construction and searches.
---
 hyperpack/mixins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 8083966..d0f77a9 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -496,6 +496,11 @@ class PointGenerationMixin:
                         Yo,
                         container_coords,
                     )
+                    # rounding errors of the sum must not hide
+                    # that the container is full
+                    items_area += w * l
+                    if items_area == W * L:
+                        obj_value = max_obj_value
 
                 item.update({"Xo": Xo, "Yo": Yo, "rotated": rotated})
                 current_solution[item_id] = item
-- 
2.43.0


From bebf0c3b14324f70ba583592a7edd9360626a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 19/24] fix: a worker killed while holding the shared array's
 lock must not block hypersearch

The elements of the shared array are each written by one process only, a lock
isn't needed. A worker terminated inside the locked section left the lock
acquired, and the rest of the workers and the main process waited forever.
---
 hyperpack/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index e7ff6d6..763143f 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -521,7 +521,9 @@ class HyperPack(
 
         processes = []
         min_val = 0
-        shared_Array = Array("d", [min_val] * len(strategies_chunks))
+        # every process writes its own element only. A lock would never be
+        # released by a process terminated while holding it
+        shared_Array = Array("d", [min_val] * len(strategies_chunks), lock=False)
         container_min_height = getattr(self, "container_min_height", None)
         container_height = getattr(self, "container_height", None)
         for i, strategies_chunk in enumerate(strategies_chunks):
-- 
2.43.0


From 5834cd8cb713f2fd84ae6772fbfeabdd3b5d3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 20/24] fix: a worker killed while delivering its output must
 not block hypersearch

The end of a queue stays open in the main process and in the other workers, so
a partially written output was waited for forever. A pipe whose sending end
is held by its worker only is at its end when the worker terminates.
---
 hyperpack/heuristics.py | 23 ++++++++++-------------
 hyperpack/processes.py  |  8 ++++----
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 763143f..6c16127 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -4,7 +4,6 @@ import sys
 import time
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
-from queue import Empty
 
 from . import constants
 from . import mixins
@@ -502,13 +501,10 @@ class HyperPack(
         Waits for the output of a hypersearch process and returns it.
         Returns None if the process was terminated before delivering it.
         """
-        while True:
-            terminated = not process.is_alive()
-            try:
-                return process.queue.get(timeout=0.1)
-            except Empty:
-                if terminated:
-                    return None
+        try:
+            return process.receiver.recv()
+        except (EOFError, OSError):
+            return None
 
     def _multi_process_hypersearch(
         self, strategies: tuple, throttle: bool, _force_raise_error_index
@@ -545,10 +541,12 @@ class HyperPack(
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
-        for p in processes:
-            p.start()
+            processes[-1].start()
+            # only the process itself must hold the sending end. Its termination
+            # is noticed at the receiving end, even if it delivers partially
+            processes[-1].sender.close()
         # outputs must be received before joining. A process doesn't
-        # terminate until its queued output has been consumed
+        # terminate until its output has been consumed
         processes_metrics = [self._get_process_metrics(p) for p in processes]
         for p in processes:
             p.join()
@@ -586,12 +584,11 @@ class HyperPack(
             f"\nWinning Process {win_process.name} found max\n"
             f"\tobj_val = {win_metrics[0]}\n\tsequence = {win_metrics[3]}"
         )
-        win_process.queue.close()
 
         # Log rest of the processes
         # UNCOMMENT FOR EXTRA DEBUGGING ON PROCESSES
         for p in processes:
-            p.queue.close()
+            p.receiver.close()
 
         return (best_solution, best_obj_val_per_container, best_strategy)
 
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 7b1880b..e3c39ee 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -1,5 +1,5 @@
 from time import time
-from multiprocessing import Process, Queue
+from multiprocessing import Pipe, Process
 from .exceptions import MultiProcessError
 from .loggers import hyperLogger
 from copy import deepcopy
@@ -43,7 +43,7 @@ class HyperSearchProcess(Process):
         self._force_raise_error_index = _force_raise_error_index
         self.index = index
         self.shared_array = shared_array
-        self.queue = Queue()
+        self.receiver, self.sender = Pipe(duplex=False)
         self.strategies_chunk = strategies_chunk
 
         settings = deepcopy(settings)
@@ -129,7 +129,7 @@ class HyperSearchProcess(Process):
                     break
 
             output = (best_obj_value, *retain_solution, best_strategy)
-            self.queue.put(output)
+            self.sender.send(output)
 
         # % ------------ Exception case -----------
         except Exception as e:
@@ -137,4 +137,4 @@ class HyperSearchProcess(Process):
                 f"Process {self.name} failed with error: \n\t{str(e)}\n"
             )
             self.shared_array[self.index] = -1
-            self.queue.put((-1, {}, {}, None))
+            self.sender.send((-1, {}, {}, None))
-- 
2.43.0


From 357b3d9ee2a137334d59111458a314b1fd46055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 21/24] fix: reject settings of a wrong type at construction
 also when they are falsy

---
 hyperpack/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 6c16127..6da20e4 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -206,7 +206,7 @@ class PointGenerationSolver(
 
         self._rotation = None
 
-        self._settings = settings or {}
+        self._settings = {} if settings is None else settings
         self.validate_settings()
 
         # it's the strategy used for the instance. It can be
-- 
2.43.0


From 76a59435d613eff76ff6f480975a9b99ae8bbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 22/24] fix: figure file names must not end in a newline

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index d0f77a9..7572bfa 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -689,7 +689,7 @@ class SolutionFigureMixin:
     Must be used on leftmost position in the inheritance.
     """
 
-    FIGURE_FILE_NAME_REGEX = re.compile(r"[a-zA-Z0-9_-]{1,45}$")
+    FIGURE_FILE_NAME_REGEX = re.compile(r"[a-zA-Z0-9_-]{1,45}\Z")
     FIGURE_DEFAULT_FILE_NAME = "PlotlyGraph"
     ACCEPTED_IMAGE_EXPORT_FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
     # settings constraints
-- 
2.43.0


From 0d569aa73ec266583937fc08b7f9fde36d8d89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 23/24] fix: hypersearch must not change the instance's
 potential points strategy

---
 hyperpack/heuristics.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 6da20e4..6d0cb92 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -652,13 +652,18 @@ class HyperPack(
 
         strategies = self.get_strategies(_exhaustive=_exhaustive)
 
-        self.solution, self.obj_val_per_container, self.best_strategy = (
-            self._single_process_hypersearch(strategies, throttle)
-            if self._workers_num == 1
-            else self._multi_process_hypersearch(
-                strategies, throttle, _force_raise_error_index
+        potential_points_strategy = self._potential_points_strategy
+        try:
+            self.solution, self.obj_val_per_container, self.best_strategy = (
+                self._single_process_hypersearch(strategies, throttle)
+                if self._workers_num == 1
+                else self._multi_process_hypersearch(
+                    strategies, throttle, _force_raise_error_index
+                )
             )
-        )
+        finally:
+            # the strategies tried are not the instance's
+            self._potential_points_strategy = potential_points_strategy
 
         total_time = time.time() - self.start_time
         hyperLogger.debug(f"Execution time : {total_time} [sec]")
-- 
2.43.0


From f418fc164828b9c950297858794d817545ba3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 24/24] fix: copying items or dimensions must not fail or reset
 the solution

---
 hyperpack/structures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 71ba858..305f922 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -127,6 +127,11 @@ class Dimensions(UserDict):
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
+    def copy(self):
+        # UserDict's implementation fills the copy item by item,
+        # which resets the instance's solution
+        return dict(self.data)
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -211,6 +216,9 @@ class AbstractStructureSet(UserDict):
         self.instance.obj_val_per_container = {}
         self.instance.solution = {}
 
+    def copy(self):
+        return self.deepcopy()
+
     def deepcopy(self, ids_sequence: Union[list[str], tuple[str]] = None):
         if ids_sequence is None:
             return {
-- 
2.43.0

