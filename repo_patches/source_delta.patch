From 239ada58e4ec9c20a648563f39112ef2b5a8e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 01/71] fix: allow MultiSplitLink and RiverSplit costs and
 max_flows per step when loaded from JSON

The values were accepted by the constructor only; loading the same arguments
from JSON raised ValueError because the extra sub-links were not padded.
---
 pywr/domains/river.py |  4 ++--
 pywr/nodes.py         | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 6027a9b..46aa64f 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -138,8 +138,8 @@ class RiverSplit(MultiSplitLink):
         # These are the defaults to pass to the parent class that makes this
         # class a convenience.
         # create keyword arguments for PiecewiseLink
-        costs = kwargs.pop("costs", [0.0])
-        max_flows = kwargs.pop("max_flows", [None])
+        costs = kwargs.pop("costs", [0.0] * nsteps)
+        max_flows = kwargs.pop("max_flows", [None] * nsteps)
 
         super(RiverSplit, self).__init__(
             model,
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..94c9c8a 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1004,6 +1004,38 @@ class MultiSplitLink(PiecewiseLink):
             agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
             agg.factors = valid_factors
 
+    def costs():
+        def fget(self):
+            return [sl.cost for sl in self.sublinks]
+
+        def fset(self, values):
+            # No cost on the additional links unless they are given one
+            PiecewiseLink.costs.fset(self, self._pad_values(values, 0.0))
+
+        return locals()
+
+    costs = property(**costs())
+
+    def max_flows():
+        def fget(self):
+            return [sl.max_flow for sl in self.sublinks]
+
+        def fset(self, values):
+            # No maximum flow on the additional links unless they are given one
+            PiecewiseLink.max_flows.fset(self, self._pad_values(values, None))
+
+        return locals()
+
+    max_flows = property(**max_flows())
+
+    def _pad_values(self, values, default):
+        """Append `default` for the extra slots' sublinks if `values` is only for the piecewise steps"""
+        values = list(values)
+        extra_slots = len(self.slot_names) - 1
+        if len(values) == len(self.sublinks) - extra_slots:
+            values += [default] * extra_slots
+        return values
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             i = self.slot_names.index(slot_name)
-- 
2.43.0


From bf540fc99e3f49ff5a205c664e23a9d093d0777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 02/71] fix: keep a Reservoir's above_curve_cost when it is
 loaded from JSON

The constant cost was assigned after construction, replacing the control curve
cost made from cost and above_curve_cost.
---
 pywr/domains/river.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 46aa64f..0e2c172 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -97,6 +97,15 @@ class Reservoir(RiverDomainMixin, Storage):
             kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    @classmethod
+    def _pre_load_parameter(cls, key, value, param_data, non_param_data):
+        if key == "cost" and isinstance(value, (float, int)):
+            # A constant cost is needed by `__init__` to combine it with `above_curve_cost`; setting it
+            # later would replace the cost created from both.
+            non_param_data[key] = value
+        else:
+            super()._pre_load_parameter(key, value, param_data, non_param_data)
+
 
 class River(RiverDomainMixin, Link):
     """A node in the river network
-- 
2.43.0


From d97babae488000b74a91e5b230635f4b93c3098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 03/71] fix: sum the weights of aggregated nodes that share a
 route or edge

The min/max flow constraint of an AggregatedNode kept only the last member's
weight for a route (or edge) used by several members, so the constraint did not
limit the node's reported flow.
---
 pywr/solvers/cython_glpk.pyx    | 9 ++++++---
 pywr/solvers/cython_lpsolve.pyx | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..6bae545 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,8 +686,11 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                    # Only routes which contribute to the flow of the node, and every node of the route that is
+                    # aggregated adds its weight.
+                    if some_node is route[0] or some_node is route[-1] or \
+                            (isinstance(some_node, BaseLink) and some_node in route):
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
             val = <double*>malloc(1+length * sizeof(double))
@@ -1517,7 +1520,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..ba6398f 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -428,8 +428,11 @@ cdef class CythonLPSolveSolver:
             matrix = {}
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if node in route:
-                        matrix[n] = w
+                    # Only routes which contribute to the flow of the node, and every node of the route that is
+                    # aggregated adds its weight.
+                    if node is route[0] or node is route[-1] or \
+                            (isinstance(node, BaseLink) and node in route):
+                        matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From ab0e1ebcadda84ae54e2360c944cea69ced7a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 04/71] fix: an AggregatedStorage's volume is the sum of its
 storage nodes

It accumulated their flows, so it missed every change of volume that is not a
flow, such as the renewal of a licence or the adjustment of a rolling one.
---
 pywr/_core.pxd |  1 +
 pywr/_core.pyx | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..5790bb4 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -144,6 +144,7 @@ cdef class Storage(AbstractStorage):
 
 cdef class AggregatedStorage(AbstractStorage):
     cdef list _storage_nodes
+    cpdef _sum_volumes(self)
     cpdef double[:] get_all_min_volume(self, double[:] out=*)
     cpdef double[:] get_all_max_volume(self, double[:] out=*)
 
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..956c899 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1398,22 +1398,37 @@ cdef class AggregatedStorage(AbstractStorage):
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
 
+    cpdef before(self, Timestep ts):
+        AbstractStorage.before(self, ts)
+        # The volume of the storage nodes may have been changed without a flow (e.g. a licence that was reset)
+        self._sum_volumes()
+
     cpdef after(self, Timestep ts):
         AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
+
+        for i, si in enumerate(self.model.scenarios.combinations):
+            self._flow[i] = 0.0
+            for s in self._storage_nodes:
+                self._flow[i] += s._flow[i]
+        self._sum_volumes()
+
+    cpdef _sum_volumes(self):
+        """Set the volume to the sum of the current volumes of the storage nodes."""
+        cdef int i
+        cdef Storage s
         cdef double mxv
         cdef double mnv
 
         for i, si in enumerate(self.model.scenarios.combinations):
-            self._flow[i] = 0.0
+            self._volume[i] = 0.0
             mxv = 0.0
             mnv = 0.0
             for s in self._storage_nodes:
-                self._flow[i] += s._flow[i]
+                self._volume[i] += s._volume[i]
                 mxv += s.get_max_volume(si)
                 mnv += s.get_min_volume(si)
-            self._volume[i] += self._flow[i]*ts.days
 
             if abs(self._volume[i] - mxv) < 1e-6:
                 self._volume[i] = mxv
-- 
2.43.0


From 62a292b3dadc7017149af7c15e723507b282cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 05/71] fix: a virtual storage is used only by routes that
 count towards its nodes' flow

---
 pywr/solvers/cython_glpk.pyx    | 3 +++
 pywr/solvers/cython_lpsolve.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 6bae545..3c904c3 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -608,6 +608,9 @@ cdef class CythonGLPKSolver(GLPKSolver):
             cols = {}
             for n, route in enumerate(routes):
                 for some_node in route:
+                    # Only routes which contribute to the flow of the node use the storage.
+                    if not (some_node is route[0] or some_node is route[-1] or isinstance(some_node, BaseLink)):
+                        continue
                     try:
                         i = storage.nodes.index(some_node)
                     except ValueError:
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index ba6398f..74579a0 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -345,6 +345,9 @@ cdef class CythonLPSolveSolver:
             cols = {}
             for n, route in enumerate(routes):
                 for some_node in route:
+                    # Only routes which contribute to the flow of the node use the storage.
+                    if not (some_node is route[0] or some_node is route[-1] or isinstance(some_node, BaseLink)):
+                        continue
                     try:
                         i = storage.nodes.index(some_node)
                     except ValueError:
-- 
2.43.0


From 7b4740679a9f12c52260bede8f32902a5c06c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 06/71] fix: an inactive virtual storage does not constrain the
 glpk solvers, whatever its size

---
 pywr/solvers/cython_glpk.pyx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 3c904c3..a9dbfd4 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -998,16 +998,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
@@ -1822,16 +1822,16 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
-- 
2.43.0


From 79bba06bd57cc0d112af31b32b9d13495eb036a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 07/71] fix: a free row does not constrain the lpsolve solver

---
 pywr/solvers/cython_lpsolve.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 74579a0..aa7f5c6 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -72,8 +72,9 @@ cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
         # set_rh_range(prob, row, 0.0)
     elif b == DBL_MAX:
         if a == -DBL_MAX:
+            # lp_solve sees a free row as one which is at most infinity
             set_constr_type(prob, row, FR)
-            set_rh(prob, row, 0.0)
+            set_rh(prob, row, DBL_MAX)
             # set_rh_range(prob, row, 0.0)
         else:
             set_constr_type(prob, row, GE)
-- 
2.43.0


From 40d0f766d2b4084efad3651156fed2b70fb5ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 08/71] fix: renew annual and monthly virtual storages with any
 time-step, and apply seasonal ones in season only

---
 pywr/nodes.py | 80 +++++++++++++++++++++------------------------------
 1 file changed, 32 insertions(+), 48 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 94c9c8a..a692441 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,28 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
+        # The year of the last reset date up to this time-step
+        reset_year = ts.year
+        if (ts.month, ts.day) < (self.reset_month, self.reset_day):
+            reset_year -= 1
+
         if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
+            if (ts.month, ts.day) != (self.reset_month, self.reset_day):
                 # Assume we reset before the model started
-                self._last_reset_year = ts.year
+                self._last_reset_year = reset_year
 
         # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
 
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
+            self.active = True
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
@@ -687,36 +685,20 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
 
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        start = (self.reset_month, self.reset_day)
+        end = (self.end_month, self.end_day)
+        today = (ts.month, ts.day)
+        if start < end:
+            self.active = start <= today < end
+        else:
+            # The end date is in the year after the reset date
+            self.active = today >= start or today < end
 
 
 class MonthlyVirtualStorage(VirtualStorage):
@@ -747,11 +729,13 @@ class MonthlyVirtualStorage(VirtualStorage):
 
     def before(self, ts):
         super().before(ts)
-        if ts.month != self._last_month:
-            self._last_month = ts.month
-            self._count += 1
-            if self._count == self.months:
-                self._count = 0
+        month = ts.year * 12 + ts.month
+        if month != self._last_month:
+            # A time-step may be longer than a month
+            self._count += 1 if self._last_month is None else month - self._last_month
+            self._last_month = month
+            if self._count >= self.months:
+                self._count %= self.months
                 self._reset_storage_only(
                     use_initial_volume=self.reset_to_initial_volume
                 )
-- 
2.43.0


From 2c6b92ea4d48fc2aff0cec7741788289547c0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 09/71] fix: evaluate the thresholds of multiple-threshold
 parameters before the parameter

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 3e16efa3adf0e495ecd834d679f8fe5eba9cd828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 10/71] fix: remember the flow of this time-step as previous
 flow of aggregated and compound nodes

---
 pywr/_core.pyx | 5 +++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 956c899..ec703f4 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -774,6 +773,7 @@ cdef class AggregatedNode(AbstractNode):
             self._flow[i] = 0.0
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
+        AbstractNode.after(self, ts)
 
     property factors:
         def __get__(self):
@@ -1382,6 +1382,7 @@ cdef class AggregatedStorage(AbstractStorage):
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
     cpdef reset(self):
+        AbstractStorage.reset(self)
         cdef int i
         cdef double mxv = 0.0
         cdef ScenarioIndex si
@@ -1404,7 +1405,6 @@ cdef class AggregatedStorage(AbstractStorage):
         self._sum_volumes()
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
 
@@ -1412,6 +1412,7 @@ cdef class AggregatedStorage(AbstractStorage):
             self._flow[i] = 0.0
             for s in self._storage_nodes:
                 self._flow[i] += s._flow[i]
+        AbstractStorage.after(self, ts)
         self._sum_volumes()
 
     cpdef _sum_volumes(self):
diff --git a/pywr/nodes.py b/pywr/nodes.py
index a692441..3203118 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1182,9 +1182,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting the flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1250,9 +1251,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1375,9 +1377,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 81042dd87c9d652b1e4e4cee422ce770569af438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 11/71] fix: evaluate a polynomial of a node's flow with the
 previous flow

---
 pywr/parameters/_polynomial.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index 6d1e631..d06b41e 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -71,7 +71,7 @@ cdef class Polynomial1DParameter(Parameter):
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
         elif self._other_node is not None:
-            x = self._other_node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
         else:
             x = self._node._flow[scenario_index.global_id]
 
-- 
2.43.0


From 21930d6031acef9cb53bbbdd3c1deb2b2451e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 12/71] fix: keyword arguments of DataFrameParameter and
 scenario slices in data table parameters

---
 pywr/parameters/_parameters.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..47a49e2 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -440,9 +440,9 @@ cdef class TablesArrayParameter(IndexParameter):
                     self._scenario_ids[i] = n
 
                 if node.dtype in (np.float32, np.float64):
-                    self._values_dbl = node[:len(self.model.timestepper), scenario_indices].astype(np.float64)
+                    self._values_dbl = node[:, scenario_indices].astype(np.float64)
                 else:
-                    self._values_int = node[:len(self.model.timestepper), scenario_indices].astype(np.int32)
+                    self._values_int = node[:, scenario_indices].astype(np.int32)
 
         if node.dtype in (np.float32, np.float64):
             if self._values_dbl is None:
-- 
2.43.0


From 69d603db4ecf8d2526ab4f6998f2313e71031c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 13/71] fix: apportion annual licences from the start of the
 time-step and never below zero

---
 pywr/parameters/licenses.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..9db14b0 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -124,8 +124,9 @@ class AnnualLicense(StorageLicense):
 
     def value(self, timestep, scenario_index):
         i = scenario_index.global_id
-        day_of_year = timestep.dayofyear
-        days_in_year = 365 + int(calendar.isleap(timestep.year))
+        start = timestep.datetime
+        day_of_year = start.dayofyear
+        days_in_year = 365 + int(calendar.isleap(start.year))
         if day_of_year == days_in_year:
             return self._remaining[i]
         else:
@@ -134,17 +135,18 @@ class AnnualLicense(StorageLicense):
 
     def before(self):
         # Reset licence if year changes.
-        timestep = self.model.timestepper.current
-        if self._prev_year != timestep.year:
+        start = self.model.timestepper.current.datetime
+        if self._prev_year != start.year:
             self.reset()
 
             # The number of days in the year before the first timestep of that year
-            days_before_reset = timestep.dayofyear - 1
+            days_before_reset = start.dayofyear - 1
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
+            self._remaining[self._remaining < 0] = 0.0
 
-            self._prev_year = timestep.year
+            self._prev_year = start.year
 
 
 AnnualLicense.register()
@@ -182,7 +184,7 @@ class AnnualExponentialLicense(AnnualLicense):
         remaining = super(AnnualExponentialLicense, self).value(
             timestep, scenario_index
         )
-        expected = self._amount / (365 + int(calendar.isleap(timestep.year)))
+        expected = self._amount / (365 + int(calendar.isleap(timestep.datetime.year)))
         x = remaining / expected
         return self._max_value * np.exp(-x / self._k)
 
@@ -217,7 +219,7 @@ class AnnualHyperbolaLicense(AnnualLicense):
 
     def value(self, timestep, scenario_index):
         remaining = super(AnnualHyperbolaLicense, self).value(timestep, scenario_index)
-        expected = self._amount / (365 + int(calendar.isleap(timestep.year)))
+        expected = self._amount / (365 + int(calendar.isleap(timestep.datetime.year)))
         x = remaining / expected
         try:
             return self._value / x
-- 
2.43.0


From 8dbeba882f63afd6579891324693782a20fee871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 14/71] fix: reset the previous flow of sub-nodes between runs

---
 pywr/_model.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..fcc6719 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,7 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
@@ -777,7 +777,8 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                # Sub-nodes are reset but not profiled on their own
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From 61b56135e49d16a9a7bcf9229eb66799769a17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 15/71] fix: ignore missing values along the axis in
 Aggregator.aggregate_2d

---
 pywr/recorders/_recorders.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..2217359 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -146,7 +146,14 @@ cdef class Aggregator:
         cdef Py_ssize_t i
 
         if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+            # The number of missing values can be different in each row (or column) so these
+            # must be aggregated separately.
+            if axis == 0:
+                return np.array([self.aggregate_1d(values[:, i], ignore_nan=True) for i in range(values.shape[1])], dtype=np.float64)
+            elif axis == 1:
+                return np.array([self.aggregate_1d(values[i, :], ignore_nan=True) for i in range(values.shape[0])], dtype=np.float64)
+            else:
+                raise ValueError('Axis "{}" not recognised for aggregation ignoring missing values.'.format(axis))
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From 8c356e35c1027f9e24f154cca751cf34d4516495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 16/71] fix: support every named aggregation function in
 AggregatedRecorder

---
 pywr/recorders/_recorders.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 2217359..8fdce80 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -388,10 +388,12 @@ cdef class AggregatedRecorder(Recorder):
     """
     def __init__(self, model, recorders, **kwargs):
         # Optional different method for aggregating across self.recorders scenarios
-        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
+        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func', 'mean'))
 
-        if isinstance(agg_func, str):
-            agg_func = _agg_func_lookup[agg_func.lower()]
+        if isinstance(agg_func, str) or isinstance(agg_func, dict):
+            # Functions without a specific implementation in `.values()` use the aggregator.
+            self.recorder_agg_func = Aggregator(agg_func).aggregate_2d
+            agg_func = _agg_func_lookup[agg_func.lower() if isinstance(agg_func, str) else agg_func['func']]
         elif callable(agg_func):
             self.recorder_agg_func = agg_func
             agg_func = AggFuncs.CUSTOM
@@ -449,7 +451,7 @@ cdef class AggregatedRecorder(Recorder):
             for i in range(n):
                 value[i] /= len(self.recorders)
         else:
-            value = self.recorder_agg_func([recorder.values() for recorder in self.recorders], axis=0)
+            value = self.recorder_agg_func(np.array([recorder.values() for recorder in self.recorders]), axis=0)
         return value
 
     @classmethod
-- 
2.43.0


From 513d6c2eb5d9ab33bf75b7627eeda896099cf338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 17/71] fix: aggregate the values of
 NumpyArrayIndexParameterRecorder

---
 pywr/recorders/_recorders.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 8fdce80..b2c42aa 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1548,6 +1548,11 @@ cdef class NumpyArrayIndexParameterRecorder(IndexParameterRecorder):
         def __get__(self, ):
             return np.array(self._data)
 
+    cpdef double[:] values(self) except *:
+        """Compute a value for each scenario using `temporal_agg_func`.
+        """
+        return self._temporal_aggregator.aggregate_2d(np.array(self._data, dtype=np.float64), axis=0, ignore_nan=self.ignore_nan)
+
     def to_dataframe(self):
         """ Return a `pandas.DataFrame` of the recorder data
         This DataFrame contains a MultiIndex for the columns with the recorder name
-- 
2.43.0


From 7ad2fd96fff93a9cb29e0ea4513b96a8781ddcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 18/71] fix: use the scenario given for a flow duration curve
 deviation in JSON

---
 pywr/recorders/_recorders.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index b2c42aa..02de6ee 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -990,10 +990,10 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1107,7 +1107,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From e72c6761a45441c8abc039828208dc0d1c77fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 19/71] fix: record normalised storage of a full storage with
 its control curve at 100%

---
 pywr/recorders/_recorders.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 02de6ee..6a35be5 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1232,6 +1232,9 @@ cdef class NumpyArrayNormalisedStorageRecorder(NumpyArrayAbstractStorageRecorder
             if vol < cc:
                 # Lower than control curve; value between -1.0 and 0.0
                 norm_vol = vol / cc - 1.0
+            elif cc == 1.0:
+                # Full with the control curve at the top of the storage
+                norm_vol = 1.0
             else:
                 # At or above control curve; value between 0.0 and 1.0
                 norm_vol = (vol - cc) / (1.0 - cc)
-- 
2.43.0


From db28ef31bac4a4a180698ab9d64c9d0b65f42619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 20/71] fix: treat any non-zero threshold value as an active
 event

---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..99943e5 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.array(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.array(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From fab6ba415cd19ed9fe3f682ad0f0f250c33b5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 21/71] fix: apply the minimum event length to events that are
 open at the end

---
 pywr/recorders/events.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index 99943e5..ab69e10 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -155,7 +155,10 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                current_length = ts.index - current_event.start.index
+
+                if current_length >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
-- 
2.43.0


From 9a8cff8251a3f20ead9dbab411b5a3181d880e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 22/71] fix: do not drop missing values from the minimum or
 maximum of AggregatedRecorder

---
 pywr/recorders/_recorders.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 6a35be5..2915969 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -432,7 +432,8 @@ cdef class AggregatedRecorder(Recorder):
             for recorder in self.recorders:
                 value2 = recorder.values()
                 for i in range(n):
-                    if value2[i] > value[i]:
+                    # As with the other functions a missing value is not ignored
+                    if value2[i] > value[i] or np.isnan(value2[i]):
                         value[i] = value2[i]
         elif self._recorder_agg_func == AggFuncs.MIN:
             value = np.empty(n)
@@ -440,7 +441,7 @@ cdef class AggregatedRecorder(Recorder):
             for recorder in self.recorders:
                 value2 = recorder.values()
                 for i in range(n):
-                    if value2[i] < value[i]:
+                    if value2[i] < value[i] or np.isnan(value2[i]):
                         value[i] = value2[i]
         elif self._recorder_agg_func == AggFuncs.MEAN:
             value = np.zeros(n, np.float64)
-- 
2.43.0


From f985a8ded1a6bf1eaf74cb5a93191eee997da615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 23/71] fix: accept integer factors in AnnualTotalFlowRecorder

---
 pywr/recorders/_recorders.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 2915969..7ba83e6 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2110,7 +2110,7 @@ cdef class AnnualTotalFlowRecorder(Recorder):
         def __set__(self, factors):
             if factors is None:
                 factors = np.array([1.0 for n in self.nodes])
-            self._factors = np.array(factors)
+            self._factors = np.array(factors, dtype=np.float64)
 
     cpdef setup(self):
         super(AnnualTotalFlowRecorder, self).setup()
-- 
2.43.0


From 6ea66bba44cfc025fb67f7fd08eabf3c2368e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 24/71] fix: accept integer amplitudes and phases in
 AnnualHarmonicSeriesParameter

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 47a49e2..95a5ec1 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1339,8 +1339,8 @@ cdef class AnnualHarmonicSeriesParameter(Parameter):
             raise ValueError("The number  of amplitudes and phases must be the same.")
         n = len(amplitudes)
         self.mean = mean
-        self._amplitudes = np.array(amplitudes)
-        self._phases = np.array(phases)
+        self._amplitudes = np.array(amplitudes, dtype=np.float64)
+        self._phases = np.array(phases, dtype=np.float64)
 
         self._mean_lower_bounds = kwargs.pop('mean_lower_bounds', 0.0)
         self._mean_upper_bounds = kwargs.pop('mean_upper_bounds', np.inf)
-- 
2.43.0


From 9f4c87ff6cca6ba5164cd74e25443a95fbaa283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 25/71] fix: the proportional volume of an AggregatedStorage at
 the start of a run does not depend on the last run

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 45 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 5790bb4..3be0fc8 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -137,6 +137,7 @@ cdef class Storage(AbstractStorage):
     cpdef double get_min_volume(self, ScenarioIndex scenario_index) except? -1
     cpdef double[:] get_all_min_volume(self, double[:] out=*)
     cpdef double get_max_volume(self, ScenarioIndex scenario_index) except? -1
+    cpdef double get_initial_max_volume(self, ScenarioIndex scenario_index) except? -1
     cpdef double[:] get_all_max_volume(self, double[:] out=*)
     cpdef double get_level(self, ScenarioIndex scenario_index) except? -1
     cpdef double get_area(self, ScenarioIndex scenario_index) except? -1
@@ -144,7 +145,7 @@ cdef class Storage(AbstractStorage):
 
 cdef class AggregatedStorage(AbstractStorage):
     cdef list _storage_nodes
-    cpdef _sum_volumes(self)
+    cpdef _sum_volumes(self, bint initial=*)
     cpdef double[:] get_all_min_volume(self, double[:] out=*)
     cpdef double[:] get_all_max_volume(self, double[:] out=*)
 
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index ec703f4..db19184 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1227,6 +1227,18 @@ cdef class Storage(AbstractStorage):
             return self._max_volume
         return self._max_volume_param.get_value(scenario_index)
 
+    cpdef double get_initial_max_volume(self, ScenarioIndex scenario_index) except? -1:
+        """Returns the maximum volume at the beginning of a run, before any parameter has been evaluated."""
+        cdef double pc
+        if self._max_volume_param is None:
+            return self._max_volume
+        if self._max_volume_param.is_constant:
+            return self._max_volume_param.get_constant_value()
+        pc = self.get_initial_pc()
+        if pc == 0.0:
+            return 0.0
+        return self.get_initial_volume() / pc
+
     cpdef double[:] get_all_max_volume(self, double[:] out=None):
         if out is None:
             out = np.empty(len(self.model.scenarios.combinations))
@@ -1386,11 +1398,12 @@ cdef class AggregatedStorage(AbstractStorage):
         cdef int i
         cdef double mxv = 0.0
         cdef ScenarioIndex si
+        cdef Storage s
 
         for i, si in enumerate(self.model.scenarios.combinations):
             mxv = 0.0
             for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
+                mxv += s.get_initial_max_volume(si)
 
             self._volume[i] = self.initial_volume
             # Ensure variable maximum volume is taken in to account
@@ -1402,7 +1415,7 @@ cdef class AggregatedStorage(AbstractStorage):
     cpdef before(self, Timestep ts):
         AbstractStorage.before(self, ts)
         # The volume of the storage nodes may have been changed without a flow (e.g. a licence that was reset)
-        self._sum_volumes()
+        self._sum_volumes(ts.index == 0)
 
     cpdef after(self, Timestep ts):
         cdef int i
@@ -1415,8 +1428,14 @@ cdef class AggregatedStorage(AbstractStorage):
         AbstractStorage.after(self, ts)
         self._sum_volumes()
 
-    cpdef _sum_volumes(self):
-        """Set the volume to the sum of the current volumes of the storage nodes."""
+    cpdef _sum_volumes(self, bint initial=False):
+        """Set the volume to the sum of the current volumes of the storage nodes.
+
+        Parameters
+        ==========
+        initial : bool (default: False)
+            True before the first time-step, when the parameters have not been evaluated.
+        """
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1428,13 +1447,17 @@ cdef class AggregatedStorage(AbstractStorage):
             mnv = 0.0
             for s in self._storage_nodes:
                 self._volume[i] += s._volume[i]
-                mxv += s.get_max_volume(si)
-                mnv += s.get_min_volume(si)
-
-            if abs(self._volume[i] - mxv) < 1e-6:
-                self._volume[i] = mxv
-            if abs(self._volume[i] - mnv) < 1e-6:
-                self._volume[i] = mnv
+                if initial:
+                    mxv += s.get_initial_max_volume(si)
+                else:
+                    mxv += s.get_max_volume(si)
+                    mnv += s.get_min_volume(si)
+
+            if not initial:
+                if abs(self._volume[i] - mxv) < 1e-6:
+                    self._volume[i] = mxv
+                if abs(self._volume[i] - mnv) < 1e-6:
+                    self._volume[i] = mnv
 
             # Ensure variable maximum volume is taken in to account
             try:
-- 
2.43.0


From 3057e3088bf9a1ae374708837f83e5a8e33b3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 26/71] fix: storages with a constant parameter as max_volume
 in WeightedAverageProfileParameter

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..4126199 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From 25d8c71ce428501cdbbcf80396c2d60eba2d6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 27/71] fix: finish AnnualCountIndexThresholdRecorder when no
 time-step was completed

---
 pywr/recorders/_recorders.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 7ba83e6..96fe864 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2041,6 +2041,8 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
     cpdef finish(self):
         cdef int idx = self._current_year - self._start_year
         cdef Py_ssize_t i
+        if self._current_year == -1:
+            return  # no time-step was completed
         for i in range(self._ncomb):
             self._data[idx, i] = np.sum(self._data_this_year[:, i])
 
-- 
2.43.0


From 28d72f344b6f15046a0ce00f74a1d5327039d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 28/71] fix: types of parameters given with the suffix
 "parameter" when the class has none

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 95a5ec1..0cc0923 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2280,7 +2280,7 @@ def get_parameter_from_registry(parameter_type):
     except KeyError:
         pass
     if key.endswith("parameter"):
-        key.replace("parameter", "")
+        key = key.replace("parameter", "")
     else:
         key = key + "parameter"
     try:
-- 
2.43.0


From 045f99e6be6539b05a71fdccd1ae0e2599d2c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 29/71] fix: take each include file in once when a model is
 loaded from text or a file

---
 pywr/_model.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index fcc6719..2392aa9 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
-- 
2.43.0


From 681e4bc37d5c647aee4d774f23bd3d86940f9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 30/71] fix: load models with includes or data files from a
 path given as bytes

---
 pywr/_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2392aa9..ca16508 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -286,7 +286,7 @@ class Model(object):
         """
         if isinstance(data, (str, bytes, os.PathLike)):
             # argument is a filename
-            path = data
+            path = os.fsdecode(data)
             logger.info('Loading model from file: "{}"'.format(path))
             with open(path, "r") as f:
                 data = f.read()
-- 
2.43.0


From 161f55a377190640b435d767edabe8bfc3e23ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 31/71] fix: BreakLink, LossLink and PiecewiseLink report their
 flow limits to recorders

---
 pywr/nodes.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 3203118..7410a08 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -821,6 +821,19 @@ class PiecewiseLink(Node):
     def get_max_flow(self, si):
         return sum([sl.get_max_flow(si) for sl in self.sublinks])
 
+    def get_all_min_flow(self, out=None):
+        return self._sum_sublinks("get_all_min_flow", out)
+
+    def get_all_max_flow(self, out=None):
+        return self._sum_sublinks("get_all_max_flow", out)
+
+    def _sum_sublinks(self, method, out):
+        """Sum the values for all scenarios over the sub-links, in `out` if given"""
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        np.asarray(out)[:] = sum(np.array(getattr(sl, method)()) for sl in self.sublinks)
+        return out
+
     def costs():
         def fget(self):
             return [sl.cost for sl in self.sublinks]
@@ -1162,6 +1175,18 @@ class BreakLink(Node):
 
     max_flow = property(**max_flow())
 
+    def get_min_flow(self, si):
+        return self.link.get_min_flow(si)
+
+    def get_max_flow(self, si):
+        return self.link.get_max_flow(si)
+
+    def get_all_min_flow(self, out=None):
+        return self.link.get_all_min_flow(out)
+
+    def get_all_max_flow(self, out=None):
+        return self.link.get_all_max_flow(out)
+
     def cost():
         def fget(self):
             return self.link.cost
@@ -1359,6 +1384,18 @@ class LossLink(Node):
 
     max_flow = property(**max_flow())
 
+    def get_min_flow(self, si):
+        return self.net.get_min_flow(si)
+
+    def get_max_flow(self, si):
+        return self.net.get_max_flow(si)
+
+    def get_all_min_flow(self, out=None):
+        return self.net.get_all_min_flow(out)
+
+    def get_all_max_flow(self, out=None):
+        return self.net.get_all_max_flow(out)
+
     def cost():
         def fget(self):
             return self.net.cost
-- 
2.43.0


From 9c0ae14072d3de154953635df07b89a660de4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 32/71] fix: csv_kwargs of CSVRecorder

---
 pywr/recorders/recorders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..548f6e7 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -141,11 +141,11 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From cf5192fc75ea47895bcbf253859947725d946619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 33/71] fix: nodes given as objects, and names of two
 characters, in TablesRecorder and TablesRecorder2

---
 pywr/recorders/_tables_recorders.pyx | 10 +++++-----
 pywr/recorders/recorders.py          | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..fa7b860 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -140,9 +140,9 @@ class TablesRecorder2(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
+        if isinstance(parameter, (tuple, list)):
             where, param = parameter
-        except (TypeError, ValueError):
+        else:
             where = None
             param = parameter
         if isinstance(param, str):
@@ -239,11 +239,11 @@ class TablesRecorder2(Recorder):
         else:
             items = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
+                else:
                     node = n
-                    where = self.where + "/" + node
+                    where = self.where + "/" + getattr(node, "name", node)
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 548f6e7..f033e8b 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -342,9 +342,9 @@ class TablesRecorder(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
+        if isinstance(parameter, (tuple, list)):
             where, param = parameter
-        except (TypeError, ValueError):
+        else:
             where = None
             param = parameter
         if isinstance(param, str):
@@ -439,11 +439,11 @@ class TablesRecorder(Recorder):
         else:
             nodes = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
+                else:
                     node = n
-                    where = self.where + "/" + node
+                    where = self.where + "/" + getattr(node, "name", node)
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
-- 
2.43.0


From 62cccdb722f36df07169ee30970c1288cc68d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 34/71] fix: save slices without a start or stop in
 TablesRecorder and TablesRecorder2

---
 pywr/recorders/_tables_recorders.pyx | 10 ++++------
 pywr/recorders/recorders.py          | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index fa7b860..94bbda7 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -367,12 +367,10 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index f033e8b..d1ee5ea 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -533,12 +533,10 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From 82a015aaf1359b19fa95014948ce26e0829e7b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 35/71] fix: dataframes of files with slices, combinations of
 scenarios or flows of routes

---
 pywr/h5tools.py                      | 31 ++++++++++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx | 14 ++++---------
 pywr/recorders/recorders.py          | 14 +++++--------
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 8187436..867a6fc 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -1,5 +1,6 @@
 import tables
 import os
+import pandas
 
 
 class H5Store(object):
@@ -61,3 +62,33 @@ class H5Store(object):
     def __del__(self):
         if self._opened and self.file.isopen:
             self.file.close()
+
+
+def read_scenario_columns(file, scenarios):
+    """The scenario indices of the columns of the data saved by `TablesRecorder` or `TablesRecorder2`.
+
+    Parameters
+    ----------
+    file : tables.File
+    scenarios : str
+        The internal table that contains the scenario information. The tables of the combinations and slices
+        are read from beside it, if there are any.
+    """
+    table = file.get_node(scenarios)
+    sizes = {name.decode(): size for name, size in zip(table.col("name"), table.col("size"))}
+    if not sizes:
+        return None
+    group = scenarios.rsplit("/", 1)[0]
+    for name in (group + "/scenario_combinations", "/scenario_combinations"):
+        if name in file:
+            combinations = file.get_node(name).read()
+            if combinations.dtype.names is not None:
+                combinations = [[row[name] for name in sizes] for row in combinations]
+            return pandas.MultiIndex.from_tuples(
+                [tuple(int(i) for i in row) for row in combinations], names=list(sizes)
+            )
+    indices = {name: range(size) for name, size in sizes.items()}
+    if group + "/scenario_slices" in file:
+        for row in file.get_node(group + "/scenario_slices"):
+            indices[row["name"].decode()] = range(row["start"], row["stop"], row["step"])
+    return pandas.MultiIndex.from_product(list(indices.values()), names=list(indices))
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 94bbda7..8f2669e 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -2,7 +2,7 @@ from typing import Tuple
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, read_scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
@@ -659,19 +659,13 @@ class TablesRecorder2(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = read_scenario_columns(store.file, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
-            if node.name in ("scenario_combinations", "scenario_ensemble_names"):
+            if "PYWR_TYPE" not in node._v_attrs:
+                # Not the values of a node or parameter (e.g. the flows of the routes)
                 continue
             data = node.read()
             data = data.reshape((data.shape[0], -1))
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index d1ee5ea..544e064 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -10,7 +10,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, read_scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -707,18 +707,14 @@ class TablesRecorder(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = read_scenario_columns(store.file, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
+            if "PYWR_TYPE" not in node._v_attrs and "pywr-type" not in node._v_attrs:
+                # Not the values of a node or parameter (e.g. the flows of the routes)
+                continue
             data = node.read()
             data = data.reshape((data.shape[0], -1))
             df = pandas.DataFrame(data, index=index, columns=columns)
-- 
2.43.0


From 0cec1a95711041b4c9e4a554fcf00751dfac632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 36/71] fix: TablesRecorder2 without nodes or parameters (e.g.
 only the flows of routes)

---
 pywr/recorders/_tables_recorders.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 8f2669e..2486c00 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -263,7 +263,7 @@ class TablesRecorder2(Recorder):
             # Divide by 8 as we are storing 64-bit floats
             # Also assume most data is nodes, and we store 3 values for each
             total_buffer_values = self.buffer_size * 1024 * 1024 / 8 / 3
-            buffer_per_item = total_buffer_values // len(items)
+            buffer_per_item = total_buffer_values // max(1, len(items))
             self._buffer_num_timesteps = min(max(1, int(buffer_per_item // np.prod(scenario_shape))), len(self.model.timestepper))
         else:
             self._buffer_num_timesteps = 1
-- 
2.43.0


From 7b9c395ee525d521cb329a1ec8193c636a7a959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 37/71] fix: record the same node at two places of a file of
 TablesRecorder or TablesRecorder2

---
 pywr/recorders/_tables_recorders.pyx | 24 ++++++++++++------------
 pywr/recorders/recorders.py          |  4 ++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 2486c00..b282c4f 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -397,7 +397,7 @@ class TablesRecorder2(Recorder):
             else:
                 buffer = None
 
-            self._node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._node_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._storage_node_arrays = {}
         for where, node in self._storage_nodes:
@@ -405,7 +405,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([3, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._storage_node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._storage_node_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._index_parameter_arrays = {}
         for where, node in self._index_parameters:
@@ -413,7 +413,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.int32)
             else:
                 buffer = None
-            self._index_parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._index_parameter_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._parameter_arrays = {}
         for where, node in self._parameters:
@@ -421,7 +421,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._parameter_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._time_table = None
         # Create time table
@@ -530,7 +530,7 @@ class TablesRecorder2(Recorder):
 
         buffer_idx = idx % self._buffer_num_timesteps
 
-        for node, (arrays, buffer) in self._node_arrays.items():
+        for node, arrays, buffer in self._node_arrays.values():
             if buffer is None:
                 node.get_all_max_flow(out)
                 arrays.max_flow[idx, :] = np.reshape(out, scenario_shape)
@@ -546,7 +546,7 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(node._flow, scenario_shape)
 
-        for storage_node, (arrays, buffer) in self._storage_node_arrays.items():
+        for storage_node, arrays, buffer in self._storage_node_arrays.values():
             if buffer is None:
                 storage_node.get_all_max_volume(out)
                 arrays.max_volume[idx, :] = np.reshape(out, scenario_shape)
@@ -562,14 +562,14 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(storage_node._volume, scenario_shape)
 
-        for parameter, (arrays, buffer) in self._parameter_arrays.items():
+        for parameter, arrays, buffer in self._parameter_arrays.values():
             if buffer is None:
                 v = parameter.get_all_values()
                 arrays.parameter[idx, :] = np.reshape(v, scenario_shape)
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(parameter.get_all_values(), scenario_shape)
 
-        for index_parameter, (arrays, buffer) in self._index_parameter_arrays.items():
+        for index_parameter, arrays, buffer in self._index_parameter_arrays.values():
             if buffer is None:
                 i = index_parameter.get_all_indices()
                 arrays.parameter_index[idx, :] = np.reshape(i, scenario_shape)
@@ -592,20 +592,20 @@ class TablesRecorder2(Recorder):
         """Flush the buffer arrays to PyTables"""
         cdef int idx_start = idx + 1 - num_timesteps
 
-        for _, (arrays, buffer) in self._node_arrays.items():
+        for _, arrays, buffer in self._node_arrays.values():
             arrays.max_flow[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
             arrays.min_flow[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
             arrays.flow[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._storage_node_arrays.items():
+        for _, arrays, buffer in self._storage_node_arrays.values():
             arrays.max_volume[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
             arrays.min_volume[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
             arrays.volume[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._parameter_arrays.items():
+        for _, arrays, buffer in self._parameter_arrays.values():
             arrays.parameter[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._index_parameter_arrays.items():
+        for _, arrays, buffer in self._index_parameter_arrays.values():
             arrays.parameter_index[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
         if self._time_table is not None:
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 544e064..9bbd58c 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -549,7 +549,7 @@ class TablesRecorder(Recorder):
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
         for where, node in self._nodes:
-            self._arrays[node] = self.h5store.file.get_node(where)
+            self._arrays[where] = (node, self.h5store.file.get_node(where))
 
         self._time_table = None
         # Create time table
@@ -651,7 +651,7 @@ class TablesRecorder(Recorder):
             entry["index"] = idx
             entry.append()
 
-        for node, ca in self._arrays.items():
+        for node, ca in self._arrays.values():
             if isinstance(node, AbstractStorage):
                 ca[idx, :] = np.reshape(node.volume, scenario_shape)
             elif isinstance(node, AbstractNode):
-- 
2.43.0


From 3f7a3d37c004f2c0ed984fd815bc64b222ae7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 38/71] fix: set up TablesRecorder and TablesRecorder2 again
 when no run followed the last setup

---
 pywr/recorders/_tables_recorders.pyx | 2 ++
 pywr/recorders/recorders.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index b282c4f..f92676f 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -214,6 +214,8 @@ class TablesRecorder2(Recorder):
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
+        # Close the file if it is still open from an earlier setup
+        self.h5store = None
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 9bbd58c..49c7a57 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -418,6 +418,8 @@ class TablesRecorder(Recorder):
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
 
+        # Close the file if it is still open from an earlier setup
+        self.h5store = None
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
-- 
2.43.0


From af065134e16b143fe3b2a7f587180fb3cd9dec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 39/71] fix: flush the buffered time-steps of TablesRecorder2
 when it is finished before the end of the period

---
 pywr/recorders/_tables_recorders.pyx | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index f92676f..bead34b 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -99,6 +99,8 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        self._buffer_write_position = 0
+        self._buffer_last_index = 0
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -578,9 +580,13 @@ class TablesRecorder2(Recorder):
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
 
-        # Flush before we overwrite the data if this is the last entry in the buffer
-        if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
-            self.flush_buffer(idx, self._buffer_num_timesteps)
+        if self._buffer_num_timesteps > 1:
+            self._buffer_write_position = buffer_idx + 1
+            self._buffer_last_index = idx
+            # Flush before we overwrite the data if this is the last entry in the buffer
+            if self._buffer_write_position == self._buffer_num_timesteps:
+                self.flush_buffer(idx, self._buffer_num_timesteps)
+                self._buffer_write_position = 0
 
         if self._routes_flow_array is not None:
             routes_shape = [
@@ -615,17 +621,10 @@ class TablesRecorder2(Recorder):
 
     def finish(self):
 
-        if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
-            residual_timesteps = idx % self._buffer_num_timesteps
-
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-            if residual_timesteps > 0:
-                self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+        # Flush the time-steps that remain in the buffer
+        if self._buffer_write_position > 0:
+            self.flush_buffer(self._buffer_last_index, self._buffer_write_position)
+            self._buffer_write_position = 0
 
         if self._time_table is not None:
             self._time_table.flush()
-- 
2.43.0


From e12a3a389f1123334e2a8684a356a88c13da56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 40/71] fix: equality constraints of PygmoWrapper are given as
 the difference to their bound

---
 pywr/optimisation/pygmo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..521add9 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -24,7 +24,8 @@ class PygmoWrapper(BaseOptimisationWrapper):
             objectives.append(sign * value)
 
         # Return separate lists for equality and inequality constraints.
-        # pygmo requires that inequality constraints are all of the form g(x) <= 0
+        # pygmo requires that equality constraints are all of the form g(x) = 0 and
+        # inequality constraints are all of the form g(x) <= 0.
         # Therefore these are converted to this form from their respective bounds.
         eq_constraints = []
         ineq_constraints = []
@@ -35,7 +36,7 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From 07c0c66956fc3e13ca4fb89d7a23b74f78b7556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 41/71] fix: integer variables in PygmoWrapper

---
 pywr/optimisation/pygmo.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 521add9..058fb1d 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,14 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            assert len(x) == var.double_size + var.integer_size
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
-- 
2.43.0


From ac5a70cacf8f12978d7cb5331145458278106a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 42/71] fix: bounds of profiles and control curves given as
 lists of integers

---
 pywr/parameters/_control_curves.pyx | 4 ++--
 pywr/parameters/_parameters.pyx     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 4126199..1a77c92 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -457,7 +457,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
             if len(upper_bounds) != self.double_size:
                 raise ValueError('Length of upper_bounds should be equal to the length of `variable_indices` '
                                  '({}).'.format(self.double_size))
-            self._upper_bounds = np.array(upper_bounds)
+            self._upper_bounds = np.array(upper_bounds, dtype=np.float64)
 
         if lower_bounds is not None:
             if self.values is None or variable_indices is None:
@@ -466,7 +466,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
             if len(lower_bounds) != self.double_size:
                 raise ValueError('Length of lower_bounds should be equal to the length of `variable_indices` '
                                  '({}).'.format(self.double_size))
-            self._lower_bounds = np.array(lower_bounds)
+            self._lower_bounds = np.array(lower_bounds, dtype=np.float64)
 
     property values:
         def __get__(self):
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 0cc0923..599735d 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -706,7 +706,7 @@ cdef class MonthlyProfileParameter(Parameter):
         if np.isscalar(lower_bounds):
             lb = np.ones(self.double_size) * lower_bounds
         else:
-            lb = np.array(lower_bounds)
+            lb = np.array(lower_bounds, dtype=np.float64)
             if len(lb) != self.double_size:
                 raise ValueError("Lower bounds must be a scalar or array like of 12 values.")
         self._lower_bounds = lb
@@ -714,7 +714,7 @@ cdef class MonthlyProfileParameter(Parameter):
         if np.isscalar(upper_bounds):
             ub = np.ones(self.double_size) * upper_bounds
         else:
-            ub = np.array(upper_bounds)
+            ub = np.array(upper_bounds, dtype=np.float64)
             if len(ub) != self.double_size:
                 raise ValueError("Upper bounds must be a scalar or array like of 12 values.")
         self._upper_bounds = ub
@@ -1047,7 +1047,7 @@ cdef class RbfProfileParameter(Parameter):
         if np.isscalar(lower_bounds):
             lb = np.ones(self.double_size) * lower_bounds
         else:
-            lb = np.array(lower_bounds)
+            lb = np.array(lower_bounds, dtype=np.float64)
             if len(lb) != self.double_size:
                 raise ValueError("Lower bounds must be a scalar or array like with length equivalent to rbf values")
         self._lower_bounds = lb
@@ -1055,7 +1055,7 @@ cdef class RbfProfileParameter(Parameter):
         if np.isscalar(upper_bounds):
             ub = np.ones(self.double_size) * upper_bounds
         else:
-            ub = np.array(upper_bounds)
+            ub = np.array(upper_bounds, dtype=np.float64)
             if len(ub) != self.double_size:
                raise ValueError("Upper bounds must be a scalar or array like with length equivalent to rbf values")
         self._upper_bounds = ub
-- 
2.43.0


From 59ddf713ab1eb5f5bc7c0625fd091be715cd40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 43/71] fix: factors of aggregated nodes given by constant
 parameters with lpsolve: scale, offset and changes between runs

---
 pywr/solvers/__init__.py        |  2 +-
 pywr/solvers/cython_lpsolve.pyx | 41 +++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/pywr/solvers/__init__.py b/pywr/solvers/__init__.py
index 318b532..681eba7 100644
--- a/pywr/solvers/__init__.py
+++ b/pywr/solvers/__init__.py
@@ -327,7 +327,7 @@ else:
             return self._cy_solver.solve(model)
 
         def reset(self):
-            pass
+            return self._cy_solver.reset()
 
         @property
         def save_routes_flows(self):
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index aa7f5c6..ac62bcc 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -123,6 +123,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_cols
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -374,11 +375,9 @@ cdef class CythonLPSolveSolver:
         if len(aggregated):
             self.idx_row_aggregated = get_Norig_rows(self.prob)+1
 
+        aggregated_cols = []
         for agg_node in aggregated:
             nodes = agg_node.nodes
-            # NB this only works because the solver supports only fixed (i.e. ConstantParameter) factors
-            factors = [f.get_double_variables()[0] for f in agg_node.factors]
-            assert(len(nodes) == len(factors))
 
             ret = resize_lp(self.prob, get_Norig_rows(self.prob)+len(agg_node.nodes)-1, get_Norig_columns(self.prob))
             row = get_Norig_rows(self.prob)+1
@@ -386,10 +385,12 @@ cdef class CythonLPSolveSolver:
             cols = []
             for node in nodes:
                 cols.append([n for n, route in enumerate(routes) if node in route])
+            aggregated_cols.append(cols)
 
             # normalise factors
-            f0 = factors[0]
-            factors_norm = [f0/f for f in factors]
+            # NB this only works because the solver supports only fixed (i.e. ConstantParameter) factors
+            factors_norm = agg_node.get_factors_norm(None)
+            assert(len(nodes) == len(factors_norm))
 
             # update matrix
             for n in range(len(nodes)-1):
@@ -471,6 +472,36 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_cols = aggregated_cols
+
+    cpdef object reset(self):
+        """Update the factors of aggregated nodes, which can change between runs (e.g. during optimisation)."""
+        cdef AggregatedNode agg_node
+        cdef double[:] factors_norm
+        cdef int* ind
+        cdef double* val
+        cdef int n, row, length
+
+        if self.aggregated is None:
+            return  # not set up yet
+
+        row = self.idx_row_aggregated
+        for agg_node, cols in zip(self.aggregated, self.aggregated_cols):
+            factors_norm = agg_node.get_factors_norm(None)
+            for n in range(len(cols)-1):
+                length = len(cols[0])+len(cols[n+1])
+                ind = <int*>malloc(length * sizeof(int))
+                val = <double*>malloc(length * sizeof(double))
+                for i, c in enumerate(cols[0]):
+                    ind[i] = 1+c
+                    val[i] = 1.0
+                for i, c in enumerate(cols[n+1]):
+                    ind[len(cols[0])+i] = 1+c
+                    val[len(cols[0])+i] = -factors_norm[n+1]
+                set_rowex(self.prob, row, length, val, ind)
+                free(ind)
+                free(val)
+                row += 1
 
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
-- 
2.43.0


From f77dae4794f02889ba842a04706343eed861c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 44/71] fix: ControlCurveParameter does not share the array of
 values it is given

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 1a77c92..87993f7 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -472,7 +472,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.asarray(self._values)
         def __set__(self, values):
-            self._values = np.asarray(values, dtype=np.float64)
+            self._values = np.array(values, dtype=np.float64)
 
     property variable_indices:
         def __get__(self):
-- 
2.43.0


From 522a8dd87dacf595d9fb8bfb8e77f5c0bb203ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 45/71] fix: MultiModel applies the shared time-step to its
 sub-models

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..831a54d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From f94a1d97fff411b7474f6aa34356a839a8ab03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 46/71] fix: MultiModel.load uses the solver it is given

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 831a54d..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From 2f43b5b69dd20b6d6bc516f2d95728f436e95337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 47/71] fix: MultiModel.load accepts the path of a document as
 bytes

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..d10a791 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -72,7 +72,7 @@ class MultiModel:
         """
         if isinstance(data, (str, bytes, os.PathLike)):
             # argument is a filename
-            path = data
+            path = os.fsdecode(data)
             logger.info('Loading model from file: "{}"'.format(path))
             with open(path, "r") as f:
                 data = f.read()
-- 
2.43.0


From 855b9579844bf35d34fc8c636dbed86ec806c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 48/71] fix: MultiModel.run ends the clocks of all its
 sub-models, and refuses periods of different lengths

---
 pywr/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index d10a791..487b00d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -1,3 +1,4 @@
+import itertools
 import warnings
 from io import IOBase
 from pathlib import Path
@@ -253,10 +254,14 @@ class MultiModel:
             t1 = time.time()
 
             # Begin time-stepping
-            for timesteps in zip(*timesteppers):
+            for timesteps in itertools.zip_longest(*timesteppers):
                 for model, timestep in zip(self.models.values(), timesteps):
                     # Check all timesteps are the same
-                    if timestep.datetime != timesteps[0].datetime:
+                    if (
+                        timestep is None
+                        or timesteps[0] is None
+                        or timestep.datetime != timesteps[0].datetime
+                    ):
                         raise RuntimeError(
                             "Timesteps are not synchronised across all sub-models."
                         )
-- 
2.43.0


From 98e243ead01a46db48581f67584b55d6475ad5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 49/71] fix: parameters have no stale or undefined values
 before the first time-step

---
 pywr/parameters/_parameters.pyx | 14 ++++++++++++--
 pywr/parameters/licenses.py     |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 599735d..ab489db 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -62,7 +62,12 @@ cdef class Parameter(Component):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._Parameter__values = np.empty([num_comb], np.float64)
+        self._Parameter__values = np.zeros([num_comb], np.float64)
+
+    cpdef reset(self):
+        super(Parameter, self).reset()
+        # There is no value before the first time-step (another model might ask for it).
+        self._Parameter__values[...] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         raise NotImplementedError("Parameter must be subclassed")
@@ -1208,7 +1213,11 @@ cdef class IndexParameter(Parameter):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._IndexParameter__indices = np.empty([num_comb], np.int32)
+        self._IndexParameter__indices = np.zeros([num_comb], np.int32)
+
+    cpdef reset(self):
+        super(IndexParameter, self).reset()
+        self._IndexParameter__indices[...] = 0
 
     cdef calc_values(self, Timestep timestep):
         cdef ScenarioIndex scenario_index
@@ -2142,6 +2151,7 @@ cdef class FlowDelayParameter(Parameter):
         self._memory_pointer = 0
 
     cpdef reset(self):
+        super(FlowDelayParameter, self).reset()
         self._memory[...] = self.initial_flow
         self._memory_pointer = 0
 
diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 9db14b0..39af285 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -92,6 +92,7 @@ class StorageLicense(License):
         self._remaining[self._remaining < 0] = 0.0
 
     def reset(self):
+        super().reset()
         self._remaining[...] = self._amount
 
     @classmethod
-- 
2.43.0


From 374cb7effc51ba5c63433fe1b0adc7e6e8181085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 50/71] fix: MultiModel.run reports inconsistent scenarios as
 such, whatever the recorders

---
 pywr/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/model.py b/pywr/model.py
index 487b00d..bc531dd 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -246,6 +246,10 @@ class MultiModel:
         # Get each model's timestepper
         timesteppers = [m.timestepper for m in self.models.values()]
 
+        if self.dirty:
+            # Before the models are set up, otherwise there is nothing to finish
+            self._check_scenarios()
+
         try:
             if self.dirty:
                 self.setup()
-- 
2.43.0


From b84425584a45ce83539b0d8fe58f8d8878ec1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 51/71] fix: BisectionSearchModel accepts the parameter itself
 as bisect_parameter

---
 pywr/utils/bisect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 52df52c..188cb52 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -1,4 +1,5 @@
 from ..model import Model
+from ..parameters import Parameter
 import numpy as np
 import logging
 
@@ -60,7 +61,9 @@ class BisectionSearchModel(Model):
         # Setup the model first
         self.setup()
         # Get the bisection parameter
-        param = self.parameters[self.bisect_parameter]
+        param = self.bisect_parameter
+        if not isinstance(param, Parameter):
+            param = self.parameters[param]
         if param.double_size != 1 or param.integer_size != 0:
             raise ValueError(
                 "Bisection is only supported using a parameter with only a single double variable "
-- 
2.43.0


From 4386ac02e9d502e2797da0cbf08c7e08fc93d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 52/71] fix: a bisection may be defined by an included file

---
 pywr/utils/bisect.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 188cb52..6a86806 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -1,5 +1,6 @@
 from ..model import Model
 from ..parameters import Parameter
+import copy
 import numpy as np
 import logging
 
@@ -37,6 +38,11 @@ class BisectionSearchModel(Model):
 
     @classmethod
     def load_from_dict(cls, data, model=None, path=None, solver=None, **kwargs):
+        # The bisection may be defined by one of the included files
+        data = copy.deepcopy(data)
+        cls._load_includes(data, path)
+        data.pop("includes", None)
+
         model = super().load_from_dict(
             data, model=model, path=path, solver=solver, **kwargs
         )
-- 
2.43.0


From 3f012ebc2a22b23cde8d39f76987715d5192d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 53/71] fix: the model is set up again after a node was removed

---
 pywr/_model.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index ca16508..26d5a6e 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -971,6 +971,7 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        self.model.dirty = True
 
     def keys(self):
         for node in self._nodes():
-- 
2.43.0


From 3eadf4228b15504ca2eddaa4cfceb3725d2a2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 54/71] fix: disconnect removes the connections from storages
 and from and to compound nodes

---
 pywr/nodes.py | 54 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 7410a08..82b269a 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -145,31 +145,49 @@ class Connectable(object):
         if node is not None:
             self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
         else:
-            neighbors = self.model.graph.neighbors(self)
-            for neighbor in [neighbor for neighbor in neighbors]:
-                self._disconnect(neighbor, slot_name=slot_name, all_slots=all_slots)
+            graph = self.model.graph
+            sources = self._with_sub_nodes(self)
+            graph.remove_edges_from(
+                [
+                    (node1, node2)
+                    for node1 in sources
+                    for node2 in graph.successors(node1)
+                    if node2 not in sources
+                ]
+            )
+            self.model.dirty = True
+
+    @staticmethod
+    def _with_sub_nodes(node):
+        """Returns a list of the node and all the sub-nodes it consists of"""
+        nodes = []
+        for other in node.model.graph.nodes():
+            parent = other
+            while parent is not None and parent is not node:
+                parent = parent.parent
+            if parent is node:
+                nodes.append(other)
+        return nodes
 
     def _disconnect(self, node, slot_name=None, all_slots=True):
         """As disconnect, except node argument is required"""
-        disconnected = False
-        try:
-            self.model.graph.remove_edge(self, node)
-        except nx.exception.NetworkXError:
-            for node_slot in node.iter_slots(
-                slot_name=slot_name, is_connector=False, all_slots=all_slots
-            ):
-                try:
-                    self.model.graph.remove_edge(self, node_slot)
-                except nx.exception.NetworkXError:
-                    pass
-                else:
-                    disconnected = True
+        graph = self.model.graph
+        if slot_name is None and all_slots:
+            targets = self._with_sub_nodes(node)
         else:
-            disconnected = True
-        if not disconnected:
+            targets = list(node.iter_slots(slot_name=slot_name, is_connector=False))
+        # The connection may be made by sub-nodes of either node
+        edges = [
+            (node1, node2)
+            for node1 in self._with_sub_nodes(self)
+            for node2 in targets
+            if graph.has_edge(node1, node2)
+        ]
+        if not edges or node is self:
             raise nx.exception.NetworkXError(
                 "{} is not connected to {}".format(self, node)
             )
+        graph.remove_edges_from(edges)
         self.model.dirty = True
 
 
-- 
2.43.0


From 4b546d5bbbc48b2745a69657d6b81fb03f50c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 55/71] fix: a parameter added after a run is set up before the
 next one

---
 pywr/parameters/_parameters.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index ab489db..cb4994c 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -42,6 +42,8 @@ class TypeNotFoundError(KeyError):
 cdef class Parameter(Component):
     def __init__(self, *args, is_variable=False, **kwargs):
         super(Parameter, self).__init__(*args, **kwargs)
+        # The model needs to be set up (again) with this parameter
+        self.model.dirty = True
         self.is_variable = is_variable
         self.double_size = 0
         self.integer_size = 0
-- 
2.43.0


From dd991c956d9c86bb86cf685c088b0eec57638715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 56/71] fix: removing a compound node removes all the nodes it
 consists of

---
 pywr/nodes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 82b269a..c697cce 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1016,7 +1016,9 @@ class MultiSplitLink(PiecewiseLink):
                     nodes.append(nd)
                     valid_factors.append(r)
 
-            agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+            agg = AggregatedNode(
+                self.model, "{} Agg".format(self.name), nodes, parent=self
+            )
             agg.factors = valid_factors
 
     def costs():
@@ -1164,8 +1166,10 @@ class BreakLink(Node):
             max_volume=0,
             initial_volume=0,
             cost=0,
+            parent=self,
+            domain=kwargs.get("domain"),
         )
-        self.link = Link(model, name=link_name)
+        self.link = Link(model, name=link_name, parent=self)
 
         self.storage.connect(self.link)
 
@@ -1347,7 +1351,9 @@ class LossLink(Node):
         self.gross.connect(self.output)
         self.gross.connect(self.net)
 
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
+        self.agg = AggregatedNode(
+            model, name=agg_name, nodes=[self.net, self.output], parent=self
+        )
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self.loss_factor = kwargs.pop("loss_factor", 0.0)
 
-- 
2.43.0


From eb69632f938d24df71332ca9f53fa658819da2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 57/71] fix: a compound node which can not be created leaves no
 sub-nodes in the model

---
 pywr/nodes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index c697cce..4534ab9 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -206,7 +206,22 @@ class NodeMeta(type):
 
     def __call__(cls, *args, **kwargs):
         # Create new instance of Node (or subclass thereof)
-        node = type.__call__(cls, *args, **kwargs)
+        model = kwargs.get("model", args[0] if args else None)
+        graphs = [
+            (graph, len(graph))
+            for graph in (
+                getattr(model, "graph", None),
+                getattr(model, "component_graph", None),
+            )
+            if graph is not None
+        ]
+        try:
+            node = type.__call__(cls, *args, **kwargs)
+        except Exception:
+            # Remove any sub-nodes, and their components, which have been added already
+            for graph, size in graphs:
+                graph.remove_nodes_from(list(graph.nodes())[size:])
+            raise
         # Add node to Model graph. This needs to be done here, so that if the
         # __init__ method of Node raises an exception it is not added.
         node.model.graph.add_node(node)
-- 
2.43.0


From 5fb9ed8257e249c69a915fac5e4fbf9d03f553b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 58/71] fix: removing a DelayNode removes its parameter

---
 pywr/_model.pyx | 3 +++
 pywr/nodes.py   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 26d5a6e..6981a80 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -971,6 +971,9 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        # remove the parameters the node consists of
+        for parameter in getattr(node, "sub_parameters", ()):
+            self.model.component_graph.remove_node(parameter)
         self.model.dirty = True
 
     def keys(self):
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 4534ab9..47585c9 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1297,6 +1297,7 @@ class DelayNode(Node):
             initial_flow=initial_flow,
             name=param_name,
         )
+        self.sub_parameters = [self.delay_param]
         self.input = Input(
             model,
             name=input_name,
-- 
2.43.0


From fc3909984f9adbb99076c3760c4d70ec5e27c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 59/71] fix: calibration recorders can be aggregated, and
 compare one observed series with every scenario

---
 pywr/recorders/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/calibration.py b/pywr/recorders/calibration.py
index d249cc6..efa916a 100644
--- a/pywr/recorders/calibration.py
+++ b/pywr/recorders/calibration.py
@@ -32,7 +32,7 @@ class AbstractComparisonNodeRecorder(NumpyArrayNodeRecorder):
 
         self._aligned_observed = align_and_resample_dataframe(
             self.observed, self.model.timestepper.datetime_index
-        )
+        ).values
 
 
 class RootMeanSquaredErrorNodeRecorder(AbstractComparisonNodeRecorder):
-- 
2.43.0


From b702192ab8f4402e14cba66b0b6ce5ef475c497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 60/71] fix: the initial level of an aquifer can be read before
 the model is set up

---
 pywr/domains/groundwater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4175f5e..4e1a249 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -98,6 +98,7 @@ class KeatingAquifer(Storage):
         self._volumes = volumes
         self._levels = levels
         self._level_to_volume = interp1d(levels, volumes)
+        self._volume_to_level = interp1d(volumes, levels)
 
         self.max_volume = max(volumes)
         self.min_volume = min(volumes)
@@ -115,7 +116,7 @@ class KeatingAquifer(Storage):
     def initial_level():
         def fget(self):
             # get the initial level from the volume
-            return self.level.interp(self.initial_volume)
+            return self._volume_to_level(self.initial_volume)
 
         def fset(self, value):
             # actually sets the initial volume
-- 
2.43.0


From 0ed7efbb3f21f575d9aca3b9ab773d302bbc3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 61/71] fix: schematics of models with helper nodes of helper
 nodes

---
 pywr/notebook/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index a0b8721..1597264 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -190,9 +190,9 @@ def pywr_model_to_d3_json(model, attributes=False):
         node_source, node_target = edge
 
         # where a link is to/from a subnode, display a link to the parent instead
-        if node_source.parent is not None:
+        while node_source.parent is not None:
             node_source = node_source.parent
-        if node_target.parent is not None:
+        while node_target.parent is not None:
             node_target = node_target.parent
 
         if node_source is node_target:
-- 
2.43.0


From a74ba7a135464c45c79348e2649e835c1b9373b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 62/71] fix: schematics of documents leave out monthly and
 rolling virtual storages

---
 pywr/notebook/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index 1597264..465cf66 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -314,6 +314,8 @@ def pywr_json_to_d3_json(model, attributes=False):
             "aggregatednode",
             "aggregatedstorage",
             "seasonalvirtualstorage",
+            "monthlyvirtualstorage",
+            "rollingvirtualstorage",
         ]:
             # Do not add virtual nodes to the graph
             continue
-- 
2.43.0


From 16cc649ee6f7cfe739682675356c23f20fbc71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 63/71] fix: attributes of schematics of documents with lists
 or without parameters

---
 pywr/notebook/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index 465cf66..700eebe 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -339,7 +339,7 @@ def pywr_json_to_d3_json(model, attributes=False):
                         attr_val = get_parameter_from_registry(val["type"]).__name__
                     except KeyError:
                         pass
-                elif val in model["parameters"].keys():
+                elif isinstance(val, str) and val in model.get("parameters", {}):
                     param = model["parameters"][val]
                     attr_type = get_parameter_from_registry(param["type"]).__name__
                     attr_val = attr_val + " - " + attr_type
-- 
2.43.0


From a114b827c46ed7abd29a35488cba7aa278aebb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 64/71] fix: scenario_agg_func of routes_to_sankey_links was
 ignored

---
 pywr/notebook/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/sankey.py b/pywr/notebook/sankey.py
index 808039a..af88afd 100644
--- a/pywr/notebook/sankey.py
+++ b/pywr/notebook/sankey.py
@@ -19,7 +19,7 @@ def routes_to_sankey_links(
     time_agg_func = kwargs.pop("time_agg_func", np.mean)
 
     scenario_slice = kwargs.pop("scenario_slice", None)
-    scenario_agg_func = kwargs.pop("scenario_slice", np.mean)
+    scenario_agg_func = kwargs.pop("scenario_agg_func", np.mean)
 
     sources = defaultdict(lambda: defaultdict(lambda: 0.0))
 
-- 
2.43.0


From 595203ddb4bd075f00f8f01230e9b693e83903f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:11 +0000
Subject: [PATCH 65/71] fix: another selection of scenarios takes effect in the
 next run

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 3be0fc8..5c3034c 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -4,7 +4,8 @@ from .parameters._parameters cimport Parameter
 cdef class Scenario:
     cdef basestring _name
     cdef int _size
-    cdef public slice slice
+    cdef slice _slice
+    cdef object _model
     cdef object _ensemble_names
 
 cdef class ScenarioCollection:
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index db19184..9aceff2 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -44,7 +44,8 @@ cdef class Scenario:
         if size < 1:
             raise ValueError("Size must be greater than or equal to 1.")
         self._size = size
-        self.slice = slice
+        self._model = model
+        self._slice = slice
         self.ensemble_names = ensemble_names
         # Do this last so only set on the model if no error is raised.
         model.scenarios.add_scenario(self)
@@ -57,6 +58,15 @@ cdef class Scenario:
         def __get__(self):
             return self._name
 
+    property slice:
+        def __get__(self):
+            return self._slice
+
+        def __set__(self, value):
+            self._slice = value
+            # Another selection of ensembles requires the model to be set up again
+            self._model.dirty = True
+
     property ensemble_names:
         def __get__(self):
             if self._ensemble_names is None:
@@ -135,6 +145,8 @@ cdef class ScenarioCollection:
             return self._user_combinations
 
         def __set__(self, values):
+            # Another selection of combinations requires the model to be set up again
+            self.model.dirty = True
             if values is None:
                 self._user_combinations = None
                 return
-- 
2.43.0


From e7457d17749559d4c1829683fd471d22e1c20d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 66/71] fix: changed values of nodes take effect in the next
 run

---
 pywr/_core.pyx                  |   1 +
 pywr/nodes.py                   |  40 ++++++++-
 pywr/solvers/cython_glpk.pyx    | 150 ++++++++++++++++++--------------
 pywr/solvers/cython_lpsolve.pyx |  27 +++---
 4 files changed, 134 insertions(+), 84 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 9aceff2..aaf9ac1 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1530,6 +1530,7 @@ cdef class VirtualStorage(Storage):
 
         def __set__(self, value):
             self._factors = np.array(value, dtype=np.float64)
+            self.model.dirty = True
 
     cpdef after(self, Timestep ts, double[:] adjustment=None):
         cdef int i
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 47585c9..5130862 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1370,15 +1370,47 @@ class LossLink(Node):
         self.agg = AggregatedNode(
             model, name=agg_name, nodes=[self.net, self.output], parent=self
         )
-        self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
-        self.loss_factor = kwargs.pop("loss_factor", 0.0)
+        loss_factor_type = kwargs.pop("loss_factor_type", "net")
+        loss_factor = kwargs.pop("loss_factor", 0.0)
 
         super().__init__(model, name, **kwargs)
+        self.loss_factor_type = loss_factor_type
+        self.loss_factor = loss_factor
+
+    def loss_factor_type():
+        def fget(self):
+            return self._loss_factor_type
+
+        def fset(self, value):
+            self._loss_factor_type = value
+            # Another type requires the model to be set up again
+            self.model.dirty = True
+
+        return locals()
+
+    loss_factor_type = property(**loss_factor_type())
+
+    def loss_factor():
+        def fget(self):
+            return self._loss_factor
+
+        def fset(self, value):
+            self._loss_factor = value
+            # Another factor requires the model to be set up again
+            self.model.dirty = True
+
+        return locals()
+
+    loss_factor = property(**loss_factor())
 
     def setup(self, model):
         super().setup(model)
         value = self.loss_factor
 
+        # All of the net flow is available, unless there is a 100% loss (see below).
+        self.agg.nodes = [self.net, self.output]
+        self.agg.max_flow = float("inf")
+
         if value == 0.0:
             # 0% loss; no flow to the output loss node.
             self.agg.factors = None
@@ -1387,7 +1419,9 @@ class LossLink(Node):
             # 100% loss; all flow to the output loss node
             self.agg.factors = None
             self.output.max_flow = float("inf")
-            self.net.max_flow = 0.0
+            # The maximum flow of the net node is left as it is for another loss factor
+            self.agg.nodes = [self.net]
+            self.agg.max_flow = 0.0
         else:
             self.output.max_flow = float("inf")
             if self.loss_factor_type == "net":
diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index a9dbfd4..32d37c8 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -425,10 +425,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         # Find cross-domain routes
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
-        nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
         non_storages = []
-        non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
-        non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
         storages = []
         virtual_storages = []
         aggregated_with_factors = []
@@ -496,21 +493,6 @@ cdef class CythonGLPKSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        # Calculate the fixed costs
-        for some_node in self.all_nodes:
-            try:
-                fixed_cost = some_node.has_fixed_cost
-            except AttributeError:
-                fixed_cost = False
-
-            if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-                self.node_costs_arr[data.id] = cost
-            else:
-                nodes_with_dynamic_cost.append(some_node)
-
         cross_domain_row = 0
         for row, node in enumerate(non_storages):
             node._AbstractNode__data.row = row
@@ -543,12 +525,6 @@ cdef class CythonGLPKSolver(GLPKSolver):
             finally:
                 free(ind)
                 free(val)
-            # Now test whether this node has fixed flow constraints
-            if self.set_fixed_flows_once and node.has_constant_flows:
-                non_storages_with_constant_bounds.append(node)
-            else:
-                non_storages_with_dynamic_bounds.append(node)
-
             # Add constraint for cross-domain routes
             # i.e. those from a demand to a supply
             if node in cross_domain_cols:
@@ -731,9 +707,6 @@ cdef class CythonGLPKSolver(GLPKSolver):
 
         self.routes = routes
         self.non_storages = non_storages
-        self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
-        self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
-        self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
@@ -763,9 +736,46 @@ cdef class CythonGLPKSolver(GLPKSolver):
     def reset(self):
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
+        self._update_fixed_costs()
+        self._update_bounds_categories()
         self._update_nonstorage_constant_bounds()
         self._update_constant_agg_factors()
 
+    cdef int _update_fixed_costs(self) except -1:
+        """Update the fixed costs, which can be changed between runs without another setup."""
+        cdef AbstractNode some_node
+        cdef AbstractNodeData data
+        cdef double cost
+        if self.all_nodes is None:
+            return 0
+        self.nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
+        for some_node in self.all_nodes:
+            try:
+                fixed_cost = some_node.has_fixed_cost
+            except AttributeError:
+                fixed_cost = False
+
+            if self.set_fixed_costs_once and fixed_cost:
+                # With a fixed cost this should work with no scenario index
+                cost = some_node.get_cost(None)
+                data = some_node._AbstractNode__data
+                self.node_costs_arr[data.id] = cost
+            else:
+                self.nodes_with_dynamic_cost.append(some_node)
+
+    cdef int _update_bounds_categories(self) except -1:
+        """Find the nodes with constant bounds. Bounds can be changed between runs without another setup."""
+        cdef Node node
+        if self.non_storages is None:
+            return 0
+        self.non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
+        self.non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
+        for node in self.non_storages:
+            if self.set_fixed_flows_once and node.has_constant_flows:
+                self.non_storages_with_constant_bounds.append(node)
+            else:
+                self.non_storages_with_dynamic_bounds.append(node)
+
     cdef int _update_nonstorage_constant_bounds(self) except -1:
         """Update the bounds of non-storage where they are constants.
 
@@ -1197,11 +1207,8 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         # Find cross-domain routes
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
-        nodes_with_dynamic_cost = []
         link_nodes = []
         non_storages = []
-        non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
-        non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
         storages = []
         virtual_storages = []
         aggregated_with_factors = []
@@ -1270,32 +1277,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        self.edge_fixed_cost_arr[...] = 0.0
-        # Calculate fixed costs
-        for some_node in self.all_nodes:
-            try:
-                fixed_cost = some_node.has_fixed_cost
-            except AttributeError:
-                fixed_cost = False
-
-            if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-
-                # Link nodes have edges connected upstream & downstream. We apply
-                # half the cost assigned to the node to all the connected edges.
-                # The edge costs are then the mean of the node costs at either end.
-                if data.is_link:
-                    cost /= 2
-
-                for col in data.in_edges:
-                    self.edge_fixed_cost_arr[col] += cost
-                for col in data.out_edges:
-                    self.edge_fixed_cost_arr[col] += cost
-            else:
-                nodes_with_dynamic_cost.append(some_node)
-
         cross_domain_row = 0
         for row, node in enumerate(non_storages):
             node._AbstractNode__data.row = row
@@ -1336,12 +1317,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 free(ind)
                 free(val)
 
-            # Now test whether this node has constant flow constraints
-            if self.set_fixed_flows_once and node.has_constant_flows:
-                non_storages_with_constant_bounds.append(node)
-            else:
-                non_storages_with_dynamic_bounds.append(node)
-
             # Add constraint for cross-domain routes
             # i.e. those from a demand to a supply
             if node in cross_domain_cols:
@@ -1543,9 +1518,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 free(val)
 
         self.non_storages = non_storages
-        self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
-        self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
-        self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
@@ -1575,9 +1547,57 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
     def reset(self):
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
+        self._update_fixed_costs()
+        self._update_bounds_categories()
         self._update_nonstorage_constant_bounds()
         self._update_constant_agg_factors()
 
+    cdef int _update_fixed_costs(self) except -1:
+        """Update the fixed costs, which can be changed between runs without another setup."""
+        cdef AbstractNode some_node
+        cdef AbstractNodeData data
+        cdef double cost
+        if self.all_nodes is None:
+            return 0
+        self.nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
+        self.edge_fixed_cost_arr[...] = 0.0
+        for some_node in self.all_nodes:
+            try:
+                fixed_cost = some_node.has_fixed_cost
+            except AttributeError:
+                fixed_cost = False
+
+            if self.set_fixed_costs_once and fixed_cost:
+                # With a fixed cost this should work with no scenario index
+                cost = some_node.get_cost(None)
+                data = some_node._AbstractNode__data
+
+                # Link nodes have edges connected upstream & downstream. We apply
+                # half the cost assigned to the node to all the connected edges.
+                # The edge costs are then the mean of the node costs at either end.
+                if data.is_link:
+                    cost /= 2
+
+                for col in data.in_edges:
+                    self.edge_fixed_cost_arr[col] += cost
+                for col in data.out_edges:
+                    self.edge_fixed_cost_arr[col] += cost
+            else:
+                self.nodes_with_dynamic_cost.append(some_node)
+
+    cdef int _update_bounds_categories(self) except -1:
+        """Find the nodes with constant bounds. Bounds can be changed between runs without another setup."""
+        cdef Node node
+        if self.non_storages is None:
+            return 0
+        self.non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
+        self.non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
+        for node in self.non_storages:
+            if self.set_fixed_flows_once and node.has_constant_flows:
+                self.non_storages_with_constant_bounds.append(node)
+            else:
+                self.non_storages_with_dynamic_bounds.append(node)
+
     cdef int _update_nonstorage_constant_bounds(self) except -1:
         """Update the bounds of non-storage where they are constants.
         
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index ac62bcc..ef138c2 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -124,6 +124,7 @@ cdef class CythonLPSolveSolver:
     cdef list virtual_storages
     cdef list aggregated
     cdef list aggregated_cols
+    cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -198,9 +199,7 @@ cdef class CythonLPSolveSolver:
                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver \
                                         instead".format(some_node.name))
                     aggregated.append(some_node)
-                if some_node.min_flow > -inf or \
-                   some_node.max_flow < inf:
-                    aggregated_min_max.append(some_node)
+                aggregated_min_max.append(some_node)
 
         if len(routes) == 0:
             raise ModelStructureError("Model has no valid routes")
@@ -414,18 +413,8 @@ cdef class CythonLPSolveSolver:
             self.idx_row_aggregated_min_max = get_Norig_rows(self.prob)+1
             ret = resize_lp(self.prob, get_Norig_rows(self.prob)+len(aggregated_min_max), get_Norig_columns(self.prob))
 
-        for row, agg_node in enumerate(aggregated_min_max):
-            row = self.idx_row_aggregated_min_max + row
+        for agg_node in aggregated_min_max:
             nodes = agg_node.nodes
-            min_flow = agg_node.min_flow
-            max_flow = agg_node.max_flow
-            if min_flow is None:
-                min_flow = -inf
-            if max_flow is None:
-                max_flow = inf
-            min_flow = inf_to_dbl_max(min_flow)
-            max_flow = inf_to_dbl_max(max_flow)
-
             weights = agg_node.flow_weights
             if weights is None:
                 weights = [1.0]*len(nodes)
@@ -445,8 +434,8 @@ cdef class CythonLPSolveSolver:
             for i, col in enumerate(matrix):
                 ind[i] = 1+col
                 val[i] = matrix[col]
+            # The limits are set in reset, because they can change between runs
             add_constraintex(self.prob, length, val, ind, EQ, 0.0)
-            set_row_bnds(self.prob, row, min_flow, max_flow)
             free(ind)
             free(val)
 
@@ -473,9 +462,10 @@ cdef class CythonLPSolveSolver:
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
         self.aggregated_cols = aggregated_cols
+        self.aggregated_min_max = aggregated_min_max
 
     cpdef object reset(self):
-        """Update the factors of aggregated nodes, which can change between runs (e.g. during optimisation)."""
+        """Update the factors and limits of aggregated nodes, which can change between runs (e.g. during optimisation)."""
         cdef AggregatedNode agg_node
         cdef double[:] factors_norm
         cdef int* ind
@@ -503,6 +493,11 @@ cdef class CythonLPSolveSolver:
                 free(val)
                 row += 1
 
+        row = self.idx_row_aggregated_min_max
+        for agg_node in self.aggregated_min_max:
+            set_row_bnds(self.prob, row, inf_to_dbl_max(agg_node.min_flow), inf_to_dbl_max(agg_node.max_flow))
+            row += 1
+
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
         cdef int scenario_id
-- 
2.43.0


From 84f7bec1d51ca355395193a170865c82654f94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 67/71] fix: changed dependencies of parameters take effect in
 the next run, also of components used twice

---
 pywr/_component.pyx                 | 19 ++++++++++++-------
 pywr/parameters/_control_curves.pyx |  8 ++++++--
 pywr/parameters/_hydropower.pyx     |  8 ++++++++
 pywr/parameters/_parameters.pyx     | 12 ++++++++++++
 pywr/parameters/_thresholds.pyx     |  2 ++
 5 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 1b00d6b..b814818 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -15,21 +15,26 @@ class GraphInterface:
     def graph(self):
         return self.obj.model.component_graph
 
+    def _edge(self, item):
+        return (item, self.obj) if self is self.obj.children else (self.obj, item)
+
     def add(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.add_edge(item, self.obj)
-        else:
-            self.graph.add_edge(self.obj, item)
+        edge = self._edge(item)
+        # The same component can be used more than once
+        count = self.graph.edges[edge].get("count", 1) if self.graph.has_edge(*edge) else 0
+        self.graph.add_edge(*edge, count=count + 1)
 
     def remove(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.remove_edge(item, self.obj)
+        edge = self._edge(item)
+        count = self.graph.edges[edge].get("count", 1) if self.graph.has_edge(*edge) else 0
+        if count > 1:
+            self.graph.add_edge(*edge, count=count - 1)
         else:
-            self.graph.remove_edge(self.obj, item)
+            self.graph.remove_edge(*edge)
 
     def clear(self):
         for n in self._members:
diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 87993f7..c2e0052 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -66,6 +66,8 @@ cdef class BaseControlCurveParameter(Parameter):
                 control_curve.parents.add(self)
                 _new_control_curves.append(control_curve)
             self._control_curves = list(_new_control_curves)
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     property storage_node:
         def __get__(self):
@@ -166,7 +168,7 @@ cdef class ControlCurveInterpolatedParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.array(self._values)
         def __set__(self, values):
-            self._values = np.array(values)
+            self._values = np.array(values, dtype=np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int j
@@ -271,7 +273,7 @@ cdef class ControlCurvePiecewiseInterpolatedParameter(BaseControlCurveParameter)
                                  'control curves ({}).'.format(nvalues))
             elif len(values[0]) != 2:
                 raise ValueError('The second dimension of values should be of length 2.')
-            self._values = np.array(values)
+            self._values = np.array(values, dtype=np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int j, ncc
@@ -341,6 +343,8 @@ cdef class ControlCurveIndexParameter(IndexParameter):
                 control_curve.parents.add(self)
                 _new_control_curves.append(control_curve)
             self._control_curves = list(_new_control_curves)
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first control curve the storage is above
diff --git a/pywr/parameters/_hydropower.pyx b/pywr/parameters/_hydropower.pyx
index 07e98bb..a0b9194 100644
--- a/pywr/parameters/_hydropower.pyx
+++ b/pywr/parameters/_hydropower.pyx
@@ -139,6 +139,8 @@ cdef class HydropowerTargetParameter(Parameter):
                 self.children.remove(self._water_elevation_parameter)
             self.children.add(parameter)
             self._water_elevation_parameter = parameter
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     property target:
         def __get__(self):
@@ -148,6 +150,8 @@ cdef class HydropowerTargetParameter(Parameter):
                 self.children.remove(self._target)
             self.children.add(parameter)
             self._target = parameter
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     property max_flow:
         def __get__(self):
@@ -157,6 +161,8 @@ cdef class HydropowerTargetParameter(Parameter):
                 self.children.remove(self._max_flow)
             self.children.add(parameter)
             self._max_flow = parameter
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     property min_flow:
         def __get__(self):
@@ -166,6 +172,8 @@ cdef class HydropowerTargetParameter(Parameter):
                 self.children.remove(self._min_flow)
             self.children.add(parameter)
             self._min_flow = parameter
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int i
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index cb4994c..9aaf526 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1499,10 +1499,14 @@ cdef class AggregatedParameter(Parameter):
     cpdef add(self, Parameter parameter):
         self.parameters.append(parameter)
         parameter.parents.add(self)
+        # Another dependency can change the order of the components
+        self.model.dirty = True
 
     cpdef remove(self, Parameter parameter):
         self.parameters.remove(parameter)
         parameter.parents.remove(self)
+        # Another dependency can change the order of the components
+        self.model.dirty = True
 
     def __len__(self):
         return len(self.parameters)
@@ -1619,10 +1623,14 @@ cdef class AggregatedIndexParameter(IndexParameter):
     cpdef add(self, Parameter parameter):
         self.parameters.append(parameter)
         parameter.parents.add(self)
+        # Another dependency can change the order of the components
+        self.model.dirty = True
 
     cpdef remove(self, Parameter parameter):
         self.parameters.remove(parameter)
         parameter.parents.remove(self)
+        # Another dependency can change the order of the components
+        self.model.dirty = True
 
     def __len__(self):
         return len(self.parameters)
@@ -1723,6 +1731,8 @@ cdef class DivisionParameter(Parameter):
 
             self._numerator = parameter
             self.children.add(parameter)
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     property denominator:
         def __get__(self):
@@ -1734,6 +1744,8 @@ cdef class DivisionParameter(Parameter):
 
             self._denominator = parameter
             self.children.add(parameter)
+            # Another dependency can change the order of the components
+            self.model.dirty = True
 
     cdef calc_values(self, Timestep timestep):
         cdef int i
diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index cfec7a9..09ecfc0 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -128,6 +128,8 @@ cdef class AbstractThresholdParameter(IndexParameter):
             if isinstance(value, Parameter):
                 self._threshold_parameter = value
                 self.children.add(self._threshold_parameter)
+                # Another dependency can change the order of the components
+                self.model.dirty = True
             else:
                 self._threshold = value
 
-- 
2.43.0


From ae305f9c12fb41439954e2a42c89a2ac33d1129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 68/71] fix: an error during a run was replaced by errors of
 unprepared components when the model is finished

---
 pywr/_model.pyx |  9 ++++++++-
 pywr/model.py   | 12 +++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 6981a80..7f29909 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -649,7 +649,14 @@ class Model(object):
                 self.timestep = timestep
                 ret = self._step()
             t2 = time.time()
-        finally:
+        except BaseException:
+            # Finish what can be finished without hiding the original error
+            try:
+                self.finish()
+            except Exception:
+                logger.exception("An error occurred finishing the model after a failed run")
+            raise
+        else:
             self.finish()
         t3 = time.time()
 
diff --git a/pywr/model.py b/pywr/model.py
index bc531dd..232cb79 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -273,7 +273,17 @@ class MultiModel:
                 # Perform the internal timestep
                 _ = self._step()
             t2 = time.time()
-        finally:
+        except BaseException:
+            # Finish what can be finished without hiding the original error
+            for model in self.models.values():
+                try:
+                    model.finish()
+                except Exception:
+                    logger.exception(
+                        "An error occurred finishing a sub-model after a failed run"
+                    )
+            raise
+        else:
             for model in self.models.values():
                 model.finish()
         t3 = time.time()
-- 
2.43.0


From 5b75c3fffc8c69dce0525b760aef382b59a4901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:35 +0000
Subject: [PATCH 69/71] fix: set the model up again after a set-up that failed

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 7f29909..654d0fa 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -699,6 +699,8 @@ class Model(object):
             A CSV filename to write a dataframe of profile checkpoints. Has no effect if profile is not True.
         """
         logger.info('Setting up model ...')
+        # Stays dirty until the setup is complete
+        self.dirty = True
         self.timestepper.setup()
         self.scenarios.setup()
         length_changed = self.timestepper.reset()
-- 
2.43.0


From 315cbf8b06a2f273c32f250f78ae9829565c5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:34 +0000
Subject: [PATCH 70/71] fix: refuse factors and flow weights whose number is
 not that of the nodes

---
 pywr/_core.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index aaf9ac1..9e9b985 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -763,6 +763,14 @@ cdef class AggregatedNode(AbstractNode):
 
     component_attrs = ["min_flow", "max_flow", "factors"]
 
+    cpdef setup(self, model):
+        """Called before the first run of the model"""
+        AbstractNode.setup(self, model)
+        if self._factors is not None and len(self._factors) != len(self._nodes):
+            raise ValueError("AggregatedNode '{}' has {} nodes but {} factors.".format(self.name, len(self._nodes), len(self._factors)))
+        if self._flow_weights is not None and len(self._flow_weights) != len(self._nodes):
+            raise ValueError("AggregatedNode '{}' has {} nodes but {} flow weights.".format(self.name, len(self._nodes), len(self._flow_weights)))
+
     property nodes:
         def __get__(self):
             return self._nodes
@@ -1512,6 +1520,12 @@ cdef class VirtualStorage(Storage):
         self.virtual = True
         self.active = True
 
+    cpdef setup(self, model):
+        """Called before the first run of the model"""
+        Storage.setup(self, model)
+        if len(self._factors) != len(self._nodes):
+            raise ValueError("{} '{}' has {} nodes but {} factors.".format(self.__class__.__name__, self.name, len(self._nodes), len(self._factors)))
+
     cpdef reset(self):
         self.active = True
         Storage.reset(self)
-- 
2.43.0


From 9b1ee2a4dfffa19fe9ce7da6a52d5eefe2ccf387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 71/71] fix: settings of a rolling mean flow recorder in a
 document were ignored

---
 pywr/recorders/_recorders.pyx | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 96fe864..cc8af5c 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1723,17 +1723,8 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
-        if "timesteps" in data:
-            timesteps = int(data["timesteps"])
-        else:
-            timesteps = None
-        if "days" in data:
-            days = int(data["days"])
-        else:
-            days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+        node = model.nodes[data.pop("node")]
+        return cls(model, node, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0

