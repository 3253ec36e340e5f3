From e1ea430849f558dd647ad075e4373d32cfbbdb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:11 +0000
Subject: [PATCH 01/30] fix: reject routes that jump between known but not
 adjacent blocks

check_path_continuity only raised when one of the two blocks was unknown.
Two known blocks that are not neighbours in the network were accepted.
The message for an unknown second block named the first one.
---
 data_formatting/data_formatting/time_table_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index 28ef4d1..fd3f758 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -106,4 +106,5 @@ def check_path_continuity(paths, data_path_check):
             if data_path_check.isin([paths[i]]).any(1).any() == False:
                 raise AssertionError(paths[i], "not present in possible paths")
             if data_path_check.isin([paths[i + 1]]).any(1).any() == False:
-                raise AssertionError(paths[i], "not present in possible paths")
+                raise AssertionError(paths[i + 1], "not present in possible paths")
+            raise AssertionError(paths[i], paths[i + 1], "not present as a pair in possible paths")
-- 
2.43.0


From 531dada05ea94cdf45aed5f42cdf3e7e0337772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:37 +0000
Subject: [PATCH 02/30] fix: keep the last run of common blocks when the lists
 end differently

check_common_specific_elements_lists dropped the pending run of common
elements when the end of the first list is not part of the second one.
Two trains sharing only the first blocks of a section were reported as
having nothing in common.
---
 data_formatting/data_formatting/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 40b12fa..05f7263 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -46,6 +46,8 @@ def check_common_specific_elements_lists(list1, list2):
                 i += 1
         else:
             i += 1
+    if short:
+        check_elements.append(short)
     return check_elements
 
 
-- 
2.43.0


From 3e85f62e79dc3043d68503cb99cdd5aea1a975f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:51:49 +0000
Subject: [PATCH 03/30] fix: add the turnaround time to the stay at
 intermediate stations

The flag for the first station was never reset in get_taus_stop, so a
turnaround at a later station was reported as preparation time instead
of being added to the minimal stay.
---
 data_formatting/data_formatting/make_J_taus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3f279e8..95491fe 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -467,8 +467,7 @@ def get_taus_stop(train_dict: dict, important_stations: dict, trains=None, r=1):
         trains = paths.keys()
     for train in trains:
         for i, station in enumerate(paths[train]):
-            if i == 0:
-                first_station = True
+            first_station = i == 0
             if (i == len(paths[train]) - 1) and subsequent_block(
                 train_dict[train][1]["path"].tolist(),
                 blocks_list_4station(train_dict[train][1], station, important_stations)[
-- 
2.43.0


From fdce52a5568b61c9e27e9e91f9c2169606e885e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:52:12 +0000
Subject: [PATCH 04/30] fix: group trains on a line only if they use the same
 blocks

A train whose path between two stations is part of another one's path,
e.g. with no block in between, was put in the group of that other path.
---
 data_formatting/data_formatting/make_J_taus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 95491fe..e6d5f80 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -389,9 +389,9 @@ def jd(time_tables_dict, important_stations, imp_stations=None):
                 added = False
                 while i < len(jd[s][s2]):
                     path_check = (
-                        common_path(
-                            timetable, time_tables_dict[jd[s][s2][i][0]][1], s, s2
-                        )
+                        get_blocks_b2win_station4train(
+                            time_tables_dict[jd[s][s2][i][0]][1], s, s2
+                        )[0]
                         == get_blocks_b2win_station4train(timetable, s, s2)[0]
                     )
                     if jd[s][s2][i] != [] and path_check == True:
-- 
2.43.0


From 567b1f364227de7aab63048271d2baf38814d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:54:44 +0000
Subject: [PATCH 05/30] fix: list head-on pairs with trains ending at one end
 of the section

josingle looked only at trains that go beyond a station, so a pair with a
train ending its route at that station could be missed, depending on
which other pairs had been found before.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index e6d5f80..ee12bc3 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -194,7 +194,7 @@ def josingle(trains_dict, important_stations, imp_stations=None):
 
     init_josingle = {}
     imp_stations_list, trains_at_stations = important_trains_and_stations(
-        trains_dict, important_stations, imp_stations, True
+        trains_dict, important_stations, imp_stations, False
     )
 
     for s in imp_stations_list:
-- 
2.43.0


From 040153711408e158dea2e3fa8ae6bac511f90483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:58:26 +0000
Subject: [PATCH 06/30] fix: read switch cells that are empty or hold a plain
 number

Collecting switch conflicts stopped with an error if a train passed
through a row of the network description with an empty switches cell or
with a single switch kept as a number.
---
 .../data_formatting/make_switch_set.py        | 36 +++++++++----------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index f161466..b8e005b 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -25,6 +25,20 @@ def block_indices_to_interprete_switches(data_path_check, previous_block, next_b
     return list_pos_previous_block, list_pos_next_block
 
 
+def switches_from_cell(cell):
+    """returns the set of switches written in the cell of the network description
+
+    the spreadsheet may keep "47,53" as the number 47.53, a single switch
+    as a number, and leaves the cell empty if there are no switches
+    """
+    if pd.isna(cell):
+        return set()
+    if isinstance(cell, str):
+        switches = eval(cell)
+        return set([switches]) if type(switches) is int else set(switches)
+    return set(int(number) for number in str(cell).split("."))
+
+
 def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
 
     train = j
@@ -54,16 +68,7 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
 
             if len(switch_position) != 0:
                 for s in switch_position:
-                    switch = data_path_check["switches"][s]
-                    if type(switch) is float:
-                        switch = eval(str(switch).replace(".", ","))
-                        switch = set(switch)
-                    else:
-                        switch = eval(switch)
-                        if type(switch) != int:
-                            switch = set(switch)
-                        else:
-                            switch = set([switch])
+                    switch = switches_from_cell(data_path_check["switches"][s])
             else:
                 switch = set()
 
@@ -99,16 +104,7 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
 
             if len(switch_position) != 0:
                 for s in switch_position:
-                    switch = data_path_check["switches"][s]
-                    if type(switch) is float:
-                        switch = eval(str(switch).replace(".", ","))
-                        switch = set(switch)
-                    else:
-                        switch = eval(switch)
-                        if type(switch) != int:
-                            switch = set(switch)
-                        else:
-                            switch = set([switch])
+                    switch = switches_from_cell(data_path_check["switches"][s])
             else:
                 switch = set()
 
-- 
2.43.0


From 1c4ee87ca8fb7bcdca423c32ef12e3d22fda78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:58:26 +0000
Subject: [PATCH 07/30] fix: delay only the train that was named

add_delay compared numbers by substring, so delaying train 6 delayed
train 4606 as well.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 data_formatting/data_formatting/utils.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 3e0e6dd..99a5bab 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -88,7 +88,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 05f7263..1a3bf8b 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -492,7 +492,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
-- 
2.43.0


From 4b6fe0cfd8802629e493aa7e69bd3c73c9c5ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:58:59 +0000
Subject: [PATCH 08/30] fix: give the shunting weight only to shunting trains

A train whose number begins with the number of a train with a shunting
partner, like 10 next to 1 and 19, was weighted as an empty run.
---
 data_formatting/data_formatting/scheduling_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 99a5bab..558fb3d 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -109,10 +109,11 @@ def make_weights(
     }
 
     penalty_weights = {}
+    shunting_trains = [pair[1] for pair in get_trains_pair9(train_dict)]
     for train in train_dict.keys():
         type_of_train = train_dict[train][0][0]
         weight = trains_weights[type_of_train]
-        if train // 10 in flatten(get_trains_pair9(train_dict)):
+        if train in shunting_trains:
             weight = empty
         station = train_important_stations(train_dict[train][1])[-1]
         if train in skip_stations and station == skip_stations[train]:
-- 
2.43.0


From 150e1c27a43fba21d7fc8841d6335e4dbfb7bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:14:24 +0000
Subject: [PATCH 09/30] fix: compare the whole name of the station where a
 train ends

Track occupation was left out for a train at every station whose name is
a part of the name of the station it ends at, for example at KO for a
train ending at KO(STM). Stations named by numbers caused an error.
---
 railway_solvers/railway_solvers/linear_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index bfe5b25..287000e 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -511,8 +511,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    skip = "skip_station" in train_sets and jp in train_sets["skip_station"] and s in train_sets["skip_station"][jp]
-                    if not skip:
+                    if not skip_station(jp, s, train_sets):
                         keep_trains_order(
                             s,
                             j,
@@ -533,8 +532,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             d_max,
                         )
 
-                    skip = "skip_station" in train_sets and j in train_sets["skip_station"] and s in train_sets["skip_station"][j]
-                    if not skip:
+                    if not skip_station(j, s, train_sets):
                         trains_order_at_s(
                             s,
                             j,
-- 
2.43.0


From 4233dcc4ea4a6712bcd9f4fda8c639b9c1ce2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:06 +0000
Subject: [PATCH 10/30] fix: keep the order in the station only for trains that
 follow each other

Two trains on the same station track had to keep one order in two
stations also when one of them starts in the second station, for example
if they run in opposite directions. This excluded valid plans. Listing
the trains of a track in another order than on the line caused an error.
---
 railway_solvers/railway_solvers/linear_solver.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 287000e..f51c0e0 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -421,17 +421,16 @@ def keep_trains_order(
         if s in train_sets["Jd"][sp].keys():
             # if both trains goes sp -> s and have common path
             if occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
-                if not can_MO_on_line(j, jp, s, train_sets):
+                if occurs_as_pair(j, jp, train_sets["Jd"][sp][s]):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
-                    if s in y[j][jp]["one_station"] and sp in y[j][jp]["one_station"]:
-                        problem += (
-                            y[j][jp]["one_station"][s] == y[j][jp]["one_station"][sp],
-                            f"track_occupation_{j}_{jp}_{s}_{sp}",
-                        )
+                    problem += (
+                        get_y3(y, j, jp, s) == get_y3(y, j, jp, sp),
+                        f"track_occupation_{j}_{jp}_{s}_{sp}",
+                    )
                 elif are_two_trains_entering_via_the_same_switches(train_sets, s, j, jp):
                     problem += (
-                                get_y4_in(y, "in", j, jp, s) == y[j][jp]["one_station"][s],
+                                get_y4_in(y, "in", j, jp, s) == get_y3(y, j, jp, s),
                                 f"track_occupation_{j}_{jp}_{s}_{sp}",
                                 )
 
-- 
2.43.0


From 87c8814563dd8bb076d02d57e665dd88ad4fcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:06 +0000
Subject: [PATCH 11/30] fix: keep the order of following trains no matter which
 is listed first

If one of two trains entering the same station track ends there, their
order was kept or not depending on which of them was listed first.
---
 railway_solvers/railway_solvers/linear_solver.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index f51c0e0..3d1d9c3 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -510,15 +510,15 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
+                    keep_trains_order(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        y,
+                        train_sets,
+                    )
                     if not skip_station(jp, s, train_sets):
-                        keep_trains_order(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            y,
-                            train_sets,
-                        )
                         trains_order_at_s(
                             s,
                             jp,
-- 
2.43.0


From 5d77f0c070c4f5f61759d2ae081be46299c5b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:18 +0000
Subject: [PATCH 12/30] fix: pass the numbers of sweeps and reads to simulated
 annealing by name

The sampler takes the number of reads before the number of sweeps, so the
two settings were swapped.
---
 railway_solvers/railway_solvers/d_wave_solves.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index e2c603d..2123d86 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -28,7 +28,11 @@ def sim_anneal(
     """
     s = neal.SimulatedAnnealingSampler()
     sampleset = s.sample(
-        bqm, beta_range, num_sweeps, num_reads, beta_schedule_type="geometric"
+        bqm,
+        beta_range=beta_range,
+        num_sweeps=num_sweeps,
+        num_reads=num_reads,
+        beta_schedule_type="geometric",
     )
     return sampleset
 
-- 
2.43.0


From 18a1cdad7e739626f475515322cd80d0003b0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:18 +0000
Subject: [PATCH 13/30] fix: convert constraints that can only hold with
 equality

An inequality that no value satisfies with a margin has no slack to encode,
and building the slack variable failed.
---
 .../railway_solvers/converter_bqm.py          | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/railway_solvers/railway_solvers/converter_bqm.py b/railway_solvers/railway_solvers/converter_bqm.py
index c6b5a00..a9385fb 100644
--- a/railway_solvers/railway_solvers/converter_bqm.py
+++ b/railway_solvers/railway_solvers/converter_bqm.py
@@ -57,6 +57,22 @@ def _get_slack_ub(data: List[int], offset: int) -> int:
     return int(result)
 
 
+def _get_slack(cname: str, slack_ub: int):
+    """Slack variable of the constraint. If no value satisfies the constraint
+    with a margin there is nothing to encode, and the slack is zero.
+
+        :param cname: name of the constraint
+        :type cname: str
+        :param slack_ub: upperbound of the slack variable
+        :type slack_ub: int
+        :return: slack variable, or 0
+        :rtype: Union[LogEncInteger, int]
+    """
+    if slack_ub <= 0:
+        return 0
+    return LogEncInteger(cname, (0, slack_ub))
+
+
 def convert_to_pyqubo(model: LpProblem):
     """Converts Integer program into pyqubo.Model. Placeholders (penalty
     parameters) are NOT set up. Names of placeholders can be found in the code of
@@ -90,15 +106,12 @@ def convert_to_pyqubo(model: LpProblem):
         if sense == pulp.LpConstraintEQ:
             H += ph * expr ** 2
         elif sense == pulp.LpConstraintLE:
-            slack = LogEncInteger(cname, (0, _get_slack_ub(c.items(), c.constant)))
+            slack = _get_slack(cname, _get_slack_ub(c.items(), c.constant))
             H += ph * (expr + slack) ** 2
         elif sense == pulp.LpConstraintGE:
-            slack = LogEncInteger(
+            slack = _get_slack(
                 cname,
-                (
-                    0,
-                    _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
-                ),
+                _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
             )
             H += ph * (expr - slack) ** 2
 
-- 
2.43.0


From 25693e436339dc2a8974f97e97d4d5a35cc28cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:54:18 +0000
Subject: [PATCH 14/30] fix: pass the time limit to the hybrid sampler of
 binary models

The sampler takes its default from another property, so the requested limit
was recorded but never used.
---
 railway_solvers/railway_solvers/d_wave_solves.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index 2123d86..11c7e4a 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -86,4 +86,6 @@ def hybrid_anneal(bqm, minimum_time_limit) -> dimod.sampleset.SampleSet:
     """
     sampler = LeapHybridSampler()
     sampler.properties["minimum_time_limit_s"]  = minimum_time_limit # by default it is 5, and can be set
-    return sampler.sample(bqm), sampler.properties
+    # this sampler does not read the property above, the limit has to be passed
+    time_limit = max(minimum_time_limit, sampler.min_time_limit(bqm))
+    return sampler.sample(bqm, time_limit=time_limit), sampler.properties
-- 
2.43.0


From 5d8051ca44d2274f904ec54d1fbb951f4dbfb892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:02:10 +0000
Subject: [PATCH 15/30] fix: report the planned time of departures that have no
 delay variable

A departure that no constraint and no weight refers to is not in the
solved model, and was reported at the reference time.
---
 railway_solvers/railway_solvers/linear_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 3d1d9c3..7a825a6 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -721,7 +721,9 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
             conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
             conflict_free = delay + conflicted_tt
             return delay, conflict_free, conflicted_tt
-    return 0,0,0
+    # nothing restricts or penalises this departure: the train leaves on time
+    conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
+    return 0, conflicted_tt, conflicted_tt
 
 
 def impact_to_objective(prob, timetable, j, s, d_max, data = []):
-- 
2.43.0


From 4e2b045f74b4e1a4c440e9fd443b72abb854d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:02:10 +0000
Subject: [PATCH 16/30] fix: report times rounded to the nearest minute

Solvers return whole numbers with a small error, and cutting 4.9999999 off
to 4 reported the departure a minute early.
---
 helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/helpers.py b/helpers.py
index cd70abc..f66bccb 100644
--- a/helpers.py
+++ b/helpers.py
@@ -105,9 +105,9 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
         for s in train_set["Paths"][j]:
             s_dict = {}
             try:
-                dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(departure_prev))
+                dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+round(departure_prev))
                 s_dict["arrive"] = t_ref + dt
-                conflicted_dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(departure_conflict_prev))
+                conflicted_dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+round(departure_conflict_prev))
                 s_dict["conflicted_arrive"] = t_ref + conflicted_dt
             except:
                 0
@@ -118,9 +118,9 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
                 delay, departure, conflicted_departure = delay_and_acctual_time(
                     train_set, timetable, prob, j, s, outside_data
                 )
-                s_dict["departure"] = t_ref + timedelta(minutes = int(departure))
-                s_dict["secondary delay"] = int(delay)
-                s_dict["conflicted_departure"] = t_ref + timedelta(minutes = int(conflicted_departure))
+                s_dict["departure"] = t_ref + timedelta(minutes = round(departure))
+                s_dict["secondary delay"] = round(delay)
+                s_dict["conflicted_departure"] = t_ref + timedelta(minutes = round(conflicted_departure))
                 s_dict["impact_to_objective"] = delta_obj
 
                 s_prev = s
-- 
2.43.0


From 1afbc55a2cf4ba1df0a389078f6b644f051c6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:05:50 +0000
Subject: [PATCH 17/30] fix: read stored timetables from the given path

---
 helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.py b/helpers.py
index f66bccb..6d1fce7 100644
--- a/helpers.py
+++ b/helpers.py
@@ -38,7 +38,7 @@ from railway_solvers.railway_solvers import (
 )
 
 def load_timetables(timetables_path):
-    with open(timetables_path.load, "rb") as file:
+    with open(timetables_path, "rb") as file:
         train_dict = pkl.load(file)
     return train_dict
 
-- 
2.43.0


From c1fe8e92e6f216250c8760d31ad29d3983ded42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:05:50 +0000
Subject: [PATCH 18/30] fix: include trains leaving station 10 in the Wisla
 problem

The entry stood outside of the table of trains following each other, so no
headway was kept between them on that section.
---
 wisla_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wisla_problems.py b/wisla_problems.py
index 4d87caa..ca7160b 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -60,7 +60,7 @@ if __name__ == "__main__":
         "Paths": { "Ks1": [1,3,5,10], "Ks3": [1,3,5,10], "Ic1": [1,3,5,10], "Ks2": [10,5,3,1], "Ks4": [10,5,3,1], "Ic2": [10,5,3,1]},
         "J": ["Ks1", "Ks3", "Ic1", "Ks2", "Ks4", "Ic2"],
         "Jd": {1: {3: [["Ks1", "Ks3", "Ic1"]]}, 3:{1:[["Ks2", "Ks4", "Ic2"]], 5:[["Ks1", "Ks3", "Ic1"]]}, 
-               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}}, 10:{5:[["Ks2", "Ks4", "Ic2"]]},
+               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}, 10:{5:[["Ks2", "Ks4", "Ic2"]]}},
         "Josingle": {(1,3): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (3,5): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (5,10): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]]
@@ -78,7 +78,7 @@ if __name__ == "__main__":
 
                         "Ks2_Ks4_3_1": 2, "Ks2_Ks4_5_3": 2, "Ks2_Ks4_10_5": 2, "Ks4_Ks2_3_1": 2, "Ks4_Ks2_5_3": 2, "Ks4_Ks2_10_5": 2,
                         "Ks2_Ic2_3_1": 2, "Ks2_Ic2_5_3": 2, "Ks2_Ic2_10_5": 2, "Ks4_Ic2_3_1": 2, "Ks4_Ic2_5_3": 2, "Ks4_Ic2_10_5": 2,
-                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_5_10": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
+                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_10_5": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
             
             },
             "prep": {"Ic2_10": 20},
-- 
2.43.0


From 9c2f1a2f451b49a699ac43eef3501c961f85fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:05:50 +0000
Subject: [PATCH 19/30] fix: store the number of broken constraints with each
 solved problem

---
 solve_KO_GLC_problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solve_KO_GLC_problems.py b/solve_KO_GLC_problems.py
index a9710e3..5137b9b 100644
--- a/solve_KO_GLC_problems.py
+++ b/solve_KO_GLC_problems.py
@@ -199,7 +199,7 @@ if __name__ == "__main__":
             result["objective"] = prob.objective.value() * d_max
             result["comp_time_seconds"] = end_time - start_time
             result["feasible"] = True
-            results["brolen_constraints"] = 0
+            result["broken_constraints"] = 0
             check_count_vars(prob)
 
         elif args.solve_quantum in ["sim", "real", "bqm", "cqm"]:
-- 
2.43.0


From 24c2209732469430408b0a4d63ab9399ac36f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:09:58 +0000
Subject: [PATCH 20/30] fix: accept the documented penalty option in the KO-GLC
 program

---
 solve_KO_GLC_problems.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/solve_KO_GLC_problems.py b/solve_KO_GLC_problems.py
index 5137b9b..13e5406 100644
--- a/solve_KO_GLC_problems.py
+++ b/solve_KO_GLC_problems.py
@@ -65,6 +65,13 @@ if __name__ == "__main__":
         help="minimal time parameter for cqm solver, lowest value is 5",
         default=5,
     )
+
+    parser.add_argument(
+        "--penalty",
+        type=float,
+        help="pval for bqm",
+        default=2.5,
+    )
     args = parser.parse_args()
 
     assert args.case in [1,2,3]
@@ -131,7 +138,7 @@ if __name__ == "__main__":
     # QUBO prameters if necessary
     pdict = {}
     if args.solve_quantum in ["sim", "real", "bqm"]:
-        p = 2.5
+        p = args.penalty
         pdict = {
             "minimal_span": p,
             "single_line": p,
-- 
2.43.0


From f8768e999d4368d2beb72de0d42c9fa090d19693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:16:29 +0000
Subject: [PATCH 21/30] fix: look up stations of a route on the lines

---
 solutions_quantum/data4diagrams/railway_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index 3781747..b1e3a25 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -87,7 +87,7 @@ def route_on_lines(route, lines):
     It will return a list with station ordinal numbers on lines."""
     result = []
     for station in route:
-        result.append(tuple(filter(lambda x: x[0] in lines, station_on_line(station))))
+        result.append(tuple(filter(lambda x: x[0] in lines, station_on_lines(station))))
     return [s for s in result if s!=()]
 
 def station2km(station, segment):
-- 
2.43.0


From 4524f13def35f77e9e22bf269360366ff7c88baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:16:29 +0000
Subject: [PATCH 22/30] fix: list the conflicted train paths, not the resolved
 ones twice

---
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index faf9ff4..f42fa6e 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -23,7 +23,7 @@ else:
     kdtraindata = data
     
 for trainno in kdtraindata.keys():
-    for status in ('conflcted', 'resolved'):
+    for status in ('conflicted', 'resolved'):
         t = tu.kdtrain2trainpath(trainno, kdtraindata[trainno], status=status)
         print(t)
     print('----------------------------------------')
-- 
2.43.0


From ead4d2a7261f3717947e8d353e74fd73da9646cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:16:29 +0000
Subject: [PATCH 23/30] fix: measure the Gliwice-Tychy segment along the line

---
 solutions_quantum/data4diagrams/railway_lines.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index b1e3a25..0230f93 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -44,11 +44,11 @@ RAILWAYSEGMENTS={
                   {'name': 'Katowice Towarowa KTC', 'callsign': 'KTC', 'type': 'podg', 'km': 24.19},
                   {'name': 'Katowice', 'callsign': 'KO', 'type': 'st', 'km': 26.71},
                   {'name': 'Katowice Brynów', 'callsign': 'Bry', 'type': 'po', 'km': 30.59},
-                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 36.67},
-                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 44.42},
-                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 55.77},
-                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 69.81},
-                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 86.78}),
+                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 32.79},
+                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 34.46},
+                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 38.06},
+                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 40.75},
+                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 43.68}),
     '137138GLYKZ': ({'name': 'Gliwice', 'callsign': 'GLC', 'type': 'st', 'km': 0.0},
                     {'name': 'Zabrze', 'callsign': 'ZZ', 'type': 'st', 'km': 8.18},
                     {'name': 'Ruda Śląska', 'callsign': 'RSl', 'type': 'po', 'km': 12.5},
-- 
2.43.0


From c85a01702c52fbf6a5c3321d00515521bcc39a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:16:29 +0000
Subject: [PATCH 24/30] fix: pick the realisation from files of every quantum
 solver

---
 solutions_quantum/data4diagrams/echo_gnuplot_file.py   | 3 ++-
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/solutions_quantum/data4diagrams/echo_gnuplot_file.py b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
index b04609a..a2612ba 100755
--- a/solutions_quantum/data4diagrams/echo_gnuplot_file.py
+++ b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import os
 import sys
 import pickle
 import argparse
@@ -80,7 +81,7 @@ def echo_gnuplot_train_labels(train, segment):
             pass
 
         
-if 'cqm' in ARGS.infile:
+if os.path.basename(ARGS.infile).startswith(('cqm', 'bqm', 'sim', 'real')):
     try:
         kdtraindata = data[ARGS.realisation]
     except:
diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index f42fa6e..e01d72c 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import os
 import sys
 import pickle
 import railway_lines as rl
@@ -17,7 +18,7 @@ routes = sorted(list(set(lists)))
 def quantum_train_route(train):
     return list(train.keys())
 
-if 'cqm' in sys.argv[1]:
+if os.path.basename(sys.argv[1]).startswith(('cqm', 'bqm', 'sim', 'real')):
     kdtraindata = data[int(sys.argv[2])]
 else:
     kdtraindata = data
-- 
2.43.0


From e5e4649f455db4833841463a266c9b7fdb3b7785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:55:12 +0000
Subject: [PATCH 25/30] fix: count order variables by the start of their names

A train whose name ends in y or z made its delays count as order variables,
because any name that contains y_ or z_ was taken for an order variable.
---
 helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.py b/helpers.py
index 6d1fce7..c738825 100644
--- a/helpers.py
+++ b/helpers.py
@@ -143,7 +143,7 @@ def check_count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             assert v.varValue in [pytest.approx(0), pytest.approx(1)]
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
@@ -161,7 +161,7 @@ def count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
     constraints = prob.numConstraints()
-- 
2.43.0


From b23bb20fed87d254db62ade0783a7089ae61fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:56:02 +0000
Subject: [PATCH 26/30] fix: spell track 3 of Katowice as in the network table

The station tables listed the block without the blank that the network table
and the schedules use, so a train on this track was not seen at the station.
---
 data/KO_GLC/important_stations_KO_GLC.npz   | Bin 1040 -> 1041 bytes
 data/KO_GLC/important_stations_KO_GLC.py    |   2 +-
 data/KO_GLC/important_stations_KO_GLC_R.npz | Bin 1179 -> 1180 bytes
 data/KO_GLC/important_stations_KO_GLC_R.py  |   2 +-
 data/important_stations.npz                 | Bin 2053 -> 2054 bytes
 data/important_stations.py                  |   2 +-
 data/important_stations_Gt.npz              | Bin 2165 -> 2166 bytes
 data/important_stations_Gt.py               |   2 +-
 8 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/data/KO_GLC/important_stations_KO_GLC.npz b/data/KO_GLC/important_stations_KO_GLC.npz
index f7b844b9cd1269a5081e0e4c5adfb013e4347317..fe77912d9158b359b103fec9bc281300716c913b 100644
GIT binary patch
delta 98
zcmbQhF_FV0z?+#xgaHB+8SWhJYv^QVU;trG1`&qDqM~>My}W`-Mg{?}AV^{7Mw2*3
gE|4ZAZ+|5nh0U`WEtojrS|{IO)?+&YG=PBt0L-=&>i_@%

delta 97
zcmbQpF@eJ*z?+#xgaHB+8MrRVP3vH0U;trG1`&qDqM~>My}W`-Mg{?}AV^`yMw2*3
gPGKNR$=hE^XY(9J3nosu&dGO~_1F#r^)oO408b(kiU0rr

diff --git a/data/KO_GLC/important_stations_KO_GLC.py b/data/KO_GLC/important_stations_KO_GLC.py
index 2ce7a2a..88a15ca 100644
--- a/data/KO_GLC/important_stations_KO_GLC.py
+++ b/data/KO_GLC/important_stations_KO_GLC.py
@@ -6,7 +6,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/KO_GLC/important_stations_KO_GLC_R.npz b/data/KO_GLC/important_stations_KO_GLC_R.npz
index df894c792e06e36be79ed23acbd3990cbb7519ab..44784c07971555e644bb831e100a12a7cddb75a6 100644
GIT binary patch
delta 98
zcmbQuIfv6Ez?+#xgaHB+8M6Po3X8BXFn};8g9t-nQBk~sUS2^ZBZB}~5TsCKqe&bi
g7f6$mx4)8(!sgkGhnYCxS|_Ko=&|_&4PamZ01BQE761SM

delta 97
zcmbQkIh)fYz?+#xgaHB+8LoWW5h={VzyQLW3?dAPMMd!jdU*wvj0^%`L6Ab>jV5u7
goWekslDEH-&gMCchnYCxIwxna=&|_$^)oO40At<~ApigX

diff --git a/data/KO_GLC/important_stations_KO_GLC_R.py b/data/KO_GLC/important_stations_KO_GLC_R.py
index 9aab44b..f574e36 100644
--- a/data/KO_GLC/important_stations_KO_GLC_R.py
+++ b/data/KO_GLC/important_stations_KO_GLC_R.py
@@ -6,7 +6,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/important_stations.npz b/data/important_stations.npz
index 16da4d2cf1d226e29af8f2ed23e4f8218c578d74..d466c33993ea7b7046fa9a64773d2cc690c0b945 100644
GIT binary patch
delta 98
zcmZn_XcI6A@MdNaVSoTd2Ej(VrFHBK3?R(OAi|JXR1|NZmse29$RGd~1SzcBXmW#*
g3#3WO+h0jXVY4XHW>!wP*2x#y_1Ja-4PamZ09xM?r~m)}

delta 97
zcmZn@XcaIC@MdNaVSoTdhMYLd*R|{n3?R(OAi|JXR1|NZmse29$RGd~1SzcDXmW#*
fQy9on^7dEK*(}DinUxc+bMhs2J+>V{{R|8McQX@n

diff --git a/data/important_stations.py b/data/important_stations.py
index 70e3f2e..d18437d 100644
--- a/data/important_stations.py
+++ b/data/important_stations.py
@@ -10,7 +10,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/important_stations_Gt.npz b/data/important_stations_Gt.npz
index a46f2d713ed7ed7beb60fb18c98e4a67bef8b194..99007484da843e228f30abf45401ddbec4e2c0ad 100644
GIT binary patch
delta 98
zcmew=@J+xZz?+#xgaHB+8MaiWdcI?4U;trG1`&qDqM~>My}W`-Mg{?}AV}f6jV3o3
fxj>qfy#1AQ6gG=8DYJ3HwN7^A&|}l&0I383H*gh4

delta 97
zcmew+@KwMhz?+#xgaHB+8UEj2JK-%m0|N+iGKerF78S)C=;akuGBOB&1wjhmZZx^U
f$SDkDDS7)V>1-BbQfA|X>zwSwp~t4d0a6G6nxGe;

diff --git a/data/important_stations_Gt.py b/data/important_stations_Gt.py
index 4b7c298..e096399 100644
--- a/data/important_stations_Gt.py
+++ b/data/important_stations_Gt.py
@@ -10,7 +10,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
-- 
2.43.0


From 0516ff79a60be2b1966cd1e56b3060440ff677d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:56:02 +0000
Subject: [PATCH 27/30] fix: correct the arrival of train 6 at Ruda Slaska

The arrival was one hour before the departure from the previous station and
from the stop itself.
---
 data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv b/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv
index 4df7279..b96c001 100644
--- a/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv
+++ b/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv
@@ -110,7 +110,7 @@ from Katowice;;;;;;;
 """CB-RCB-3"", ""SBL+Sem(ST)"", 1, ""3"", ""(3)""";R;;;;;;
 """RCB"", ""ST"", 1, ""(1)""";R;15:29;15:31;;Ruda Chebzie;;
 """RCB-ZZ-1"", ""SBL"", 1, ""1"", ""(4)""";R;;;;;;
-"""RCB-ZZ-2"", ""SBL+PO(Ruda Śląska)"", 1, ""2"", ""(4)""";R;14:33;15:33;;Ruda Śląska;;
+"""RCB-ZZ-2"", ""SBL+PO(Ruda Śląska)"", 1, ""2"", ""(4)""";R;15:33;15:33;;Ruda Śląska;;
 """RCB-ZZ-3"", ""SBL"", 1, ""3"", ""(4)""";R;;;;;;
 """RCB-ZZ-4"", ""SBL+Sem(ST)"", 1, ""4"", ""(4)""";R;;;;;;
 """ZZ"", ""ST"", 1, ""(1)""";R;15:38;15:40;;Zabrze;;
-- 
2.43.0


From 35cf2d4b3c8ac9aa2d9928ca561154f67b0b0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:24 +0000
Subject: [PATCH 28/30] fix: stop at a rolling-stock pair whose routes do not
 meet

get_jround named sys.exit without calling it, so the pair was put at the
station of the previous pair in the list.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index ee12bc3..0f1d80e 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -67,7 +67,7 @@ def get_jround(train_dict, important_stations):
             block = train_time_table(train_dict, pair[1])["path"].tolist()[0]
         else:
             print("Something is wrong in get_jround")
-            sys.exit
+            sys.exit(1)
         station = [key for key, value in important_stations.items() if block in value][
             0
         ]
-- 
2.43.0


From fed4c2a79f6fd9f36b4733b40d2ff30f331b7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:18 +0000
Subject: [PATCH 29/30] fix: refuse fractional coefficients when building the
 QUBO

The slack of an inequality is a whole number, so with fractional
coefficients plans that satisfy the inequality were penalised. Only the
size of the slack was checked, in which the fractions can cancel out.
---
 railway_solvers/railway_solvers/converter_bqm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/railway_solvers/railway_solvers/converter_bqm.py b/railway_solvers/railway_solvers/converter_bqm.py
index a9385fb..3122882 100644
--- a/railway_solvers/railway_solvers/converter_bqm.py
+++ b/railway_solvers/railway_solvers/converter_bqm.py
@@ -51,6 +51,7 @@ def _get_slack_ub(data: List[int], offset: int) -> int:
         :return: lowerbound of the slack variable
         :rtype: int
     """
+    assert all(int(val) == val for _, val in data)
     ub = sum(val * (var.upBound if val < 0 else var.lowBound) for var, val in data)
     result = -(ub + offset)
     assert int(result) == result
-- 
2.43.0


From 33c061a6f758500c19756be760082dfd8092d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:44 +0000
Subject: [PATCH 30/30] fix: find the delay of a train whose name the solver
 package rewrites

The solver package replaces blanks, dashes, slashes and brackets in names of
variables. The delay of a train or station with such a name was looked up under
the original name, was not found, and was reported as zero.
---
 railway_solvers/railway_solvers/linear_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 7a825a6..30933df 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -711,8 +711,10 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
     """given the solution of the optimisation problem returns secondary delay
     conflict free time and conflicted time
     """
+    # the solver package replaces some characters in names of variables
+    name = pus.LpVariable(f"Delays_{j}_{s}").name
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
@@ -730,8 +732,10 @@ def impact_to_objective(prob, timetable, j, s, d_max, data = []):
     """return the impact to the objective of the particular secondary delay
     of particular train at particular station
     """
+    # the solver package replaces some characters in names of variables
+    name = pus.LpVariable(f"Delays_{j}_{s}").name
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
-- 
2.43.0

