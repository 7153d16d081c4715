From 0f967d8f84182d9afb65a9ce0b137f32144a6c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:36 +0000
Subject: [PATCH 1/2] fix: cumulative curve get_time with rounding up returns
 -1 for a count the curve never reaches

It read m_recorder[size()], one past the end, when the queried count exceeded the last recorded count.
---
 src/dlink.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..6eb0698 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1234,6 +1234,11 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
   IAssert (j >= 1);
   if (rounding_up)
     {
+      // the curve never reaches this count
+      if (_lower_j == m_recorder.end ())
+        {
+          return TFlt (-1);
+        }
       return m_recorder[j].first;
     }
   if (_lower_j != m_recorder.end ())
-- 
2.43.0


From 4a45fdd06217bccbb270925e04370b654b7ca440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:55 +0000
Subject: [PATCH 2/2] fix: adaptive ratio of one destination leaks into the
 destinations released after it

The override from m_adaptive_ratio was written into the function parameter
inside the destination loop, so a destination with no ratio of its own used
the ratio of the previous destination (or of the cars, for trucks) instead
of the configured default.
---
 src/multiclass.cpp | 8 ++++++--
 src/od.cpp         | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..092e495 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3067,7 +3067,7 @@ int
 MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
                                              MNM_Veh_Factory *veh_factory,
                                              TInt assign_interval,
-                                             TFlt adaptive_ratio)
+                                             TFlt default_adaptive_ratio)
 {
   if (assign_interval < 0)
     return 0;
@@ -3080,6 +3080,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
   for (auto _demand_it = m_demand_car.begin ();
        _demand_it != m_demand_car.end (); _demand_it++)
     {
+      TFlt adaptive_ratio = default_adaptive_ratio;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
         adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
@@ -3129,6 +3130,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
   for (auto _demand_it = m_demand_truck.begin ();
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
+      TFlt adaptive_ratio = default_adaptive_ratio;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
         adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
@@ -3182,7 +3184,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
 int
 MNM_Origin_Multiclass::release_one_interval_biclass (
   TInt current_interval, MNM_Veh_Factory *veh_factory, TInt assign_interval,
-  TFlt adaptive_ratio_car, TFlt adaptive_ratio_truck)
+  TFlt default_adaptive_ratio_car, TFlt default_adaptive_ratio_truck)
 {
   if (assign_interval < 0)
     return 0;
@@ -3195,6 +3197,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
   for (auto _demand_it = m_demand_car.begin ();
        _demand_it != m_demand_car.end (); _demand_it++)
     {
+      TFlt adaptive_ratio_car = default_adaptive_ratio_car;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
         adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
@@ -3244,6 +3247,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
   for (auto _demand_it = m_demand_truck.begin ();
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
+      TFlt adaptive_ratio_truck = default_adaptive_ratio_truck;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
         adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..42a7555 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -126,7 +126,7 @@ MNM_Origin::release (MNM_Veh_Factory *veh_factory, TInt current_interval)
 int
 MNM_Origin::release_one_interval (TInt current_interval,
                                   MNM_Veh_Factory *veh_factory,
-                                  TInt assign_interval, TFlt adaptive_ratio)
+                                  TInt assign_interval, TFlt default_adaptive_ratio)
 {
   if (assign_interval < 0)
     return 0;
@@ -136,6 +136,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
   for (auto _demand_it = m_demand.begin (); _demand_it != m_demand.end ();
        _demand_it++)
     {
+      TFlt adaptive_ratio = default_adaptive_ratio;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
         adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
-- 
2.43.0

