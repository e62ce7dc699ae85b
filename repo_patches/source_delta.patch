From b7ec9eb30146d8cf760cb5ae6eadf8d85f4684fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 01/50] fix: io service: lxstat64 wrapper called the original
 xstat and followed symlinks

---
 src/services/io/CurIOus/src/wrappers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/io/CurIOus/src/wrappers.c b/src/services/io/CurIOus/src/wrappers.c
index 4da9c47..c5aa404 100644
--- a/src/services/io/CurIOus/src/wrappers.c
+++ b/src/services/io/CurIOus/src/wrappers.c
@@ -546,7 +546,7 @@ int wrapped_lxstat64(int vers, const char* path, struct stat* buf)
     WRAPPER_ENTER(xstat);
 
     // Get the handle for the original function
-    xstat_f orig_lxstat64 = (xstat_f) gotcha_get_wrappee(io_fns[CURIOUS_XSTAT_ID].handle);
+    xstat_f orig_lxstat64 = (xstat_f) gotcha_get_wrappee(io_fns[CURIOUS_LXSTAT64_ID].handle);
 
     // Only call callbacks the first time around
     if (1 == wrapper_call_depth && wrappers_enabled) {
-- 
2.43.0


From 57a67dfc14ee060dfac0e94d857d6185fb5823fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/50] fix: symbollookup: check the attribute map under its
 lock

---
 src/services/symbollookup/SymbolLookup.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/services/symbollookup/SymbolLookup.cpp b/src/services/symbollookup/SymbolLookup.cpp
index 96f4910..9191b8b 100644
--- a/src/services/symbollookup/SymbolLookup.cpp
+++ b/src/services/symbollookup/SymbolLookup.cpp
@@ -217,9 +217,6 @@ class SymbolLookup
 
     void process_snapshot(Caliper* c, std::vector<Entry>& rec)
     {
-        if (m_sym_attr_map.empty())
-            return;
-
         // make local symbol attribute map copy for threadsafe access
 
         std::map<Attribute, std::shared_ptr<SymbolAttributeInfo>> sym_map;
@@ -230,6 +227,9 @@ class SymbolLookup
             sym_map = m_sym_attr_map;
         }
 
+        if (sym_map.empty())
+            return;
+
         std::vector<Entry> result;
         result.reserve(sym_map.size());
 
-- 
2.43.0


From 30220897633315bdc588b4a5e6d16c9486652f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 03/50] fix: alloc service: read the active memory counter
 under its lock

---
 src/services/alloc/AllocService.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/services/alloc/AllocService.cpp b/src/services/alloc/AllocService.cpp
index f607947..16c0fa1 100644
--- a/src/services/alloc/AllocService.cpp
+++ b/src/services/alloc/AllocService.cpp
@@ -322,8 +322,17 @@ class AllocService
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& snapshot)
     {
         // Record currently active amount of allocated memory
-        if (g_record_active_mem)
-            snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(g_active_mem)));
+        if (g_record_active_mem) {
+            uint64_t active_mem = 0;
+
+            {
+                std::lock_guard<std::mutex> g(g_hwm_lock);
+
+                active_mem = g_active_mem;
+            }
+
+            snapshot.append(active_mem_attr, Variant(cali_make_variant_from_uint(active_mem)));
+        }
 
         if (g_resolve_addresses && !info.empty())
             resolve_addresses(c, info, snapshot);
-- 
2.43.0


From 85610e5572cff9c1308e65352e8d389d04aa433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/50] fix: output stream: open the file only once when
 threads race for the first use

---
 src/common/OutputStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/OutputStream.cpp b/src/common/OutputStream.cpp
index 30c7b5e..c7f3b44 100644
--- a/src/common/OutputStream.cpp
+++ b/src/common/OutputStream.cpp
@@ -107,11 +107,11 @@ struct OutputStream::OutputStreamImpl {
 
     void init()
     {
+        std::lock_guard<std::mutex> g(init_mutex);
+
         if (is_initialized)
             return;
 
-        std::lock_guard<std::mutex> g(init_mutex);
-
         is_initialized = true;
 
         if (type == StreamType::File) {
-- 
2.43.0


From c6852ab8c0ec6bc0bd7409249b3013780c390494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 05/50] fix: metadata db: look up built-in nodes under the node
 lock when merging

---
 src/reader/CaliperMetadataDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index da4dfe6..384ac4b 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -255,7 +255,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         if (!node || node->id() == CALI_INV_ID)
             return nullptr;
         if (node->id() < 12)
-            return m_nodes[node->id()];
+            return this->node(node->id());
 
         Node* attr_node = recursive_merge_node(db.node(node->attribute()), db);
         Node* parent    = recursive_merge_node(node->parent(), db);
-- 
2.43.0


From cce8d9e32a454441e11330704683b7033c44731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 06/50] fix: runtime: initialize only once when threads race
 for the first use

---
 src/caliper/Caliper.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 33e72ad..31f059b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1475,12 +1475,18 @@ Caliper Caliper::instance()
 
         std::lock_guard<std::mutex> g(GlobalData::s_init_mutex);
 
-        Log::init();
+        if (GlobalData::s_init_lock == 0) {
+            // Another thread initialized Caliper while we waited for the lock
+            gPtr = GlobalData::gObj.g_ptr;
+            tPtr = GlobalData::tObj.t_ptr;
+        } else if (GlobalData::s_init_lock == 2) {
+            return Caliper(nullptr, nullptr, true);
+        } else {
+            Log::init();
 
-        GlobalData::gObj.g_ptr = nullptr;
-        GlobalData::tObj.t_ptr = nullptr;
+            GlobalData::gObj.g_ptr = nullptr;
+            GlobalData::tObj.t_ptr = nullptr;
 
-        if (!GlobalData::gObj.g_ptr) {
             tPtr = new ThreadData(true /* is_initial_thread */);
             gPtr = new GlobalData(tPtr);
 
-- 
2.43.0


From 083fb2a97440b84f71b925db7de301e9a6ef1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 07/50] fix: C API: test the Caliper instance in
 cali_channel_get before using it

---
 src/caliper/cali.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a389a34..2a56803 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -339,10 +339,14 @@ cali_variant_t cali_get(cali_id_t attr_id)
 
 cali_variant_t cali_channel_get(cali_id_t chn_id, cali_id_t attr_id)
 {
-    Caliper c       = Caliper::sigsafe_instance();
+    Caliper c = Caliper::sigsafe_instance();
+
+    if (!c)
+        return cali_make_empty_variant();
+
     Channel channel = c.get_channel(chn_id);
 
-    if (!c || !channel)
+    if (!channel)
         return cali_make_empty_variant();
 
     return c.get(channel.body(), c.get_attribute(attr_id)).value().c_variant();
-- 
2.43.0


From 0ef18f9a73f2fc3b83364fb0c1d6cda5632d6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 08/50] fix: timeseries service: do not flush from
 signal-context snapshots

---
 src/services/monitor/Timeseries.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/services/monitor/Timeseries.cpp b/src/services/monitor/Timeseries.cpp
index ed0d70b..d4f1e56 100644
--- a/src/services/monitor/Timeseries.cpp
+++ b/src/services/monitor/Timeseries.cpp
@@ -42,6 +42,10 @@ class TimeseriesService
 
     void snapshot_cb(Caliper* c, SnapshotView info, SnapshotBuilder& srec)
     {
+        // flushing the profile channel is not signal-safe
+        if (c->is_signal())
+            return;
+
         double  ts_now = get_timestamp();
         Variant v_prev = c->exchange(m_timestamp_attr, Variant(ts_now));
 
-- 
2.43.0


From 3ca9c84c5e2b8b407bfcec11bc98a169718da01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 09/50] fix: runtime: a deleted channel no longer notifies its
 finished services

---
 src/caliper/Caliper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 31f059b..282c0f8 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1398,6 +1398,9 @@ void Caliper::delete_channel(Channel& channel)
 
     Log(1).stream() << "Releasing channel " << channel.name() << std::endl;
 
+    // handles to the channel may outlive it: don't notify its services anymore
+    channel.mP->is_active = false;
+
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
     if (it != sG->active_channels.end())
         sG->active_channels.erase(it);
-- 
2.43.0


From 41bbe8cfa064f1e32b04a2af6e5299a834ad7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 10/50] fix: sampler, kokkoslookup, thread_monitor: record
 nothing for an inactive channel

---
 src/services/kokkos/KokkosLookup.cpp   | 9 +++++++++
 src/services/monitor/ThreadMonitor.cpp | 3 +++
 src/services/sampler/Sampler.cpp       | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/services/kokkos/KokkosLookup.cpp b/src/services/kokkos/KokkosLookup.cpp
index 4c358e2..76128fc 100644
--- a/src/services/kokkos/KokkosLookup.cpp
+++ b/src/services/kokkos/KokkosLookup.cpp
@@ -255,6 +255,9 @@ class KokkosLookup
 
     void kokkos_allocate(const cali::kokkos::SpaceHandle handle, const char* name, const void* const ptr, size_t size)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
         Variant v_space(handle.name);
 
@@ -264,12 +267,18 @@ class KokkosLookup
 
     void kokkos_deallocate(const void* const ptr)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
         c.memory_region_end(m_channel.body(), ptr);
     }
 
     void kokkos_deepcopy(const void* dst, const void* src, uint64_t size)
     {
+        if (!m_channel.is_active())
+            return;
+
         Caliper c;
 
         Entry data[] = { { m_dst_attr, Variant(CALI_TYPE_ADDR, &dst, sizeof(void*)) },
diff --git a/src/services/monitor/ThreadMonitor.cpp b/src/services/monitor/ThreadMonitor.cpp
index e46d750..598f205 100644
--- a/src/services/monitor/ThreadMonitor.cpp
+++ b/src/services/monitor/ThreadMonitor.cpp
@@ -34,6 +34,9 @@ class ThreadMonitor
 
     void snapshot()
     {
+        if (!channel.is_active())
+            return;
+
         Caliper c;
         Entry   data(monitor_attr, cali_make_variant_from_int(num_events++));
         c.push_snapshot(channel.body(), SnapshotView(1, &data));
diff --git a/src/services/sampler/Sampler.cpp b/src/services/sampler/Sampler.cpp
index 976bcae..049ebc3 100644
--- a/src/services/sampler/Sampler.cpp
+++ b/src/services/sampler/Sampler.cpp
@@ -67,7 +67,7 @@ void on_prof(int sig, siginfo_t* info, void* context)
 
     Caliper c = Caliper::sigsafe_instance();
 
-    if (!c)
+    if (!c || !channel.is_active())
         return;
 
     Entry    data[2];
-- 
2.43.0


From 8713da9cdcc3fb815240429b0064deb4e46a9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 11/50] fix: restore commas dropped from the report and umpire
 service specs

---
 src/services/report/Report.cpp           | 2 +-
 src/services/umpire/UmpireStatistics.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/services/report/Report.cpp b/src/services/report/Report.cpp
index 6c9c648..ee29120 100644
--- a/src/services/report/Report.cpp
+++ b/src/services/report/Report.cpp
@@ -118,7 +118,7 @@ const char* Report::s_spec = R"json(
   "value": "false"
  },{
   "name": "config",
-  "type": "string"
+  "type": "string",
   "description": "CalQL query to generate report",
  }
 ]}
diff --git a/src/services/umpire/UmpireStatistics.cpp b/src/services/umpire/UmpireStatistics.cpp
index 01fce53..006cb14 100644
--- a/src/services/umpire/UmpireStatistics.cpp
+++ b/src/services/umpire/UmpireStatistics.cpp
@@ -238,7 +238,7 @@ const char* UmpireService::s_spec = R"json(
   "value": "false"
  },{
   "name": "allocator_filter",
-  "type": "string"
+  "type": "string",
   "description": "Umpire allocators to track",
  },{
   "name": "record_highwatermarks",
-- 
2.43.0


From 62b764a40b94357ef3cece661f1ea5b76599b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 12/50] fix: built-in configurations refer to attributes and
 settings that exist

---
 src/caliper/CollectiveOutputChannel.cpp             |  2 +-
 src/caliper/RegionProfile.cpp                       |  3 +--
 src/caliper/controllers/LoopReportController.cpp    |  3 +--
 .../controllers/RuntimeProfileController.cpp        |  3 +--
 src/caliper/controllers/RuntimeReportController.cpp |  7 +++----
 src/caliper/controllers/SpotController.cpp          |  4 +---
 src/caliper/controllers/controllers.cpp             | 10 +++++-----
 src/common/RuntimeConfig.cpp                        | 13 +++++--------
 8 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/caliper/CollectiveOutputChannel.cpp b/src/caliper/CollectiveOutputChannel.cpp
index 7d28484..006ab12 100644
--- a/src/caliper/CollectiveOutputChannel.cpp
+++ b/src/caliper/CollectiveOutputChannel.cpp
@@ -178,7 +178,7 @@ std::shared_ptr<CollectiveOutputChannel> CollectiveOutputChannel::from(const std
 
     cfg["CALI_SERVICES_ENABLE"]       = ::remove_from_stringlist(cfg["CALI_SERVICES_ENABLE"], "mpireport");
     cfg["CALI_CHANNEL_CONFIG_CHECK"]  = "false";
-    cfg["CALI_CHANNEL_FLUSH_AT_EXIT"] = "false";
+    cfg["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
 
     std::string cross_query = cfg["CALI_MPIREPORT_CONFIG"];
     std::string local_query = cfg["CALI_MPIREPORT_LOCAL_CONFIG"];
diff --git a/src/caliper/RegionProfile.cpp b/src/caliper/RegionProfile.cpp
index 1e7cdad..7f4017c 100644
--- a/src/caliper/RegionProfile.cpp
+++ b/src/caliper/RegionProfile.cpp
@@ -26,8 +26,7 @@ RegionProfile::RegionProfile()
           { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" },
           { "CALI_CHANNEL_CONFIG_CHECK", "false" },
           { "CALI_EVENT_ENABLE_SNAPSHOT_INFO", "false" },
-          { "CALI_TIMER_INCLUSIVE_DURATION", "false" },
-          { "CALI_TIMER_UNIT", "sec" } }
+          { "CALI_TIMER_INCLUSIVE_DURATION", "false" } }
     ),
       mP { new RegionProfileImpl }
 {}
diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index c3327a7..2ee6af6 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -283,8 +283,7 @@ const char* loop_report_controller_spec = R"json(
  "config"      :
  {
   "CALI_CHANNEL_FLUSH_ON_EXIT" : "false",
-  "CALI_CHANNEL_CONFIG_CHECK"  : "false",
-  "CALI_TIMER_UNIT"            : "sec"
+  "CALI_CHANNEL_CONFIG_CHECK"  : "false"
  },
  "options":
  [
diff --git a/src/caliper/controllers/RuntimeProfileController.cpp b/src/caliper/controllers/RuntimeProfileController.cpp
index a25e670..077bff7 100644
--- a/src/caliper/controllers/RuntimeProfileController.cpp
+++ b/src/caliper/controllers/RuntimeProfileController.cpp
@@ -121,8 +121,7 @@ const char* controller_spec = R"json(
  "services"    : [ "aggregate", "event", "timer" ],
  "config"      :
  { "CALI_CHANNEL_FLUSH_ON_EXIT"      : "false",
-   "CALI_EVENT_ENABLE_SNAPSHOT_INFO" : "false",
-   "CALI_TIMER_UNIT"                 : "sec"
+   "CALI_EVENT_ENABLE_SNAPSHOT_INFO" : "false"
  },
  "defaults"    : { "node.order": "true" },
  "options":
diff --git a/src/caliper/controllers/RuntimeReportController.cpp b/src/caliper/controllers/RuntimeReportController.cpp
index 01628f4..c6f8095 100644
--- a/src/caliper/controllers/RuntimeReportController.cpp
+++ b/src/caliper/controllers/RuntimeReportController.cpp
@@ -121,8 +121,7 @@ const char* runtime_report_spec = R"json(
  "config"      :
  {
   "CALI_CHANNEL_FLUSH_ON_EXIT": "false",
-  "CALI_EVENT_ENABLE_SNAPSHOT_INFO": "false",
-  "CALI_TIMER_UNIT": "sec"
+  "CALI_EVENT_ENABLE_SNAPSHOT_INFO": "false"
  },
  "defaults"    : { "order_as_visited": "true", "output.append": "true" },
  "options"     :
@@ -150,8 +149,8 @@ const char* runtime_report_spec = R"json(
    "description": "Order tree branches by highest exclusive runtime",
    "query":
    {
-    "local": "order by sum#report.time desc",
-    "cross": "aggregate sum(sum#report.time) order by sum#sum#report.time desc"
+    "local": "order by sum#report.t desc",
+    "cross": "aggregate sum(sum#report.t) order by sum#sum#report.t desc"
    }
   },{
    "name": "output.append",
diff --git a/src/caliper/controllers/SpotController.cpp b/src/caliper/controllers/SpotController.cpp
index 4174a89..e18dbc1 100644
--- a/src/caliper/controllers/SpotController.cpp
+++ b/src/caliper/controllers/SpotController.cpp
@@ -226,8 +226,7 @@ const char* spot_timeseries_spec =
     " \"services\"    : [ \"loop_monitor\", \"timer\", \"trace\" ],"
     " \"config\"      : "
     "   { \"CALI_CHANNEL_FLUSH_ON_EXIT\"      : \"false\","
-    "     \"CALI_CHANNEL_CONFIG_CHECK\"       : \"false\","
-    "     \"CALI_TIMER_UNIT\"                 : \"sec\""
+    "     \"CALI_CHANNEL_CONFIG_CHECK\"       : \"false\""
     "   },"
     " \"options\": "
     " ["
@@ -567,7 +566,6 @@ const char* spot_controller_spec = R"json(
   "CALI_CHANNEL_FLUSH_ON_EXIT"      : "false",
   "CALI_CHANNEL_CONFIG_CHECK"       : "false",
   "CALI_EVENT_ENABLE_SNAPSHOT_INFO" : "false",
-  "CALI_TIMER_SNAPSHOT_DURATION"    : "true",
   "CALI_TIMER_INCLUSIVE_DURATION"   : "false"
  },
  "defaults"    : { "node.order": "true", "region.count": "true", "time.exclusive" : "true" },
diff --git a/src/caliper/controllers/controllers.cpp b/src/caliper/controllers/controllers.cpp
index 04563a1..c8248f8 100644
--- a/src/caliper/controllers/controllers.cpp
+++ b/src/caliper/controllers/controllers.cpp
@@ -410,7 +410,7 @@ const char* builtin_mpi_option_specs = R"json(
   "select
     min(min#mms.min) as \"Msg size (min)\" unit Byte,
     avg(avg#mms.avg) as \"Msg size (avg)\" unit Byte,
-    max(max#mms.avg) as \"Msg size (avg)\" unit Byte"
+    max(max#mms.max) as \"Msg size (max)\" unit Byte"
  }
 },
 {
@@ -743,11 +743,11 @@ const char* builtin_rocm_option_specs = R"json(
     max(max#alloc.size) as \"Max Bytes/alloc\"",
   "cross":
   "select
-    max(max#alloc.region.highwatermark) as \"Mem HWM\",
+    max(max#max#alloc.region.highwatermark) as \"Mem HWM\",
     max(max#alloc.tally) as \"Alloc tMax\",
     sum(sum#alloc.count) as \"Alloc count\",
-    avg(avg#alloc.size) as \"Avg Bytes/alloc\",
-    max(max#alloc.size) as \"Max Bytes/alloc\""
+    avg(avg#avg#alloc.size) as \"Avg Bytes/alloc\",
+    max(max#max#alloc.size) as \"Max Bytes/alloc\""
  }
 },{
  "name": "rocm.activity.stats",
@@ -889,7 +889,7 @@ const char* builtin_libdw_option_specs = R"json(
  "category": "sampling",
  "description": "Report source function symbol names",
  "services": [ "symbollookup" ],
- "config": { "CALI_SYMBOLLOOKUP_LOOKUP_FUNCTION": "true" },
+ "config": { "CALI_SYMBOLLOOKUP_LOOKUP_FUNCTIONS": "true" },
  "query":
  {
   "local": "select source.function#cali.sampler.pc as Function group by source.function#cali.sampler.pc",
diff --git a/src/common/RuntimeConfig.cpp b/src/common/RuntimeConfig.cpp
index ba90810..f77af12 100644
--- a/src/common/RuntimeConfig.cpp
+++ b/src/common/RuntimeConfig.cpp
@@ -31,24 +31,21 @@ const char* builtin_profiles =
     "# [flat-function-profile]\n"
     "CALI_SERVICES_ENABLE=aggregate,event,report,timestamp\n"
     "CALI_TIMER_INCLUSIVE_DURATION=true\n"
-    "CALI_AGGREGATE_KEY=event.end#function\n"
-    "CALI_REPORT_CONFIG=\"select event.end#function,sum#time.inclusive.duration where event.end#function format table "
-    "order by time.inclusive.duration desc\"\n"
+    "CALI_AGGREGATE_KEY=event.end#region\n"
+    "CALI_REPORT_CONFIG=\"select event.end#region,sum#time.inclusive.duration.ns where event.end#region format table "
+    "order by sum#time.inclusive.duration.ns desc\"\n"
     "# [runtime-report]\n"
     "CALI_SERVICES_ENABLE=aggregate,event,report,timestamp\n"
     "CALI_EVENT_ENABLE_SNAPSHOT_INFO=false\n"
-    "CALI_TIMER_SNAPSHOT_DURATION=true\n"
     "CALI_TIMER_INCLUSIVE_DURATION=false\n"
-    "CALI_TIMER_UNIT=sec\n"
-    "CALI_REPORT_CONFIG=\"select inclusive_sum(sum#time.duration) as \\\"Inclusive time\\\",sum(sum#time.duration) as "
+    "CALI_REPORT_CONFIG=\"let sum#time.duration=scale(sum#time.duration.ns,1e-9) select inclusive_sum(sum#time.duration) as \\\"Inclusive time\\\",sum(sum#time.duration) as "
     "\\\"Exclusive time\\\",percent_total(sum#time.duration) as \\\"Time %\\\" group by prop:nested format tree\"\n"
     "CALI_REPORT_FILENAME=stderr\n"
     "# [mpi-runtime-report]\n"
     "CALI_SERVICES_ENABLE=aggregate,event,mpi,mpireport,timestamp\n"
     "CALI_MPI_BLACKLIST=MPI_Comm_rank,MPI_Comm_size,MPI_Wtick,MPI_Wtime\n"
     "CALI_EVENT_ENABLE_SNAPSHOT_INFO=false\n"
-    "CALI_TIMER_UNIT=sec\n"
-    "CALI_MPIREPORT_CONFIG=\"select min(sum#time.duration) as \\\"Min time/rank\\\",max(sum#time.duration) as \\\"Max "
+    "CALI_MPIREPORT_CONFIG=\"let sum#time.duration=scale(sum#time.duration.ns,1e-9) select min(sum#time.duration) as \\\"Min time/rank\\\",max(sum#time.duration) as \\\"Max "
     "time/rank\\\", avg(sum#time.duration) as \\\"Avg time/rank\\\", percent_total(sum#time.duration) as \\\"Time % "
     "(total)\\\" group by prop:nested format tree\"\n"
     "CALI_MPIREPORT_FILENAME=stderr\n"
-- 
2.43.0


From ed20ab498c3f659cdf24a99f445eadb7e92d65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 13/50] fix: cali reader: accept a record that ends in an empty
 value

---
 src/reader/CaliReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index bf8479a..7d4d8da 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -46,7 +46,7 @@ public:
 
     inline bool matches(size_t N, const char* key)
     {
-        if (it_ + N < end_) {
+        if (static_cast<size_t>(end_ - it_) >= N) {
             if (std::equal(it_, it_ + N, key)) {
                 it_ += N;
                 return true;
-- 
2.43.0


From 4fb1ea50c2be3197009135e7aa247af17dd3c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 14/50] fix: cali reader: accept snapshot and globals records
 without entries

---
 src/reader/CaliReader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index 7d4d8da..ed0f4c0 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -55,6 +55,12 @@ public:
         return false;
     }
 
+    // does the remaining text consist of exactly the N characters in key?
+    inline bool matches_rest(size_t N, const char* key)
+    {
+        return static_cast<size_t>(end_ - it_) == N && matches(N, key);
+    }
+
     std::string context() { return std::string { it_, end_ }; }
 };
 
@@ -242,9 +248,9 @@ struct CaliReader::CaliReaderImpl {
     {
         if (is.matches(11, "__rec=node,")) {
             read_node(is, db, idmap, node_proc);
-        } else if (is.matches(10, "__rec=ctx,")) {
+        } else if (is.matches(10, "__rec=ctx,") || is.matches_rest(9, "__rec=ctx")) {
             read_snapshot(is, db, idmap, snap_proc);
-        } else if (is.matches(14, "__rec=globals,")) {
+        } else if (is.matches(14, "__rec=globals,") || is.matches_rest(13, "__rec=globals")) {
             read_globals(is, db, idmap);
         } else {
             set_error(std::string("Unknown/invalid record: ") + is.context());
-- 
2.43.0


From 753db9566be790e178a6d202f75690a4a80a69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 15/50] fix: python reader: keep empty trailing values and
 whitespace in values

---
 python/caliper-reader/caliperreader/caliperstreamreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index eee9a0e..0aa69b8 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -129,7 +129,7 @@ def _read_cali_record(line):
     entry   = []
     string  = ""
 
-    iterator = iter(line.strip())
+    iterator = iter(line.rstrip('\n'))
 
     for c in iterator:
         if c == '\\':
@@ -149,7 +149,7 @@ def _read_cali_record(line):
         else:
             string += c
 
-    if len(string) > 0:
+    if len(entry) > 0 or len(string) > 0:
         entry.append(string)
         result[entry[0]] = entry[1:]
 
-- 
2.43.0


From b415a732ecec2aa81df3b3caa41b9daf84da4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 16/50] fix: python reader: keep the globals of earlier globals
 records

---
 python/caliper-reader/caliperreader/caliperstreamreader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/caliper-reader/caliperreader/caliperstreamreader.py b/python/caliper-reader/caliperreader/caliperstreamreader.py
index 0aa69b8..d922389 100644
--- a/python/caliper-reader/caliperreader/caliperstreamreader.py
+++ b/python/caliper-reader/caliperreader/caliperstreamreader.py
@@ -77,7 +77,7 @@ class CaliperStreamReader:
         elif kind == 'ctx' and process_record_fn is not None:
             process_record_fn(self._expand_record(record))
         elif kind == 'globals':
-            self.globals = self._expand_record(record)
+            self.globals.update(self._expand_record(record))
 
 
     def _process_node_record(self, record):
-- 
2.43.0


From 820333da8c3cb9a327316d35729b579b6697cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 17/50] fix: cali writer: do not write the predefined ptr type
 node

---
 src/reader/CaliWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/CaliWriter.cpp b/src/reader/CaliWriter.cpp
index 7b87667..1f4397a 100644
--- a/src/reader/CaliWriter.cpp
+++ b/src/reader/CaliWriter.cpp
@@ -82,7 +82,7 @@ struct CaliWriter::CaliWriterImpl {
 
     void recursive_write_node(const CaliperMetadataAccessInterface& db, cali_id_t id)
     {
-        if (id < 11) // don't write the hard-coded metadata nodes
+        if (id < 12) // don't write the hard-coded metadata nodes
             return;
 
         {
-- 
2.43.0


From d667c0c82cdc2246e274fcc085110c4d818cadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 18/50] fix: format utils: do not drop non-ASCII characters
 when escaping

---
 src/common/util/format_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/util/format_util.h b/src/common/util/format_util.h
index be55f3b..8f479d6 100644
--- a/src/common/util/format_util.h
+++ b/src/common/util/format_util.h
@@ -39,7 +39,7 @@ inline std::ostream& write_json_esc_string(std::ostream& os, const char* str, st
             os.put('\\');
             os.put('n');
         }
-        if (c < 0x20) // skip control characters
+        if (static_cast<unsigned char>(c) < 0x20) // skip control characters
             continue;
         if (c == '\\' || c == '\"')
             os.put('\\');
@@ -57,7 +57,7 @@ inline std::ostream& write_cali_esc_string(std::ostream& os, const char* str, st
     for (size_t i = 0; i < size; ++i) {
         const char c = str[i];
 
-        if (c < 0x20) {
+        if (static_cast<unsigned char>(c) < 0x20) {
             if (c == '\n') { // handle newline in string
                 os.put('\\');
                 os.put('n');
-- 
2.43.0


From eab8cd7e39ea7dea99d524e9918628a45dccb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 19/50] fix: json formatter: escape attribute names in the
 attributes section

---
 src/reader/JsonFormatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index 2320728..cdd79b7 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -208,7 +208,8 @@ struct JsonFormatter::JsonFormatterImpl {
 
         int count = 0;
         for (const Attribute& a : attrs) {
-            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "") << '\"' << a.name() << "\": {";
+            os << (count++ > 0 ? ",\n" : "\n") << (m_opt_pretty ? "\t" : "");
+            util::write_json_esc_string(os << '\"', a.name()) << "\": {";
 
             // encode some properties
             os << "\"is_global\": " << (a.is_global() ? "true" : "false")
-- 
2.43.0


From 05bad6e51b234caa4c632a74b3a2d9a5dd310cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 20/50] fix: json formatter: quote immediate values that are
 not numbers or booleans

---
 src/reader/JsonFormatter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader/JsonFormatter.cpp b/src/reader/JsonFormatter.cpp
index cdd79b7..07b34a3 100644
--- a/src/reader/JsonFormatter.cpp
+++ b/src/reader/JsonFormatter.cpp
@@ -143,7 +143,9 @@ struct JsonFormatter::JsonFormatterImpl {
 
                 cali_attr_type type = attr.type();
 
-                if (m_opt_quote_all || type == CALI_TYPE_STRING || type == CALI_TYPE_USR)
+                bool number = (type == CALI_TYPE_INT || type == CALI_TYPE_UINT || type == CALI_TYPE_DOUBLE);
+
+                if (m_opt_quote_all || !(number || type == CALI_TYPE_BOOL))
                     quote_kvs[std::move(key)] = e.value().to_string();
                 else
                     noquote_kvs[std::move(key)] = e.value().to_string();
-- 
2.43.0


From 3b4e55c6763920d7cc2173e3208305b543046a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 21/50] fix: cali writer: write a node only once when several
 threads write

---
 src/reader/CaliWriter.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/reader/CaliWriter.cpp b/src/reader/CaliWriter.cpp
index 1f4397a..3038e24 100644
--- a/src/reader/CaliWriter.cpp
+++ b/src/reader/CaliWriter.cpp
@@ -85,12 +85,10 @@ struct CaliWriter::CaliWriterImpl {
         if (id < 12) // don't write the hard-coded metadata nodes
             return;
 
-        {
-            std::lock_guard<std::mutex> g(m_written_nodes_lock);
+        // NOTE: We assume that m_written_nodes_lock is locked!
 
-            if (m_written_nodes.count(id) > 0)
-                return;
-        }
+        if (m_written_nodes.count(id) > 0)
+            return;
 
         Node* node = db.node(id);
 
@@ -113,11 +111,7 @@ struct CaliWriter::CaliWriterImpl {
             ++m_num_written;
         }
 
-        {
-            std::lock_guard<std::mutex> g(m_written_nodes_lock);
-
-            m_written_nodes.insert(id);
-        }
+        m_written_nodes.insert(id);
     }
 
     void write_entrylist(const CaliperMetadataAccessInterface& db, RecordKind kind, const std::vector<Entry>& rec)
@@ -129,13 +123,17 @@ struct CaliWriter::CaliWriterImpl {
         ref_entries.reserve(rec.size());
         imm_entries.reserve(rec.size());
 
-        for (const Entry& e : rec) {
-            if (e.is_reference()) {
-                recursive_write_node(db, e.node()->id());
-                ref_entries.push_back(e);
-            } else if (e.is_immediate()) {
-                recursive_write_node(db, e.attribute());
-                imm_entries.push_back(e);
+        {
+            std::lock_guard<std::mutex> g(m_written_nodes_lock);
+
+            for (const Entry& e : rec) {
+                if (e.is_reference()) {
+                    recursive_write_node(db, e.node()->id());
+                    ref_entries.push_back(e);
+                } else if (e.is_immediate()) {
+                    recursive_write_node(db, e.attribute());
+                    imm_entries.push_back(e);
+                }
             }
         }
 
-- 
2.43.0


From 2413ea9cd817bb15afee0a6d9e4ee813228e21d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:04 +0000
Subject: [PATCH 22/50] fix: variant: compare int and pointer values without
 cutting the difference to 32 bits

---
 src/common/cali_variant.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/cali_variant.c b/src/common/cali_variant.c
index 5f457fa..804a444 100644
--- a/src/common/cali_variant.c
+++ b/src/common/cali_variant.c
@@ -472,7 +472,7 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
                 return (cmp ? cmp : (lhssize - rhssize));
             }
         case CALI_TYPE_INT:
-            return lhs.value.v_int - rhs.value.v_int;
+            return (lhs.value.v_int < rhs.value.v_int ? -1 : (lhs.value.v_int > rhs.value.v_int ? 1 : 0));
         case CALI_TYPE_ADDR:
         case CALI_TYPE_UINT:
             {
@@ -491,7 +491,11 @@ int cali_variant_compare(cali_variant_t lhs, cali_variant_t rhs)
         case CALI_TYPE_TYPE:
             return ((int) lhs.value.v_type) - ((int) rhs.value.v_type);
         case CALI_TYPE_PTR:
-            return (int) ((char const*) (lhs.value.unmanaged_ptr) - (char const*) (rhs.value.unmanaged_ptr));
+            {
+                uintptr_t l = (uintptr_t) lhs.value.unmanaged_ptr;
+                uintptr_t r = (uintptr_t) rhs.value.unmanaged_ptr;
+                return (l < r ? -1 : (l > r ? 1 : 0));
+            }
         }
     }
 
-- 
2.43.0


From 8493133445e1ec6f7283dd599cc07ba646b931a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 23/50] fix: variant: do not read before the start of an empty
 string

---
 include/caliper/common/cali_variant.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/caliper/common/cali_variant.h b/include/caliper/common/cali_variant.h
index 22f80bf..c648ec4 100644
--- a/include/caliper/common/cali_variant.h
+++ b/include/caliper/common/cali_variant.h
@@ -126,13 +126,15 @@ inline cali_variant_t cali_make_variant_from_string(const char* value)
     size_t   size = strlen(value);
     uint64_t hash = 0;
 
-    const unsigned char* p = (const unsigned char*) value;
-    hash |= p[0];
-    hash <<= 8;
-    hash |= p[size / 2];
-    hash <<= 8;
-    hash |= p[size - 1];
-    hash <<= 8;
+    if (size > 0) {
+        const unsigned char* p = (const unsigned char*) value;
+        hash |= p[0];
+        hash <<= 8;
+        hash |= p[size / 2];
+        hash <<= 8;
+        hash |= p[size - 1];
+        hash <<= 8;
+    }
 
     cali_variant_t v;
 
-- 
2.43.0


From b7114e0851615702b4c14945dee12ce1cb1081c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 24/50] fix: c api: do not store the terminator of a global
 string value

---
 src/caliper/cali.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index 2a56803..a72ebcd 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -580,7 +580,7 @@ void cali_set_global_string_byname(const char* name, const char* val)
 
     // TODO: check for existing incompatible attribute key
 
-    c.set(attr, Variant(CALI_TYPE_STRING, val, strlen(val) + 1));
+    c.set(attr, Variant(CALI_TYPE_STRING, val, strlen(val)));
 }
 
 void cali_set_global_uint_byname(const char* name, uint64_t val)
-- 
2.43.0


From 99a2346ad4828b8620aeb87f5e06cec756fecae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 25/50] fix: annotation: only the thread that drops the last
 reference deletes the object

---
 src/caliper/Annotation.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index 8a7926f..d310dbf 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -200,9 +200,7 @@ struct Annotation::Impl {
 
     void detach()
     {
-        --m_refcount;
-
-        if (m_refcount == 0)
+        if (--m_refcount == 0)
             delete this;
     }
 };
-- 
2.43.0


From 01254251b7c1f58ce2923b9b7cb19d8955f4e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 26/50] fix: python: end the decorated function's region also
 when it raises

---
 src/interface/python/pycaliper/high_level.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interface/python/pycaliper/high_level.py b/src/interface/python/pycaliper/high_level.py
index 0e5d35c..b90a192 100644
--- a/src/interface/python/pycaliper/high_level.py
+++ b/src/interface/python/pycaliper/high_level.py
@@ -44,9 +44,10 @@ def annotate_function(name=None, annotation_type="region"):
         @functools.wraps(func)
         def wrapper(*args, **kwargs):
             __annotation_decorator_begin_map[annotation_type](real_name)
-            result = func(*args, **kwargs)
-            __annotation_decorator_end_map[annotation_type](real_name)
-            return result
+            try:
+                return func(*args, **kwargs)
+            finally:
+                __annotation_decorator_end_map[annotation_type](real_name)
 
         return wrapper
 
-- 
2.43.0


From e24f09501faa5527bfcc6699c27c03d9ad7a4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 27/50] fix: report errors in the options list of a config spec

add_config_spec() ignored the error status of the option spec parser, so a config
spec with a broken "options" list was added without its options.
---
 src/caliper/ConfigManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 2bcf641..879c9e8 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -982,6 +982,8 @@ struct ConfigManager::ConfigManagerImpl {
 
         if (!ok)
             set_error(std::string("spec parse error: ") + util::clamp_string(spec.json, 48));
+        else if (spec.opts.error())
+            set_error(spec.opts.error_msg());
         if (!m_error) {
             auto spec_p = std::make_shared<config_spec_t>(spec);
             m_spec.emplace(spec.name, spec_p);
-- 
2.43.0


From 0196b370ad4ef3db9c65e1f70e598d0872434401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 28/50] fix: report config files that cannot be read

load_file() ignored a failed read, and computed a bogus size (and threw
std::length_error) for a directory.
---
 src/caliper/ConfigManager.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/caliper/ConfigManager.cpp b/src/caliper/ConfigManager.cpp
index 879c9e8..4d3440d 100644
--- a/src/caliper/ConfigManager.cpp
+++ b/src/caliper/ConfigManager.cpp
@@ -1155,12 +1155,14 @@ struct ConfigManager::ConfigManagerImpl {
     // Load config and/or option specs from file
     void load_file(const std::string& filename)
     {
-        if (std::ifstream is { filename, std::ios::ate }) {
-            auto        size = is.tellg();
-            std::string str(size, '\0');
-            is.seekg(0);
-            if (is.read(&str[0], size))
-                parse_json_content(str);
+        if (std::ifstream is { filename }) {
+            std::ostringstream content;
+            if (is.peek() != std::ifstream::traits_type::eof())
+                content << is.rdbuf();
+            if (is.bad() || !content)
+                set_error(std::string("Could not read file ") + filename);
+            else
+                parse_json_content(content.str());
         } else {
             set_error(std::string("Could not open file ") + filename);
         }
-- 
2.43.0


From 12f2d884c37df488b80e5cfbf7a8c61b47ff469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 29/50] fix: loop-report: report query errors in local and
 cross queries

The queries built from user options were used without looking at the parser's
error status.
---
 .../controllers/LoopReportController.cpp      | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/caliper/controllers/LoopReportController.cpp b/src/caliper/controllers/LoopReportController.cpp
index 2ee6af6..4970a1d 100644
--- a/src/caliper/controllers/LoopReportController.cpp
+++ b/src/caliper/controllers/LoopReportController.cpp
@@ -59,6 +59,17 @@ LoopInfo get_loop_info(CaliperMetadataAccessInterface& db, const EntryList& rec)
 
 using Comm = cali::internal::CustomOutputController::Comm;
 
+/// \brief Parse the given query, log an error if there is one
+QuerySpec parse_query(const std::string& query)
+{
+    CalQLParser parser(query.c_str());
+
+    if (parser.error())
+        Log(0).stream() << "loop-report: " << parser.error_msg() << " in query: " << query << std::endl;
+
+    return parser.spec();
+}
+
 class LoopReportController : public cali::internal::CustomOutputController
 {
     cali::ConfigManager::Options m_opts;
@@ -98,7 +109,7 @@ class LoopReportController : public cali::internal::CustomOutputController
 
         std::string query = m_opts.build_query("local", query_str);
 
-        return local_aggregate(c, db, CalQLParser(query.c_str()).spec());
+        return local_aggregate(c, db, parse_query(query));
     }
 
     QuerySpec summary_query()
@@ -114,7 +125,7 @@ class LoopReportController : public cali::internal::CustomOutputController
 
         std::string query = m_opts.build_query("cross", query_str);
 
-        return CalQLParser(query.c_str()).spec();
+        return parse_query(query);
     }
 
     Aggregator timeseries_local_aggregation(
@@ -135,7 +146,7 @@ class LoopReportController : public cali::internal::CustomOutputController
 
         query = m_opts.build_query("local", query);
 
-        return local_aggregate(c, db, CalQLParser(query.c_str()).spec());
+        return local_aggregate(c, db, parse_query(query));
     }
 
     QuerySpec timeseries_spec()
@@ -148,12 +159,8 @@ class LoopReportController : public cali::internal::CustomOutputController
             " group by Block format table order by Block ";
 
         std::string query = m_opts.build_query("cross", q_cross);
-        CalQLParser parser(query.c_str());
-
-        if (parser.error())
-            Log(0).stream() << parser.error_msg() << " " << query << std::endl;
 
-        return CalQLParser(query.c_str()).spec();
+        return parse_query(query);
     }
 
     void process_timeseries(Caliper& c, CaliperMetadataDB& db, OutputStream& stream, const LoopInfo& info, Comm comm)
-- 
2.43.0


From b822f233e756c057b94b1b9600da1273f0209a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:29 +0000
Subject: [PATCH 30/50] fix: openmp-report: cross-process query lacks the
 select keyword

---
 src/caliper/controllers/OpenMPReportController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/controllers/OpenMPReportController.cpp b/src/caliper/controllers/OpenMPReportController.cpp
index abcc189..4a3af29 100644
--- a/src/caliper/controllers/OpenMPReportController.cpp
+++ b/src/caliper/controllers/OpenMPReportController.cpp
@@ -42,7 +42,7 @@ public:
 
         // Config for second aggregation step in MPI mode (cross-process aggregation)
         std::string cross_query =
-            " max(max#n.threads) as \"#Threads\""
+            " select max(max#n.threads) as \"#Threads\""
             ",avg(inclusive#t.initial) as \"Time (thread) (avg)\""
             ",sum(inclusive#sum#time.duration) as \"Time (total)\"";
 
-- 
2.43.0


From bd507708849e34f234377da86aae3c312177d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 31/50] fix: finalize when exit() runs on a thread other than
 the initial one

---
 src/caliper/Caliper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 282c0f8..bff4ba7 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -1500,6 +1500,10 @@ Caliper Caliper::instance()
 
             GlobalData::s_init_lock = 0;
 
+            //   Finalize if exit() runs on a thread other than the initial one.
+            // That thread has no thread data when the static destructors run.
+            std::atexit(Caliper::release);
+
             // now we can use Caliper::instance()
             ::make_default_channel();
         }
-- 
2.43.0


From ac5bdca93a3ae27af47d4c0f182cb40672473899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 32/50] fix: allocstats: clear high-water marks when the
 channel is cleared

---
 src/services/alloc/AllocStatsService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/services/alloc/AllocStatsService.cpp b/src/services/alloc/AllocStatsService.cpp
index e691322..f7fee33 100644
--- a/src/services/alloc/AllocStatsService.cpp
+++ b/src/services/alloc/AllocStatsService.cpp
@@ -228,6 +228,7 @@ public:
         chn->events().flush_evt.connect([instance](Caliper* c, SnapshotView ctx, SnapshotFlushFn flush_fn){
             instance->flush_cb(c, ctx, flush_fn);
         });
+        chn->events().clear_evt.connect([instance](Caliper* c, Channel* channel) { instance->clear_cb(c, channel); });
         chn->events().finish_evt.connect([instance](Caliper* c, Channel* chn) {
             instance->finish_cb(c, chn);
             delete instance;
-- 
2.43.0


From d6ce13f296d84cc4f37a39b87d657733a3356fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 33/50] fix: aggregate: keep the skipped-records key when
 clearing the database

---
 src/services/aggregate/AggregationDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/services/aggregate/AggregationDB.cpp b/src/services/aggregate/AggregationDB.cpp
index c138695..db97336 100644
--- a/src/services/aggregate/AggregationDB.cpp
+++ b/src/services/aggregate/AggregationDB.cpp
@@ -111,7 +111,7 @@ void AggregationDB::clear()
     m_hashmap.assign(m_hashmap.size(), 0);
     m_entries.resize(1);
     m_kernels.resize(0);
-    m_keyents.resize(0);
+    m_keyents.resize(1); // keep the key of the skipped-records entry
 
     m_entries[0].count = 0;
 }
-- 
2.43.0


From de4354888570820fbbd5b5e30c5731adcf5bca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:34 +0000
Subject: [PATCH 34/50] fix: cali_channel_flush: ignore unknown channels

---
 src/caliper/cali.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/caliper/cali.cpp b/src/caliper/cali.cpp
index a72ebcd..954ea3c 100644
--- a/src/caliper/cali.cpp
+++ b/src/caliper/cali.cpp
@@ -728,6 +728,9 @@ void cali_channel_flush(cali_id_t chn_id, int flush_opts)
     Caliper c;
     Channel channel = c.get_channel(chn_id);
 
+    if (!channel)
+        return;
+
     c.flush_and_write(channel.body(), SnapshotView());
 
     if (flush_opts & CALI_FLUSH_CLEAR_BUFFERS)
-- 
2.43.0


From 046f608b4f0ad5170c9de7876f99b365815ddd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 35/50] fix: trace: clear the buffers after flushing them on
 overflow

---
 src/services/trace/Trace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index e3ac45e..868e41b 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -123,6 +123,7 @@ class Trace
             {
                 Log(1).stream() << m_channel.name() << ": trace: Trace buffer full, flushing.\n";
                 c->flush_and_write(m_channel.body(), SnapshotView());
+                c->clear(&m_channel);
                 return tbuf;
             }
 
-- 
2.43.0


From 6a85dffc72197b3fe8c16f99b82a6af635201135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:08 +0000
Subject: [PATCH 36/50] fix: process snapshot: refresh after the update counter
 wraps around

---
 src/caliper/Caliper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index bff4ba7..98da4ac 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -279,7 +279,7 @@ struct Caliper::ThreadData {
         // thread-local storage so we don't have to access (and lock) the
         // process/channel blackboards when they haven't changed.
         int process_bb_count_now = process_blackboard.count();
-        if (process_bb_count_now > process_bb_count) {
+        if (process_bb_count_now != process_bb_count) {
             //   Process blackboard has been updated:
             // update thread-local snapshot data
             process_snapshot.reset();
-- 
2.43.0


From fd48a9160f5da7ed4c022876338bdc51adf1cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:08 +0000
Subject: [PATCH 37/50] fix: blackboard: keep entries visible in snapshots when
 they move

---
 src/caliper/Blackboard.cpp | 17 +++++++++--------
 src/caliper/Blackboard.h   | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index 3d1c00f..c9f47c8 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -50,10 +50,8 @@ void Blackboard::add(cali_id_t key, const Entry& value, bool include_in_snapshot
     hashtable[I].key   = key;
     hashtable[I].value = value;
 
-    if (include_in_snapshots) {
-        toc[I / 32] |= (1 << (I % 32));
-        toctoc |= (1 << (I / 32));
-    }
+    if (include_in_snapshots)
+        add_to_toc(I);
 
     ++num_entries;
     max_num_entries = std::max(num_entries, max_num_entries);
@@ -87,7 +85,12 @@ void Blackboard::del(cali_id_t key)
             size_t k = hashtable[j].key % Nmax;
             if ((j > I && (k <= I || k > j)) || (j < I && (k <= I && k > j))) {
                 hashtable[I] = hashtable[j];
-                I            = j;
+                // the moved entry must stay visible in snapshots (or not)
+                if (in_toc(j))
+                    add_to_toc(I);
+                else
+                    remove_from_toc(I);
+                I = j;
             }
         }
     }
@@ -98,9 +101,7 @@ void Blackboard::del(cali_id_t key)
     --num_entries;
     ++ucount;
 
-    toc[I / 32] &= ~(1 << (I % 32));
-    if (toc[I / 32] == 0)
-        toctoc &= ~(1 << (I / 32));
+    remove_from_toc(I);
 }
 
 Entry Blackboard::exchange(cali_id_t key, const Entry& value, bool include_in_snapshots)
diff --git a/src/caliper/Blackboard.h b/src/caliper/Blackboard.h
index 7729dad..d96fe43 100644
--- a/src/caliper/Blackboard.h
+++ b/src/caliper/Blackboard.h
@@ -63,6 +63,21 @@ class Blackboard
         return I;
     }
 
+    bool in_toc(size_t I) const { return toc[I / 32] & (1 << (I % 32)); }
+
+    void add_to_toc(size_t I)
+    {
+        toc[I / 32] |= (1 << (I % 32));
+        toctoc |= (1 << (I / 32));
+    }
+
+    void remove_from_toc(size_t I)
+    {
+        toc[I / 32] &= ~(1 << (I % 32));
+        if (toc[I / 32] == 0)
+            toctoc &= ~(1 << (I / 32));
+    }
+
     void add(cali_id_t key, const Entry& value, bool include_in_snapshot);
 
 public:
-- 
2.43.0


From 5773ce29a1fbfc9ed2110da84ccdae9961e04447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:08 +0000
Subject: [PATCH 38/50] fix: blackboard: show an entry once a visible attribute
 is stored in it

---
 src/caliper/Blackboard.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/caliper/Blackboard.cpp b/src/caliper/Blackboard.cpp
index c9f47c8..5fba886 100644
--- a/src/caliper/Blackboard.cpp
+++ b/src/caliper/Blackboard.cpp
@@ -61,9 +61,11 @@ void Blackboard::set(cali_id_t key, const Entry& value, bool include_in_snapshot
 {
     size_t I = find_existing_entry(key);
 
-    if (hashtable[I].key == key)
+    if (hashtable[I].key == key) {
         hashtable[I].value = value;
-    else
+        if (include_in_snapshots)
+            add_to_toc(I);
+    } else
         add(key, value, include_in_snapshots);
 
     ++ucount;
@@ -112,6 +114,8 @@ Entry Blackboard::exchange(cali_id_t key, const Entry& value, bool include_in_sn
     if (hashtable[I].key == key) {
         ret                = hashtable[I].value;
         hashtable[I].value = value;
+        if (include_in_snapshots)
+            add_to_toc(I);
     } else
         add(key, value, include_in_snapshots);
 
-- 
2.43.0


From 315cd693dace54309504f4327ddc6ae510493cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:19 +0000
Subject: [PATCH 39/50] fix: end: do not lose updates that other threads make
 to process regions

---
 src/caliper/Caliper.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 98da4ac..65b9305 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -616,24 +616,31 @@ inline void handle_begin(
 }
 
 inline void handle_end(
-    const Attribute&       attr,
-    int                    prop,
-    const BlackboardEntry& current,
-    cali_id_t              key,
-    Blackboard&            blackboard,
-    MetadataTree&          tree
+    const Attribute& attr,
+    int              prop,
+    cali_id_t        key,
+    Blackboard&      blackboard,
+    MetadataTree&    tree
 )
 {
     if (prop & CALI_ATTR_ASVALUE)
         blackboard.del(key);
     else {
-        Node* node = current.merged_entry.node()->parent();
+        //   Load the current entry here: for process and channel blackboards,
+        // other threads may have updated it since the end() checks
+        Entry merged_entry = blackboard.get(key);
+        Entry entry        = merged_entry.get(attr);
+
+        if (entry.empty())
+            return;
+
+        Node* node = merged_entry.node()->parent();
 
         if (node == tree.root())
             blackboard.del(key);
         else {
-            if (current.merged_entry.node() != current.entry.node())
-                node = tree.remove_first_in_path(current.merged_entry.node(), attr);
+            if (merged_entry.node() != entry.node())
+                node = tree.remove_first_in_path(merged_entry.node(), attr);
 
             blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
         }
@@ -1016,10 +1023,10 @@ void Caliper::end(const Attribute& attr)
     }
 
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
+        handle_end(attr, prop, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        handle_end(attr, prop, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1061,10 +1068,10 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
     }
 
     if (scope == CALI_ATTR_SCOPE_THREAD)
-        handle_end(attr, prop, current, key, sT->thread_blackboard, sT->tree);
+        handle_end(attr, prop, key, sT->thread_blackboard, sT->tree);
     else {
         std::lock_guard<std::mutex> gbb(sG->process_blackboard_lock);
-        handle_end(attr, prop, current, key, sG->process_blackboard, sT->tree);
+        handle_end(attr, prop, key, sG->process_blackboard, sT->tree);
     }
 }
 
@@ -1151,7 +1158,7 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
     {
         std::lock_guard<std::mutex> gbb(chB->channel_blackboard_lock);
-        handle_end(attr, prop, current, key, chB->channel_blackboard, sT->tree);
+        handle_end(attr, prop, key, chB->channel_blackboard, sT->tree);
     }
 }
 
-- 
2.43.0


From f78c3540d65cc28659a4650ed16fd1e4180c8932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:41 +0000
Subject: [PATCH 40/50] fix: annotation: find attributes that were created by
 others

---
 src/caliper/Annotation.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/caliper/Annotation.cpp b/src/caliper/Annotation.cpp
index d310dbf..109f39f 100644
--- a/src/caliper/Annotation.cpp
+++ b/src/caliper/Annotation.cpp
@@ -165,12 +165,26 @@ struct Annotation::Impl {
     void end()
     {
         Caliper   c;
-        Attribute attr = Attribute::make_attribute(m_attr_node.load());
+        Attribute attr = find_attribute(c);
 
         if (attr)
             c.end(attr);
     }
 
+    // Return the annotation's attribute if it exists already. It may have been
+    // created by someone else since we last looked.
+    Attribute find_attribute(Caliper& c)
+    {
+        cali::Node* attr_node = m_attr_node.load();
+
+        if (!attr_node && c) {
+            attr_node = c.get_attribute(m_name).node();
+            m_attr_node.store(attr_node);
+        }
+
+        return Attribute::make_attribute(attr_node);
+    }
+
     Attribute get_attribute(Caliper& c, cali_attr_type type)
     {
         cali::Node* attr_node = m_attr_node.load();
@@ -251,7 +265,8 @@ Annotation& Annotation::begin()
 
 Annotation& Annotation::begin(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    Caliper   c;
+    Attribute attr = pI->find_attribute(c);
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
     if (attr && attr.type() == CALI_TYPE_DOUBLE)
@@ -277,7 +292,8 @@ Annotation& Annotation::begin(const Variant& data)
 
 Annotation& Annotation::set(int data)
 {
-    Attribute attr = Attribute::make_attribute(pI->m_attr_node.load());
+    Caliper   c;
+    Attribute attr = pI->find_attribute(c);
 
     // special case: allow assignment of int values to 'double' or 'uint' attributes
     if (attr && attr.type() == CALI_TYPE_DOUBLE)
-- 
2.43.0


From 13fc9caf9f32210f9f75be2e281eaa9b759094d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 41/50] fix: lockfree tree: acquire the child list before
 following it

---
 include/caliper/common/lockfree-tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/caliper/common/lockfree-tree.hpp b/include/caliper/common/lockfree-tree.hpp
index 74e1892..beac1a3 100644
--- a/include/caliper/common/lockfree-tree.hpp
+++ b/include/caliper/common/lockfree-tree.hpp
@@ -80,7 +80,7 @@ public:
 
     T* parent() const { return node(m_me).parent; }
 
-    T* first_child() const { return node(m_me).head.load(std::memory_order_relaxed); }
+    T* first_child() const { return node(m_me).head.load(std::memory_order_acquire); }
 
     T* next_sibling() const { return node(m_me).next; }
 
-- 
2.43.0


From ce00df9f1fc861d6e60c1c8c69d98739e82fc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 42/50] fix: metadata tree: keep long paths within their node
 blocks

---
 src/caliper/MetadataTree.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index f8f9f26..095aff1 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -130,6 +130,17 @@ bool MetadataTree::have_free_nodeblock(size_t n)
 
 Node* MetadataTree::create_path(const Attribute& attr, size_t n, const Variant* data, Node* parent = nullptr)
 {
+    // Create long paths in several steps so that each one fits into a node block
+
+    const size_t max_nodes = mG.load()->nodes_per_block;
+
+    for (; n > max_nodes; n -= max_nodes, data += max_nodes) {
+        parent = create_path(attr, max_nodes, data, parent);
+
+        if (!parent)
+            return nullptr;
+    }
+
     // Get a node block with sufficient free space
 
     if (!have_free_nodeblock(n))
-- 
2.43.0


From 25ceccf0a3c0649263c26ddf4a268f89781db817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 43/50] fix: metadata tree: always have space for the bootstrap
 nodes

---
 src/caliper/MetadataTree.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 095aff1..2d84db1 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -25,10 +25,11 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
       node_blocks(0),
       g_mempool(pool)
 {
-    num_blocks      = config.get("num_blocks").to_uint();
-    nodes_per_block = std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256);
+    // the first block must have space for the bootstrap nodes
+    num_blocks      = std::max<uint64_t>(config.get("num_blocks").to_uint(), 1);
+    nodes_per_block = std::max<uint64_t>(std::min<uint64_t>(config.get("nodes_per_block").to_uint(), 256), 16);
 
-    node_blocks = new NodeBlock[num_blocks];
+    node_blocks = new NodeBlock[num_blocks]();
 
     Node* chunk = pool.aligned_alloc<Node>(nodes_per_block);
 
-- 
2.43.0


From 4a45a3bdf2d6783346fbad33800f34180d455479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 44/50] fix: return no node when the node storage is exhausted

When all node blocks are in use, operations returned wrong paths or followed
null pointers. Return no node instead, keep the current blackboard entries, and
leave empty entries out of snapshot records.
---
 include/caliper/SnapshotRecord.h     |  8 +++---
 include/caliper/common/Entry.h       |  2 +-
 src/caliper/Caliper.cpp              | 43 ++++++++++++++++++++--------
 src/caliper/MetadataTree.cpp         | 25 ++++++++++++----
 src/services/validator/validator.cpp |  6 ++--
 5 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/include/caliper/SnapshotRecord.h b/include/caliper/SnapshotRecord.h
index 172b32e..44cd60c 100644
--- a/include/caliper/SnapshotRecord.h
+++ b/include/caliper/SnapshotRecord.h
@@ -102,6 +102,8 @@ public:
 
     void append(const Entry& e)
     {
+        if (e.empty())
+            return;
         if (m_len < m_capacity)
             m_data[m_len++] = e;
         else
@@ -110,10 +112,8 @@ public:
 
     void append(size_t n, const Entry* entries)
     {
-        size_t num_copied = std::min(n, m_capacity - m_len);
-        std::copy_n(entries, num_copied, m_data + m_len);
-        m_len += num_copied;
-        m_skipped += n - num_copied;
+        for (size_t i = 0; i < n; ++i)
+            append(entries[i]);
     }
 
     void append(const Attribute& attr, const Variant& val) { append(Entry(attr, val)); }
diff --git a/include/caliper/common/Entry.h b/include/caliper/common/Entry.h
index 2f8a529..96ee28f 100644
--- a/include/caliper/common/Entry.h
+++ b/include/caliper/common/Entry.h
@@ -41,7 +41,7 @@ public:
     constexpr Entry() : m_node(nullptr) {}
 
     /// @brief Construct a reference entry from \a node
-    Entry(Node* node) : m_node(node), m_value(node->data()) {}
+    Entry(Node* node) : m_node(node), m_value(node ? node->data() : Variant()) {}
 
     /// @brief Construct an immediate entry from \a attr, \a val
     Entry(const Attribute& attr, const Variant& val) : m_node(attr.node()), m_value(val) {}
diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 65b9305..2a5466c 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -611,7 +611,10 @@ inline void handle_begin(
     } else {
         cali_id_t key   = get_blackboard_key_for_reference_entry(prop);
         Entry     entry = Entry(tree.get_child(attr, value, blackboard.get(key).node()));
-        blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
+
+        // keep the current path if we're out of node storage
+        if (!entry.empty())
+            blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
     }
 }
 
@@ -636,14 +639,14 @@ inline void handle_end(
 
         Node* node = merged_entry.node()->parent();
 
-        if (node == tree.root())
-            blackboard.del(key);
-        else {
-            if (merged_entry.node() != entry.node())
-                node = tree.remove_first_in_path(merged_entry.node(), attr);
+        if (merged_entry.node() != entry.node())
+            node = tree.remove_first_in_path(merged_entry.node(), attr);
 
+        // there is no node if we're out of node storage
+        if (!node || node == tree.root())
+            blackboard.del(key);
+        else
             blackboard.set(key, Entry(node), !(prop & CALI_ATTR_HIDDEN));
-        }
     }
 }
 
@@ -659,8 +662,11 @@ inline void handle_set(
         blackboard.set(attr.id(), Entry(attr, value), !(prop & CALI_ATTR_HIDDEN));
     else {
         cali_id_t key  = get_blackboard_key_for_reference_entry(prop);
-        Node*     node = blackboard.get(key).node();
-        blackboard.set(key, tree.replace_first_in_path(node, attr, value), !(prop & CALI_ATTR_HIDDEN));
+        Entry     entry = Entry(tree.replace_first_in_path(blackboard.get(key).node(), attr, value));
+
+        // keep the current path if we're out of node storage
+        if (!entry.empty())
+            blackboard.set(key, entry, !(prop & CALI_ATTR_HIDDEN));
     }
 }
 
@@ -700,9 +706,13 @@ Attribute Caliper::create_attribute(
     node = sT->tree.type_node(type);
 
     // Add metadata nodes.
-    for (int n = 0; n < n_meta; ++n)
+    for (int n = 0; node && n < n_meta; ++n)
         node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
 
+    // Out of node storage
+    if (!node)
+        return Attribute();
+
     // Look for attribute properties in presets
     auto propit = sG->attribute_prop_presets.find(name);
     if (propit != sG->attribute_prop_presets.end())
@@ -729,7 +739,11 @@ Attribute Caliper::create_attribute(
     Attribute prop_attr = Attribute::make_attribute(sT->tree.node(Attribute::PROP_ATTR_ID));
 
     node = sT->tree.get_child(prop_attr, Variant(prop), node);
-    node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+
+    if (node)
+        node = sT->tree.get_child(name_attr, Variant(CALI_TYPE_STRING, name.data(), name.size()), node);
+    if (!node)
+        return Attribute();
 
     {
         // Check again if attribute already exists; might have been created by
@@ -1284,9 +1298,14 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
     for (size_t i = 0; i < n; ++i)
         if (attr[i].store_as_value())
             rec.append(Entry(attr[i], value[i]));
-        else
+        else {
             node = sT->tree.get_child(attr[i], value[i], node);
 
+            // Out of node storage: don't write an incomplete path
+            if (!node)
+                break;
+        }
+
     if (node && node != parent)
         rec.append(Entry(node));
 }
diff --git a/src/caliper/MetadataTree.cpp b/src/caliper/MetadataTree.cpp
index 2d84db1..05f3a10 100644
--- a/src/caliper/MetadataTree.cpp
+++ b/src/caliper/MetadataTree.cpp
@@ -23,6 +23,7 @@ MetadataTree::GlobalData::GlobalData(MemoryPool& pool)
       root(CALI_INV_ID, CALI_INV_ID, Variant()),
       next_block(1),
       node_blocks(0),
+      type_nodes(),
       g_mempool(pool)
 {
     // the first block must have space for the bootstrap nodes
@@ -208,9 +209,13 @@ Node* MetadataTree::create_child(const Attribute& attr, const Variant& value, No
 
     void* ptr = nullptr;
 
-    if (value.has_unmanaged_data())
+    if (value.has_unmanaged_data()) {
         ptr = m_mempool.allocate(value.size() + 1 /* ensure 0-padding so we can safely hand out string ptrs */);
 
+        if (!ptr)
+            return nullptr;
+    }
+
     size_t      index = m_nodeblock->index++;
     GlobalData* g     = mG.load();
 
@@ -251,9 +256,13 @@ Node* MetadataTree::get_path(size_t n, const Node* nodelist[], Node* parent = nu
     Node* node = parent;
 
     for (size_t i = 0; i < n; ++i)
-        if (nodelist[i])
+        if (nodelist[i]) {
             node = get_or_copy_node(nodelist[i], node);
 
+            if (!node)
+                return nullptr;
+        }
+
     return node;
 }
 
@@ -292,7 +301,7 @@ Node* MetadataTree::copy_path_without_attribute(const Attribute& attr, Node* nod
 
     Node* tmp = copy_path_without_attribute(attr, node->parent(), parent);
 
-    if (attr.id() != node->attribute())
+    if (tmp && attr.id() != node->attribute())
         tmp = get_or_copy_node(node, tmp);
 
     return tmp;
@@ -313,9 +322,13 @@ Node* MetadataTree::remove_first_in_path(Node* path, const Attribute& attr)
 
 Node* MetadataTree::replace_first_in_path(Node* path, const Attribute& attr, const Variant& data)
 {
-    if (path)
+    if (path) {
         path = remove_first_in_path(path, attr);
 
+        if (!path)
+            return nullptr;
+    }
+
     return get_child(attr, data, path);
 }
 
@@ -329,7 +342,9 @@ Node* MetadataTree::replace_all_in_path(Node* path, const Attribute& attr, size_
 
     parent = parent ? parent->parent() : root();
 
-    return get_path(attr, n, data, copy_path_without_attribute(attr, path, parent));
+    parent = copy_path_without_attribute(attr, path, parent);
+
+    return parent ? get_path(attr, n, data, parent) : nullptr;
 }
 
 Node* MetadataTree::get_child(const Attribute& attr, const Variant& val, Node* parent)
diff --git a/src/services/validator/validator.cpp b/src/services/validator/validator.cpp
index 9d86b01..8b0db44 100644
--- a/src/services/validator/validator.cpp
+++ b/src/services/validator/validator.cpp
@@ -64,8 +64,10 @@ class ValidatorService
         {
             Variant v_copy = value;
 
-            if (!attr.store_as_value())
-                v_copy = c->make_tree_entry(attr, value, &m_root_node)->data();
+            if (!attr.store_as_value()) {
+                const Node* node = c->make_tree_entry(attr, value, &m_root_node);
+                v_copy = node ? node->data() : Variant();
+            }
 
             m_region_stack[attr].push_back(v_copy);
         }
-- 
2.43.0


From fa4d781207c4379511e54c96e3a4c469b29442d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 45/50] fix: ignore invalid attributes in begin, end, and set

Annotations with an attribute that does not exist (e.g., an invalid id in the C
interface, or an attribute that could not be created) crashed in the event
service, and an end disabled all annotations on the thread.
---
 src/caliper/Caliper.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index 2a5466c..c16430b 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -703,13 +703,14 @@ Attribute Caliper::create_attribute(
     Node* node = nullptr;
 
     // Get type node
-    node = sT->tree.type_node(type);
+    if (type > CALI_TYPE_INV && type <= CALI_MAXTYPE)
+        node = sT->tree.type_node(type);
 
     // Add metadata nodes.
     for (int n = 0; node && n < n_meta; ++n)
         node = sT->tree.get_child(meta_attr[n], meta_val[n], node);
 
-    // Out of node storage
+    // Invalid type, or out of node storage
     if (!node)
         return Attribute();
 
@@ -966,7 +967,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (!attr || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1002,7 +1003,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
-    if (sT->stack_error)
+    if (!attr || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1046,7 +1047,7 @@ void Caliper::end(const Attribute& attr)
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (!attr || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1091,7 +1092,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (sT->stack_error)
+    if (!attr || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1127,6 +1128,9 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1148,6 +1152,9 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
@@ -1178,6 +1185,9 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
+    if (!attr)
+        return;
+
     int  prop       = attr.properties();
     bool run_events = !(prop & CALI_ATTR_SKIP_EVENTS);
 
-- 
2.43.0


From 6cd3aeb626872966be77f1d0b03589fa8cab9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:35 +0000
Subject: [PATCH 46/50] fix: ignore calls after Caliper has been finalized

Caliper::instance() returns an empty object once the global data is
released, but the methods dereferenced it: any annotation, channel or
attribute call from a static destructor or exit handler crashed.
---
 src/caliper/Caliper.cpp | 122 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 114 insertions(+), 8 deletions(-)

diff --git a/src/caliper/Caliper.cpp b/src/caliper/Caliper.cpp
index c16430b..722aab5 100644
--- a/src/caliper/Caliper.cpp
+++ b/src/caliper/Caliper.cpp
@@ -687,7 +687,8 @@ Attribute Caliper::create_attribute(
     const Variant*     meta_val
 )
 {
-    assert(sG != 0);
+    if (!sG || !sT)
+        return Attribute();
 
     std::lock_guard<::siglock> g(sT->lock);
 
@@ -772,6 +773,9 @@ Attribute Caliper::create_attribute(
 
 Attribute Caliper::get_attribute(const std::string& name) const
 {
+    if (!sG || !sT)
+        return Attribute();
+
     std::lock_guard<::siglock>  gs(sT->lock);
     std::lock_guard<std::mutex> ga(sG->attribute_lock);
 
@@ -781,12 +785,18 @@ Attribute Caliper::get_attribute(const std::string& name) const
 
 Attribute Caliper::get_attribute(cali_id_t id) const
 {
+    if (!sG || !sT)
+        return Attribute();
+
     // no signal lock necessary
     return Attribute::make_attribute(sT->tree.node(id));
 }
 
 std::vector<Attribute> Caliper::get_all_attributes() const
 {
+    if (!sG || !sT)
+        return {};
+
     std::lock_guard<::siglock>  g(sT->lock);
     std::lock_guard<std::mutex> g_a(sG->attribute_lock);
 
@@ -815,6 +825,9 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sG || !sT)
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_begin(channel.body(), ptr, label, elem_size, ndim, dims, nextra, extra_attrs, extra_vals);
 }
@@ -822,6 +835,9 @@ void Caliper::memory_region_begin(
 /// Dispatch memory region annotation end across all active channels
 void Caliper::memory_region_end(const void* ptr)
 {
+    if (!sG || !sT)
+        return;
+
     for (auto& channel : sG->active_channels)
         memory_region_end(channel.body(), ptr);
 }
@@ -830,6 +846,9 @@ void Caliper::memory_region_end(const void* ptr)
 /// blackboard.
 std::vector<Entry> Caliper::get_globals()
 {
+    if (!sG || !sT)
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     return get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -839,6 +858,9 @@ std::vector<Entry> Caliper::get_globals()
 /// and the process blackboard.
 std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 {
+    if (!sG || !sT)
+        return {};
+
     std::lock_guard<::siglock> g(sT->lock);
 
     std::vector<Entry> ret = get_globals_from_blackboard(this, sG->process_blackboard, sG->process_blackboard_lock);
@@ -853,6 +875,9 @@ std::vector<Entry> Caliper::get_globals(ChannelBody* chB)
 
 void Caliper::pull_context(SnapshotBuilder& rec)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     // Get thread blackboard data
@@ -865,6 +890,9 @@ void Caliper::pull_context(SnapshotBuilder& rec)
 
 void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, SnapshotBuilder& rec)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     rec.append(trigger_info);
@@ -877,6 +905,9 @@ void Caliper::pull_snapshot(ChannelBody* chB, SnapshotView trigger_info, Snapsho
 
 void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -894,6 +925,9 @@ void Caliper::push_snapshot(ChannelBody* chB, SnapshotView trigger_info)
 
 void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info, const Entry& target)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     sT->snapshot.reset();
@@ -913,6 +947,9 @@ void Caliper::push_snapshot_replace(ChannelBody* chB, SnapshotView trigger_info,
 
 void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn proc_fn)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chB->events.pre_flush_evt(this, chB, flush_info);
@@ -936,6 +973,9 @@ void Caliper::flush(ChannelBody* chB, SnapshotView flush_info, SnapshotFlushFn p
 
 void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     SnapshotRecord flush_info;
@@ -958,6 +998,9 @@ void Caliper::flush_and_write(ChannelBody* chB, SnapshotView input_flush_info)
 
 void Caliper::clear(Channel* chn)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     chn->mP->events.clear_evt(this, chn);
@@ -967,7 +1010,7 @@ void Caliper::clear(Channel* chn)
 
 void Caliper::begin(const Attribute& attr, const Variant& data)
 {
-    if (!attr || sT->stack_error)
+    if (!attr || !sG || !sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1003,7 +1046,7 @@ void Caliper::begin(const Attribute& attr, const Variant& data)
 
 void Caliper::end(const Attribute& attr)
 {
-    if (!attr || sT->stack_error)
+    if (!attr || !sG || !sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1047,7 +1090,7 @@ void Caliper::end(const Attribute& attr)
 
 void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 {
-    if (!attr || sT->stack_error)
+    if (!attr || !sG || !sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1092,7 +1135,7 @@ void Caliper::end_with_value_check(const Attribute& attr, const Variant& data)
 
 void Caliper::set(const Attribute& attr, const Variant& data)
 {
-    if (!attr || sT->stack_error)
+    if (!attr || !sG || !sT || sT->stack_error)
         return;
 
     int prop  = attr.properties();
@@ -1120,6 +1163,9 @@ void Caliper::set(const Attribute& attr, const Variant& data)
 
 void Caliper::async_event(SnapshotView info)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->active_channels)
@@ -1128,7 +1174,7 @@ void Caliper::async_event(SnapshotView info)
 
 void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
-    if (!attr)
+    if (!attr || !sG || !sT)
         return;
 
     int  prop       = attr.properties();
@@ -1152,7 +1198,7 @@ void Caliper::begin(ChannelBody* chB, const Attribute& attr, const Variant& data
 
 void Caliper::end(ChannelBody* chB, const Attribute& attr)
 {
-    if (!attr)
+    if (!attr || !sG || !sT)
         return;
 
     int  prop       = attr.properties();
@@ -1185,7 +1231,7 @@ void Caliper::end(ChannelBody* chB, const Attribute& attr)
 
 void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 {
-    if (!attr)
+    if (!attr || !sG || !sT)
         return;
 
     int  prop       = attr.properties();
@@ -1205,6 +1251,9 @@ void Caliper::set(ChannelBody* chB, const Attribute& attr, const Variant& data)
 
 Entry Caliper::get(const Attribute& attr)
 {
+    if (!sG || !sT)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1224,6 +1273,9 @@ Entry Caliper::get(const Attribute& attr)
 
 Entry Caliper::get_blackboard_entry(const Attribute& attr)
 {
+    if (!sG || !sT)
+        return Entry();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1243,6 +1295,9 @@ Entry Caliper::get_blackboard_entry(const Attribute& attr)
 
 Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 {
+    if (!sG || !sT)
+        return Entry();
+
     cali_id_t key = get_blackboard_key(attr.id(), attr.properties());
 
     std::lock_guard<::siglock> g(sT->lock);
@@ -1253,6 +1308,9 @@ Entry Caliper::get(ChannelBody* chB, const Attribute& attr)
 
 Entry Caliper::get_path_node()
 {
+    if (!sG || !sT)
+        return Entry();
+
     Entry e;
 
     {
@@ -1287,12 +1345,18 @@ void Caliper::memory_region_begin(
     const Variant*   extra_vals
 )
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.track_mem_evt(this, chB, ptr, label, elem_size, ndims, dims, n, extra_attrs, extra_vals);
 }
 
 void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
     chB->events.untrack_mem_evt(this, chB, ptr);
 }
@@ -1301,6 +1365,9 @@ void Caliper::memory_region_end(ChannelBody* chB, const void* ptr)
 
 void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[], SnapshotBuilder& rec, Node* parent)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Node* node = parent;
@@ -1322,30 +1389,45 @@ void Caliper::make_record(size_t n, const Attribute attr[], const Variant value[
 
 Node* Caliper::make_tree_entry(size_t n, const Node* nodelist[], Node* parent)
 {
+    if (!sG || !sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(n, nodelist, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, const Variant& data, Node* parent)
 {
+    if (!sG || !sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_child(attr, data, parent);
 }
 
 Node* Caliper::make_tree_entry(const Attribute& attr, size_t n, const Variant data[], Node* parent)
 {
+    if (!sG || !sT)
+        return nullptr;
+
     std::lock_guard<::siglock> g(sT->lock);
     return sT->tree.get_path(attr, n, data, parent);
 }
 
 Node* Caliper::node(cali_id_t id) const
 {
+    if (!sG || !sT)
+        return nullptr;
+
     // no siglock necessary
     return sT->tree.node(id);
 }
 
 Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 {
+    if (!sG || !sT)
+        return Variant();
+
     int prop  = attr.properties();
     int scope = prop & CALI_ATTR_SCOPE_MASK;
 
@@ -1372,6 +1454,9 @@ Variant Caliper::exchange(const Attribute& attr, const Variant& data)
 
 Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 {
+    if (!sG || !sT)
+        return Channel();
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Creating channel " << name << std::endl;
@@ -1414,6 +1499,9 @@ Channel Caliper::create_channel(const char* name, const RuntimeConfig& cfg)
 
 Channel Caliper::get_channel(cali_id_t id)
 {
+    if (!sG || !sT)
+        return Channel();
+
     auto it = std::find_if(sG->all_channels.begin(), sG->all_channels.end(), [id](const Channel& channel) {
         return id == channel.id();
     });
@@ -1423,11 +1511,17 @@ Channel Caliper::get_channel(cali_id_t id)
 
 std::vector<Channel> Caliper::get_all_channels()
 {
+    if (!sG || !sT)
+        return {};
+
     return sG->all_channels;
 }
 
 void Caliper::delete_channel(Channel& channel)
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     channel.mP->events.pre_finish_evt(this, &channel);
@@ -1449,6 +1543,9 @@ void Caliper::delete_channel(Channel& channel)
 
 void Caliper::activate_channel(Channel& channel)
 {
+    if (!sG || !sT)
+        return;
+
     channel.mP->is_active = true;
 
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
@@ -1460,6 +1557,9 @@ void Caliper::activate_channel(Channel& channel)
 
 void Caliper::deactivate_channel(Channel& channel)
 {
+    if (!sG || !sT)
+        return;
+
     auto it = std::find(sG->active_channels.begin(), sG->active_channels.end(), channel);
     if (it != sG->active_channels.end())
         sG->active_channels.erase(it);
@@ -1470,6 +1570,9 @@ void Caliper::deactivate_channel(Channel& channel)
 /// \brief Release current thread
 void Caliper::release_thread()
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     for (auto& channel : sG->all_channels)
@@ -1478,6 +1581,9 @@ void Caliper::release_thread()
 
 void Caliper::finalize()
 {
+    if (!sG || !sT)
+        return;
+
     std::lock_guard<::siglock> g(sT->lock);
 
     Log(1).stream() << "Finalizing ... " << std::endl;
-- 
2.43.0


From ef686ff8dcd5a5752a39a8eccac0a48884418aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:23 +0000
Subject: [PATCH 47/50] fix: do not save a trace record in a buffer that is too
 small for it

With a buffer that cannot take the record even when it is empty (such as
CALI_TRACE_BUFFER_SIZE=0), the record was written past the end of the new
trace buffer chunk. Records dropped because the buffer is full were not
counted either.
---
 src/services/trace/Trace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/services/trace/Trace.cpp b/src/services/trace/Trace.cpp
index 868e41b..2580f71 100644
--- a/src/services/trace/Trace.cpp
+++ b/src/services/trace/Trace.cpp
@@ -143,8 +143,10 @@ class Trace
 
         if (!tbuf->chunks->fits(rec))
             tbuf = handle_overflow(c, tbuf);
-        if (!tbuf)
+        if (!tbuf || !tbuf->chunks->fits(rec)) {
+            ++dropped_snapshots;
             return;
+        }
 
         tbuf->chunks->save_snapshot(rec);
     }
-- 
2.43.0


From 588b9efedcb764a40babac4a6719ec4a5de59587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:00 +0000
Subject: [PATCH 48/50] fix: handle invalid node records in CaliperMetadataDB

A node record with an unknown attribute or parent (or without data) was
rejected by merge_node(), but the returned null pointer was used to update
the id map, and recursive_merge_node() used the null attribute node of a
record with an unknown attribute.
---
 src/reader/CaliperMetadataDB.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 384ac4b..5412d4f 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -224,7 +224,7 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
 
         Node* node = merge_node(node_id, attr_id, prnt_id, v_data);
 
-        if (node_id != node->id())
+        if (node && node_id != node->id())
             idmap.insert(std::make_pair(node_id, node->id()));
 
         return node;
@@ -265,6 +265,9 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         if (v_data.type() == CALI_TYPE_STRING)
             v_data = make_string_variant(static_cast<const char*>(v_data.data()), v_data.size());
 
+        if (!attr_node)
+            return nullptr;
+
         return merge_node(node->id(), attr_node->id(), parent ? parent->id() : CALI_INV_ID, v_data);
     }
 
-- 
2.43.0


From d3a3cf41792a11c040c352c3306f9f0c4ee1ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:00 +0000
Subject: [PATCH 49/50] fix: report malformed numbers in queries and options

A kernel argument ("aggregate scale(x,foo)"), format width, sampling
frequency, or adiak category that is not a number ended the program with an
uncaught std::invalid_argument or std::out_of_range exception.
---
 .../controllers/SampleProfileController.cpp   |  3 ++-
 .../controllers/SampleReportController.cpp    |  2 +-
 src/common/SnapshotTextFormatter.cpp          |  3 ++-
 src/reader/Aggregator.cpp                     | 20 ++++++++++++++++---
 src/reader/Preprocessor.cpp                   | 20 ++++++++++++++++---
 src/reader/UserFormatter.cpp                  |  3 ++-
 src/services/adiak/AdiakImport.cpp            | 11 ++++++++--
 7 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/caliper/controllers/SampleProfileController.cpp b/src/caliper/controllers/SampleProfileController.cpp
index b6e448b..de95746 100644
--- a/src/caliper/controllers/SampleProfileController.cpp
+++ b/src/caliper/controllers/SampleProfileController.cpp
@@ -8,6 +8,7 @@
 
 #include "caliper/common/Log.h"
 
+#include "../../common/StringConverter.h"
 #include "../../services/Services.h"
 
 #include <algorithm>
@@ -36,7 +37,7 @@ public:
         config()["CALI_SAMPLER_FREQUENCY"] = freqstr;
 
         std::string query = " select path,count()";
-        double      freq   = std::stod(freqstr);
+        double      freq   = StringConverter(freqstr).to_double();
 
         if (freq > 0) {
             query.append(",scale_count(");
diff --git a/src/caliper/controllers/SampleReportController.cpp b/src/caliper/controllers/SampleReportController.cpp
index 0183b9f..4eb7bbf 100644
--- a/src/caliper/controllers/SampleReportController.cpp
+++ b/src/caliper/controllers/SampleReportController.cpp
@@ -33,7 +33,7 @@ public:
     )
         : ChannelController(name, 0, initial_cfg)
     {
-        double freq = std::max(1.0, std::stod(opts.get("sample.frequency", "200")));
+        double freq = std::max(1.0, StringConverter(opts.get("sample.frequency", "200")).to_double());
 
         config()["CALI_SAMPLER_FREQUENCY"] = std::to_string(freq);
 
diff --git a/src/common/SnapshotTextFormatter.cpp b/src/common/SnapshotTextFormatter.cpp
index 4a1d427..cc8897e 100644
--- a/src/common/SnapshotTextFormatter.cpp
+++ b/src/common/SnapshotTextFormatter.cpp
@@ -9,6 +9,7 @@
 #include "caliper/common/CaliperMetadataAccessInterface.h"
 #include "caliper/common/Node.h"
 
+#include "StringConverter.h"
 #include "util/split.hpp"
 
 #include <algorithm>
@@ -70,7 +71,7 @@ struct cali::SnapshotTextFormatter::SnapshotTextFormatterImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // we have a width specification field
-                    field.width = std::stoi(field_strings[wfbegin + 1]);
+                    field.width = StringConverter(field_strings[wfbegin + 1]).to_int();
 
                     if (wfbegin > 0)
                         apos = 0;
diff --git a/src/reader/Aggregator.cpp b/src/reader/Aggregator.cpp
index 6b0ae8a..d6205d8 100644
--- a/src/reader/Aggregator.cpp
+++ b/src/reader/Aggregator.cpp
@@ -12,6 +12,8 @@
 #include "caliper/common/Log.h"
 #include "caliper/common/Node.h"
 
+#include "../common/StringConverter.h"
+
 #include <algorithm>
 #include <cassert>
 #include <cstring>
@@ -26,6 +28,18 @@ using namespace cali;
 namespace
 {
 
+/// \brief Read a numeric kernel argument. Returns \a defval if it is not a number.
+double parse_number_arg(const std::string& str, double defval)
+{
+    bool   ok  = false;
+    double val = StringConverter(str).to_double(&ok);
+
+    if (!ok)
+        Log(0).stream() << "Aggregator: Invalid number \"" << str << "\" in kernel argument" << std::endl;
+
+    return ok ? val : defval;
+}
+
 std::size_t compute_key_hash(const std::vector<Entry>& key)
 {
     std::size_t hash = 0;
@@ -202,7 +216,7 @@ public:
 
         explicit Config(const std::string& scale_str)
             : m_count_attr { scale_str, "scount#", CALI_TYPE_UINT }
-            , m_scale { std::stod(scale_str) }
+            , m_scale { parse_number_arg(scale_str, 1.0) }
         { }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg.front()); }
@@ -323,7 +337,7 @@ public:
             , m_inclusive { inclusive }
         {
             if (cfg.size() > 1)
-                m_scale = std::stod(cfg[1]);
+                m_scale = parse_number_arg(cfg[1], m_scale);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg) { return new Config(cfg, false); }
@@ -559,7 +573,7 @@ public:
             , m_inclusive { is_inclusive }
         {
             if (cfg.size() > 2)
-                m_scale = std::stod(cfg[2]);
+                m_scale = parse_number_arg(cfg[2], m_scale);
         }
 
         static AggregateKernelConfig* create(const std::vector<std::string>& cfg)
diff --git a/src/reader/Preprocessor.cpp b/src/reader/Preprocessor.cpp
index c8161d7..d4cf9b8 100644
--- a/src/reader/Preprocessor.cpp
+++ b/src/reader/Preprocessor.cpp
@@ -15,6 +15,8 @@
 
 #include "caliper/common/cali_types.h"
 
+#include "../common/StringConverter.h"
+
 #include <cmath>
 #include <vector>
 #include <utility>
@@ -24,6 +26,18 @@ using namespace cali;
 namespace
 {
 
+/// \brief Read a numeric kernel argument. Returns \a defval if it is not a number.
+double parse_number_arg(const std::string& str, double defval)
+{
+    bool   ok  = false;
+    double val = StringConverter(str).to_double(&ok);
+
+    if (!ok)
+        Log(0).stream() << "Preprocessor: Invalid number \"" << str << "\" in kernel argument" << std::endl;
+
+    return ok ? val : defval;
+}
+
 Variant get_value(
     const CaliperMetadataAccessInterface& db,
     const std::string&                    attr_name,
@@ -70,7 +84,7 @@ class ScaledRatioKernel : public Kernel
         : m_res_attr_name(def), m_nom_attr_name(args[0]), m_dnm_attr_name(args[1]), m_scale(1.0)
     {
         if (args.size() > 2)
-            m_scale = std::stod(args[2]);
+            m_scale = parse_number_arg(args[2], m_scale);
     }
 
 public:
@@ -116,7 +130,7 @@ class ScaleKernel : public Kernel
     ScaleKernel(const std::string& def, const std::vector<std::string>& args)
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_scale(1.0)
     {
-        m_scale = std::stod(args[1]);
+        m_scale = parse_number_arg(args[1], m_scale);
     }
 
 public:
@@ -155,7 +169,7 @@ class TruncateKernel : public Kernel
         : m_res_attr_name(def), m_tgt_attr_name(args[0]), m_factor(1.0)
     {
         if (args.size() > 1)
-            m_factor = std::stod(args[1]);
+            m_factor = parse_number_arg(args[1], m_factor);
     }
 
 public:
diff --git a/src/reader/UserFormatter.cpp b/src/reader/UserFormatter.cpp
index 1e65784..1bca63c 100644
--- a/src/reader/UserFormatter.cpp
+++ b/src/reader/UserFormatter.cpp
@@ -13,6 +13,7 @@
 #include "caliper/common/Node.h"
 #include "caliper/common/OutputStream.h"
 
+#include "../common/StringConverter.h"
 #include "../common/util/split.hpp"
 
 #include <algorithm>
@@ -81,7 +82,7 @@ struct UserFormatter::FormatImpl {
 
                 if (wfbegin >= 0 && wfend > wfbegin + 1) {
                     // width field specified
-                    field.width = stoi(field_strings[wfbegin + 1]);
+                    field.width = StringConverter(field_strings[wfbegin + 1]).to_int();
 
                     if (wfbegin > 0)
                         apos = 0;
diff --git a/src/services/adiak/AdiakImport.cpp b/src/services/adiak/AdiakImport.cpp
index 227be6a..02ba424 100644
--- a/src/services/adiak/AdiakImport.cpp
+++ b/src/services/adiak/AdiakImport.cpp
@@ -292,8 +292,15 @@ void register_adiak_import(Caliper* c, Channel* channel)
     ConfigSet        cfg = services::init_config_from_spec(channel->config(), spec);
     std::vector<int> categories;
 
-    for (const std::string& s : cfg.get("categories").to_stringlist())
-        categories.push_back(std::stoi(s));
+    for (const std::string& s : cfg.get("categories").to_stringlist()) {
+        bool ok  = false;
+        int  cat = StringConverter(s).to_int(&ok);
+
+        if (ok)
+            categories.push_back(cat);
+        else
+            Log(0).stream() << channel->name() << ": adiak_import: Invalid category " << s << std::endl;
+    }
 
     meta_attr[0] = c->create_attribute("adiak.type", CALI_TYPE_STRING, CALI_ATTR_DEFAULT | CALI_ATTR_SKIP_EVENTS);
     meta_attr[1] = c->create_attribute("adiak.category", CALI_TYPE_INT, CALI_ATTR_DEFAULT | CALI_ATTR_SKIP_EVENTS);
-- 
2.43.0


From 85898fff2014ff6515e54fcb8a8598b5b350f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:17 +0000
Subject: [PATCH 50/50] fix: leave out record entries with unknown ids

Entries that refer to nodes or attributes that do not exist were added to
records as empty entries, which code processing the records dereferences.
---
 src/reader/CaliReader.cpp        | 14 ++++++++++----
 src/reader/CaliperMetadataDB.cpp | 20 ++++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/reader/CaliReader.cpp b/src/reader/CaliReader.cpp
index ed0f4c0..524cb38 100644
--- a/src/reader/CaliReader.cpp
+++ b/src/reader/CaliReader.cpp
@@ -204,10 +204,16 @@ struct CaliReader::CaliReaderImpl {
         std::vector<Entry> rec;
         rec.reserve(refs.size() + std::min(attr.size(), data.size()));
 
-        for (cali_id_t id : refs)
-            rec.push_back(db.merge_entry(id, idmap));
-        for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i)
-            rec.push_back(db.merge_entry(attr[i], data[i], idmap));
+        for (cali_id_t id : refs) {
+            Entry e = db.merge_entry(id, idmap);
+            if (!e.empty())
+                rec.push_back(e);
+        }
+        for (size_t i = 0; i < std::min(attr.size(), data.size()); ++i) {
+            Entry e = db.merge_entry(attr[i], data[i], idmap);
+            if (!e.empty())
+                rec.push_back(e);
+        }
 
         snap_proc(db, rec);
     }
diff --git a/src/reader/CaliperMetadataDB.cpp b/src/reader/CaliperMetadataDB.cpp
index 5412d4f..2250995 100644
--- a/src/reader/CaliperMetadataDB.cpp
+++ b/src/reader/CaliperMetadataDB.cpp
@@ -242,10 +242,16 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         EntryList list;
         list.reserve(n_nodes + n_imm);
 
-        for (size_t i = 0; i < n_nodes; ++i)
-            list.push_back(Entry(node(::map_id(node_ids[i], idmap))));
-        for (size_t i = 0; i < n_imm; ++i)
-            list.push_back(Entry(attribute(::map_id(attr_ids[i], idmap)), values[i]));
+        for (size_t i = 0; i < n_nodes; ++i) {
+            Node* n = node(::map_id(node_ids[i], idmap));
+            if (n)
+                list.push_back(Entry(n));
+        }
+        for (size_t i = 0; i < n_imm; ++i) {
+            Attribute attr = attribute(::map_id(attr_ids[i], idmap));
+            if (attr)
+                list.push_back(Entry(attr, values[i]));
+        }
 
         return list;
     }
@@ -279,6 +285,9 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         for (const Entry& e : rec) {
             Node* node = recursive_merge_node(e.node(), db);
 
+            if (!node)
+                continue;
+
             if (e.is_reference())
                 list.push_back(Entry(node));
             else if (e.is_immediate())
@@ -475,6 +484,9 @@ struct CaliperMetadataDB::CaliperMetadataDBImpl {
         for (const Entry& e : import_globals) {
             Node* node = recursive_merge_node(e.node(), db);
 
+            if (!node)
+                continue;
+
             if (e.is_reference())
                 m_globals.push_back(Entry(node));
             else if (e.is_immediate())
-- 
2.43.0

