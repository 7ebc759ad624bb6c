From 5b56471ccab1bc6fd194e861cccfc85de52e29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 01/76] fix: dominator trees mask unreachable vertices as boost
 requires

lengauer_tarjan_dominator_tree takes unreachable vertices to have the maximal
depth-first number. They were initialised to 0, so that an edge from an
unreachable vertex changed the dominators of reachable ones.
---
 sdfg/src/graph/graph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..207580c 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/graph/graph.h"
 
+#include <limits>
+
 namespace sdfg {
 namespace graph {
 
@@ -97,7 +99,8 @@ const std::unordered_map<Vertex, Vertex> dominator_tree(const Graph& graph, cons
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(graph), 0);
+    // boost requires unreachable vertices to be masked as max
+    std::vector<size_t> df_num(num_vertices(graph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(graph), boost::graph_traits<Graph>::null_vertex());
@@ -155,7 +158,8 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
         boost::put(boost_index_map, *vi, i);
     }
 
-    std::vector<size_t> df_num(num_vertices(rgraph), 0);
+    // boost requires unreachable vertices to be masked as max
+    std::vector<size_t> df_num(num_vertices(rgraph), std::numeric_limits<size_t>::max());
     auto df_num_map(boost::make_iterator_property_map(df_num.begin(), boost_index_map));
 
     std::vector<Vertex> parent(num_vertices(rgraph), boost::graph_traits<Graph>::null_vertex());
-- 
2.43.0


From 06e3264faba64e63262bdc8968e9f7a6d1dcb399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 02/76] fix: post_dominator_tree removes its synthetic terminal
 from the graph

With several terminal vertices, the synthetic terminal stayed behind as an
isolated vertex of the caller's graph and in the returned map.
---
 sdfg/src/graph/graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index 207580c..878e13d 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -180,7 +180,14 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
 
     // Remove synthetic super-terminal if added
     if (modified) {
+        pdom_tree.erase(src);
+        for (auto& entry : pdom_tree) {
+            if (entry.second == src) {
+                entry.second = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
     }
 
     return pdom_tree;
-- 
2.43.0


From e990deabb92f0c490287abb73fc2df1530b3d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 03/76] fix: all_simple_paths does not return paths through
 their source

---
 sdfg/src/graph/graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index 878e13d..caabcf4 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -263,6 +263,11 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
     std::set<Vertex> visited;
     std::list<Edge> current_path;
 
+    // A simple path does not return to its source
+    if (src != dst) {
+        visited.insert(src);
+    }
+
     auto [eb, ee] = boost::out_edges(src, graph);
     auto edges = std::ranges::subrange(eb, ee);
     for (auto edge : edges) {
-- 
2.43.0


From 1baa5af7057dc6501a515463cb992b57d148a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 04/76] fix: inline captures compute their size in size_t

The accumulator was an int: captures of 2^31 bytes and more failed.
---
 arg-capture-io/src/arg_capture_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..afa9295 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -129,7 +129,7 @@ bool ArgCaptureIO::create_and_capture_to_file(
 }
 
 bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::string element_id) {
-    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<size_t>());
+    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());
 
     DEBUG_PRINT(
         "Capturing " << (capture.dims.size() - 1) << "D arg" << capture.arg_idx << ": type "
-- 
2.43.0


From 8195d1b4c5c72888928d7ff2fdc55e26241089ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 05/76] fix: write_index reports failed writes

A full disk left a truncated index behind without any error.
---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index afa9295..739e277 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -285,6 +285,9 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
         ofs << j;
 
         ofs.close();
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
 
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
-- 
2.43.0


From 3b75bfe66022002837b68c4729c9796976204093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 06/76] fix: read_data_from_raw_file reports short reads

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 739e277..fc1197e 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -249,6 +249,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (static_cast<size_t>(ifs.gcount()) != size) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From b9731680946c86f5d0dcc5b724f1f506f9773095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 07/76] fix: a capture entry without a required member is an
 error

operator[] on a const json object is undefined for missing keys.
---
 arg-capture-io/src/arg_capture_io.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index fc1197e..0a58a2d 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -61,10 +61,10 @@ void ArgCapture::parse_from(
     std::filesystem::path base_path
 ) {
     ArgCapture capture(
-        entry["arg_idx"].get<int>(),
-        entry["after"].get<bool>(),
-        entry["primitive_type"].get<int>(),
-        entry["dims"].get<std::vector<size_t>>()
+        entry.at("arg_idx").get<int>(),
+        entry.at("after").get<bool>(),
+        entry.at("primitive_type").get<int>(),
+        entry.at("dims").get<std::vector<size_t>>()
     );
 
     if (entry.contains("data")) {
-- 
2.43.0


From 5b02674187a2b53f50e1a932144ee5a7a291a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 08/76] fix: escape strings in the instrumentation trace

---
 rtl/src/instrumentation.cpp | 77 +++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..234f63e 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,33 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+// String contents as they may appear between the quotes of a JSON string
+static std::string js_escape(const std::string& str) {
+    std::string out;
+    out.reserve(str.size());
+    for (char c : str) {
+        switch (c) {
+            case '"':
+                out += "\\\"";
+                break;
+            case '\\':
+                out += "\\\\";
+                break;
+            default:
+                if (static_cast<unsigned char>(c) < 0x20) {
+                    char buf[8];
+                    std::snprintf(buf, sizeof(buf), "\\u%04x", static_cast<unsigned int>(c));
+                    out += buf;
+                } else {
+                    out += c;
+                }
+        }
+    }
+    return out;
+}
+
+static std::string js_escape(const char* str) { return str ? js_escape(std::string(str)) : std::string(); }
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +230,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << js_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +242,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << js_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << js_escape(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << js_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,27 +254,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << js_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << js_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << js_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << js_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << js_escape(md.opt_report_file) << "\",";
         } else {
             entry << "\"opt_report_file\":\"\",";
         }
@@ -255,7 +282,7 @@ private:
         if (md.sdfg_name && md.sdfg_file) {
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << js_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -277,7 +304,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << js_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -287,7 +314,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << js_escape(event_names[i]) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -333,7 +360,7 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << js_escape(md.function_name) << " [L" << md.line_begin << "-" << md.line_end << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -343,10 +370,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << js_escape(md.function_name) << "\",";
+        entry << "\"module\":\"" << js_escape(std::filesystem::path(md.file_name).filename().string()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << js_escape(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -356,27 +383,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << js_escape(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << js_escape(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << js_escape(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << js_escape(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << js_escape(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -386,7 +413,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << js_escape(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -408,7 +435,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << js_escape(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -416,7 +443,7 @@ private:
         entry << "\"metrics\":{";
         // PAPI counters
         for (size_t i = 0; i < event_names.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << js_escape(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -427,7 +454,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << js_escape(name) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
-- 
2.43.0


From 2e47c9370b8dc75407e6dd621c0b38147d64b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 09/76] fix: no stray separators for regions without events in
 the instrumentation trace

---
 rtl/src/instrumentation.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 234f63e..fa9535b 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -568,6 +568,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -579,11 +580,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -595,13 +596,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From d3c9cdfd87e2437a52e0a548d0de0a0dd863b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 10/76] fix: no trailing comma in docc metadata without an SDFG

---
 rtl/src/instrumentation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index fa9535b..df8ff75 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -274,12 +274,14 @@ private:
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << js_escape(md.opt_report_file) << "\",";
+            entry << "\"opt_report_file\":\"" << js_escape(md.opt_report_file) << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
             entry << "\"element_type\":\"" << js_escape(md.element_type) << "\",";
-- 
2.43.0


From 38751b30d3ab151679052db280b6225ceec9f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 11/76] fix: aggregated output of regions that never completed
 an event

---
 rtl/src/instrumentation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index df8ff75..0074d8e 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -106,8 +106,8 @@ struct DaisyRegion {
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -444,7 +444,7 @@ private:
 
         entry << "\"metrics\":{";
         // PAPI counters
-        for (size_t i = 0; i < event_names.size(); ++i) {
+        for (size_t i = 0; i < event_names.size() && i < region.n.size(); ++i) {
             entry << "\"" << js_escape(event_names[i]) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
-- 
2.43.0


From 83de5a7d7631a526b776db13bee2d887d2f6980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 12/76] fix: __daisy_sym_pow computes in 64 bits, without
 overflowing on its last squaring

---
 rtl/include/daisy_rtl/daisy_rtl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..0c1f35d 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -133,18 +133,20 @@ void __daisy_capture_3d(
 #define __daisy_fma(a, b, c) a* b + c
 
 // Implementation of integer functions for symbolic expressions
-inline int __daisy_sym_pow(int base, int exp) {
+static inline long long __daisy_sym_pow(long long base, long long exp) {
     if (exp < 0) {
         return 0;
     }
 
-    int result = 1;
+    long long result = 1;
     while (exp) {
         if (exp & 1) {
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if (exp) {
+            base *= base;
+        }
     }
     return result;
 }
-- 
2.43.0


From e6973e5aa3130e52e4fd4cef4b9f83a0c6a1d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 13/76] fix: parenthesise the __daisy_fma macro

---
 rtl/include/daisy_rtl/daisy_rtl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 0c1f35d..392df89 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -130,7 +130,7 @@ void __daisy_capture_3d(
 
 #define __daisy_min(a, b) ((a) < (b) ? (a) : (b))
 #define __daisy_max(a, b) ((a) > (b) ? (a) : (b))
-#define __daisy_fma(a, b, c) a* b + c
+#define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
 static inline long long __daisy_sym_pow(long long base, long long exp) {
-- 
2.43.0


From ac20862c822541f81819985171c4b16f3d4aaa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 14/76] fix: report the runtime variance in the squared unit of
 the runtime

---
 rtl/src/instrumentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 0074d8e..dd54a9d 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -469,7 +469,7 @@ private:
         // Runtime stats
         entry << "\"runtime\":{";
         entry << "\"mean\":" << ns_to_us(region.runtime_mean) << ",";
-        entry << "\"variance\":" << ns_to_us(region.runtime_variance) << ",";
+        entry << "\"variance\":" << ns_to_us(ns_to_us(region.runtime_variance)) << ",";
         entry << "\"count\":" << region.runtime_n << ",";
         entry << "\"min\":" << ns_to_us(region.runtime_min) << ",";
         entry << "\"max\":" << ns_to_us(region.runtime_max);
-- 
2.43.0


From b97c9ef491602fe69aaf7c9775d74ca4ebdb42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 15/76] fix: a failed request has no HTTP status

---
 rpc/include/sdfg/util/utils_curl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc/include/sdfg/util/utils_curl.h b/rpc/include/sdfg/util/utils_curl.h
index 8efcc53..74896f3 100644
--- a/rpc/include/sdfg/util/utils_curl.h
+++ b/rpc/include/sdfg/util/utils_curl.h
@@ -4,8 +4,8 @@
 #include <string>
 
 struct HttpResult {
-    CURLcode curl_code;
-    long http_status;
+    CURLcode curl_code = CURLE_OK;
+    long http_status = 0;
     std::string body;
     std::string error_message;
 };
-- 
2.43.0


From 28e9ebd1d374e5aed9b1988f7ab7285afa0d1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 16/76] fix: attribute affine coefficients to the generators
 they belong to

---
 sdfg/src/symbolic/polynomials.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/polynomials.cpp b/sdfg/src/symbolic/polynomials.cpp
index e5c8cb7..f356208 100644
--- a/sdfg/src/symbolic/polynomials.cpp
+++ b/sdfg/src/symbolic/polynomials.cpp
@@ -24,6 +24,12 @@ AffineCoeffs affine_coefficients(Polynomial poly, SymbolVec& symbols) {
     }
     coeffs[symbolic::symbol("__daisy_constant__")] = symbolic::zero();
 
+    // The exponents follow the order of the polynomial's generators, not the order of 'symbols'
+    SymbolVec generators;
+    for (auto& var : poly->get_vars()) {
+        generators.push_back(SymEngine::rcp_static_cast<const SymEngine::Symbol>(var));
+    }
+
     auto& D = poly->get_poly().get_dict();
     for (auto& [exponents, coeff] : D) {
         // Check if sum of exponents is <= 1
@@ -32,7 +38,7 @@ AffineCoeffs affine_coefficients(Polynomial poly, SymbolVec& symbols) {
         for (size_t i = 0; i < exponents.size(); i++) {
             auto& e = exponents[i];
             if (e > 0) {
-                symbol = symbols[i];
+                symbol = generators[i];
             }
             total_deg += e;
         }
-- 
2.43.0


From 0089697c19d341b65bfbec69ad1c7e7d38eaac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:32 +0000
Subject: [PATCH 17/76] fix: affine_inverse subtracts the other terms, not
 their coefficients

---
 sdfg/src/symbolic/polynomials.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/polynomials.cpp b/sdfg/src/symbolic/polynomials.cpp
index f356208..254b19e 100644
--- a/sdfg/src/symbolic/polynomials.cpp
+++ b/sdfg/src/symbolic/polynomials.cpp
@@ -63,7 +63,11 @@ Expression affine_inverse(AffineCoeffs coeffs, Symbol symbol) {
         if (eq(sym, symbol)) {
             continue;
         }
-        result = symbolic::add(result, SymEngine::neg(expr));
+        if (eq(sym, symbolic::symbol("__daisy_constant__"))) {
+            result = symbolic::sub(result, expr);
+        } else {
+            result = symbolic::sub(result, symbolic::mul(expr, sym));
+        }
     }
 
     return symbolic::div(result, coeffs[symbol]);
-- 
2.43.0


From 5f80221dd3d210d70af2b88172afc8828d7285b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 18/76] fix: bound zext_i64 and trunc_i32 only where they are
 monotonic, and no other function

---
 sdfg/src/symbolic/extreme_values.cpp | 124 ++++++++++++++++-----------
 1 file changed, 76 insertions(+), 48 deletions(-)

diff --git a/sdfg/src/symbolic/extreme_values.cpp b/sdfg/src/symbolic/extreme_values.cpp
index 9e6adfd..fb1940e 100644
--- a/sdfg/src/symbolic/extreme_values.cpp
+++ b/sdfg/src/symbolic/extreme_values.cpp
@@ -1,11 +1,39 @@
 #include "sdfg/symbolic/extreme_values.h"
 
+#include <cstdint>
+#include <string>
+
 #include "sdfg/symbolic/polynomials.h"
 
 namespace sdfg {
 namespace symbolic {
 
 size_t MAX_DEPTH = 100;
+
+// All function symbols share one type code, i.e., they must be told apart by name
+static bool is_function(const Expression& expr, const std::string& name) {
+    return SymEngine::is_a<SymEngine::FunctionSymbol>(*expr) &&
+           SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_name() == name;
+}
+
+// Zero extension wraps negative arguments
+static bool zext_is_monotonic(const Expression& min_arg, const Expression& max_arg) {
+    if (min_arg.is_null() || max_arg.is_null() || SymEngine::is_a<SymEngine::Infty>(*max_arg)) {
+        return false;
+    }
+    return symbolic::is_true(symbolic::Ge(min_arg, symbolic::zero()));
+}
+
+// Truncation wraps arguments outside of the i32 range
+static bool trunc_is_monotonic(const Expression& min_arg, const Expression& max_arg) {
+    if (min_arg.is_null() || max_arg.is_null() || SymEngine::is_a<SymEngine::Infty>(*min_arg) ||
+        SymEngine::is_a<SymEngine::Infty>(*max_arg)) {
+        return false;
+    }
+    return symbolic::is_true(symbolic::Ge(min_arg, symbolic::integer(INT32_MIN))) &&
+           symbolic::is_true(symbolic::Le(max_arg, symbolic::integer(INT32_MAX)));
+}
+
 Expression minimum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 Expression maximum(const Expression expr, const SymbolSet& parameters, const Assumptions& assumptions, const size_t depth);
 
@@ -23,22 +51,22 @@ Expression minimum(const Expression expr, const SymbolSet& parameters, const Ass
         return expr;
     } else if (SymEngine::is_a<SymEngine::Infty>(*expr)) {
         return expr;
-    } else if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto min_arg = minimum(zext->get_args()[0], parameters, assumptions, depth + 1);
-        if (min_arg == SymEngine::null) {
+    } else if (is_function(expr, "zext_i64")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        if (!zext_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(min_arg);
         }
-    } else if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto min_arg = minimum(trunc->get_args()[0], parameters, assumptions, depth + 1);
-        if (min_arg == SymEngine::null) {
+        return symbolic::zext_i64(min_arg);
+    } else if (is_function(expr, "trunc_i32")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        if (!trunc_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(min_arg);
         }
+        return symbolic::trunc_i32(min_arg);
     }
 
     // Symbol
@@ -179,23 +207,23 @@ Expression maximum(const Expression expr, const SymbolSet& parameters, const Ass
         return SymEngine::null;
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto max_arg = maximum(zext->get_args()[0], parameters, assumptions, depth + 1);
-        if (max_arg == SymEngine::null) {
+    if (is_function(expr, "zext_i64")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        if (!zext_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(max_arg);
         }
+        return symbolic::zext_i64(max_arg);
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto max_arg = maximum(trunc->get_args()[0], parameters, assumptions, depth + 1);
-        if (max_arg == SymEngine::null) {
+    if (is_function(expr, "trunc_i32")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum(arg, parameters, assumptions, depth + 1);
+        auto max_arg = maximum(arg, parameters, assumptions, depth + 1);
+        if (!trunc_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(max_arg);
         }
+        return symbolic::trunc_i32(max_arg);
     }
 
     // Mul
@@ -335,23 +363,23 @@ Expression minimum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto min_arg = minimum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (min_arg == SymEngine::null) {
+    if (is_function(expr, "zext_i64")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        if (!zext_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(min_arg);
         }
+        return symbolic::zext_i64(min_arg);
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto min_arg = minimum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (min_arg == SymEngine::null) {
+    if (is_function(expr, "trunc_i32")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        if (!trunc_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(min_arg);
         }
+        return symbolic::trunc_i32(min_arg);
     }
 
     // Symbol
@@ -503,23 +531,23 @@ Expression maximum_new(
         }
     }
 
-    if (SymEngine::is_a<symbolic::ZExtI64Function>(*expr)) {
-        auto zext = SymEngine::rcp_static_cast<const symbolic::ZExtI64Function>(expr);
-        auto max_arg = maximum_new(zext->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (max_arg == SymEngine::null) {
+    if (is_function(expr, "zext_i64")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        if (!zext_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::zext_i64(max_arg);
         }
+        return symbolic::zext_i64(max_arg);
     }
-    if (SymEngine::is_a<symbolic::TruncI32Function>(*expr)) {
-        auto trunc = SymEngine::rcp_static_cast<const symbolic::TruncI32Function>(expr);
-        auto max_arg = maximum_new(trunc->get_args()[0], parameters, assumptions, depth + 1, tight);
-        if (max_arg == SymEngine::null) {
+    if (is_function(expr, "trunc_i32")) {
+        auto arg = SymEngine::rcp_static_cast<const SymEngine::FunctionSymbol>(expr)->get_args()[0];
+        auto min_arg = minimum_new(arg, parameters, assumptions, depth + 1, tight);
+        auto max_arg = maximum_new(arg, parameters, assumptions, depth + 1, tight);
+        if (!trunc_is_monotonic(min_arg, max_arg)) {
             return SymEngine::null;
-        } else {
-            return symbolic::trunc_i32(max_arg);
         }
+        return symbolic::trunc_i32(max_arg);
     }
 
     // Symbol
-- 
2.43.0


From 9b33827dfb4b81eacf09a23ebd3f01b944774653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 19/76] fix: a power is monotonic in its base only

---
 sdfg/src/symbolic/maps.cpp   | 3 +++
 sdfg/src/symbolic/series.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index cccbccb..0e0f844 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -59,6 +59,9 @@ bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions
                 return false;
             }
             auto base_sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(base);
+            if (!symbolic::eq(base_sym, sym)) {
+                return false;
+            }
             auto ub_sym = minimum(base_sym, {}, assums);
             if (ub_sym == SymEngine::null) {
                 return false;
diff --git a/sdfg/src/symbolic/series.cpp b/sdfg/src/symbolic/series.cpp
index 7c7fae3..b6d7576 100644
--- a/sdfg/src/symbolic/series.cpp
+++ b/sdfg/src/symbolic/series.cpp
@@ -83,6 +83,9 @@ bool is_monotonic_pow(const Expression expr, const Symbol sym, const Assumptions
                 return false;
             }
             auto base_sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(base);
+            if (!symbolic::eq(base_sym, sym)) {
+                return false;
+            }
             auto ub_sym = minimum(base_sym, {}, assums);
             if (ub_sym == SymEngine::null) {
                 return false;
-- 
2.43.0


From 875e49a1eeb23ebd58815978f15989aa5d5b2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 20/76] fix: print truncating division and absolute values for
 ISL as they are

---
 sdfg/src/symbolic/utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index f404343..88a4a51 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -14,7 +14,7 @@
 namespace sdfg {
 namespace symbolic {
 
-// ISL-compatible printer that converts idiv to floord
+// ISL-compatible printer that converts idiv to floord and ceild
 class ISLSymbolicPrinter : public SymEngine::BaseVisitor<ISLSymbolicPrinter, SymEngine::CodePrinter> {
 public:
     using SymEngine::CodePrinter::apply;
@@ -23,11 +23,13 @@ public:
 
     void bvisit(const SymEngine::FunctionSymbol& x) {
         if (x.get_name() == "idiv") {
-            // ISL uses floord(a, b) for floor division
-            str_ = "floord(" + apply(x.get_args()[0]) + ", " + apply(x.get_args()[1]) + ")";
+            // idiv truncates: floord(a, b) for non-negative and ceild(a, b) for negative quotients
+            auto args = "(" + apply(x.get_args()[0]) + ", " + apply(x.get_args()[1]) + ")";
+            str_ = "(max(0, floord" + args + ") + min(0, ceild" + args + "))";
         } else if (x.get_name() == "iabs") {
             // ISL doesn't support abs directly, but we can express it
-            str_ = apply(x.get_args()[0]); // Simplify: assume non-negative for ISL constraints
+            auto arg = apply(x.get_args()[0]);
+            str_ = "max(" + arg + ", -(" + arg + "))";
         } else {
             // Unknown function - print as-is and let ISL reject it during parsing
             std::ostringstream ss;
-- 
2.43.0


From bc0dbcacf826370c9eabb31aea220234a7dbfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 21/76] fix: stride constraint of the first map starts at its
 own lower bound

---
 sdfg/src/symbolic/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 88a4a51..5dc52d7 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -367,7 +367,7 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums2.at(sym).lower_bound_deprecated();
+        auto lb = assums1.at(sym).lower_bound_deprecated();
         if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
-- 
2.43.0


From ffff5fb63f9def839a71577631a3f136427db8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 22/76] fix: a peeled dimension's remainder must be less than
 its stride

---
 sdfg/src/symbolic/utils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 5dc52d7..b402fbf 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -679,8 +679,13 @@ MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assu
             // remaining must be less than stride
             auto ub_stride = maximum(stride, {}, assums);
             auto ub_remaining = maximum(remaining, {}, assums);
-            auto cond_stride = symbolic::Ge(ub_stride, ub_remaining);
-            if (!symbolic::is_true(cond_stride)) {
+            if (ub_stride.is_null() || ub_remaining.is_null()) {
+                break;
+            }
+            bool unbounded = SymEngine::is_a<SymEngine::Infty>(*ub_stride) &&
+                             SymEngine::is_a<SymEngine::Infty>(*ub_remaining);
+            auto cond_stride = symbolic::Gt(ub_stride, ub_remaining);
+            if (!unbounded && !symbolic::is_true(cond_stride)) {
                 break;
             }
 
-- 
2.43.0


From 7c08aad01dbb8cdd649359ae30f9865b84a419a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 23/76] fix: compare delinearized subscripts only if they have
 the same layout

---
 sdfg/include/sdfg/symbolic/utils.h |  15 ++
 sdfg/src/symbolic/maps.cpp         |   3 +-
 sdfg/src/symbolic/sets.cpp         |   6 +-
 sdfg/src/symbolic/utils.cpp        | 243 ++++++++++++++++-------------
 4 files changed, 155 insertions(+), 112 deletions(-)

diff --git a/sdfg/include/sdfg/symbolic/utils.h b/sdfg/include/sdfg/symbolic/utils.h
index fa4f399..a3bdb4d 100644
--- a/sdfg/include/sdfg/symbolic/utils.h
+++ b/sdfg/include/sdfg/symbolic/utils.h
@@ -104,5 +104,20 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
  */
 MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums);
 
+/**
+ * @brief Delinearizes two multi-dimensional expressions such that they can be compared
+ * @param expr1 First multi-dimensional expression
+ * @param expr2 Second multi-dimensional expression
+ * @param assums1 Assumptions for the first expression
+ * @param assums2 Assumptions for the second expression
+ * @return Pair of delinearized multi-dimensional expressions
+ *
+ * The recovered indices of two expressions are comparable only if they refer to the same layout.
+ * Dimensions, whose recovered strides differ, are kept linearized in both expressions.
+ */
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+);
+
 } // namespace symbolic
 } // namespace sdfg
diff --git a/sdfg/src/symbolic/maps.cpp b/sdfg/src/symbolic/maps.cpp
index 0e0f844..05096b1 100644
--- a/sdfg/src/symbolic/maps.cpp
+++ b/sdfg/src/symbolic/maps.cpp
@@ -96,8 +96,7 @@ bool is_disjoint_isl(
     }
 
     // Transform both expressions into two maps with separate dimensions
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
     if (expr1_delinearized.size() != expr2_delinearized.size()) {
         return false;
     }
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 3b1802f..8f4e26d 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -17,8 +17,7 @@ bool is_subset(
         return true;
     }
 
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
@@ -73,8 +72,7 @@ bool is_subset(
 bool is_disjoint(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
-    auto expr1_delinearized = delinearize(expr1, assums1);
-    auto expr2_delinearized = delinearize(expr2, assums2);
+    auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index b402fbf..39066e8 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -590,128 +590,159 @@ void canonicalize_map_dims(isl_map* map, const std::string& in_prefix, const std
     }
 }
 
-MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
-    MultiExpression delinearized;
-    for (auto& dim : expr) {
-        // Check if more than two symbols are involved
-        SymbolVec symbols;
-        for (auto& sym : atoms(dim)) {
-            if (!assums.at(sym).constant() || !assums.at(sym).map().is_null()) {
-                symbols.push_back(sym);
+// Peels off the dimensions of a single, linearized dimension and records their strides.
+// Returns the dimension itself with stride one if this is not possible.
+static std::pair<MultiExpression, MultiExpression> delinearize_dim(const Expression& dim, const Assumptions& assums) {
+    const std::pair<MultiExpression, MultiExpression> unchanged = {{dim}, {symbolic::one()}};
+
+    // Check if more than two symbols are involved
+    SymbolVec symbols;
+    for (auto& sym : atoms(dim)) {
+        if (!assums.at(sym).constant() || !assums.at(sym).map().is_null()) {
+            symbols.push_back(sym);
+        }
+    }
+    if (symbols.size() < 1) {
+        return unchanged;
+    }
+
+    // Step 1: Get polynomial form and affine coefficients
+    auto poly = polynomial(dim, symbols);
+    if (poly == SymEngine::null) {
+        return unchanged;
+    }
+    auto aff_coeffs = affine_coefficients(poly, symbols);
+    if (aff_coeffs.empty()) {
+        return unchanged;
+    }
+    auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
+    aff_coeffs.erase(symbolic::symbol("__daisy_constant__"));
+
+    // Step 2: Peel-off dimensions
+    bool success = true;
+    Expression remaining = symbolic::sub(dim, offset);
+    MultiExpression peeled_dims;
+    MultiExpression strides;
+    while (!aff_coeffs.empty()) {
+        // Find the symbol with largest stride (= largest atom count)
+        Symbol new_dim = SymEngine::null;
+        size_t max_atom_count = 0;
+        for (const auto& [sym, coeff] : aff_coeffs) {
+            size_t atom_count = symbolic::atoms(coeff).size();
+            if (atom_count > max_atom_count || new_dim.is_null()) {
+                max_atom_count = atom_count;
+                new_dim = sym;
             }
         }
-        if (symbols.size() < 1) {
-            delinearized.push_back(dim);
-            continue;
+        if (new_dim.is_null()) {
+            break;
         }
 
-        // Step 1: Get polynomial form and affine coefficients
-        auto poly = polynomial(dim, symbols);
-        if (poly == SymEngine::null) {
-            delinearized.push_back(dim);
-            continue;
+        // Symbol must be nonnegative
+        auto sym_lb = minimum(new_dim, {}, assums);
+        if (sym_lb.is_null()) {
+            break;
         }
-        auto aff_coeffs = affine_coefficients(poly, symbols);
-        if (aff_coeffs.empty()) {
-            delinearized.push_back(dim);
-            continue;
+        auto sym_cond = symbolic::Ge(sym_lb, symbolic::zero());
+        if (!symbolic::is_true(sym_cond)) {
+            break;
         }
-        auto offset = aff_coeffs.at(symbolic::symbol("__daisy_constant__"));
-        aff_coeffs.erase(symbolic::symbol("__daisy_constant__"));
-
-        // Step 2: Peel-off dimensions
-        bool success = true;
-        Expression remaining = symbolic::sub(dim, offset);
-        std::vector<Expression> peeled_dims;
-        while (!aff_coeffs.empty()) {
-            // Find the symbol with largest stride (= largest atom count)
-            Symbol new_dim = SymEngine::null;
-            size_t max_atom_count = 0;
-            for (const auto& [sym, coeff] : aff_coeffs) {
-                size_t atom_count = symbolic::atoms(coeff).size();
-                if (atom_count > max_atom_count || new_dim.is_null()) {
-                    max_atom_count = atom_count;
-                    new_dim = sym;
-                }
-            }
-            if (new_dim.is_null()) {
-                break;
-            }
 
-            // Symbol must be nonnegative
-            auto sym_lb = minimum(new_dim, {}, assums);
-            if (sym_lb.is_null()) {
-                break;
-            }
-            auto sym_cond = symbolic::Ge(sym_lb, symbolic::zero());
-            if (!symbolic::is_true(sym_cond)) {
-                break;
-            }
+        // Stride must be positive
+        Expression stride = aff_coeffs.at(new_dim);
+        auto stride_lb = minimum(stride, {}, assums);
+        if (stride_lb.is_null()) {
+            break;
+        }
+        auto stride_cond = symbolic::Ge(stride_lb, symbolic::one());
+        if (!symbolic::is_true(stride_cond)) {
+            break;
+        }
 
-            // Stride must be positive
-            Expression stride = aff_coeffs.at(new_dim);
-            auto stride_lb = minimum(stride, {}, assums);
-            if (stride_lb.is_null()) {
-                break;
-            }
-            auto stride_cond = symbolic::Ge(stride_lb, symbolic::one());
-            if (!symbolic::is_true(stride_cond)) {
-                break;
-            }
+        // Peel off the dimension
+        remaining = symbolic::sub(remaining, symbolic::mul(stride, new_dim));
+        remaining = symbolic::expand(remaining);
+        remaining = symbolic::simplify(remaining);
 
-            // Peel off the dimension
-            remaining = symbolic::sub(remaining, symbolic::mul(stride, new_dim));
-            remaining = symbolic::expand(remaining);
-            remaining = symbolic::simplify(remaining);
+        // Check if remainder is within bounds
 
-            // Check if remainder is within bounds
+        // remaining must be nonnegative
+        auto rem_lb = minimum(remaining, {}, assums);
+        if (rem_lb.is_null()) {
+            break;
+        }
+        auto cond_zero = symbolic::Ge(rem_lb, symbolic::zero());
+        if (!symbolic::is_true(cond_zero)) {
+            break;
+        }
 
-            // remaining must be nonnegative
-            auto rem_lb = minimum(remaining, {}, assums);
-            if (rem_lb.is_null()) {
-                break;
-            }
-            auto cond_zero = symbolic::Ge(rem_lb, symbolic::zero());
-            if (!symbolic::is_true(cond_zero)) {
-                break;
-            }
+        // remaining must be less than stride
+        auto ub_stride = maximum(stride, {}, assums);
+        auto ub_remaining = maximum(remaining, {}, assums);
+        if (ub_stride.is_null() || ub_remaining.is_null()) {
+            break;
+        }
+        bool unbounded = SymEngine::is_a<SymEngine::Infty>(*ub_stride) &&
+                         SymEngine::is_a<SymEngine::Infty>(*ub_remaining);
+        auto cond_stride = symbolic::Gt(ub_stride, ub_remaining);
+        if (!unbounded && !symbolic::is_true(cond_stride)) {
+            break;
+        }
 
-            // remaining must be less than stride
-            auto ub_stride = maximum(stride, {}, assums);
-            auto ub_remaining = maximum(remaining, {}, assums);
-            if (ub_stride.is_null() || ub_remaining.is_null()) {
-                break;
-            }
-            bool unbounded = SymEngine::is_a<SymEngine::Infty>(*ub_stride) &&
-                             SymEngine::is_a<SymEngine::Infty>(*ub_remaining);
-            auto cond_stride = symbolic::Gt(ub_stride, ub_remaining);
-            if (!unbounded && !symbolic::is_true(cond_stride)) {
-                break;
-            }
+        // Add offset contribution of peeled dimension
+        auto [q, r] = polynomial_div(offset, stride);
+        offset = r;
+        auto final_dim = symbolic::add(new_dim, q);
 
-            // Add offset contribution of peeled dimension
-            auto [q, r] = polynomial_div(offset, stride);
-            offset = r;
-            auto final_dim = symbolic::add(new_dim, q);
+        peeled_dims.push_back(final_dim);
+        strides.push_back(stride);
+        aff_coeffs.erase(new_dim);
+    }
+    // Not all dimensions could be peeled off
+    if (!aff_coeffs.empty()) {
+        return unchanged;
+    }
+    // Offset did not reduce to zero
+    if (!symbolic::eq(offset, symbolic::zero())) {
+        return unchanged;
+    }
 
-            peeled_dims.push_back(final_dim);
-            aff_coeffs.erase(new_dim);
-        }
-        // Not all dimensions could be peeled off
-        if (!aff_coeffs.empty()) {
-            delinearized.push_back(dim);
-            continue;
-        }
-        // Offset did not reduce to zero
-        if (!symbolic::eq(offset, symbolic::zero())) {
-            delinearized.push_back(dim);
-            continue;
-        }
+    // Success
+    return {peeled_dims, strides};
+}
 
-        // Success
-        for (auto& peeled_dim : peeled_dims) {
-            delinearized.push_back(peeled_dim);
+MultiExpression delinearize(const MultiExpression& expr, const Assumptions& assums) {
+    MultiExpression delinearized;
+    for (auto& dim : expr) {
+        auto peeled_dims = delinearize_dim(dim, assums).first;
+        delinearized.insert(delinearized.end(), peeled_dims.begin(), peeled_dims.end());
+    }
+
+    return delinearized;
+}
+
+std::pair<MultiExpression, MultiExpression> delinearize(
+    const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
+) {
+    if (expr1.size() != expr2.size()) {
+        return {expr1, expr2};
+    }
+
+    std::pair<MultiExpression, MultiExpression> delinearized;
+    for (size_t i = 0; i < expr1.size(); i++) {
+        auto [dims1, strides1] = delinearize_dim(expr1[i], assums1);
+        auto [dims2, strides2] = delinearize_dim(expr2[i], assums2);
+
+        bool same_layout = strides1.size() == strides2.size();
+        for (size_t j = 0; same_layout && j < strides1.size(); j++) {
+            same_layout = symbolic::eq(strides1[j], strides2[j]);
+        }
+        if (!same_layout) {
+            dims1 = {expr1[i]};
+            dims2 = {expr2[i]};
         }
+        delinearized.first.insert(delinearized.first.end(), dims1.begin(), dims1.end());
+        delinearized.second.insert(delinearized.second.end(), dims2.begin(), dims2.end());
     }
 
     return delinearized;
-- 
2.43.0


From 3a287150c14134a67ef7b9382d7db390f7c3278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 24/76] fix: keep a subscript linearized if its offset leaves
 the row

---
 sdfg/src/symbolic/utils.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 39066e8..43bdcfa 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -707,6 +707,24 @@ static std::pair<MultiExpression, MultiExpression> delinearize_dim(const Express
         return unchanged;
     }
 
+    // Offset moves an inner index out of its row
+    Expression inner = symbolic::zero();
+    for (size_t i = peeled_dims.size(); i-- > 1;) {
+        inner = symbolic::expand(symbolic::add(inner, symbolic::mul(strides[i], peeled_dims[i])));
+        auto lb_inner = minimum(inner, {}, assums);
+        auto ub_inner = maximum(inner, {}, assums);
+        if (lb_inner.is_null() || ub_inner.is_null()) {
+            return unchanged;
+        }
+        if (symbolic::is_true(symbolic::Lt(lb_inner, symbolic::zero()))) {
+            return unchanged;
+        }
+        auto ub_stride = maximum(strides[i - 1], {}, assums);
+        if (!SymEngine::is_a<SymEngine::Infty>(*ub_stride) && symbolic::is_true(symbolic::Ge(ub_inner, ub_stride))) {
+            return unchanged;
+        }
+    }
+
     // Success
     return {peeled_dims, strides};
 }
-- 
2.43.0


From aed4b704befcae04f733810064dddf4886146441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:45 +0000
Subject: [PATCH 25/76] fix: symbols in the bounds of varying symbols vary
 between iterations as well

---
 sdfg/src/symbolic/utils.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 43bdcfa..88f9ac1 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -227,6 +227,23 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         syms.insert(syms_expr.begin(), syms_expr.end());
     }
 
+    // Bounds may refer to further symbols, which vary between the iterations as well
+    for (auto* assums : {&assums1, &assums2}) {
+        SymbolSet seen;
+        for (auto& con : generate_constraints(syms, *assums, seen)) {
+            for (auto& sym : symbolic::atoms(con)) {
+                auto assum1 = assums1.find(sym);
+                auto assum2 = assums2.find(sym);
+                if (assum1 == assums1.end() || assum2 == assums2.end()) {
+                    continue;
+                }
+                if (!assum1->second.constant() || !assum2->second.constant()) {
+                    syms.insert(sym);
+                }
+            }
+        }
+    }
+
     // Distinguish between dimensions and parameters
     std::vector<std::string> dimensions;
     SymbolSet dimensions_syms;
-- 
2.43.0


From 9d2a55d328ad309723cc47cf1853a1e549a5867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 26/76] fix: respect strides of symbols in the bounds of a
 subscript

---
 sdfg/src/symbolic/utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 88f9ac1..8856f0a 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -160,8 +160,13 @@ std::string expression_to_map_str(const MultiExpression& expr, const Assumptions
             constraints.push_back(con_str);
         }
     }
-    for (auto& dim : dimensions) {
+    std::vector<std::string> strided = dimensions;
+    strided.insert(strided.end(), parameters.begin(), parameters.end());
+    for (auto& dim : strided) {
         auto sym = symbolic::symbol(dim);
+        if (assums.find(sym) == assums.end()) {
+            continue;
+        }
         auto map_func = assums.at(sym).map();
         if (map_func == SymEngine::null) {
             continue;
-- 
2.43.0


From 983744b325789ccf2545ea0601d7f6d898541033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 27/76] fix: never order a dataflow node before its inputs in
 the topological sort

---
 sdfg/src/data_flow/data_flow_graph.cpp | 52 +++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/data_flow/data_flow_graph.cpp b/sdfg/src/data_flow/data_flow_graph.cpp
index 2b879e1..907d7c5 100644
--- a/sdfg/src/data_flow/data_flow_graph.cpp
+++ b/sdfg/src/data_flow/data_flow_graph.cpp
@@ -462,6 +462,25 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
 
         // Stich together by resolving dependencies
         visited.clear();
+        std::unordered_set<const DataFlowNode*> resolved;
+        auto depends_on_unresolved = [&](const DataFlowNode* start) {
+            std::unordered_set<const DataFlowNode*> seen({start});
+            std::stack<const DataFlowNode*> pending({start});
+            while (!pending.empty()) {
+                const auto* current = pending.top();
+                pending.pop();
+                for (auto& dependency : dependencies.at(current)) {
+                    auto* node = dependency.first;
+                    if (visited.contains(node) && !resolved.contains(node)) {
+                        return true;
+                    }
+                    if (!resolved.contains(node) && seen.insert(node).second) {
+                        pending.push(node);
+                    }
+                }
+            }
+            return false;
+        };
         for (const auto* sink : sinks) {
             if (visited.contains(sink)) {
                 continue;
@@ -479,13 +498,17 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
                         all_resolved = false;
                         break;
                     }
+                    if (!resolved.contains(node)) {
+                        throw boost::not_a_dag();
+                    }
 
                     for (long long j = 0; j < dependency_id; j++) {
                         if (!backward_dependencies.contains({node, j})) {
                             continue;
                         }
                         const auto* node2 = backward_dependencies.at({node, j});
-                        if (!visited.contains(node2)) {
+                        // Preferred order unless it contradicts the dependencies
+                        if (!visited.contains(node2) && !depends_on_unresolved(node2)) {
                             stack.push(node2);
                             all_resolved = false;
                             break;
@@ -500,6 +523,7 @@ std::list<const DataFlowNode*> DataFlowGraph::topological_sort() const {
                 }
 
                 components.at(i).insert(components.at(i).end(), lists.at(current).begin(), lists.at(current).end());
+                resolved.insert(current);
                 stack.pop();
             }
         }
@@ -719,6 +743,25 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
 
         // Stich together by resolving dependencies
         visited.clear();
+        std::unordered_set<DataFlowNode*> resolved;
+        auto depends_on_unresolved = [&](DataFlowNode* start) {
+            std::unordered_set<DataFlowNode*> seen({start});
+            std::stack<DataFlowNode*> pending({start});
+            while (!pending.empty()) {
+                auto* current = pending.top();
+                pending.pop();
+                for (auto& dependency : dependencies.at(current)) {
+                    auto* node = dependency.first;
+                    if (visited.contains(node) && !resolved.contains(node)) {
+                        return true;
+                    }
+                    if (!resolved.contains(node) && seen.insert(node).second) {
+                        pending.push(node);
+                    }
+                }
+            }
+            return false;
+        };
         for (auto* sink : sinks) {
             if (visited.contains(sink)) {
                 continue;
@@ -736,13 +779,17 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
                         all_resolved = false;
                         break;
                     }
+                    if (!resolved.contains(node)) {
+                        throw boost::not_a_dag();
+                    }
 
                     for (long long j = 0; j < dependency_id; j++) {
                         if (!backward_dependencies.contains({node, j})) {
                             continue;
                         }
                         auto* node2 = backward_dependencies.at({node, j});
-                        if (!visited.contains(node2)) {
+                        // Preferred order unless it contradicts the dependencies
+                        if (!visited.contains(node2) && !depends_on_unresolved(node2)) {
                             stack.push(node2);
                             all_resolved = false;
                             break;
@@ -757,6 +804,7 @@ std::list<DataFlowNode*> DataFlowGraph::topological_sort() {
                 }
 
                 components.at(i).insert(components.at(i).end(), lists.at(current).begin(), lists.at(current).end());
+                resolved.insert(current);
                 stack.pop();
             }
         }
-- 
2.43.0


From 4f6a2dd4fd78046354564f993b6ce491e9295097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 28/76] fix: keep the assignments after a fused sequence

---
 sdfg/src/passes/structured_control_flow/sequence_fusion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
index f142965..29dc67d 100644
--- a/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/sequence_fusion.cpp
@@ -31,6 +31,10 @@ bool SequenceFusion::run_pass(builder::StructuredSDFGBuilder& builder, analysis:
                     i++;
                     continue;
                 }
+                // Keep the assignments that happen after the subsequence
+                if (!child.second.assignments().empty()) {
+                    builder.add_block_after(*seq, *subseq, child.second.assignments(), child.second.debug_info());
+                }
                 builder.move_children(*subseq, *seq, i + 1);
                 builder.remove_child(*seq, i);
                 applied = true;
-- 
2.43.0


From 029631668f9fd2f38c48d534f310c0c2132b2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 29/76] fix: fuse blocks only if conflicting accesses remain
 ordered

---
 .../structured_control_flow/block_fusion.cpp  | 54 +++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/block_fusion.cpp b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
index 409eab6..2493835 100644
--- a/sdfg/src/passes/structured_control_flow/block_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/passes/structured_control_flow/block_fusion.h"
 #include <cstddef>
+#include <list>
 #include <unordered_set>
 #include <utility>
 #include "sdfg/data_flow/access_node.h"
@@ -8,6 +9,22 @@
 namespace sdfg {
 namespace passes {
 
+static std::unordered_set<const data_flow::DataFlowNode*>
+reachable_nodes(const data_flow::DataFlowGraph& graph, const data_flow::DataFlowNode* start) {
+    std::unordered_set<const data_flow::DataFlowNode*> reachable = {start};
+    std::list<const data_flow::DataFlowNode*> queue = {start};
+    while (!queue.empty()) {
+        auto* node = queue.front();
+        queue.pop_front();
+        for (auto& oedge : graph.out_edges(*node)) {
+            if (reachable.insert(&oedge.dst()).second) {
+                queue.push_back(&oedge.dst());
+            }
+        }
+    }
+    return reachable;
+}
+
 BlockFusion::BlockFusion(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
     : visitor::NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {}
 
@@ -124,6 +141,27 @@ bool BlockFusion::can_be_applied(
         }
     }
 
+    // Nodes of the second graph that will be merged into a node of the first graph
+    auto pdoms = first_graph.post_dominators();
+    std::vector<std::pair<const data_flow::DataFlowNode*, const data_flow::DataFlowNode*>> merges;
+    for (auto* source : second_graph.sources()) {
+        auto* access_node = dynamic_cast<const data_flow::AccessNode*>(source);
+        if (access_node && pdoms.contains(access_node->data())) {
+            merges.push_back({pdoms.at(access_node->data()), access_node});
+        }
+    }
+
+    // Whether the merges order a node of the first graph before a node of the second graph
+    auto is_ordered = [&](const data_flow::DataFlowNode* first_node, const data_flow::DataFlowNode* second_node) {
+        auto reachable = reachable_nodes(first_graph, first_node);
+        for (auto& [merged, source] : merges) {
+            if (reachable.contains(merged) && reachable_nodes(second_graph, source).contains(second_node)) {
+                return true;
+            }
+        }
+        return false;
+    };
+
     // For each combination of weakly connected components:
     for (size_t first = 0; first < first_num_components; first++) {
         for (size_t second = 0; second < second_num_components; second++) {
@@ -152,6 +190,22 @@ bool BlockFusion::can_be_applied(
             if (!connection) {
                 return false;
             }
+
+            // All conflicting accesses must remain ordered
+            for (auto [first_access_node, second_access_node] : matches) {
+                bool first_writes = first_graph.in_degree(*first_access_node) > 0;
+                bool second_writes = second_graph.in_degree(*second_access_node) > 0;
+                if (first_writes && !is_ordered(first_access_node, second_access_node)) {
+                    return false;
+                }
+                if (second_writes) {
+                    for (auto& oedge : first_graph.out_edges(*first_access_node)) {
+                        if (!is_ordered(&oedge.dst(), second_access_node)) {
+                            return false;
+                        }
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From 44471d1e569d67f346eb7d07d86ead54ffcf818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 30/76] fix: only eliminate a definition if it computes the
 same value

---
 .../passes/dataflow/constant_propagation.cpp  | 72 +++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/sdfg/src/passes/dataflow/constant_propagation.cpp b/sdfg/src/passes/dataflow/constant_propagation.cpp
index 6e1c750..2018ad7 100644
--- a/sdfg/src/passes/dataflow/constant_propagation.cpp
+++ b/sdfg/src/passes/dataflow/constant_propagation.cpp
@@ -65,6 +65,73 @@ std::unordered_set<analysis::User*> inputs(analysis::User& user, analysis::Users
     }
 }
 
+// The definitions compute the same value if their inputs are identical
+bool identical_computations(const std::string& container, analysis::User& user1, analysis::User& user2) {
+    auto transition1 = dynamic_cast<structured_control_flow::Transition*>(user1.element());
+    auto transition2 = dynamic_cast<structured_control_flow::Transition*>(user2.element());
+    if (transition1 && transition2) {
+        auto sym = symbolic::symbol(container);
+        return symbolic::eq(transition1->assignments().at(sym), transition2->assignments().at(sym));
+    }
+
+    auto node1 = dynamic_cast<data_flow::AccessNode*>(user1.element());
+    auto node2 = dynamic_cast<data_flow::AccessNode*>(user2.element());
+    if (!node1 || !node2) {
+        return false;
+    }
+    auto& graph1 = node1->get_parent();
+    auto& graph2 = node2->get_parent();
+    if (graph1.in_degree(*node1) != 1 || graph2.in_degree(*node2) != 1) {
+        return false;
+    }
+    auto& iedge1 = *graph1.in_edges(*node1).begin();
+    auto& iedge2 = *graph2.in_edges(*node2).begin();
+    if (iedge1.type() != iedge2.type() || !(iedge1.base_type() == iedge2.base_type())) {
+        return false;
+    }
+
+    auto tasklet1 = dynamic_cast<data_flow::Tasklet*>(&iedge1.src());
+    auto tasklet2 = dynamic_cast<data_flow::Tasklet*>(&iedge2.src());
+    if (!tasklet1 || !tasklet2) {
+        return !tasklet1 && !tasklet2;
+    }
+    if (tasklet1->code() != tasklet2->code() || tasklet1->inputs().size() != tasklet2->inputs().size()) {
+        return false;
+    }
+    for (size_t i = 0; i < tasklet1->inputs().size(); i++) {
+        const data_flow::Memlet* input1 = nullptr;
+        for (auto& edge : graph1.in_edges(*tasklet1)) {
+            if (edge.dst_conn() == tasklet1->input(i)) {
+                input1 = &edge;
+            }
+        }
+        const data_flow::Memlet* input2 = nullptr;
+        for (auto& edge : graph2.in_edges(*tasklet2)) {
+            if (edge.dst_conn() == tasklet2->input(i)) {
+                input2 = &edge;
+            }
+        }
+        if (!input1 || !input2) {
+            return false;
+        }
+        auto& src1 = static_cast<const data_flow::AccessNode&>(input1->src());
+        auto& src2 = static_cast<const data_flow::AccessNode&>(input2->src());
+        bool is_constant1 = dynamic_cast<const data_flow::ConstantNode*>(&src1) != nullptr;
+        bool is_constant2 = dynamic_cast<const data_flow::ConstantNode*>(&src2) != nullptr;
+        if (is_constant1 != is_constant2 || src1.data() != src2.data() ||
+            !(input1->base_type() == input2->base_type()) || input1->subset().size() != input2->subset().size()) {
+            return false;
+        }
+        for (size_t j = 0; j < input1->subset().size(); j++) {
+            if (!symbolic::eq(input1->subset().at(j), input2->subset().at(j))) {
+                return false;
+            }
+        }
+    }
+
+    return true;
+}
+
 bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager) {
     bool applied = false;
 
@@ -146,6 +213,11 @@ bool ConstantPropagation::run_pass(builder::StructuredSDFGBuilder& builder, anal
             continue;
         }
 
+        // Criterion: Identical computations on the inputs
+        if (!identical_computations(name, *define1, *define2)) {
+            continue;
+        }
+
         bool identical_inputs = true;
         for (auto& input : inputs1) {
             // Recursion
-- 
2.43.0


From 78aa4a37223a4ffd34e750d2fa07fb33f5c9d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 31/76] fix: record uses of outer references inside of loops

---
 sdfg/src/analysis/reference_analysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/analysis/reference_analysis.cpp b/sdfg/src/analysis/reference_analysis.cpp
index 4a084c4..a4b6ebc 100644
--- a/sdfg/src/analysis/reference_analysis.cpp
+++ b/sdfg/src/analysis/reference_analysis.cpp
@@ -228,7 +228,7 @@ void ReferenceAnalysis::visit_for(
         }
 
         bool found = false;
-        for (auto entry : open_definitions) {
+        for (auto& entry : open_definitions) {
             if (entry.first->container() != open->container()) {
                 continue;
             }
@@ -272,7 +272,7 @@ void ReferenceAnalysis::visit_while(
         }
 
         bool found = false;
-        for (auto entry : open_definitions) {
+        for (auto& entry : open_definitions) {
             if (entry.first->container() != open->container()) {
                 continue;
             }
-- 
2.43.0


From d970d3a6852c27de744815325cdd4c89da6195a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 32/76] fix: update the edges of a propagated reference only
 once

---
 sdfg/src/passes/dataflow/reference_propagation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index cecde30..900bf46 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -150,6 +150,11 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
 
             auto& user_node = static_cast<data_flow::AccessNode&>(*user->element());
 
+            // Nodes may have several users, but their edges must be updated only once
+            if (replaced_nodes.find(&user_node) != replaced_nodes.end()) {
+                continue;
+            }
+
             // Simple case: No arithmetic on pointer, just replace container
             if (move_subset.size() == 1 && symbolic::eq(move_subset[0], symbolic::zero())) {
                 user_node.data(viewed_container);
-- 
2.43.0


From 971dbe02b5edb81c6826108cdcfac51248b71a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 33/76] fix: do not propagate a reference if its symbols are
 updated in between

---
 .../passes/dataflow/reference_propagation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index 900bf46..9343396 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -148,6 +148,26 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 }
             }
 
+            // Criterion: No update of the symbols of the reference in between
+            std::unordered_set<std::string> move_symbols;
+            for (auto& dim : move_subset) {
+                for (auto& sym : symbolic::atoms(dim)) {
+                    move_symbols.insert(sym->get_name());
+                }
+            }
+            if (!move_symbols.empty()) {
+                bool updated = false;
+                for (auto& use : users_analysis.all_uses_between(*move, *user)) {
+                    if (use->use() == analysis::Use::WRITE && move_symbols.contains(use->container())) {
+                        updated = true;
+                        break;
+                    }
+                }
+                if (updated) {
+                    continue;
+                }
+            }
+
             auto& user_node = static_cast<data_flow::AccessNode&>(*user->element());
 
             // Nodes may have several users, but their edges must be updated only once
-- 
2.43.0


From d5131e7334fdc0f7eb0b269f717117fb94cdbe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 34/76] fix: do not propagate a reference of a pointer into
 itself

---
 sdfg/src/passes/dataflow/reference_propagation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index 9343396..cf7431c 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -118,6 +118,9 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 continue;
             }
             auto& viewed_container = viewed_node.data();
+            if (viewed_container == container) {
+                continue;
+            }
 
             // Criterion: Must be an access node
             if (!dynamic_cast<data_flow::AccessNode*>(user->element())) {
-- 
2.43.0


From 352f4bd2c8a7fa863e5153e9aa9eb2c8b9a95ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 35/76] fix: require the closed form of a symbol to hold in
 every iteration

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 82 ++++++++++++++++++-
 1 file changed, 81 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 2ad6932..a2fb243 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -1,5 +1,7 @@
 #include "sdfg/passes/symbolic/symbol_evolution.h"
 
+#include <algorithm>
+
 #include "sdfg/analysis/assumptions_analysis.h"
 #include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
@@ -101,11 +103,38 @@ symbolic::Expression scalar_evolution(
     }
     auto offset = coeffs.at(symbolic::symbol("__daisy_constant__"));
 
+    // The offset must be the same in each iteration
+    if (symbolic::uses(offset, indvar)) {
+        return SymEngine::null;
+    }
+
     auto iter = symbolic::div(symbolic::sub(indvar, indvar_init), stride);
     auto inv = symbolic::add(symbolic::mul(iter, offset), sym_init);
     return inv;
 }
 
+/// Checks whether an iteration of the loop can be left early
+bool has_jumps(structured_control_flow::Sequence& sequence) {
+    for (size_t i = 0; i < sequence.size(); i++) {
+        auto& child = sequence.at(i).first;
+        if (dynamic_cast<structured_control_flow::Break*>(&child) ||
+            dynamic_cast<structured_control_flow::Continue*>(&child)) {
+            return true;
+        } else if (auto nested = dynamic_cast<structured_control_flow::Sequence*>(&child)) {
+            if (has_jumps(*nested)) {
+                return true;
+            }
+        } else if (auto if_else = dynamic_cast<structured_control_flow::IfElse*>(&child)) {
+            for (size_t j = 0; j < if_else->size(); j++) {
+                if (has_jumps(if_else->at(j).first)) {
+                    return true;
+                }
+            }
+        }
+    }
+    return false;
+}
+
 bool SymbolEvolution::eliminate_symbols(
     builder::StructuredSDFGBuilder& builder,
     analysis::AnalysisManager& analysis_manager,
@@ -116,6 +145,11 @@ bool SymbolEvolution::eliminate_symbols(
         return false;
     }
 
+    // Criterion: Iterations must be executed in order and completely
+    if (dynamic_cast<structured_control_flow::Map*>(&loop) || has_jumps(loop.root())) {
+        return false;
+    }
+
     bool applied = false;
 
     auto indvar = loop.indvar();
@@ -125,6 +159,7 @@ bool SymbolEvolution::eliminate_symbols(
 
     auto& users = analysis_manager.get<analysis::Users>();
     auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto& scope_analysis = analysis_manager.get<analysis::ScopeAnalysis>();
     analysis::UsersView body_users(users, loop.root());
 
     // Loop-dependent symbols are written in the loop body
@@ -172,7 +207,8 @@ bool SymbolEvolution::eliminate_symbols(
 
         // Criterion: Candidate is not read after the update
         auto uses = body_users.all_uses_after(*update_write);
-        bool used_after_update = false;
+        bool used_after_update = symbolic::uses(condition, symbolic::symbol(sym)) ||
+                                 symbolic::uses(update, symbolic::symbol(sym));
         for (auto& use : uses) {
             if (use->container() == sym) {
                 used_after_update = true;
@@ -201,6 +237,26 @@ bool SymbolEvolution::eliminate_symbols(
         auto& init_transition = static_cast<structured_control_flow::Transition&>(*init_write->element());
         auto init_sym = init_transition.assignments().at(symbolic::symbol(sym));
 
+        // Criterion: Candidate is initialized each time the loop is entered
+        auto init_scopes = scope_analysis.ancestor_scopes(&init_transition.parent());
+        init_scopes.push_back(&init_transition.parent());
+        bool reinitialized = true;
+        for (auto& scope : scope_analysis.ancestor_scopes(&loop)) {
+            if (scope == &loop) {
+                continue;
+            }
+            if (dynamic_cast<structured_control_flow::While*>(scope) ||
+                dynamic_cast<structured_control_flow::StructuredLoop*>(scope)) {
+                if (std::find(init_scopes.begin(), init_scopes.end(), scope) == init_scopes.end()) {
+                    reinitialized = false;
+                    break;
+                }
+            }
+        }
+        if (!reinitialized) {
+            continue;
+        }
+
         // Criterion: Infer scalar evolution
         auto evolution =
             scalar_evolution(loop, indvar, update, init, symbolic::symbol(sym), update_sym, init_sym, candidates);
@@ -208,6 +264,30 @@ bool SymbolEvolution::eliminate_symbols(
             continue;
         }
 
+        // Criterion: All symbols but the induction variable are not updated since the initialization
+        if (symbolic::uses(evolution, symbolic::symbol(sym)) || symbolic::uses(init_sym, indvar) ||
+            symbolic::uses(init, indvar)) {
+            continue;
+        }
+        std::unordered_set<std::string> invariants;
+        for (auto& atom : symbolic::atoms(evolution)) {
+            if (!symbolic::eq(atom, indvar)) {
+                invariants.insert(atom->get_name());
+            }
+        }
+        bool updated = false;
+        for (auto& use : users.all_uses_between(*init_write, *update_write)) {
+            if ((use->use() == analysis::Use::WRITE || use->use() == analysis::Use::MOVE) &&
+                invariants.contains(use->container())) {
+                updated = true;
+                break;
+            }
+        }
+        // Criterion: The induction variable is only updated by the loop
+        if (updated || body_users.writes(indvar->get_name()).size() > 0) {
+            continue;
+        }
+
         // Apply by inserting redefinition before the loop body
         auto& old_first_block = loop.root().at(0).first;
         builder.add_block_before(
-- 
2.43.0


From 6377aff9cd0408ab18d6429d32221ea2d8e7f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 36/76] fix: assign the final value of an evolved symbol also
 for empty loops

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index a2fb243..171d328 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -294,7 +294,13 @@ bool SymbolEvolution::eliminate_symbols(
             loop.root(), old_first_block, {{symbolic::symbol(sym), evolution}}, old_first_block.debug_info()
         );
         update_transition.assignments().erase(symbolic::symbol(sym));
-        transition.assignments().insert({symbolic::symbol(sym), update_sym});
+
+        // The evolution at the final value of the induction variable is the final value of the symbol
+        if (!transition.assignments().empty()) {
+            builder.add_block_after(transition.parent(), loop, transition.assignments(), transition.debug_info());
+            transition.assignments().clear();
+        }
+        transition.assignments().insert({symbolic::symbol(sym), evolution});
 
         applied = true;
     }
-- 
2.43.0


From 9e359f70a3786ca24ef76fa3a361c73662e7f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 37/76] fix: remember undefined definitions independent of the
 order of definitions

---
 sdfg/src/analysis/data_dependency_analysis.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index f77381c..fc06167 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -119,7 +119,7 @@ void DataDependencyAnalysis::visit_block(
                             if (this->depends(analysis_manager, *user.first, *current_user)) {
                                 user.second.insert(current_user);
                                 found_user = true;
-                                found_undefined_user = this->is_undefined_user(*user.first);
+                                found_undefined_user |= this->is_undefined_user(*user.first);
                             }
                         }
                         // If no definition found or undefined user found, mark as undefined
@@ -140,7 +140,7 @@ void DataDependencyAnalysis::visit_block(
                     if (this->depends(analysis_manager, *user.first, *current_user)) {
                         user.second.insert(current_user);
                         found_user = true;
-                        found_undefined_user = this->is_undefined_user(*current_user);
+                        found_undefined_user |= this->is_undefined_user(*user.first);
                     }
                 }
                 // If no definition found or undefined user found, mark as undefined
@@ -167,7 +167,7 @@ void DataDependencyAnalysis::visit_block(
                     if (this->depends(analysis_manager, *user.first, *current_user)) {
                         user.second.insert(current_user);
                         found_user = true;
-                        found_undefined_user = this->is_undefined_user(*user.first);
+                        found_undefined_user |= this->is_undefined_user(*user.first);
                     }
                 }
                 // If no definition found or undefined user found, mark as undefined
@@ -199,7 +199,7 @@ void DataDependencyAnalysis::visit_for(
             if (this->depends(analysis_manager, *user.first, *current_user)) {
                 user.second.insert(current_user);
                 found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
+                found_undefined_user |= this->is_undefined_user(*user.first);
             }
         }
         // If no definition found or undefined user found, mark as undefined
@@ -246,7 +246,7 @@ void DataDependencyAnalysis::visit_for(
             if (this->depends(analysis_manager, *user.first, *current_user)) {
                 user.second.insert(current_user);
                 found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
+                found_undefined_user |= this->is_undefined_user(*user.first);
             }
         }
         // If no definition found or undefined user found, mark as undefined
@@ -273,7 +273,7 @@ void DataDependencyAnalysis::visit_for(
             if (this->depends(analysis_manager, *user.first, *current_user)) {
                 user.second.insert(current_user);
                 found_user = true;
-                found_undefined_user = this->is_undefined_user(*user.first);
+                found_undefined_user |= this->is_undefined_user(*user.first);
             }
         }
         // If no definition found or undefined user found, mark as undefined
@@ -300,7 +300,7 @@ void DataDependencyAnalysis::visit_for(
             if (intersects(*entry.first, *open_read, analysis_manager)) {
                 entry.second.insert(open_read);
                 found = true;
-                found_undefined_user = this->is_undefined_user(*entry.first);
+                found_undefined_user |= this->is_undefined_user(*entry.first);
                 frontier.insert(entry.first);
             }
         }
@@ -425,7 +425,7 @@ void DataDependencyAnalysis::visit_if_else(
                 if (this->depends(analysis_manager, *user.first, *current_user)) {
                     user.second.insert(current_user);
                     found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
+                    found_undefined_user |= this->is_undefined_user(*user.first);
                 }
             }
             // If no definition found or undefined user found, mark as undefined
@@ -458,7 +458,7 @@ void DataDependencyAnalysis::visit_if_else(
                 if (this->depends(analysis_manager, *user.first, *entry)) {
                     user.second.insert(entry);
                     found_user = true;
-                    found_undefined_user = this->is_undefined_user(*user.first);
+                    found_undefined_user |= this->is_undefined_user(*user.first);
                 }
             }
             // If no definition found or undefined user found, mark as undefined
-- 
2.43.0


From 0a58fecd9f6019dc10c39ada03ef96aac41a1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 38/76] fix: follow break, continue and repeated loop
 conditions in the graph of users

---
 sdfg/include/sdfg/analysis/users.h |  5 ++++
 sdfg/src/analysis/users.cpp        | 46 ++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/users.h b/sdfg/include/sdfg/analysis/users.h
index a9bf5fd..3a4b612 100644
--- a/sdfg/include/sdfg/analysis/users.h
+++ b/sdfg/include/sdfg/analysis/users.h
@@ -3,6 +3,8 @@
 #include <memory>
 #include <unordered_map>
 #include <unordered_set>
+#include <utility>
+#include <vector>
 
 #include <boost/functional/hash.hpp>
 
@@ -95,6 +97,9 @@ private:
 
     std::unordered_map<graph::Vertex, std::unique_ptr<User>, boost::hash<graph::Vertex>> users_;
 
+    // Enclosing loops during traversal: exit and the vertices that continue with the next iteration
+    std::vector<std::pair<graph::Vertex, std::vector<graph::Vertex>>> enclosing_loops_;
+
     // Lookup tables for entries and exits of control flow nodes
     std::unordered_map<const structured_control_flow::ControlFlowNode*, User*> entries_;
     std::unordered_map<const structured_control_flow::ControlFlowNode*, User*> exits_;
diff --git a/sdfg/src/analysis/users.cpp b/sdfg/src/analysis/users.cpp
index 558c533..3df3ed0 100644
--- a/sdfg/src/analysis/users.cpp
+++ b/sdfg/src/analysis/users.cpp
@@ -310,13 +310,18 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         this->users_.insert({s, std::make_unique<User>(s, "", loop_stmt, Use::NOP)});
         this->entries_.insert({loop_stmt, this->users_.at(s).get()});
 
-        auto subgraph = this->traverse(loop_stmt->root());
-
         // NOP
         auto t = boost::add_vertex(this->graph_);
         this->users_.insert({t, std::make_unique<User>(t, "", loop_stmt, Use::NOP)});
         this->exits_.insert({loop_stmt, this->users_.at(t).get()});
 
+        this->enclosing_loops_.push_back({t, {}});
+        auto subgraph = this->traverse(loop_stmt->root());
+        for (auto vertex : this->enclosing_loops_.back().second) {
+            boost::add_edge(vertex, t, this->graph_);
+        }
+        this->enclosing_loops_.pop_back();
+
         boost::add_edge(s, subgraph.first, this->graph_);
         if (subgraph.second != boost::graph_traits<graph::Graph>::null_vertex()) {
             boost::add_edge(subgraph.second, t, this->graph_);
@@ -356,20 +361,42 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         last = v;
 
         // Condition
+        auto condition = boost::graph_traits<graph::Graph>::null_vertex();
         for (auto atom : symbolic::atoms(for_stmt->condition())) {
             auto v = boost::add_vertex(this->graph_);
             this->add_user(std::make_unique<ForUser>(v, atom->get_name(), for_stmt, Use::READ, false, true, false));
+            if (condition == boost::graph_traits<graph::Graph>::null_vertex()) {
+                condition = v;
+            }
 
             boost::add_edge(last, v, this->graph_);
             boost::add_edge(v, t, this->graph_);
             last = v;
         }
 
+        this->enclosing_loops_.push_back({t, {}});
         auto subgraph = this->traverse(for_stmt->root());
         boost::add_edge(last, subgraph.first, this->graph_);
 
         // Update
         auto end = subgraph.second;
+        auto& continues = this->enclosing_loops_.back().second;
+        if (!continues.empty()) {
+            auto v = boost::add_vertex(this->graph_);
+            this->users_.insert({v, std::make_unique<User>(v, "", for_stmt, Use::NOP)});
+            for (auto vertex : continues) {
+                boost::add_edge(vertex, v, this->graph_);
+            }
+            if (end != boost::graph_traits<graph::Graph>::null_vertex()) {
+                boost::add_edge(end, v, this->graph_);
+            }
+            end = v;
+        }
+        this->enclosing_loops_.pop_back();
+        if (end == boost::graph_traits<graph::Graph>::null_vertex()) {
+            // Body always returns
+            end = last;
+        }
         for (auto atom : symbolic::atoms(for_stmt->update())) {
             auto v = boost::add_vertex(this->graph_);
             this->add_user(std::make_unique<ForUser>(v, atom->get_name(), for_stmt, Use::READ, false, false, true));
@@ -391,19 +418,27 @@ std::pair<graph::Vertex, graph::Vertex> Users::traverse(structured_control_flow:
         }
 
         // Back edge
-        boost::add_edge(t, last, this->graph_);
+        boost::add_edge(
+            t, condition == boost::graph_traits<graph::Graph>::null_vertex() ? last : condition, this->graph_
+        );
 
         return {s, t};
     } else if (auto cont_stmt = dynamic_cast<structured_control_flow::Continue*>(&node)) {
-        // Approximated by general back edge in loop scope
+        // Continues with the next iteration; the edge to the next statement is an approximation
         auto v = boost::add_vertex(this->graph_);
+        if (!this->enclosing_loops_.empty()) {
+            this->enclosing_loops_.back().second.push_back(v);
+        }
         this->users_.insert({v, std::make_unique<User>(v, "", cont_stmt, Use::NOP)});
         this->entries_.insert({cont_stmt, this->users_.at(v).get()});
         this->exits_.insert({cont_stmt, this->users_.at(v).get()});
         return {v, v};
     } else if (auto br_stmt = dynamic_cast<structured_control_flow::Break*>(&node)) {
-        // Approximated by general back edge in loop scope
+        // Leaves the loop; the edge to the next statement is an approximation
         auto v = boost::add_vertex(this->graph_);
+        if (!this->enclosing_loops_.empty()) {
+            boost::add_edge(v, this->enclosing_loops_.back().first, this->graph_);
+        }
         this->users_.insert({v, std::make_unique<User>(v, "", br_stmt, Use::NOP)});
         this->entries_.insert({br_stmt, this->users_.at(v).get()});
         this->exits_.insert({br_stmt, this->users_.at(v).get()});
@@ -444,6 +479,7 @@ void Users::run(analysis::AnalysisManager& analysis_manager) {
     sink_ = nullptr;
     this->entries_.clear();
     this->exits_.clear();
+    this->enclosing_loops_.clear();
     this->users_lookup_.clear();
 
     reads_.clear();
-- 
2.43.0


From f943965e97e05f2ac62bed15ae3f8b9c68efcefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 39/76] fix: treat reads as defined only where definitions
 cover them on every path

---
 .../sdfg/analysis/data_dependency_analysis.h  |  23 ++
 sdfg/include/sdfg/analysis/users.h            |   2 +
 .../src/analysis/data_dependency_analysis.cpp | 312 +++++++-----------
 sdfg/src/analysis/users.cpp                   |   2 +
 4 files changed, 143 insertions(+), 196 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 246a90e..d3bc9a6 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -44,6 +44,9 @@ private:
 
     std::list<std::unique_ptr<User>> undefined_users_;
 
+    // Definitions in completed loops, which may have had no iteration
+    std::unordered_set<User*> loop_definitions_;
+
     bool loop_depends(
         User& previous,
         User& current,
@@ -59,6 +62,26 @@ private:
 
     bool depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current);
 
+    /**
+     * @brief Adds a read to the open definitions it may depend on.
+     *
+     * @return True if the definitions fully define the read, i.e.,
+     * the read cannot depend on any earlier definition.
+     */
+    bool connect(
+        analysis::AnalysisManager& analysis_manager,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
+        User& read
+    );
+
+    /**
+     * @brief Marks the containers of definitions which are not executed on all paths.
+     */
+    void add_undefined_users(
+        const std::unordered_map<User*, std::unordered_set<User*>>& partial_definitions,
+        std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+    );
+
 public:
     DataDependencyAnalysis(StructuredSDFG& sdfg, bool detailed = false);
 
diff --git a/sdfg/include/sdfg/analysis/users.h b/sdfg/include/sdfg/analysis/users.h
index 3a4b612..2b585e0 100644
--- a/sdfg/include/sdfg/analysis/users.h
+++ b/sdfg/include/sdfg/analysis/users.h
@@ -172,6 +172,8 @@ public:
         bool is_update = false
     );
 
+    User* entry(const structured_control_flow::ControlFlowNode& node) const;
+
     /**** Users ****/
 
     std::list<User*> uses() const;
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index fc06167..b08f778 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -29,6 +29,7 @@ void DataDependencyAnalysis::run(analysis::AnalysisManager& analysis_manager) {
     results_.clear();
     undefined_users_.clear();
     loop_carried_dependencies_.clear();
+    loop_definitions_.clear();
 
     std::unordered_set<User*> undefined;
     std::unordered_map<User*, std::unordered_set<User*>> open_definitions;
@@ -86,7 +87,7 @@ void DataDependencyAnalysis::visit_block(
                         // Close open definitions if possible
                         std::unordered_map<User*, std::unordered_set<User*>> to_close;
                         for (auto& user : open_definitions) {
-                            if (this->closes(analysis_manager, *user.first, *current_user, false)) {
+                            if (this->closes(analysis_manager, *user.first, *current_user, true)) {
                                 to_close.insert(user);
                             }
                         }
@@ -113,17 +114,7 @@ void DataDependencyAnalysis::visit_block(
                         auto current_user = users.get_user(access_node->data(), access_node, use);
 
                         // Assign to open definitions
-                        bool found_user = false;
-                        bool found_undefined_user = false;
-                        for (auto& user : open_definitions) {
-                            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                                user.second.insert(current_user);
-                                found_user = true;
-                                found_undefined_user |= this->is_undefined_user(*user.first);
-                            }
-                        }
-                        // If no definition found or undefined user found, mark as undefined
-                        if (!found_user || found_undefined_user) {
+                        if (!this->connect(analysis_manager, open_definitions, *current_user)) {
                             undefined.insert(current_user);
                         }
                     }
@@ -134,17 +125,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(symbol->get_name(), library_node, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user |= this->is_undefined_user(*user.first);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
+                if (!this->connect(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -161,17 +142,7 @@ void DataDependencyAnalysis::visit_block(
                 auto current_user = users.get_user(atom, &oedge, Use::READ);
 
                 // Assign to open definitions
-                bool found_user = false;
-                bool found_undefined_user = false;
-                for (auto& user : open_definitions) {
-                    if (this->depends(analysis_manager, *user.first, *current_user)) {
-                        user.second.insert(current_user);
-                        found_user = true;
-                        found_undefined_user |= this->is_undefined_user(*user.first);
-                    }
-                }
-                // If no definition found or undefined user found, mark as undefined
-                if (!found_user || found_undefined_user) {
+                if (!this->connect(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -193,17 +164,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user |= this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        if (!this->connect(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -240,17 +201,7 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user |= this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        if (!this->connect(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -267,23 +218,18 @@ void DataDependencyAnalysis::visit_for(
         auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, false, true);
 
         // Assign to open definitions
-        bool found_user = false;
-        bool found_undefined_user = false;
-        for (auto& user : open_definitions_for) {
-            if (this->depends(analysis_manager, *user.first, *current_user)) {
-                user.second.insert(current_user);
-                found_user = true;
-                found_undefined_user |= this->is_undefined_user(*user.first);
-            }
-        }
-        // If no definition found or undefined user found, mark as undefined
-        if (!found_user || found_undefined_user) {
+        if (!this->connect(analysis_manager, open_definitions_for, *current_user)) {
             undefined_for.insert(current_user);
         }
     }
 
+    // Condition - Read after an iteration
+    for (auto atom : symbolic::atoms(for_loop.condition())) {
+        auto current_user = users.get_user(atom->get_name(), &for_loop, Use::READ, false, true);
+        this->connect(analysis_manager, open_definitions_for, *current_user);
+    }
+
     // Merge for with outside
-    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
 
     // Closed definitions are simply merged
     for (auto& entry : closed_definitions_for) {
@@ -292,36 +238,7 @@ void DataDependencyAnalysis::visit_for(
 
     // Undefined reads are matched or forwarded
     for (auto open_read : undefined_for) {
-        // Simple check: no match or undefined user
-        std::unordered_set<User*> frontier;
-        bool found = false;
-        bool found_undefined_user = false;
-        for (auto& entry : open_definitions) {
-            if (intersects(*entry.first, *open_read, analysis_manager)) {
-                entry.second.insert(open_read);
-                found = true;
-                found_undefined_user |= this->is_undefined_user(*entry.first);
-                frontier.insert(entry.first);
-            }
-        }
-        if (!found || found_undefined_user) {
-            undefined.insert(open_read);
-            continue;
-        }
-
-        // Users found, check if they fully cover the read
-        bool covered = false;
-        for (auto& entry : frontier) {
-            if (!dominance_analysis.dominates(*entry, *open_read)) {
-                continue;
-            }
-            bool covers = supersedes_restrictive(*open_read, *entry, analysis_manager);
-            if (covers) {
-                covered = true;
-                break;
-            }
-        }
-        if (!covered) {
+        if (!this->connect(analysis_manager, open_definitions, *open_read)) {
             undefined.insert(open_read);
         }
     }
@@ -400,6 +317,7 @@ void DataDependencyAnalysis::visit_for(
 
     // Add open definitions from for to outside
     for (auto& entry : open_definitions_for) {
+        this->loop_definitions_.insert(entry.first);
         open_definitions.insert(entry);
     }
 }
@@ -412,6 +330,7 @@ void DataDependencyAnalysis::visit_if_else(
     std::unordered_map<User*, std::unordered_set<User*>>& closed_definitions
 ) {
     auto& users = analysis_manager.get<analysis::Users>();
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
 
     // Read Conditions
     for (size_t i = 0; i < if_else.size(); i++) {
@@ -419,17 +338,7 @@ void DataDependencyAnalysis::visit_if_else(
         for (auto atom : symbolic::atoms(child)) {
             auto current_user = users.get_user(atom->get_name(), &if_else, Use::READ);
 
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *current_user)) {
-                    user.second.insert(current_user);
-                    found_user = true;
-                    found_undefined_user |= this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
+            if (!this->connect(analysis_manager, open_definitions, *current_user)) {
                 undefined.insert(current_user);
             }
         }
@@ -452,17 +361,7 @@ void DataDependencyAnalysis::visit_if_else(
     // merge partial open reads
     for (size_t i = 0; i < if_else.size(); i++) {
         for (auto& entry : undefined_branches.at(i)) {
-            bool found_user = false;
-            bool found_undefined_user = false;
-            for (auto& user : open_definitions) {
-                if (this->depends(analysis_manager, *user.first, *entry)) {
-                    user.second.insert(entry);
-                    found_user = true;
-                    found_undefined_user |= this->is_undefined_user(*user.first);
-                }
-            }
-            // If no definition found or undefined user found, mark as undefined
-            if (!found_user || found_undefined_user) {
+            if (!this->connect(analysis_manager, open_definitions, *entry)) {
                 undefined.insert(entry);
             }
         }
@@ -475,66 +374,59 @@ void DataDependencyAnalysis::visit_if_else(
         }
     }
 
-    // Close open reads_after_writes for complete branches
+    // Close definitions which every branch overwrites
     if (if_else.is_complete()) {
-        std::unordered_map<User*, std::unordered_set<User*>> to_close;
-        std::unordered_set<std::string> candidates;
-        std::unordered_set<std::string> candidates_tmp;
-
-        /* Complete close open reads_after_writes
-        1. get candidates from first iteration
-        2. iterate over all branches and prune candidates
-        3. find prior writes for remaining candidates
-        4. close open reads_after_writes for all candidates
-        */
-        for (auto& entry : open_definitions_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-        for (auto& entry : closed_definitionss_branches.at(0)) {
-            candidates.insert(entry.first->container());
-        }
-
-        for (size_t i = 1; i < if_else.size(); i++) {
-            for (auto& entry : open_definitions_branches.at(i)) {
-                if (candidates.find(entry.first->container()) != candidates.end()) {
-                    candidates_tmp.insert(entry.first->container());
+        std::unordered_set<User*> to_close;
+        for (auto& previous : open_definitions) {
+            bool closed = true;
+            for (size_t i = 0; i < if_else.size() && closed; i++) {
+                closed = false;
+                for (auto& entry : open_definitions_branches.at(i)) {
+                    if (this->closes(analysis_manager, *previous.first, *entry.first, false) &&
+                        dominance_analysis.post_dominates(*entry.first, *users.entry(if_else.at(i).first))) {
+                        closed = true;
+                        break;
+                    }
                 }
             }
-            candidates.swap(candidates_tmp);
-            candidates_tmp.clear();
-        }
-
-        for (auto& entry : open_definitions) {
-            if (candidates.find(entry.first->container()) != candidates.end()) {
-                to_close.insert(entry);
+            if (closed) {
+                to_close.insert(previous.first);
             }
         }
-
-        for (auto& entry : to_close) {
-            open_definitions.erase(entry.first);
-            closed_definitions.insert(entry);
+        for (auto& user : to_close) {
+            closed_definitions.insert({user, open_definitions.at(user)});
+            open_definitions.erase(user);
         }
-    } else {
-        // Incomplete if-else
-
-        // In order to determine whether a new read is undefined
-        // we would need to check whether all open definitions
-        // jointly dominate the read.
-        // Since this is expensive, we apply a trick:
-        // For incomplete if-elses and any newly opened definition in
-        // any branch, we add an artificial undefined user for that container.
-        // If we encounter this user later, we know that not all branches defined it.
-        // Hence, we can mark the read as (partially) undefined.
-
-        for (auto& branch : open_definitions_branches) {
-            for (auto& open_definition : branch) {
-                auto write = open_definition.first;
-                auto artificial_user = std::make_unique<
-                    User>(boost::graph_traits<graph::Graph>::null_vertex(), write->container(), nullptr, Use::WRITE);
-                this->undefined_users_.push_back(std::move(artificial_user));
-                open_definitions.insert({this->undefined_users_.back().get(), {}});
+    }
+
+    // In order to determine whether a new read is undefined
+    // we would need to check whether all open definitions
+    // jointly dominate the read.
+    // Since this is expensive, we apply a trick:
+    // For any newly opened definition, which some path does not
+    // execute, we add an artificial undefined user for that container.
+    // If we encounter this user later, we know that not all branches defined it.
+    // Hence, we can mark the read as (partially) undefined.
+    for (size_t i = 0; i < if_else.size(); i++) {
+        std::unordered_map<User*, std::unordered_set<User*>> partial_definitions;
+        for (auto& open_definition : open_definitions_branches.at(i)) {
+            bool partial = !if_else.is_complete();
+            for (size_t j = 0; j < if_else.size() && !partial; j++) {
+                partial = true;
+                for (auto& entry : open_definitions_branches.at(j)) {
+                    if (entry.first->container() == open_definition.first->container() &&
+                        !this->is_undefined_user(*entry.first) &&
+                        dominance_analysis.post_dominates(*entry.first, *users.entry(if_else.at(j).first))) {
+                        partial = false;
+                        break;
+                    }
+                }
+            }
+            if (partial) {
+                partial_definitions.insert(open_definition);
             }
         }
+        this->add_undefined_users(partial_definitions, open_definitions);
     }
 
     // Add open definitions from branches to outside
@@ -572,20 +464,14 @@ void DataDependencyAnalysis::visit_while(
         }
 
         // Connect to outside
-        bool found = false;
-        for (auto& entry : open_definitions) {
-            if (entry.first->container() == open_read->container()) {
-                entry.second.insert(open_read);
-                found = true;
-            }
-        }
-        if (!found) {
+        if (!this->connect(analysis_manager, open_definitions, *open_read)) {
             undefined.insert(open_read);
         }
     }
 
     // Add open definitions from while to outside
     for (auto& entry : open_definitions_while) {
+        this->loop_definitions_.insert(entry.first);
         open_definitions.insert(entry);
     }
 }
@@ -602,14 +488,7 @@ void DataDependencyAnalysis::visit_return(
     if (return_statement.is_data() && !return_statement.data().empty()) {
         auto current_user = users.get_user(return_statement.data(), &return_statement, Use::READ);
 
-        bool found = false;
-        for (auto& user : open_definitions) {
-            if (user.first->container() == return_statement.data()) {
-                user.second.insert(current_user);
-                found = true;
-            }
-        }
-        if (!found) {
+        if (!this->connect(analysis_manager, open_definitions, *current_user)) {
             undefined.insert(current_user);
         }
     }
@@ -654,14 +533,7 @@ void DataDependencyAnalysis::visit_sequence(
                 }
                 auto current_user = users.get_user(atom->get_name(), &child.second, Use::READ);
 
-                bool found = false;
-                for (auto& user : open_definitions) {
-                    if (user.first->container() == atom->get_name()) {
-                        user.second.insert(current_user);
-                        found = true;
-                    }
-                }
-                if (!found) {
+                if (!this->connect(analysis_manager, open_definitions, *current_user)) {
                     undefined.insert(current_user);
                 }
             }
@@ -933,6 +805,54 @@ bool DataDependencyAnalysis::depends(analysis::AnalysisManager& analysis_manager
     return intersect_any;
 }
 
+bool DataDependencyAnalysis::connect(
+    analysis::AnalysisManager& analysis_manager,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
+    User& read
+) {
+    auto& dominance_analysis = analysis_manager.get<analysis::DominanceAnalysis>();
+    auto& type = this->sdfg_.type(read.container());
+    bool is_scalar = dynamic_cast<const types::Scalar*>(&type) != nullptr;
+
+    bool found = false;
+    bool found_undefined_user = false;
+    bool found_loop_definition = false;
+    bool covered = false;
+    for (auto& definition : open_definitions) {
+        if (!this->depends(analysis_manager, *definition.first, read)) {
+            continue;
+        }
+        definition.second.insert(&read);
+        if (this->is_undefined_user(*definition.first)) {
+            found_undefined_user = true;
+            continue;
+        }
+        found = true;
+        found_loop_definition |= this->loop_definitions_.find(definition.first) != this->loop_definitions_.end();
+        if (!covered && dominance_analysis.dominates(*definition.first, read)) {
+            covered = this->supersedes_restrictive(read, *definition.first, analysis_manager);
+        }
+    }
+
+    return covered || (is_scalar && found && !found_undefined_user && !found_loop_definition);
+}
+
+void DataDependencyAnalysis::add_undefined_users(
+    const std::unordered_map<User*, std::unordered_set<User*>>& partial_definitions,
+    std::unordered_map<User*, std::unordered_set<User*>>& open_definitions
+) {
+    std::unordered_set<std::string> containers;
+    for (auto& entry : partial_definitions) {
+        if (!containers.insert(entry.first->container()).second) {
+            continue;
+        }
+        auto artificial_user = std::make_unique<
+            User>(boost::graph_traits<graph::Graph>::null_vertex(), entry.first->container(), nullptr, Use::WRITE);
+        this->undefined_users_.push_back(std::move(artificial_user));
+        open_definitions.insert({this->undefined_users_.back().get(), {}});
+    }
+}
+
 /****** Public API ******/
 
 std::unordered_set<User*> DataDependencyAnalysis::defines(User& write) {
diff --git a/sdfg/src/analysis/users.cpp b/sdfg/src/analysis/users.cpp
index 3df3ed0..c1ed61f 100644
--- a/sdfg/src/analysis/users.cpp
+++ b/sdfg/src/analysis/users.cpp
@@ -1028,6 +1028,8 @@ User* Users::
     return this->users_lookup_.at(key);
 }
 
+User* Users::entry(const structured_control_flow::ControlFlowNode& node) const { return this->entries_.at(&node); }
+
 void Users::add_user(std::unique_ptr<User> user) {
     auto vertex = user->vertex_;
     this->users_.insert({vertex, std::move(user)});
-- 
2.43.0


From 30286966055254946e6da7910834fdb900d2aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 40/76] fix: do not take accesses of unknown range for disjoint
 or overwritten

---
 sdfg/src/analysis/data_dependency_analysis.cpp | 8 ++++++++
 sdfg/src/symbolic/sets.cpp                     | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index b08f778..1caad73 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -647,6 +647,10 @@ bool DataDependencyAnalysis::
 
     // Check if previous subset is subset of any current subset
     for (auto& previous_subset : previous_subsets) {
+        if (previous_subset.empty()) {
+            // Unknown range
+            return false;
+        }
         bool found = false;
         for (auto& current_subset : current_subsets) {
             if (symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
@@ -745,6 +749,10 @@ bool DataDependencyAnalysis::
     auto& current_memlets = current.subsets();
 
     for (auto& subset_ : previous_memlets) {
+        if (subset_.empty()) {
+            // Unknown range
+            return false;
+        }
         bool overwritten = false;
         for (auto& subset : current_memlets) {
             if (symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
diff --git a/sdfg/src/symbolic/sets.cpp b/sdfg/src/symbolic/sets.cpp
index 8f4e26d..bc80df0 100644
--- a/sdfg/src/symbolic/sets.cpp
+++ b/sdfg/src/symbolic/sets.cpp
@@ -18,6 +18,9 @@ bool is_subset(
     }
 
     auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
+    if (expr1_delinearized.size() != expr2_delinearized.size()) {
+        return false;
+    }
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
@@ -73,6 +76,9 @@ bool is_disjoint(
     const MultiExpression& expr1, const MultiExpression& expr2, const Assumptions& assums1, const Assumptions& assums2
 ) {
     auto [expr1_delinearized, expr2_delinearized] = delinearize(expr1, expr2, assums1, assums2);
+    if (expr1_delinearized.size() != expr2_delinearized.size()) {
+        return false;
+    }
 
     std::string map_1_str = expression_to_map_str(expr1_delinearized, assums1);
     std::string map_2_str = expression_to_map_str(expr2_delinearized, assums2);
-- 
2.43.0


From 4b72b9dfac89bc258a7a3843d80bf2478bcba0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 41/76] fix: bound induction variables only by accesses in
 every iteration

---
 .../sdfg/analysis/assumptions_analysis.h      |  17 +++
 sdfg/src/analysis/assumptions_analysis.cpp    | 142 +++++++++++++-----
 2 files changed, 119 insertions(+), 40 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/assumptions_analysis.h b/sdfg/include/sdfg/analysis/assumptions_analysis.h
index f8d2797..0fb0a90 100644
--- a/sdfg/include/sdfg/analysis/assumptions_analysis.h
+++ b/sdfg/include/sdfg/analysis/assumptions_analysis.h
@@ -1,8 +1,10 @@
 #pragma once
 
 #include <unordered_map>
+#include <vector>
 
 #include "sdfg/analysis/analysis.h"
+#include "sdfg/analysis/dominance_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
@@ -28,6 +30,10 @@ private:
     symbolic::SymbolSet parameters_;
 
     analysis::Users* users_analysis_;
+    analysis::DominanceAnalysis* dominance_analysis_;
+
+    // Indvars of the loops around the current node
+    std::vector<symbolic::Symbol> enclosing_indvars_;
 
     void traverse(
         structured_control_flow::ControlFlowNode& current,
@@ -41,6 +47,17 @@ private:
         const symbolic::Assumptions& outer_assumptions_with_trivial
     );
 
+    /**
+     * @brief Bounds of an indvar from the accesses in every execution of the body.
+     */
+    void inverse_access_bounds(
+        structured_control_flow::Sequence& body,
+        UsersView& users_view,
+        const symbolic::Symbol& indvar,
+        std::vector<symbolic::Expression>& lbs,
+        std::vector<symbolic::Expression>& ubs
+    );
+
     void propagate(
         structured_control_flow::ControlFlowNode& node,
         const symbolic::Assumptions& node_assumptions,
diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 8a63fb3..2fb4aea 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -71,8 +71,10 @@ void AssumptionsAnalysis::run(analysis::AnalysisManager& analysis_manager) {
     this->ref_assumptions_.clear();
     this->ref_assumptions_with_trivial_.clear();
 
+    this->enclosing_indvars_.clear();
     this->parameters_.clear();
     this->users_analysis_ = &analysis_manager.get<Users>();
+    this->dominance_analysis_ = &analysis_manager.get<DominanceAnalysis>();
 
     // Determine parameters
     this->determine_parameters(analysis_manager);
@@ -119,6 +121,7 @@ void AssumptionsAnalysis::traverse(
         this->traverse(while_stmt->root(), outer_assumptions, outer_assumptions_with_trivial);
     } else if (auto loop_stmt = dynamic_cast<structured_control_flow::StructuredLoop*>(&current)) {
         this->traverse_structured_loop(loop_stmt, outer_assumptions, outer_assumptions_with_trivial);
+        this->enclosing_indvars_.pop_back();
     } else {
         // Other control flow nodes (e.g., Block) do not introduce assumptions or comprise scopes
     }
@@ -179,52 +182,29 @@ void AssumptionsAnalysis::traverse_structured_loop(
 
     // Determine non-tight lower and upper bounds from inverse index access
     std::vector<symbolic::Expression> lbs, ubs;
-    for (auto user : this->users_analysis_->reads(indvar->get_name())) {
-        if (auto* memlet = dynamic_cast<data_flow::Memlet*>(user->element())) {
-            const types::IType* memlet_type = &memlet->base_type();
-            for (long long i = memlet->subset().size() - 1; i >= 0; i--) {
-                symbolic::Expression num_elements = SymEngine::null;
-                if (auto* pointer_type = dynamic_cast<const types::Pointer*>(memlet_type)) {
-                    memlet_type = &pointer_type->pointee_type();
-                } else if (auto* array_type = dynamic_cast<const types::Array*>(memlet_type)) {
-                    memlet_type = &array_type->element_type();
-                    num_elements = array_type->num_elements();
-                } else {
-                    break;
-                }
-                if (!symbolic::uses(memlet->subset().at(i), indvar)) {
-                    continue;
-                }
-                symbolic::Expression inverse = symbolic::inverse(memlet->subset().at(i), indvar);
-                if (inverse.is_null()) {
-                    continue;
-                }
-                lbs.push_back(symbolic::subs(inverse, indvar, symbolic::zero()));
-                if (num_elements.is_null()) {
-                    std::string container;
-                    if (memlet->src_conn() == "void") {
-                        container = dynamic_cast<data_flow::AccessNode&>(memlet->src()).data();
-                    } else {
-                        container = dynamic_cast<data_flow::AccessNode&>(memlet->dst()).data();
-                    }
-                    if (this->is_parameter(container)) {
-                        ubs.push_back(symbolic::sub(
-                            symbolic::subs(inverse, indvar, symbolic::dynamic_sizeof(symbolic::symbol(container))),
-                            symbolic::one()
-                        ));
-                    }
-                } else {
-                    ubs.push_back(symbolic::sub(symbolic::subs(inverse, indvar, num_elements), symbolic::one()));
-                }
-            }
-        }
-    }
+    this->inverse_access_bounds(body, users_view, indvar, lbs, ubs);
     for (auto lb : lbs) {
         body_assumptions[indvar].add_lower_bound(lb);
     }
     for (auto ub : ubs) {
         body_assumptions[indvar].add_upper_bound(ub);
     }
+    for (auto& outer_indvar : this->enclosing_indvars_) {
+        std::vector<symbolic::Expression> outer_lbs, outer_ubs;
+        this->inverse_access_bounds(body, users_view, outer_indvar, outer_lbs, outer_ubs);
+        if (outer_lbs.empty() && outer_ubs.empty()) {
+            continue;
+        }
+        body_assumptions.insert({outer_indvar, symbolic::Assumption(outer_indvar)});
+        for (auto lb : outer_lbs) {
+            body_assumptions[outer_indvar].add_lower_bound(lb);
+        }
+        for (auto ub : outer_ubs) {
+            body_assumptions[outer_indvar].add_upper_bound(ub);
+        }
+    }
+
+    this->enclosing_indvars_.push_back(indvar);
 
     // Prove that update is monotonic -> assume bounds
     if (!symbolic::series::is_monotonic(update, indvar, outer_assumptions_with_trivial)) {
@@ -293,6 +273,88 @@ void AssumptionsAnalysis::traverse_structured_loop(
     this->traverse(body, this->assumptions_[&body], this->assumptions_with_trivial_[&body]);
 }
 
+void AssumptionsAnalysis::inverse_access_bounds(
+    structured_control_flow::Sequence& body,
+    UsersView& users_view,
+    const symbolic::Symbol& indvar,
+    std::vector<symbolic::Expression>& lbs,
+    std::vector<symbolic::Expression>& ubs
+) {
+    auto& body_entry = *this->users_analysis_->entry(body);
+    for (auto user : users_view.reads(indvar->get_name())) {
+        if (auto* memlet = dynamic_cast<data_flow::Memlet*>(user->element())) {
+            // Taking an address is not an access
+            if (memlet->type() == data_flow::MemletType::Reference) {
+                continue;
+            }
+            // Only accesses in every iteration bound the indvar
+            if (!this->dominance_analysis_->post_dominates(*user, body_entry)) {
+                continue;
+            }
+            const types::IType* memlet_type = &memlet->base_type();
+            for (long long i = memlet->subset().size() - 1; i >= 0; i--) {
+                auto& index = memlet->subset().at(i);
+                symbolic::Expression num_elements = SymEngine::null;
+                if (auto* pointer_type = dynamic_cast<const types::Pointer*>(memlet_type)) {
+                    if (!pointer_type->has_pointee_type()) {
+                        break;
+                    }
+                    memlet_type = &pointer_type->pointee_type();
+                } else if (auto* array_type = dynamic_cast<const types::Array*>(memlet_type)) {
+                    memlet_type = &array_type->element_type();
+                    num_elements = array_type->num_elements();
+                } else {
+                    break;
+                }
+                if (!symbolic::uses(index, indvar)) {
+                    continue;
+                }
+                // The bounds must not change within the body
+                bool constant = true;
+                for (auto& atom : symbolic::atoms(index)) {
+                    if (!symbolic::eq(atom, indvar) && !users_view.writes(atom->get_name()).empty()) {
+                        constant = false;
+                        break;
+                    }
+                }
+                if (!constant) {
+                    continue;
+                }
+                symbolic::Expression inverse = symbolic::inverse(index, indvar);
+                if (inverse.is_null()) {
+                    continue;
+                }
+                // Decreasing indices bound the indvar the other way around
+                auto slope = symbolic::expand(
+                    symbolic::sub(symbolic::subs(index, indvar, symbolic::add(indvar, symbolic::one())), index)
+                );
+                if (!SymEngine::is_a<SymEngine::Integer>(*slope)) {
+                    continue;
+                }
+                bool increasing = SymEngine::rcp_static_cast<const SymEngine::Integer>(slope)->as_int() > 0;
+
+                auto first = symbolic::subs(inverse, indvar, symbolic::zero());
+                (increasing ? lbs : ubs).push_back(first);
+
+                if (num_elements.is_null()) {
+                    std::string container;
+                    if (memlet->src_conn() == "void") {
+                        container = dynamic_cast<data_flow::AccessNode&>(memlet->src()).data();
+                    } else {
+                        container = dynamic_cast<data_flow::AccessNode&>(memlet->dst()).data();
+                    }
+                    if (!this->is_parameter(container)) {
+                        continue;
+                    }
+                    num_elements = symbolic::dynamic_sizeof(symbolic::symbol(container));
+                }
+                auto last = symbolic::subs(inverse, indvar, symbolic::sub(num_elements, symbolic::one()));
+                (increasing ? ubs : lbs).push_back(last);
+            }
+        }
+    }
+}
+
 void AssumptionsAnalysis::propagate(
     structured_control_flow::ControlFlowNode& node,
     const symbolic::Assumptions& node_assumptions,
-- 
2.43.0


From 7c2ec29791f3f1acecdc251c5ac80e1e3bbbba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 42/76] fix: take no upper bound from a literal of a
 disjunction

---
 sdfg/src/analysis/assumptions_analysis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 2fb4aea..5f928b7 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -21,6 +21,10 @@ symbolic::Expression AssumptionsAnalysis::cnf_to_upper_bound(const symbolic::CNF
     std::vector<symbolic::Expression> candidates;
 
     for (const auto& clause : cnf) {
+        // A disjunction does not imply any of its literals
+        if (clause.size() != 1) {
+            continue;
+        }
         for (const auto& literal : clause) {
             // Comparison: indvar < expr
             if (SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
-- 
2.43.0


From cc8c4361df65ecaee77d90c430607608e9f87191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 43/76] fix: derive bounds of symbols only from conditions
 bounding the symbol itself

---
 sdfg/src/analysis/assumptions_analysis.cpp | 25 ++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 5f928b7..7a00b0f 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -267,10 +267,27 @@ void AssumptionsAnalysis::traverse_structured_loop(
         }
     }
 
-    // Assumption: any ub symbol is at least init
-    for (auto& sym : symbolic::atoms(ub)) {
-        body_assumptions[sym].add_lower_bound(symbolic::add(init, symbolic::one()));
-        body_assumptions[sym].lower_bound_deprecated(symbolic::add(init, symbolic::one()));
+    // Assumption: a symbol bounding the indvar up to a constant is at least init minus this constant
+    for (auto& clause : cnf) {
+        auto sym_ub = cnf_to_upper_bound({clause}, indvar);
+        if (sym_ub.is_null()) {
+            continue;
+        }
+        for (auto& sym : symbolic::atoms(sym_ub)) {
+            auto offset = symbolic::expand(symbolic::sub(sym_ub, sym));
+            if (!SymEngine::is_a<SymEngine::Integer>(*offset)) {
+                continue;
+            }
+            if (symbolic::uses(init, sym)) {
+                continue;
+            }
+            auto bound = symbolic::add(init, symbolic::one());
+            if (SymEngine::rcp_static_cast<const SymEngine::Integer>(offset)->is_positive()) {
+                bound = symbolic::sub(init, offset);
+            }
+            body_assumptions[sym].add_lower_bound(bound);
+            body_assumptions[sym].lower_bound_deprecated(bound);
+        }
     }
 
     this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
-- 
2.43.0


From f4755ed3a3ad371c22b83412d2508b84de3daa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:36 +0000
Subject: [PATCH 44/76] fix: bound induction variables by init only if init
 does not change in the loop

---
 sdfg/src/analysis/assumptions_analysis.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/analysis/assumptions_analysis.cpp b/sdfg/src/analysis/assumptions_analysis.cpp
index 7a00b0f..08491ff 100644
--- a/sdfg/src/analysis/assumptions_analysis.cpp
+++ b/sdfg/src/analysis/assumptions_analysis.cpp
@@ -210,8 +210,16 @@ void AssumptionsAnalysis::traverse_structured_loop(
 
     this->enclosing_indvars_.push_back(indvar);
 
+    // The bounds of init only hold if init does not change within the loop
+    bool constant_init = !symbolic::uses(init, indvar);
+    for (auto& sym : symbolic::atoms(init)) {
+        if (!users_view.writes(sym->get_name()).empty()) {
+            constant_init = false;
+        }
+    }
+
     // Prove that update is monotonic -> assume bounds
-    if (!symbolic::series::is_monotonic(update, indvar, outer_assumptions_with_trivial)) {
+    if (!constant_init || !symbolic::series::is_monotonic(update, indvar, outer_assumptions_with_trivial)) {
         this->propagate(body, body_assumptions, outer_assumptions, outer_assumptions_with_trivial);
         this->traverse(body, this->assumptions_[&body], this->assumptions_with_trivial_[&body]);
         return;
-- 
2.43.0


From 27f7d00bd387ee3a25e33987bc705296f30e46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:54 +0000
Subject: [PATCH 45/76] fix: treat accesses as overwritten only by accesses to
 the same locations

---
 .../sdfg/analysis/data_dependency_analysis.h  | 12 +++++
 .../src/analysis/data_dependency_analysis.cpp | 45 ++++++++++++++++++-
 2 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index d3bc9a6..2db83ab 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -62,6 +62,18 @@ private:
 
     bool depends(analysis::AnalysisManager& analysis_manager, User& previous, User& current);
 
+    /**
+     * @brief Checks whether covering accesses covers exactly the locations of its subset
+     * when the covered accesses are executed, i.e., its symbols have the same values for both.
+     */
+    bool same_symbols(
+        analysis::AnalysisManager& analysis_manager,
+        const data_flow::Subset& covered,
+        const data_flow::Subset& covering,
+        User& first,
+        User& second
+    );
+
     /**
      * @brief Adds a read to the open definitions it may depend on.
      *
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index 1caad73..a143303 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -653,7 +653,8 @@ bool DataDependencyAnalysis::
         }
         bool found = false;
         for (auto& current_subset : current_subsets) {
-            if (symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
+            if (this->same_symbols(analysis_manager, previous_subset, current_subset, current, previous) &&
+                symbolic::is_subset(previous_subset, current_subset, previous_assumptions, previous_assumptions)) {
                 found = true;
                 break;
             }
@@ -755,7 +756,8 @@ bool DataDependencyAnalysis::
         }
         bool overwritten = false;
         for (auto& subset : current_memlets) {
-            if (symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
+            if (this->same_symbols(analysis_manager, subset_, subset, previous, current) &&
+                symbolic::is_subset(subset_, subset, previous_assumptions, current_assumptions)) {
                 overwritten = true;
                 break;
             }
@@ -813,6 +815,45 @@ bool DataDependencyAnalysis::depends(analysis::AnalysisManager& analysis_manager
     return intersect_any;
 }
 
+bool DataDependencyAnalysis::same_symbols(
+    analysis::AnalysisManager& analysis_manager,
+    const data_flow::Subset& covered,
+    const data_flow::Subset& covering,
+    User& first,
+    User& second
+) {
+    if (covered.size() != covering.size()) {
+        return false;
+    }
+
+    std::unordered_set<std::string> syms;
+    for (size_t i = 0; i < covering.size(); i++) {
+        auto atoms = symbolic::atoms(covering.at(i));
+        if (!atoms.empty() && !symbolic::eq(covered.at(i), covering.at(i))) {
+            return false;
+        }
+        for (auto& sym : atoms) {
+            syms.insert(sym->get_name());
+        }
+    }
+    if (syms.empty()) {
+        return true;
+    }
+
+    // Symbols must not change in between
+    auto& users = analysis_manager.get<analysis::Users>();
+    auto uses_before = users.all_uses_between(first, second);
+    auto uses_after = users.all_uses_after(first);
+    for (auto& user : uses_before) {
+        if (user->use() == Use::WRITE && syms.find(user->container()) != syms.end() &&
+            uses_after.find(user) != uses_after.end()) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 bool DataDependencyAnalysis::connect(
     analysis::AnalysisManager& analysis_manager,
     std::unordered_map<User*, std::unordered_set<User*>>& open_definitions,
-- 
2.43.0


From ba91095358d23cd2fdc7564f260b220820a2bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 46/76] fix: count the steps of a symbol from its initial value
 only

---
 sdfg/src/symbolic/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/symbolic/utils.cpp b/sdfg/src/symbolic/utils.cpp
index 8856f0a..ec6c47f 100644
--- a/sdfg/src/symbolic/utils.cpp
+++ b/sdfg/src/symbolic/utils.cpp
@@ -193,8 +193,8 @@ std::string expression_to_map_str(const MultiExpression& expr, const Assumptions
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums.at(sym).lower_bound_deprecated();
-        if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        auto lb = assums.at(sym).tight_lower_bound();
+        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
 
@@ -389,8 +389,8 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums1.at(sym).lower_bound_deprecated();
-        if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        auto lb = assums1.at(sym).tight_lower_bound();
+        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
 
@@ -446,8 +446,8 @@ std::tuple<std::string, std::string, std::string> expressions_to_intersection_ma
         if (symbolic::eq(arg1, symbolic::one())) {
             continue;
         }
-        auto lb = assums2.at(sym).lower_bound_deprecated();
-        if (!SymEngine::is_a<SymEngine::Integer>(*lb)) {
+        auto lb = assums2.at(sym).tight_lower_bound();
+        if (lb.is_null() || !SymEngine::is_a<SymEngine::Integer>(*lb)) {
             continue;
         }
 
-- 
2.43.0


From d2357daf803b5b3b4b62fe97a1104b0457057b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 47/76] fix: clear a node once even if it feeds several memlets

---
 sdfg/src/builder/structured_sdfg_builder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdfg/src/builder/structured_sdfg_builder.cpp b/sdfg/src/builder/structured_sdfg_builder.cpp
index 6e20e78..ca07498 100644
--- a/sdfg/src/builder/structured_sdfg_builder.cpp
+++ b/sdfg/src/builder/structured_sdfg_builder.cpp
@@ -1562,9 +1562,14 @@ void StructuredSDFGBuilder::clear_node(structured_control_flow::Block& block, co
 
     std::list<const data_flow::Memlet*> tmp;
     std::list<const data_flow::DataFlowNode*> queue = {&node};
+    std::unordered_set<const data_flow::DataFlowNode*> removed;
     while (!queue.empty()) {
         auto current = queue.front();
         queue.pop_front();
+        if (removed.contains(current)) {
+            // Queued once per memlet, but already removed
+            continue;
+        }
         if (current != &node) {
             if (dynamic_cast<const data_flow::AccessNode*>(current)) {
                 if (graph.in_degree(*current) > 0 || graph.out_degree(*current) > 0) {
@@ -1588,6 +1593,7 @@ void StructuredSDFGBuilder::clear_node(structured_control_flow::Block& block, co
 
         if (current != &node || graph.out_degree(*current) == 0) {
             auto vertex = current->vertex();
+            removed.insert(current);
             graph.nodes_.erase(vertex);
             boost::remove_vertex(vertex, graph.graph_);
         }
-- 
2.43.0


From dac161fc03995907add00c8dd44e9d9fce187504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 48/76] fix: rotate loops only if their initial value does not
 change in them

---
 .../structured_control_flow/loop_normalization.cpp       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index 8a264f1..da2dc74 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -243,7 +243,7 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         auto slt = SymEngine::rcp_static_cast<const SymEngine::StrictLessThan>(literal);
         auto lhs = slt->get_args().at(0);
         auto rhs = slt->get_args().at(1);
-        if (!symbolic::eq(rhs, indvar)) {
+        if (!symbolic::eq(rhs, indvar) || symbolic::uses(lhs, indvar)) {
             return applied;
         }
 
@@ -264,3 +264,10 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
 
 } // namespace passes
 } // namespace sdfg
+        // The initial value is read in every iteration of the rotated loop
+        for (auto& sym : symbolic::atoms(loop.init())) {
+            if (symbolic::eq(sym, indvar) || !body_users.writes(sym->get_name()).empty() ||
+                !body_users.moves(sym->get_name()).empty()) {
+                return applied;
+            }
+        }
-- 
2.43.0


From d18f615852b6c3d926b3f7ba13423aa3f8bfe63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 49/76] fix: shift and rotate loops only if the induction
 variable is not read after them

---
 .../sdfg/analysis/data_dependency_analysis.h  |  8 +++++++
 .../src/analysis/data_dependency_analysis.cpp | 24 +++++++++++++++++++
 .../loop_normalization.cpp                    |  7 ++++++
 3 files changed, 39 insertions(+)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index 2db83ab..caa3a2b 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -187,6 +187,14 @@ public:
 
     bool is_undefined_user(User& user) const;
 
+    /**
+     * @brief Checks whether the value of a loop's induction variable may be read after the loop.
+     *
+     * @param loop The loop.
+     * @return True if the value may be read outside of the loop.
+     */
+    bool is_indvar_read_after(analysis::AnalysisManager& analysis_manager, structured_control_flow::StructuredLoop& loop);
+
     /****** Loop-carried dependencies ******/
 
     bool available(structured_control_flow::StructuredLoop& loop) const;
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index a143303..1c785c8 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -963,6 +963,30 @@ bool DataDependencyAnalysis::is_undefined_user(User& user) const {
     return user.vertex_ == boost::graph_traits<graph::Graph>::null_vertex();
 };
 
+bool DataDependencyAnalysis::
+    is_indvar_read_after(analysis::AnalysisManager& analysis_manager, structured_control_flow::StructuredLoop& loop) {
+    auto indvar = loop.indvar()->get_name();
+    auto& users = analysis_manager.get<analysis::Users>();
+    if (sdfg_.is_external(indvar) || !users.views(indvar).empty()) {
+        return true;
+    }
+
+    analysis::UsersView loop_users(users, loop);
+    auto loop_reads = loop_users.reads(indvar);
+    std::unordered_set<User*> inside(loop_reads.begin(), loop_reads.end());
+    for (auto& [write, reads] : this->definitions(indvar)) {
+        if (write->element() != &loop) {
+            continue;
+        }
+        for (auto* read : reads) {
+            if (inside.find(read) == inside.end()) {
+                return true;
+            }
+        }
+    }
+    return false;
+};
+
 bool DataDependencyAnalysis::available(structured_control_flow::StructuredLoop& loop) const {
     return this->loop_carried_dependencies_.find(&loop) != this->loop_carried_dependencies_.end();
 };
diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index da2dc74..409b2d1 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/passes/structured_control_flow/loop_normalization.h"
 
 #include "sdfg/analysis/assumptions_analysis.h"
+#include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
 #include "sdfg/symbolic/polynomials.h"
@@ -237,6 +238,12 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
             return applied;
         }
         auto literal = clause[0];
+    // Shifting and rotating the loop changes the final value of the indvar
+    auto& data_dependency_analysis = analysis_manager_.get<analysis::DataDependencyAnalysis>();
+    if (data_dependency_analysis.is_indvar_read_after(analysis_manager_, loop)) {
+        return applied;
+    }
+
         if (!SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
             return applied;
         }
-- 
2.43.0


From 32ca80651cde5cc3cbac3f45836e9c9a2ba5fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 50/76] fix: keep the maximum in a disjunction of a loop that
 counts down

---
 .../src/passes/structured_control_flow/loop_normalization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index 409b2d1..bdac406 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -169,6 +169,10 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         }
     }
 
+                if (stride < 0 && clause.size() != 1) {
+                    new_clause.push_back(literal);
+                    continue;
+                }
     // Check uses of indvar in loop body are all memlets for further steps
     auto& users_analysis = analysis_manager_.get<analysis::Users>();
     analysis::UsersView body_users(users_analysis, loop.root());
-- 
2.43.0


From 5cd5121b86ae8efb70f3c1af80ae6cf0a02f32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 51/76] fix: turn != into < only where the induction variable
 starts before the bound

---
 .../loop_normalization.cpp                    | 87 +++++++++++++++----
 1 file changed, 69 insertions(+), 18 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
index bdac406..fbfacfe 100644
--- a/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
+++ b/sdfg/src/passes/structured_control_flow/loop_normalization.cpp
@@ -4,12 +4,43 @@
 #include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
+#include "sdfg/symbolic/extreme_values.h"
 #include "sdfg/symbolic/polynomials.h"
 #include "sdfg/symbolic/series.h"
 
 namespace sdfg {
 namespace passes {
 
+/// Whether a loop with the given body may end through a break or a return
+static bool exits_early(const structured_control_flow::ControlFlowNode& body) {
+    std::list<std::pair<const structured_control_flow::ControlFlowNode*, bool>> queue = {{&body, false}};
+    while (!queue.empty()) {
+        auto [current, nested] = queue.front();
+        queue.pop_front();
+
+        if (dynamic_cast<const structured_control_flow::Return*>(current)) {
+            return true;
+        } else if (dynamic_cast<const structured_control_flow::Break*>(current)) {
+            if (!nested) {
+                return true;
+            }
+        } else if (auto seq = dynamic_cast<const structured_control_flow::Sequence*>(current)) {
+            for (size_t i = 0; i < seq->size(); i++) {
+                queue.push_back({&seq->at(i).first, nested});
+            }
+        } else if (auto ifelse = dynamic_cast<const structured_control_flow::IfElse*>(current)) {
+            for (size_t i = 0; i < ifelse->size(); i++) {
+                queue.push_back({&ifelse->at(i).first, nested});
+            }
+        } else if (auto loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(current)) {
+            queue.push_back({&loop->root(), true});
+        } else if (auto while_stmt = dynamic_cast<const structured_control_flow::While*>(current)) {
+            queue.push_back({&while_stmt->root(), true});
+        }
+    }
+    return false;
+}
+
 LoopNormalization::LoopNormalization(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
     : NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {
 
@@ -95,14 +126,34 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
                 auto coeffs_rhs = symbolic::affine_coefficients(poly_rhs, syms);
                 auto mul_coeff_rhs = coeffs_rhs[indvar];
                 auto add_coeff_rhs = coeffs_rhs[symbolic::symbol("__daisy_constant__")];
+                if (!symbolic::eq(mul_coeff_rhs, symbolic::one()) &&
+                    !symbolic::eq(mul_coeff_rhs, symbolic::integer(-1))) {
+                    // Dividing by the coefficient may not be exact
+                    new_clause.push_back(literal);
+                    continue;
+                }
 
                 auto new_rhs = symbolic::sub(lhs, add_coeff_rhs);
-                // TODO: integer division
                 new_rhs = symbolic::div(new_rhs, mul_coeff_rhs);
                 auto new_lhs = indvar;
 
                 // 2. Convert to comparison based on stride sign
 
+                // The indvar starts on the side of the bound it is compared to,
+                // or the loop cannot end otherwise
+                bool starts_before = false;
+                if (clause.size() == 1 && (stride == 1 || stride == -1)) {
+                    auto distance = stride == 1 ? symbolic::sub(new_rhs, loop.init())
+                                                : symbolic::sub(loop.init(), new_rhs);
+                    auto min_distance = symbolic::minimum(symbolic::expand(distance), {}, assums);
+                    starts_before = min_distance != SymEngine::null &&
+                                    symbolic::is_true(symbolic::Ge(min_distance, symbolic::zero()));
+                }
+                if (!starts_before && (cnf.size() != 1 || exits_early(loop.root()))) {
+                    new_clause.push_back(symbolic::Ne(new_lhs, new_rhs));
+                    continue;
+                }
+
                 // Special cases: |stride| == 1
                 if (stride == 1) {
                     auto new_literal = symbolic::Lt(new_lhs, new_rhs);
@@ -118,6 +169,10 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
                 new_clause.push_back(symbolic::Ne(new_lhs, new_rhs));
             } else if (SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
                 // Remove trivial max expressions
+                if (stride < 0 && clause.size() != 1) {
+                    new_clause.push_back(literal);
+                    continue;
+                }
                 auto slt = SymEngine::rcp_static_cast<const SymEngine::StrictLessThan>(literal);
                 auto lhs = slt->get_args().at(0);
                 auto rhs = slt->get_args().at(1);
@@ -169,10 +224,6 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         }
     }
 
-                if (stride < 0 && clause.size() != 1) {
-                    new_clause.push_back(literal);
-                    continue;
-                }
     // Check uses of indvar in loop body are all memlets for further steps
     auto& users_analysis = analysis_manager_.get<analysis::Users>();
     analysis::UsersView body_users(users_analysis, loop.root());
@@ -187,6 +238,12 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         return applied;
     }
 
+    // Shifting and rotating the loop changes the final value of the indvar
+    auto& data_dependency_analysis = analysis_manager_.get<analysis::DataDependencyAnalysis>();
+    if (data_dependency_analysis.is_indvar_read_after(analysis_manager_, loop)) {
+        return applied;
+    }
+
     try {
         new_cnf = symbolic::conjunctive_normal_form(condition);
     } catch (const symbolic::CNFException e) {
@@ -242,12 +299,6 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
             return applied;
         }
         auto literal = clause[0];
-    // Shifting and rotating the loop changes the final value of the indvar
-    auto& data_dependency_analysis = analysis_manager_.get<analysis::DataDependencyAnalysis>();
-    if (data_dependency_analysis.is_indvar_read_after(analysis_manager_, loop)) {
-        return applied;
-    }
-
         if (!SymEngine::is_a<SymEngine::StrictLessThan>(*literal)) {
             return applied;
         }
@@ -257,6 +308,13 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
         if (!symbolic::eq(rhs, indvar) || symbolic::uses(lhs, indvar)) {
             return applied;
         }
+        // The initial value is read in every iteration of the rotated loop
+        for (auto& sym : symbolic::atoms(loop.init())) {
+            if (symbolic::eq(sym, indvar) || !body_users.writes(sym->get_name()).empty() ||
+                !body_users.moves(sym->get_name()).empty()) {
+                return applied;
+            }
+        }
 
         // Update loop parameters
         auto new_init = symbolic::add(lhs, symbolic::one());
@@ -275,10 +333,3 @@ bool LoopNormalization::accept(structured_control_flow::For& loop) {
 
 } // namespace passes
 } // namespace sdfg
-        // The initial value is read in every iteration of the rotated loop
-        for (auto& sym : symbolic::atoms(loop.init())) {
-            if (symbolic::eq(sym, indvar) || !body_users.writes(sym->get_name()).empty() ||
-                !body_users.moves(sym->get_name()).empty()) {
-                return applied;
-            }
-        }
-- 
2.43.0


From 7253183a2ea3e7b34daad16a0a5ccac5adfa0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 52/76] fix: convert a while loop only if its update runs once
 in every iteration, and rename only the uses after it

---
 .../while_to_for_conversion.cpp               | 56 ++++++++++++++-----
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp b/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
index aac54dd..4afb0bf 100644
--- a/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
+++ b/sdfg/src/passes/structured_control_flow/while_to_for_conversion.cpp
@@ -104,18 +104,42 @@ bool WhileToForConversion::can_be_applied(
     ;
     auto update = update_element->assignments().at(indvar);
 
-    std::unordered_set<std::string> update_symbols;
-    for (auto atom : symbolic::atoms(update)) {
-        auto sym = SymEngine::rcp_static_cast<const SymEngine::Symbol>(atom);
-        update_symbols.insert(sym->get_name());
+    // Criterion: Update is executed once in every iteration
+    int update_index = -1;
+    for (size_t i = 0; i < body.size(); i++) {
+        if (&body.at(i).second == update_element) {
+            update_index = i;
+        }
+    }
+    if (update_index == -1) {
+        return false;
+    }
+    if (!all_users.views(indvar->get_name()).empty()) {
+        return false;
     }
 
-    // Check that we can replace all post-usages of iterator (after increment)
-    auto users_after = body_users.all_uses_after(*update_write);
-    for (auto use : users_after) {
-        if (use->use() == analysis::Use::WRITE && update_symbols.find(use->container()) != update_symbols.end()) {
+    // Criterion: The update computes the same value at the end of the iteration
+    for (auto atom : symbolic::atoms(update)) {
+        if (symbolic::eq(atom, indvar)) {
+            continue;
+        }
+        auto name = atom->get_name();
+        if (!all_users.views(name).empty()) {
             return false;
         }
+        if (update_element->assignments().find(atom) != update_element->assignments().end()) {
+            return false;
+        }
+        for (size_t i = update_index + 1; i < body.size(); i++) {
+            auto child = body.at(i);
+            analysis::UsersView child_users(all_users, child.first);
+            if (!child_users.writes(name).empty() || !child_users.moves(name).empty()) {
+                return false;
+            }
+            if (child.second.assignments().find(atom) != child.second.assignments().end()) {
+                return false;
+            }
+        }
     }
 
     // No other continue, break or return inside loop body
@@ -192,13 +216,16 @@ void WhileToForConversion::apply(
     builder.add_container(pseudo_indvar->get_name(), sdfg.type(indvar->get_name()));
 
     // All usages after increment of indvar must be replaced with pseudo_indvar
-    auto users_after = body_users.all_uses_after(*write_to_indvar);
-    for (auto use : users_after) {
-        if (use->container() != indvar->get_name()) {
-            continue;
+    bool after_update = false;
+    for (size_t i = 0; i < body.size(); i++) {
+        auto child = body.at(i);
+        if (after_update) {
+            child.first.replace(indvar, pseudo_indvar);
+            child.second.replace(indvar, pseudo_indvar);
+        }
+        if (&child.second == update_element) {
+            after_update = true;
         }
-
-        use->element()->replace(indvar, pseudo_indvar);
     }
 
     // Remove update from transition
@@ -236,6 +263,7 @@ bool WhileToForConversion::run_pass(builder::StructuredSDFGBuilder& builder, ana
                 if (auto match = dynamic_cast<structured_control_flow::While*>(&sequence_stmt->at(i).first)) {
                     if (this->can_be_applied(builder, analysis_manager, *match)) {
                         this->apply(builder, analysis_manager, *sequence_stmt, *match);
+                        analysis_manager.invalidate_all();
                         applied = true;
                     }
                 }
-- 
2.43.0


From 507b23a7b3273f8fd5d144aa278d0caf9414045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:52 +0000
Subject: [PATCH 53/76] fix: do not turn loops with a break into maps

---
 .../structured_control_flow/for2map.cpp       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index 676961b..a7aa46b 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -24,9 +24,17 @@ bool For2MapPass::can_be_applied(
 
     // Criterion: Loop must not have side-effecting body
     std::list<const structured_control_flow::ControlFlowNode*> queue = {&for_stmt.root()};
+    std::unordered_set<const structured_control_flow::ControlFlowNode*> nested;
     while (!queue.empty()) {
         auto current = queue.front();
         queue.pop_front();
+        bool in_nested_loop = nested.find(current) != nested.end();
+        auto enqueue = [&](const structured_control_flow::ControlFlowNode* child, bool in_loop) {
+            queue.push_back(child);
+            if (in_loop) {
+                nested.insert(child);
+            }
+        };
 
         if (auto block = dynamic_cast<const structured_control_flow::Block*>(current)) {
             for (auto& node : block->dataflow().nodes()) {
@@ -39,19 +47,22 @@ bool For2MapPass::can_be_applied(
         } else if (auto seq = dynamic_cast<const structured_control_flow::Sequence*>(current)) {
             for (size_t i = 0; i < seq->size(); i++) {
                 auto& child = seq->at(i).first;
-                queue.push_back(&child);
+                enqueue(&child, in_nested_loop);
             }
         } else if (auto ifelse = dynamic_cast<const structured_control_flow::IfElse*>(current)) {
             for (size_t i = 0; i < ifelse->size(); i++) {
                 auto& branch = ifelse->at(i).first;
-                queue.push_back(&branch);
+                enqueue(&branch, in_nested_loop);
             }
         } else if (auto loop = dynamic_cast<const structured_control_flow::StructuredLoop*>(current)) {
-            queue.push_back(&loop->root());
+            enqueue(&loop->root(), true);
         } else if (auto while_stmt = dynamic_cast<const structured_control_flow::While*>(current)) {
-            queue.push_back(&while_stmt->root());
-        } else if (auto for_stmt = dynamic_cast<const structured_control_flow::Break*>(current)) {
-            // Do nothing
+            enqueue(&while_stmt->root(), true);
+        } else if (dynamic_cast<const structured_control_flow::Break*>(current)) {
+            // Leaves the loop itself
+            if (!in_nested_loop) {
+                return false;
+            }
         } else if (auto for_stmt = dynamic_cast<const structured_control_flow::Continue*>(current)) {
             // Do nothing
         } else if (auto for_stmt = dynamic_cast<const structured_control_flow::Return*>(current)) {
-- 
2.43.0


From 3b491bc7c48eeb6a01f70ae5736f6bcde6a734bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 54/76] fix: turn loops into maps only if the induction
 variable is not read after them

---
 sdfg/src/passes/structured_control_flow/for2map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index a7aa46b..e82eae5 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -139,7 +139,7 @@ bool For2MapPass::can_be_applied(
     }
 
     // c. indvar not used after for
-    if (locals.find(for_stmt.indvar()->get_name()) != locals.end()) {
+    if (data_dependency_analysis_->is_indvar_read_after(analysis_manager, for_stmt)) {
         return false;
     }
 
-- 
2.43.0


From 623cadeec4a7d658fbd7e15655879751dd30c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 55/76] fix: no map for loops that write aliased storage or
 move pointers used after them

---
 sdfg/include/sdfg/analysis/users.h            |  3 ++
 sdfg/src/analysis/users.cpp                   | 31 ++++++++++++++
 .../structured_control_flow/for2map.cpp       | 42 +++++++++++++++++++
 3 files changed, 76 insertions(+)

diff --git a/sdfg/include/sdfg/analysis/users.h b/sdfg/include/sdfg/analysis/users.h
index 2b585e0..afc329a 100644
--- a/sdfg/include/sdfg/analysis/users.h
+++ b/sdfg/include/sdfg/analysis/users.h
@@ -208,6 +208,9 @@ public:
 
     static structured_control_flow::ControlFlowNode* scope(User* user);
 
+    /// @brief Containers whose storage a container may refer to, "*c" for pointers loaded from the storage of c
+    std::unordered_set<std::string> origins(const std::string& container) const;
+
     std::unordered_set<std::string> locals(structured_control_flow::ControlFlowNode& node);
 
     const std::unordered_set<User*> all_uses_between(User& user1, User& user2);
diff --git a/sdfg/src/analysis/users.cpp b/sdfg/src/analysis/users.cpp
index c1ed61f..5b812b7 100644
--- a/sdfg/src/analysis/users.cpp
+++ b/sdfg/src/analysis/users.cpp
@@ -1058,6 +1058,37 @@ void Users::add_user(std::unique_ptr<User> user) {
     this->users_lookup_.insert({key, user_ptr});
 }
 
+std::unordered_set<std::string> Users::origins(const std::string& container) const {
+    std::unordered_set<std::string> origins;
+    std::list<std::string> queue = {container};
+    while (!queue.empty()) {
+        auto current = queue.front();
+        queue.pop_front();
+        if (!origins.insert(current).second) {
+            continue;
+        }
+        for (auto& move : this->moves(current)) {
+            auto* access_node = dynamic_cast<data_flow::AccessNode*>(move->element());
+            if (!access_node) {
+                continue;
+            }
+            for (auto& iedge : access_node->get_parent().in_edges(*access_node)) {
+                auto* src = dynamic_cast<data_flow::AccessNode*>(&iedge.src());
+                if (!src || dynamic_cast<data_flow::ConstantNode*>(src)) {
+                    continue;
+                }
+                if (iedge.type() == data_flow::MemletType::Reference) {
+                    queue.push_back(src->data());
+                } else {
+                    // Pointer loaded from memory
+                    origins.insert("*" + src->data());
+                }
+            }
+        }
+    }
+    return origins;
+};
+
 std::unordered_set<std::string> Users::locals(structured_control_flow::ControlFlowNode& node) {
     auto& sdfg = this->sdfg_;
 
diff --git a/sdfg/src/passes/structured_control_flow/for2map.cpp b/sdfg/src/passes/structured_control_flow/for2map.cpp
index e82eae5..69f14c9 100644
--- a/sdfg/src/passes/structured_control_flow/for2map.cpp
+++ b/sdfg/src/passes/structured_control_flow/for2map.cpp
@@ -9,6 +9,36 @@
 namespace sdfg {
 namespace passes {
 
+/// Checks whether a loop body writes storage, which it also accesses through another container
+static bool writes_aliased_storage(analysis::Users& users, analysis::UsersView& body_users) {
+    std::unordered_map<std::string, std::unordered_set<std::string>> origins;
+    std::unordered_set<std::string> written;
+    for (auto* user : body_users.uses()) {
+        auto& container = user->container();
+        if (user->use() == analysis::Use::WRITE) {
+            written.insert(container);
+        } else if (user->use() == analysis::Use::MOVE) {
+            continue;
+        }
+        if (origins.find(container) == origins.end()) {
+            origins.insert({container, users.origins(container)});
+        }
+    }
+    for (auto& container : written) {
+        for (auto& [other, other_origins] : origins) {
+            if (other == container) {
+                continue;
+            }
+            for (auto& origin : origins[container]) {
+                if (other_origins.find(origin) != other_origins.end()) {
+                    return true;
+                }
+            }
+        }
+    }
+    return false;
+}
+
 std::string For2MapPass::name() { return "For2Map"; }
 
 bool For2MapPass::can_be_applied(
@@ -138,6 +168,18 @@ bool For2MapPass::can_be_applied(
         }
     }
 
+    // Pointers moved by the loop must not be used after it
+    for (auto* move : body_users.moves()) {
+        if (locals.find(move->container()) == locals.end()) {
+            return false;
+        }
+    }
+
+    // Accesses through different containers are not part of the dependencies
+    if (writes_aliased_storage(users, body_users)) {
+        return false;
+    }
+
     // c. indvar not used after for
     if (data_dependency_analysis_->is_indvar_read_after(analysis_manager, for_stmt)) {
         return false;
-- 
2.43.0


From 5c03b2344e9db50efdf26db0a192bc6e35f431c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 56/76] fix: give fused values of opaque pointers the type of
 the elements

---
 sdfg/include/sdfg/transformations/map_fusion.h | 1 +
 sdfg/src/transformations/map_fusion.cpp        | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdfg/include/sdfg/transformations/map_fusion.h b/sdfg/include/sdfg/transformations/map_fusion.h
index d8fe903..24b5e68 100644
--- a/sdfg/include/sdfg/transformations/map_fusion.h
+++ b/sdfg/include/sdfg/transformations/map_fusion.h
@@ -51,6 +51,7 @@ class MapFusion : public Transformation {
         std::string container; ///< Container being read/written
         data_flow::Subset consumer_subset; ///< The access pattern in the consumer (e.g., [j-1], [j], [j+1])
         symbolic::Expression index_mapping; ///< Expression mapping second_indvar to first_indvar
+        types::PrimitiveType element_type; ///< Type of the elements produced
     };
     std::vector<FusionCandidate> fusion_candidates_;
 
diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 06dcd77..3f401bf 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -138,6 +138,9 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
             return false;
         }
 
+        // The container may be an opaque pointer
+        auto element_type = producer_memlet->result_type(builder.subject())->primitive_type();
+
         // Extract affine coefficients for producer (done once per container)
         auto producer_expr = producer_subset.at(0);
         symbolic::SymbolVec producer_symbols = {first_indvar};
@@ -235,6 +238,7 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
             candidate.container = container;
             candidate.consumer_subset = {consumer_expr};
             candidate.index_mapping = index_mapping;
+            candidate.element_type = element_type;
 
             fusion_candidates_.push_back(candidate);
         }
@@ -263,9 +267,8 @@ void MapFusion::apply(builder::StructuredSDFGBuilder& builder, analysis::Analysi
         auto& candidate = fusion_candidates_[cand_idx];
 
         // Create a temp scalar for this candidate
-        auto& container_type = sdfg.type(candidate.container);
         std::string temp_name = builder.find_new_name("_fused_tmp");
-        types::Scalar tmp_type(container_type.primitive_type());
+        types::Scalar tmp_type(candidate.element_type);
         builder.add_container(temp_name, tmp_type);
         candidate_temps.push_back(temp_name);
 
-- 
2.43.0


From 6802d1a82ba12b5c6bf79720935988fe30131eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 57/76] fix: do not fuse maps if one access node reads several
 elements

---
 sdfg/src/transformations/map_fusion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 3f401bf..34f4e28 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -179,6 +179,7 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                 }
 
                 // Check all read memlets from this access
+                symbolic::ExpressionSet access_subsets;
                 for (auto& memlet : dataflow.out_edges(*access)) {
                     if (memlet.type() != data_flow::MemletType::Computational) {
                         return false;
@@ -190,6 +191,12 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                         return false;
                     }
                     unique_subsets.insert(consumer_subset.at(0));
+                    access_subsets.insert(consumer_subset.at(0));
+                }
+
+                // Criterion: An access node is replaced by a single temp
+                if (access_subsets.size() > 1) {
+                    return false;
                 }
             }
         }
-- 
2.43.0


From adbe921dbdc6352e15809b54aec684e8f3443c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 58/76] fix: fuse maps only if the first map computes all
 elements read by the second loop

---
 sdfg/src/transformations/map_fusion.cpp | 74 +++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 34f4e28..34fe768 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -1,6 +1,7 @@
 #include "sdfg/transformations/map_fusion.h"
 
 #include "sdfg/analysis/arguments_analysis.h"
+#include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/analysis/scope_analysis.h"
 #include "sdfg/analysis/users.h"
 #include "sdfg/control_flow/interstate_edge.h"
@@ -12,6 +13,59 @@
 namespace sdfg {
 namespace transformations {
 
+/// Splits "indvar < bound" and "indvar <= bound" into an exclusive bound
+static symbolic::Expression exclusive_bound(const structured_control_flow::StructuredLoop& loop) {
+    auto condition = loop.condition();
+    if (SymEngine::is_a<SymEngine::StrictLessThan>(*condition) || SymEngine::is_a<SymEngine::LessThan>(*condition)) {
+        auto args = condition->get_args();
+        if (symbolic::eq(args.at(0), loop.indvar()) && !symbolic::uses(args.at(1), loop.indvar())) {
+            if (SymEngine::is_a<SymEngine::LessThan>(*condition)) {
+                return symbolic::add(args.at(1), symbolic::one());
+            }
+            return args.at(1);
+        }
+    }
+    return SymEngine::null;
+}
+
+static bool is_non_negative(const symbolic::Expression& expr) {
+    auto simplified = symbolic::expand(expr);
+    return SymEngine::is_a<SymEngine::Integer>(*simplified) &&
+           !SymEngine::rcp_static_cast<const SymEngine::Integer>(simplified)->is_negative();
+}
+
+/// Checks that every iteration of the second loop maps to an iteration of the first map
+static bool covers(
+    const structured_control_flow::Map& first_map,
+    const structured_control_flow::StructuredLoop& second_loop,
+    const symbolic::Expression& index_mapping
+) {
+    auto first_indvar = first_map.indvar();
+    auto second_indvar = second_loop.indvar();
+
+    auto offset = symbolic::expand(symbolic::sub(index_mapping, second_indvar));
+    if (symbolic::eq(offset, symbolic::zero())) {
+        if (symbolic::eq(first_map.init(), second_loop.init()) &&
+            symbolic::eq(symbolic::subs(first_map.update(), first_indvar, second_indvar), second_loop.update()) &&
+            symbolic::eq(symbolic::subs(first_map.condition(), first_indvar, second_indvar), second_loop.condition())) {
+            return true;
+        }
+    }
+
+    if (!SymEngine::is_a<SymEngine::Integer>(*offset) ||
+        !symbolic::eq(first_map.update(), symbolic::add(first_indvar, symbolic::one())) ||
+        !is_non_negative(symbolic::sub(second_loop.update(), second_indvar))) {
+        return false;
+    }
+    auto first_bound = exclusive_bound(first_map);
+    auto second_bound = exclusive_bound(second_loop);
+    if (first_bound.is_null() || second_bound.is_null()) {
+        return false;
+    }
+    return is_non_negative(symbolic::sub(symbolic::add(second_loop.init(), offset), first_map.init())) &&
+           is_non_negative(symbolic::sub(first_bound, symbolic::add(second_bound, offset)));
+}
+
 MapFusion::MapFusion(structured_control_flow::Map& first_map, structured_control_flow::StructuredLoop& second_loop)
     : first_map_(first_map), second_loop_(second_loop) {}
 
@@ -100,6 +154,9 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
         return false;
     }
 
+    auto& users = analysis_manager.get<analysis::Users>();
+    auto& loop_analysis = analysis_manager.get<analysis::LoopAnalysis>();
+
     // Analyze memory access patterns for each fusion candidate
     auto& first_dataflow = first_block->dataflow();
 
@@ -158,6 +215,12 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
         }
         auto producer_constant = producer_coeffs[symbolic::symbol("__daisy_constant__")];
 
+        // Does the first map write all defined elements?
+        bool only_producer = loop_analysis.parent_loop(&first_map_) == nullptr &&
+                             builder.subject().is_transient(container) &&
+                             dynamic_cast<const types::Array*>(&builder.subject().type(container)) &&
+                             users.num_writes(container) == 1 && users.num_views(container) == 0;
+
         // Collect all unique (container, subset) pairs from consumer blocks
         // A subset is considered unique if it's not symbolically equal to any existing one
         symbolic::ExpressionSet unique_subsets;
@@ -240,6 +303,17 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
                 return false;
             }
 
+            // Criterion: Elements not written by the first map must be undefined
+            if (!only_producer) {
+                auto produced = symbolic::expand(symbolic::subs(producer_expr, first_indvar, index_mapping));
+                if (!symbolic::eq(produced, symbolic::expand(consumer_expr))) {
+                    return false;
+                }
+                if (!covers(first_map_, second_loop_, index_mapping)) {
+                    return false;
+                }
+            }
+
             // Store the fusion candidate
             FusionCandidate candidate;
             candidate.container = container;
-- 
2.43.0


From e419019c7ce72af10d06c1647b9dc3f3b2845971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:22 +0000
Subject: [PATCH 59/76] fix: do not fuse maps if the second loop overwrites
 what the first map reads or writes

---
 sdfg/src/transformations/map_fusion.cpp | 89 +++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/sdfg/src/transformations/map_fusion.cpp b/sdfg/src/transformations/map_fusion.cpp
index 34fe768..521cc28 100644
--- a/sdfg/src/transformations/map_fusion.cpp
+++ b/sdfg/src/transformations/map_fusion.cpp
@@ -13,6 +13,89 @@
 namespace sdfg {
 namespace transformations {
 
+/// Checks that the first map's block computes the same in the second loop, and changes nothing else there
+static bool is_movable(
+    const StructuredSDFG& sdfg,
+    structured_control_flow::Block& first_block,
+    const symbolic::Symbol& first_indvar,
+    analysis::UsersView& first_users,
+    analysis::UsersView& second_users,
+    const std::unordered_set<std::string>& fusion_containers,
+    analysis::Users& users
+) {
+    for (auto* node : first_block.dataflow().library_nodes()) {
+        if (node->side_effect()) {
+            return false;
+        }
+    }
+
+    auto overlap = [&](const std::string& container1, const std::string& container2) {
+        auto origins1 = users.origins(container1);
+        auto origins2 = users.origins(container2);
+        return std::any_of(origins1.begin(), origins1.end(), [&](auto& origin) { return origins2.contains(origin); });
+    };
+
+    // The block must not overwrite what it reads
+    auto& dataflow = first_block.dataflow();
+    for (auto* read : dataflow.data_nodes()) {
+        if (dataflow.out_degree(*read) == 0 || dynamic_cast<data_flow::ConstantNode*>(read)) {
+            continue;
+        }
+        for (auto* write : dataflow.data_nodes()) {
+            if (dataflow.in_degree(*write) == 0) {
+                continue;
+            }
+            if (read == write && dynamic_cast<const types::Scalar*>(&sdfg.type(read->data()))) {
+                continue;
+            }
+            if (overlap(read->data(), write->data())) {
+                return false;
+            }
+        }
+    }
+
+    std::unordered_set<std::string> second_writes;
+    std::unordered_set<std::string> second_uses;
+    for (auto* user : second_users.uses()) {
+        if (user->use() == analysis::Use::WRITE || user->use() == analysis::Use::MOVE) {
+            second_writes.insert(user->container());
+        }
+        second_uses.insert(user->container());
+    }
+
+    for (auto* user : first_users.uses()) {
+        auto& container = user->container();
+        if (user->use() == analysis::Use::MOVE) {
+            return false;
+        }
+
+        // The induction variable is only substituted in subsets
+        if (container == first_indvar->get_name()) {
+            if (dynamic_cast<data_flow::AccessNode*>(user->element())) {
+                return false;
+            }
+            continue;
+        }
+
+        // The second loop must not overwrite what the block accesses
+        for (auto& other : second_writes) {
+            if (overlap(container, other)) {
+                return false;
+            }
+        }
+
+        // The second loop must not access what else the block writes
+        if (user->use() == analysis::Use::WRITE && !fusion_containers.contains(container)) {
+            for (auto& other : second_uses) {
+                if (overlap(container, other)) {
+                    return false;
+                }
+            }
+        }
+    }
+    return true;
+}
+
 /// Splits "indvar < bound" and "indvar <= bound" into an exclusive bound
 static symbolic::Expression exclusive_bound(const structured_control_flow::StructuredLoop& loop) {
     auto condition = loop.condition();
@@ -157,6 +240,12 @@ bool MapFusion::can_be_applied(builder::StructuredSDFGBuilder& builder, analysis
     auto& users = analysis_manager.get<analysis::Users>();
     auto& loop_analysis = analysis_manager.get<analysis::LoopAnalysis>();
 
+    analysis::UsersView first_users(users, *first_block);
+    analysis::UsersView second_users(users, second_loop_);
+    if (!is_movable(builder.subject(), *first_block, first_map_.indvar(), first_users, second_users, fusion_containers, users)) {
+        return false;
+    }
+
     // Analyze memory access patterns for each fusion candidate
     auto& first_dataflow = first_block->dataflow();
 
-- 
2.43.0


From 61475272a5b2d46e3539d6d54a5422afa7bcb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:51 +0000
Subject: [PATCH 60/76] fix: symbols written in a loop body are not constant in
 its loop-carried dependencies

---
 .../sdfg/analysis/data_dependency_analysis.h  |  3 ++-
 .../src/analysis/data_dependency_analysis.cpp | 23 ++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/sdfg/include/sdfg/analysis/data_dependency_analysis.h b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
index caa3a2b..49ed7b4 100644
--- a/sdfg/include/sdfg/analysis/data_dependency_analysis.h
+++ b/sdfg/include/sdfg/analysis/data_dependency_analysis.h
@@ -51,7 +51,8 @@ private:
         User& previous,
         User& current,
         analysis::AnalysisManager& analysis_manager,
-        structured_control_flow::StructuredLoop& loop
+        structured_control_flow::StructuredLoop& loop,
+        const std::unordered_set<std::string>& written
     );
 
     bool supersedes_restrictive(User& previous, User& current, analysis::AnalysisManager& analysis_manager);
diff --git a/sdfg/src/analysis/data_dependency_analysis.cpp b/sdfg/src/analysis/data_dependency_analysis.cpp
index 1c785c8..82e37a0 100644
--- a/sdfg/src/analysis/data_dependency_analysis.cpp
+++ b/sdfg/src/analysis/data_dependency_analysis.cpp
@@ -267,12 +267,19 @@ void DataDependencyAnalysis::visit_for(
         assert(success);
         auto& dependencies = this->loop_carried_dependencies_.at(&for_loop);
 
+        // Symbols written by the body are not constant from the perspective of the loop
+        std::unordered_set<std::string> written;
+        analysis::UsersView body_users(users, for_loop.root());
+        for (auto* write : body_users.writes()) {
+            written.insert(write->container());
+        }
+
         // We can focus on written containers
 
         // Case 1: Read-Write between iterations
         for (auto& read : undefined_for) {
             for (auto& write : open_definitions_for) {
-                if (loop_depends(*write.first, *read, analysis_manager, for_loop)) {
+                if (loop_depends(*write.first, *read, analysis_manager, for_loop, written)) {
                     dependencies[read->container()] = LOOP_CARRIED_DEPENDENCY_READ_WRITE;
                     write.second.insert(read);
                 }
@@ -285,7 +292,7 @@ void DataDependencyAnalysis::visit_for(
                 continue;
             }
             for (auto& write_2 : open_definitions_for) {
-                if (loop_depends(*write.first, *write_2.first, analysis_manager, for_loop)) {
+                if (loop_depends(*write.first, *write_2.first, analysis_manager, for_loop, written)) {
                     dependencies.insert({write.first->container(), LOOP_CARRIED_DEPENDENCY_WRITE_WRITE});
                     break;
                 }
@@ -562,7 +569,8 @@ bool DataDependencyAnalysis::loop_depends(
     User& previous,
     User& current,
     analysis::AnalysisManager& analysis_manager,
-    structured_control_flow::StructuredLoop& loop
+    structured_control_flow::StructuredLoop& loop,
+    const std::unordered_set<std::string>& written
 ) {
     if (previous.container() != current.container()) {
         return false;
@@ -607,6 +615,15 @@ bool DataDependencyAnalysis::loop_depends(
             }
         }
     }
+    for (auto& container : written) {
+        auto symbol = symbolic::symbol(container);
+        if (previous_assumptions.find(symbol) != previous_assumptions.end()) {
+            previous_assumptions.at(symbol).constant(false);
+        }
+        if (current_assumptions.find(symbol) != current_assumptions.end()) {
+            current_assumptions.at(symbol).constant(false);
+        }
+    }
 
     // Check if previous subset is subset of any current subset
     for (auto& previous_subset : previous_subsets) {
-- 
2.43.0


From 903f12e5579d71a1e282be26c6addda0bbcf1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:03 +0000
Subject: [PATCH 61/76] fix: propagate symbols into access nodes only if the
 types agree

---
 sdfg/src/passes/symbolic/symbol_propagation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index d6a90c5..bf18d93 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -355,6 +355,10 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                             sdfg.type(new_symbol->get_name()).type_id() == types::TypeID::Pointer) {
                             continue;
                         }
+                        // Criterion: The memlets access the symbol with its type
+                        if (!(sdfg.type(new_symbol->get_name()) == type)) {
+                            continue;
+                        }
                         access_node->data(new_symbol->get_name());
                         applied = true;
                         replaced_nodes.insert(access_node);
-- 
2.43.0


From 184ef4c989bbbc76a32368cf481471a008c29b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:07 +0000
Subject: [PATCH 62/76] fix: propagate a symbol only if its definition is not
 changed in an earlier iteration

---
 sdfg/src/passes/symbolic/symbol_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index bf18d93..9c5f8ef 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -216,9 +216,9 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                         return false;
                     }
 
-                    // Criterion: Modification must dominate read
+                    // Criterion: Modification must be between write and read, possibly in an earlier iteration
                     if (dominance_analysis.dominates(*read, *user)) {
-                        return false;
+                        return users.all_uses_between(*write, *read).contains(user);
                     }
 
                     return true;
-- 
2.43.0


From 7fc064ad50060276e6e0e8df6193e85ed05d001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 63/76] fix: do not propagate a symbol whose definition is
 changed by the same transition

---
 sdfg/src/passes/symbolic/symbol_propagation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index 9c5f8ef..ad1c833 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -203,6 +203,13 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                     rhs_symbols.insert(sym->get_name());
                 }
 
+                // Criterion: The transition must not change the RHS' symbols
+                if (std::any_of(transition->assignments().begin(), transition->assignments().end(), [&](auto& assign) {
+                        return rhs_symbols.contains(assign.first->get_name());
+                    })) {
+                    continue;
+                }
+
                 auto rhs_modified = rhs;
 
                 // Find dangerous users between write and read
-- 
2.43.0


From 4e92964d73edb1cd0bd02cb8564bea5dd15c7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 64/76] fix: keep empty loops whose final induction variable is
 read

---
 .../dead_cfg_elimination.h                       |  1 +
 .../dead_cfg_elimination.cpp                     | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h b/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h
index ae45ed2..6fda1f1 100644
--- a/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h
+++ b/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h
@@ -12,6 +12,7 @@ namespace passes {
 class DeadCFGElimination : public Pass {
 private:
     bool permissive_;
+    std::unordered_set<const structured_control_flow::ControlFlowNode*> live_indvars_;
 
     bool is_dead(const structured_control_flow::ControlFlowNode& node);
 
diff --git a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
index 4aa60d7..6b66ab9 100644
--- a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/passes/structured_control_flow/dead_cfg_elimination.h"
 
+#include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/assumptions.h"
@@ -22,8 +23,7 @@ bool DeadCFGElimination::is_dead(const structured_control_flow::ControlFlowNode&
         if (sloop->root().size() != 0) {
             return false;
         }
-        // TODO: Check use of indvar later
-        return permissive_;
+        return permissive_ && live_indvars_.find(sloop) == live_indvars_.end();
     }
 
     return false;
@@ -68,6 +68,18 @@ bool DeadCFGElimination::run_pass(builder::StructuredSDFGBuilder& builder, analy
         return false;
     }
 
+    // Loops may only be removed if the final value of the indvar is not used
+    live_indvars_.clear();
+    if (permissive_) {
+        auto& data_dependency_analysis = analysis_manager.get<analysis::DataDependencyAnalysis>();
+        for (auto* loop : analysis_manager.get<analysis::LoopAnalysis>().loops()) {
+            auto* sloop = dynamic_cast<structured_control_flow::StructuredLoop*>(loop);
+            if (sloop && data_dependency_analysis.is_indvar_read_after(analysis_manager, *sloop)) {
+                live_indvars_.insert(sloop);
+            }
+        }
+    }
+
     std::list<structured_control_flow::ControlFlowNode*> queue = {&sdfg.root()};
     while (!queue.empty()) {
         auto curr = queue.front();
-- 
2.43.0


From 924c0d0ecb2a1a0e8040b4930a46ecdc341fd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:16 +0000
Subject: [PATCH 65/76] fix: keep accesses to aliased storage in order when
 fusing blocks

---
 .../structured_control_flow/block_fusion.h    |  5 +++
 .../structured_control_flow/block_fusion.cpp  | 38 +++++++++++++++----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/sdfg/include/sdfg/passes/structured_control_flow/block_fusion.h b/sdfg/include/sdfg/passes/structured_control_flow/block_fusion.h
index 6693c02..2712e04 100644
--- a/sdfg/include/sdfg/passes/structured_control_flow/block_fusion.h
+++ b/sdfg/include/sdfg/passes/structured_control_flow/block_fusion.h
@@ -8,6 +8,11 @@ namespace passes {
 
 class BlockFusion : public visitor::NonStoppingStructuredSDFGVisitor {
 private:
+    // Containers whose storage a container may refer to
+    std::unordered_map<std::string, std::unordered_set<std::string>> origins_;
+
+    bool may_alias(const std::string& container1, const std::string& container2) const;
+
     bool can_be_applied(
         data_flow::DataFlowGraph& first_graph,
         control_flow::Assignments& first_assignments,
diff --git a/sdfg/src/passes/structured_control_flow/block_fusion.cpp b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
index 2493835..fff9143 100644
--- a/sdfg/src/passes/structured_control_flow/block_fusion.cpp
+++ b/sdfg/src/passes/structured_control_flow/block_fusion.cpp
@@ -3,6 +3,7 @@
 #include <list>
 #include <unordered_set>
 #include <utility>
+#include "sdfg/analysis/users.h"
 #include "sdfg/data_flow/access_node.h"
 #include "sdfg/data_flow/data_flow_node.h"
 
@@ -26,7 +27,29 @@ reachable_nodes(const data_flow::DataFlowGraph& graph, const data_flow::DataFlow
 }
 
 BlockFusion::BlockFusion(builder::StructuredSDFGBuilder& builder, analysis::AnalysisManager& analysis_manager)
-    : visitor::NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {}
+    : visitor::NonStoppingStructuredSDFGVisitor(builder, analysis_manager) {
+    auto& users = analysis_manager.get<analysis::Users>();
+    for (auto& container : builder.subject().containers()) {
+        origins_.insert({container, users.origins(container)});
+    }
+}
+
+bool BlockFusion::may_alias(const std::string& container1, const std::string& container2) const {
+    if (container1 == container2) {
+        return true;
+    }
+    auto entry1 = origins_.find(container1);
+    auto entry2 = origins_.find(container2);
+    if (entry1 == origins_.end() || entry2 == origins_.end()) {
+        return false;
+    }
+    for (auto& origin : entry1->second) {
+        if (entry2->second.contains(origin)) {
+            return true;
+        }
+    }
+    return false;
+}
 
 bool BlockFusion::can_be_applied(
     data_flow::DataFlowGraph& first_graph,
@@ -167,17 +190,18 @@ bool BlockFusion::can_be_applied(
         for (size_t second = 0; second < second_num_components; second++) {
             // Match all access nodes with the same container
             std::vector<std::pair<const data_flow::AccessNode*, const data_flow::AccessNode*>> matches;
+            // Match all access nodes that may access the same storage
+            std::vector<std::pair<const data_flow::AccessNode*, const data_flow::AccessNode*>> conflicts;
             for (auto* first_access_node : first_weakly_connected[first]) {
                 for (auto* second_access_node : second_weakly_connected[second]) {
                     if (first_access_node->data() == second_access_node->data()) {
                         matches.push_back({first_access_node, second_access_node});
                     }
+                    if (may_alias(first_access_node->data(), second_access_node->data())) {
+                        conflicts.push_back({first_access_node, second_access_node});
+                    }
                 }
             }
-            // Skip if there are no matches
-            if (matches.empty()) {
-                continue;
-            }
             // There must be at least one sink in the first graph and one source in the second graph that match
             bool connection = false;
             for (auto [first_access_node, second_access_node] : matches) {
@@ -187,12 +211,12 @@ bool BlockFusion::can_be_applied(
                     break;
                 }
             }
-            if (!connection) {
+            if (!connection && !matches.empty()) {
                 return false;
             }
 
             // All conflicting accesses must remain ordered
-            for (auto [first_access_node, second_access_node] : matches) {
+            for (auto [first_access_node, second_access_node] : conflicts) {
                 bool first_writes = first_graph.in_degree(*first_access_node) > 0;
                 bool second_writes = second_graph.in_degree(*second_access_node) > 0;
                 if (first_writes && !is_ordered(first_access_node, second_access_node)) {
-- 
2.43.0


From 6d397aaa02e6053808a4258aff3531905c1737bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:50 +0000
Subject: [PATCH 66/76] fix: propagate a symbol past an update only if the
 update is executed once

---
 sdfg/include/sdfg/analysis/users.h            |  3 +++
 sdfg/src/analysis/users.cpp                   | 22 +++++++++++++++++++
 .../passes/symbolic/symbol_propagation.cpp    |  6 +++++
 3 files changed, 31 insertions(+)

diff --git a/sdfg/include/sdfg/analysis/users.h b/sdfg/include/sdfg/analysis/users.h
index afc329a..3b3f188 100644
--- a/sdfg/include/sdfg/analysis/users.h
+++ b/sdfg/include/sdfg/analysis/users.h
@@ -215,6 +215,9 @@ public:
 
     const std::unordered_set<User*> all_uses_between(User& user1, User& user2);
 
+    /// @brief Whether user2 may be repeated without passing user1 in between
+    bool is_repeated(User& user1, User& user2);
+
     const std::unordered_set<User*> all_uses_after(User& user);
 
     const std::vector<std::string> all_containers_in_order();
diff --git a/sdfg/src/analysis/users.cpp b/sdfg/src/analysis/users.cpp
index 5b812b7..3b81a50 100644
--- a/sdfg/src/analysis/users.cpp
+++ b/sdfg/src/analysis/users.cpp
@@ -711,6 +711,28 @@ const std::unordered_set<User*> Users::all_uses_between(User& user1, User& user2
     return uses;
 };
 
+bool Users::is_repeated(User& user1, User& user2) {
+    std::unordered_set<User*> visited;
+    std::list<User*> queue = {&user2};
+    while (!queue.empty()) {
+        auto current = queue.front();
+        queue.pop_front();
+
+        auto [eb, ee] = boost::in_edges(current->vertex_, this->graph_);
+        for (auto edge : std::ranges::subrange(eb, ee)) {
+            auto previous = this->users_.at(boost::source(edge, this->graph_)).get();
+            if (previous == &user2) {
+                return true;
+            }
+            if (previous != &user1 && visited.insert(previous).second) {
+                queue.push_back(previous);
+            }
+        }
+    }
+
+    return false;
+};
+
 const std::unordered_set<User*> Users::all_uses_after(User& user) {
     std::unordered_set<User*> uses;
     std::unordered_set<User*> visited;
diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index ad1c833..0055301 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -277,6 +277,12 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
                             break;
                         }
 
+                        // Criterion: Symbol is only modified once
+                        if (users.is_repeated(*write, *user)) {
+                            success = false;
+                            break;
+                        }
+
                         // Criterion: Only transitions
                         if (!dynamic_cast<structured_control_flow::Transition*>(user->element())) {
                             success = false;
-- 
2.43.0


From 3407ead0f4b76820500c49ec53053492e556a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:20 +0000
Subject: [PATCH 67/76] fix: eliminate symbols one after another with current
 users

---
 sdfg/src/passes/symbolic/symbol_evolution.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdfg/src/passes/symbolic/symbol_evolution.cpp b/sdfg/src/passes/symbolic/symbol_evolution.cpp
index 171d328..c936dbe 100644
--- a/sdfg/src/passes/symbolic/symbol_evolution.cpp
+++ b/sdfg/src/passes/symbolic/symbol_evolution.cpp
@@ -150,8 +150,6 @@ bool SymbolEvolution::eliminate_symbols(
         return false;
     }
 
-    bool applied = false;
-
     auto indvar = loop.indvar();
     auto update = loop.update();
     auto init = loop.init();
@@ -302,10 +300,12 @@ bool SymbolEvolution::eliminate_symbols(
         }
         transition.assignments().insert({symbolic::symbol(sym), evolution});
 
-        applied = true;
+        // The users refer to assignments which have been moved
+        analysis_manager.invalidate_all();
+        return true;
     }
 
-    return applied;
+    return false;
 }
 
 SymbolEvolution::SymbolEvolution() : Pass() {}
@@ -326,7 +326,9 @@ bool SymbolEvolution::run_pass(builder::StructuredSDFGBuilder& builder, analysis
             for (size_t i = 0; i < sequence_stmt->size(); i++) {
                 auto child = sequence_stmt->at(i);
                 if (auto match = dynamic_cast<structured_control_flow::StructuredLoop*>(&child.first)) {
-                    applied |= this->eliminate_symbols(builder, analysis_manager, *match, child.second);
+                    while (this->eliminate_symbols(builder, analysis_manager, *match, child.second)) {
+                        applied = true;
+                    }
                 }
             }
             for (size_t i = 0; i < sequence_stmt->size(); i++) {
-- 
2.43.0


From 2356bfe9425b02e2a37b207370059ff6f16423bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 68/76] fix: remove dangling access nodes once per block

---
 sdfg/src/passes/dataflow/reference_propagation.cpp | 7 +++++--
 sdfg/src/passes/symbolic/symbol_propagation.cpp    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sdfg/src/passes/dataflow/reference_propagation.cpp b/sdfg/src/passes/dataflow/reference_propagation.cpp
index cf7431c..5a7bedd 100644
--- a/sdfg/src/passes/dataflow/reference_propagation.cpp
+++ b/sdfg/src/passes/dataflow/reference_propagation.cpp
@@ -320,9 +320,12 @@ bool ReferencePropagation::run_pass(builder::StructuredSDFGBuilder& builder, ana
     for (auto* node : replaced_nodes) {
         builder.merge_siblings(*node);
     }
+    std::unordered_set<structured_control_flow::Block*> replaced_blocks;
     for (auto* node : replaced_nodes) {
-        auto& graph = node->get_parent();
-        auto* block = static_cast<structured_control_flow::Block*>(graph.get_parent());
+        replaced_blocks.insert(static_cast<structured_control_flow::Block*>(node->get_parent().get_parent()));
+    }
+    for (auto* block : replaced_blocks) {
+        auto& graph = block->dataflow();
         for (auto& dnode : graph.data_nodes()) {
             if (graph.in_degree(*dnode) == 0 && graph.out_degree(*dnode) == 0) {
                 builder.remove_node(*block, *dnode);
diff --git a/sdfg/src/passes/symbolic/symbol_propagation.cpp b/sdfg/src/passes/symbolic/symbol_propagation.cpp
index 0055301..628e374 100644
--- a/sdfg/src/passes/symbolic/symbol_propagation.cpp
+++ b/sdfg/src/passes/symbolic/symbol_propagation.cpp
@@ -460,9 +460,12 @@ bool SymbolPropagation::run_pass(builder::StructuredSDFGBuilder& builder, analys
     for (auto* node : replaced_nodes) {
         builder.merge_siblings(*node);
     }
+    std::unordered_set<structured_control_flow::Block*> replaced_blocks;
     for (auto* node : replaced_nodes) {
-        auto& graph = node->get_parent();
-        auto* block = static_cast<structured_control_flow::Block*>(graph.get_parent());
+        replaced_blocks.insert(static_cast<structured_control_flow::Block*>(node->get_parent().get_parent()));
+    }
+    for (auto* block : replaced_blocks) {
+        auto& graph = block->dataflow();
         for (auto& dnode : graph.data_nodes()) {
             if (graph.in_degree(*dnode) == 0 && graph.out_degree(*dnode) == 0) {
                 builder.remove_node(*block, *dnode);
-- 
2.43.0


From 5ec93d87a5468b0937f04bd0a6d75b99dd52efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 69/76] fix: do not visit access nodes that tasklet fusion
 removed

---
 sdfg/src/passes/dataflow/tasklet_fusion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdfg/src/passes/dataflow/tasklet_fusion.cpp b/sdfg/src/passes/dataflow/tasklet_fusion.cpp
index 8c89aef..e4d5f61 100644
--- a/sdfg/src/passes/dataflow/tasklet_fusion.cpp
+++ b/sdfg/src/passes/dataflow/tasklet_fusion.cpp
@@ -40,7 +40,13 @@ bool TaskletFusion::accept(structured_control_flow::Block& block) {
     auto& dfg = block.dataflow();
 
     // Fuse "input" assignments:
+    std::unordered_set<data_flow::AccessNode*> removed_nodes;
     for (auto* access_node : dfg.data_nodes()) {
+        // Skip nodes that were removed for a previous access node
+        if (removed_nodes.contains(access_node)) {
+            continue;
+        }
+
         // Require exactly one in edge and at leat one out edge
         if (dfg.in_degree(*access_node) != 1 || dfg.out_degree(*access_node) == 0) {
             continue;
@@ -119,6 +125,7 @@ bool TaskletFusion::accept(structured_control_flow::Block& block) {
                         );
                     if (dfg.in_degree(*other_access_node) == 0 && dfg.out_degree(*other_access_node) == 0) {
                         this->builder_.remove_node(block, *other_access_node);
+                        removed_nodes.insert(other_access_node);
                     }
                 }
             }
-- 
2.43.0


From 61a9509c04574e246fa2979606050857fcd783a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:14 +0000
Subject: [PATCH 70/76] fix: keep maps of one iteration that access their
 induction variable in the dataflow

---
 .../dead_cfg_elimination.h                    |  1 +
 .../dead_cfg_elimination.cpp                  | 21 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h b/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h
index 6fda1f1..4309c20 100644
--- a/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h
+++ b/sdfg/include/sdfg/passes/structured_control_flow/dead_cfg_elimination.h
@@ -13,6 +13,7 @@ class DeadCFGElimination : public Pass {
 private:
     bool permissive_;
     std::unordered_set<const structured_control_flow::ControlFlowNode*> live_indvars_;
+    std::unordered_set<const structured_control_flow::ControlFlowNode*> dataflow_indvars_;
 
     bool is_dead(const structured_control_flow::ControlFlowNode& node);
 
diff --git a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
index 6b66ab9..97c7641 100644
--- a/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/dead_cfg_elimination.cpp
@@ -2,6 +2,7 @@
 
 #include "sdfg/analysis/data_dependency_analysis.h"
 #include "sdfg/analysis/loop_analysis.h"
+#include "sdfg/analysis/users.h"
 #include "sdfg/structured_control_flow/structured_loop.h"
 #include "sdfg/symbolic/assumptions.h"
 #include "sdfg/symbolic/conjunctive_normal_form.h"
@@ -30,6 +31,11 @@ bool DeadCFGElimination::is_dead(const structured_control_flow::ControlFlowNode&
 };
 
 bool DeadCFGElimination::is_trivial(structured_control_flow::Map* loop) {
+    // The initial value cannot replace an access node
+    if (dataflow_indvars_.find(loop) != dataflow_indvars_.end()) {
+        return false;
+    }
+
     // Check if stride is 1
     if (!analysis::LoopAnalysis::is_contiguous(loop, symbolic::Assumptions())) {
         return false;
@@ -80,6 +86,21 @@ bool DeadCFGElimination::run_pass(builder::StructuredSDFGBuilder& builder, analy
         }
     }
 
+    // Maps whose indvar is accessed in the dataflow of the body
+    dataflow_indvars_.clear();
+    auto& users = analysis_manager.get<analysis::Users>();
+    for (auto* loop : analysis_manager.get<analysis::LoopAnalysis>().loops()) {
+        if (auto* map = dynamic_cast<structured_control_flow::Map*>(loop)) {
+            analysis::UsersView body_users(users, map->root());
+            for (auto* use : body_users.uses(map->indvar()->get_name())) {
+                if (dynamic_cast<data_flow::AccessNode*>(use->element())) {
+                    dataflow_indvars_.insert(map);
+                    break;
+                }
+            }
+        }
+    }
+
     std::list<structured_control_flow::ControlFlowNode*> queue = {&sdfg.root()};
     while (!queue.empty()) {
         auto curr = queue.front();
-- 
2.43.0


From dd792d3b804318d9076d7ddf1c0f3302c7639dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:14 +0000
Subject: [PATCH 71/76] fix: repeat a common assignment after the branches only
 if it is executed and has the same value there

---
 .../common_assignment_elimination.cpp          | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
index 500a2f1..483c1e7 100644
--- a/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
+++ b/sdfg/src/passes/structured_control_flow/common_assignment_elimination.cpp
@@ -38,6 +38,10 @@ bool CommonAssignmentElimination::
                     if (last_transition.assignments().size() == 0) {
                         continue;
                     }
+                    // Criterion: One of the branches is always taken
+                    if (!if_else_stmt->is_complete()) {
+                        continue;
+                    }
 
                     // Check waw dependencies
                     for (auto& entry : last_transition.assignments()) {
@@ -47,8 +51,14 @@ bool CommonAssignmentElimination::
                             continue;
                         }
 
-                        // Check if all branches end with same assignment
+                        // Check if all branches end with same assignment, whose value is the same after them
                         bool all_branches_same = true;
+                        for (auto& atom : symbolic::atoms(first_assignment)) {
+                            if (last_transition.assignments().find(atom) != last_transition.assignments().end()) {
+                                all_branches_same = false;
+                                break;
+                            }
+                        }
                         for (size_t j = 1; j < if_else_stmt->size(); j++) {
                             auto& branch = if_else_stmt->at(j).first;
                             if (branch.size() == 0) {
@@ -65,6 +75,12 @@ bool CommonAssignmentElimination::
                                 all_branches_same = false;
                                 break;
                             }
+                            for (auto& atom : symbolic::atoms(first_assignment)) {
+                                if (transition.assignments().find(atom) != transition.assignments().end()) {
+                                    all_branches_same = false;
+                                    break;
+                                }
+                            }
                         }
 
                         if (!all_branches_same) {
-- 
2.43.0


From b681ef049e90ffec15f1667c7af83e8fadc71a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 72/76] fix: generate ordered comparisons that are false for
 NaN (fp_one, fp_ord); numpy's != is unordered

---
 python/docc/python/functions/numpy.py                        | 2 +-
 .../src/codegen/language_extensions/c_language_extension.cpp | 5 +++--
 .../codegen/language_extensions/cpp_language_extension.cpp   | 5 +++--
 .../codegen/language_extensions/cuda_language_extension.cpp  | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index c6ef2bc..103aeb3 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -1326,7 +1326,7 @@ class NumPyHandler:
                 "<": TaskletCode.fp_olt,
                 "<=": TaskletCode.fp_ole,
                 "==": TaskletCode.fp_oeq,
-                "!=": TaskletCode.fp_one,
+                "!=": TaskletCode.fp_une,
             }
 
         if op not in cmp_ops:
diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..f021bf2 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -212,7 +212,8 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")" + " && " +
+                   tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -222,7 +223,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..5fd8913 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -206,7 +206,8 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")" + " && " +
+                   tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -216,7 +217,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..b9012fa 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -222,7 +222,8 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")" + " && " +
+                   tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -232,7 +233,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From 57fa994599f9f96f72db9c76726e6ec5341b68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:38 +0000
Subject: [PATCH 73/76] fix: read the names of mathematical constants in
 expressions as containers

SymEngine's parser reads e, E, I, pi, oo etc. as constants, so an index or
bound held in a container with such a name was lost when a program was
cloned or read from JSON.
---
 sdfg/src/symbolic/symbolic.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/symbolic/symbolic.cpp b/sdfg/src/symbolic/symbolic.cpp
index c6675d9..6b7d57f 100644
--- a/sdfg/src/symbolic/symbolic.cpp
+++ b/sdfg/src/symbolic/symbolic.cpp
@@ -1,5 +1,6 @@
 #include "sdfg/symbolic/symbolic.h"
 
+#include <map>
 #include <string>
 
 #include <symengine/parser.h>
@@ -336,7 +337,16 @@ Condition subs(const Condition expr, const Expression old_expr, const Expression
 };
 
 Expression parse(const std::string& expr_str) {
-    auto expr = SymEngine::parse(expr_str);
+    // Containers may have the names that SymEngine's parser reads as mathematical constants
+    static const auto names = []() {
+        std::map<const std::string, const SymEngine::RCP<const SymEngine::Basic>> names;
+        for (auto name :
+             {"e", "E", "I", "pi", "oo", "inf", "zoo", "nan", "EulerGamma", "Catalan", "GoldenRatio"}) {
+            names.insert({name, SymEngine::symbol(name)});
+        }
+        return names;
+    }();
+    auto expr = SymEngine::parse(expr_str, true, names);
     expr = symbolic::subs(expr, symbolic::symbol("true"), symbolic::one());
     expr = symbolic::subs(expr, symbolic::symbol("false"), symbolic::zero());
     return expr;
-- 
2.43.0


From 90772b30dc4aef0ad9591891df1eb2db7a0c470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:38 +0000
Subject: [PATCH 74/76] fix: do not add _unwind again to the outputs of a
 copied invoke node

---
 sdfg/src/data_flow/library_nodes/invoke_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/invoke_node.cpp b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
index 969510e..0d85c44 100644
--- a/sdfg/src/data_flow/library_nodes/invoke_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
@@ -24,7 +24,9 @@ InvokeNode::InvokeNode(
           data_flow::ImplementationType_NONE
       ),
       callee_name_(callee_name) {
-    this->outputs_.push_back("_unwind"); // Add unwind output
+    if (this->outputs_.empty() || this->outputs_.back() != "_unwind") {
+        this->outputs_.push_back("_unwind"); // Add unwind output
+    }
 }
 
 const std::string& InvokeNode::callee_name() const { return this->callee_name_; }
-- 
2.43.0


From af9858c7fc93cfd260ca465c5692e85e0bd7b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:38 +0000
Subject: [PATCH 75/76] fix: register the serializer of cast nodes

---
 sdfg/src/serializer/json_serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/serializer/json_serializer.cpp b/sdfg/src/serializer/json_serializer.cpp
index d6614b2..eb1ef12 100644
--- a/sdfg/src/serializer/json_serializer.cpp
+++ b/sdfg/src/serializer/json_serializer.cpp
@@ -1443,6 +1443,10 @@ void register_default_serializers() {
         .register_library_node_serializer(math::tensor::LibraryNodeType_Fill.value(), []() {
             return std::make_unique<math::tensor::FillNodeSerializer>();
         });
+    LibraryNodeSerializerRegistry::instance()
+        .register_library_node_serializer(math::tensor::LibraryNodeType_Cast.value(), []() {
+            return std::make_unique<math::tensor::CastNodeSerializer>();
+        });
     LibraryNodeSerializerRegistry::instance()
         .register_library_node_serializer(math::tensor::LibraryNodeType_TensorTasklet.value(), []() {
             return std::make_unique<math::tensor::TaskletTensorNodeSerializer>();
-- 
2.43.0


From 789a3869c21123f39763d597cad226ee45f93605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:38 +0000
Subject: [PATCH 76/76] fix: keep the debug info of a barrier read from JSON

---
 sdfg/src/data_flow/library_nodes/barrier_local_node.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
index b2d590f..5e08cf1 100644
--- a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
@@ -47,7 +47,12 @@ data_flow::LibraryNode& BarrierLocalNodeSerializer::deserialize(
     if (code != data_flow::LibraryNodeType_BarrierLocal.value()) {
         throw std::runtime_error("Invalid library node code");
     }
-    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, DebugInfo());
+    DebugInfo debug_info;
+    if (j.contains("debug_info")) {
+        sdfg::serializer::JSONSerializer serializer;
+        debug_info = serializer.json_to_debug_info(j["debug_info"]);
+    }
+    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, debug_info);
 };
 
 BarrierLocalNodeDispatcher::BarrierLocalNodeDispatcher(
-- 
2.43.0

