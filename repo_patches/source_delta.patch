From 9b03fc9b6eee6fa16a45db1c80476820a27ce625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 01/16] fix: throw on malformed, truncated or unreadable input
 instead of looping, aborting or accepting it

---
 src/io_utils.cpp                 |  9 ++++++
 src/io_utils.h                   |  3 ++
 src/load_msh.cpp                 | 14 ++++++----
 src/load_msh_curves.cpp          |  6 ++++
 src/load_msh_data.cpp            | 18 ++++++++++--
 src/load_msh_elements.cpp        | 17 ++++++++---
 src/load_msh_entities.cpp        | 48 ++++++++++++++++++++------------
 src/load_msh_format.cpp          |  3 ++
 src/load_msh_nanospline_format.h |  3 ++
 src/load_msh_nodes.cpp           | 26 ++++++++---------
 src/load_msh_patches.cpp         |  6 ++++
 src/load_msh_physical_groups.cpp |  5 +++-
 12 files changed, 115 insertions(+), 43 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 56ef54a..d2a1cd3 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -1,5 +1,7 @@
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 #include <istream>
 
 namespace mshio {
@@ -18,5 +20,12 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+void check_stream(const std::istream& in)
+{
+    if (in.fail()) {
+        throw InvalidFormat("Malformed or truncated MSH file, or the input cannot be read!");
+    }
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index a8255cb..c253f46 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -7,5 +7,8 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+// Throws InvalidFormat if an earlier read from the stream has failed.
+void check_stream(const std::istream& in);
+
 } // namespace mshio
 
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..dd7a8ee 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,5 +1,7 @@
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
+#include "io_utils.h"
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
 #include "load_msh_elements.h"
@@ -21,8 +23,9 @@ namespace mshio {
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (!in.eof() && buf != flag) {
+    while (buf != flag) {
         in >> buf;
+        check_stream(in);
     }
 }
 
@@ -31,10 +34,8 @@ MshSpec load_msh(std::istream& in)
     MshSpec spec;
     std::string buf, end_str;
 
-    while (!in.eof()) {
-        buf.clear();
-        in >> buf;
-        if (buf.size() == 0 || buf[0] != '$') continue;
+    while (in >> buf) {
+        if (buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
         if (buf == "$MeshFormat") {
             load_mesh_format(in, spec);
@@ -63,6 +64,9 @@ MshSpec load_msh(std::istream& in)
         }
         forward_to(in, end_str);
     }
+    if (in.bad()) {
+        throw InvalidFormat("Reading the MSH file failed!");
+    }
 
     load_msh_post_process(spec);
     return spec;
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..fb4df0a 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -11,6 +11,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
     auto& curves = spec.curves;
     size_t num_curves;
     in >> num_curves;
+    check_stream(in);
 
     curves.resize(num_curves);
     for (size_t i = 0; i < num_curves; i++) {
@@ -21,12 +22,14 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_stream(in);
 
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
         curve.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
             in >> curve.data[j];
+            check_stream(in);
         }
     }
 #endif
@@ -38,6 +41,7 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
     auto& curves = spec.curves;
     size_t num_curves;
     in >> num_curves;
+    check_stream(in);
 
     curves.resize(num_curves);
     for (size_t i = 0; i < num_curves; i++) {
@@ -48,12 +52,14 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.num_control_points;
         in >> curve.num_knots;
         in >> curve.with_weights;
+        check_stream(in);
 
         eat_white_space(in, 1);
         size_t num_entries =
             curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
         curve.data.resize(num_entries);
         in.read(reinterpret_cast<char*>(curve.data.data()), sizeof(double) * num_entries);
+        check_stream(in);
     }
 #endif
 }
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..a20fb89 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -18,23 +18,28 @@ void load_data_header(std::istream& in, DataHeader& header)
     size_t num_string_tags, num_real_tags, num_int_tags;
 
     in >> num_string_tags;
+    check_stream(in);
     header.string_tags.resize(num_string_tags);
     for (size_t i = 0; i < num_string_tags; i++) {
         in >> std::quoted(header.string_tags[i]);
+        check_stream(in);
     }
 
     in >> num_real_tags;
+    check_stream(in);
     header.real_tags.resize(num_real_tags);
     for (size_t i = 0; i < num_real_tags; i++) {
         in >> header.real_tags[i];
+        check_stream(in);
     }
 
     in >> num_int_tags;
+    check_stream(in);
     header.int_tags.resize(num_int_tags);
     for (size_t i = 0; i < num_int_tags; i++) {
         in >> header.int_tags[i];
+        check_stream(in);
     }
-    assert(in.good());
 }
 
 namespace v41 {
@@ -47,16 +52,19 @@ void load_data_entry(
     // report a bug?
     int32_t tag_32;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
+    check_stream(in);
     entry.tag = static_cast<size_t>(tag_32);
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
+        check_stream(in);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
     }
     in.read(reinterpret_cast<char*>(entry.data.data()),
         static_cast<std::streamsize>(sizeof(double) * entry.data.size()));
+    check_stream(in);
 }
 } // namespace v41
 
@@ -66,10 +74,12 @@ void load_data_entry(
 {
     int32_t tag_32;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
+    check_stream(in);
     entry.tag = static_cast<size_t>(tag_32);
     if (is_element_node_data) {
         int32_t num_nodes_per_element;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
+        check_stream(in);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
@@ -77,6 +87,7 @@ void load_data_entry(
     }
     in.read(reinterpret_cast<char*>(entry.data.data()),
         static_cast<std::streamsize>(sizeof(double) * entry.data.size()));
+    check_stream(in);
 }
 } // namespace v22
 
@@ -115,21 +126,24 @@ void load_data(std::istream& in,
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
+                check_stream(in);
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
                         in >> entry.data[j * fields_per_entry + k];
+                        check_stream(in);
                     }
                 }
             } else {
                 entry.data.resize(fields_per_entry);
                 for (size_t j = 0; j < fields_per_entry; j++) {
                     in >> entry.data[j];
+                    check_stream(in);
                 }
             }
+            check_stream(in);
         }
     }
-    assert(in.good());
 }
 
 } // namespace internal
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..f4fba67 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -27,7 +27,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     in >> elements.num_elements;
     in >> elements.min_element_tag;
     in >> elements.max_element_tag;
-    assert(in.good());
+    check_stream(in);
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -37,6 +37,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.element_type;
         in >> block.num_elements_in_block;
+        check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
         block.data.resize(block.num_elements_in_block * (n + 1));
@@ -44,8 +45,8 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
             for (size_t k = 0; k <= n; k++) {
                 in >> block.data[j * (n + 1) + k];
             }
+            check_stream(in);
         }
-        assert(in.good());
     }
 }
 
@@ -57,7 +58,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&elements.num_elements), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.min_element_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.max_element_tag), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
 
     elements.entity_blocks.resize(elements.num_entity_blocks);
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
@@ -67,12 +68,13 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.element_type), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
+        check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
-        assert(in.good());
+        check_stream(in);
     }
 }
 } // namespace v41
@@ -99,6 +101,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     Elements& elements = spec.elements;
     size_t num_elements;
     in >> num_elements;
+    check_stream(in);
 
     // Due to v2.2 constraints, each element is parsed as a separate block, and
     // a regrouping will happen at post-processing time.
@@ -116,9 +119,11 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> element_num;
         in >> element_type;
         in >> num_tags;
+        check_stream(in);
         tags.resize(static_cast<size_t>(num_tags));
         for (int j = 0; j < num_tags; j++) {
             in >> tags[static_cast<size_t>(j)];
+            check_stream(in);
         }
 
         const size_t n = nodes_per_element(element_type);
@@ -126,6 +131,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         for (size_t j = 0; j < n; j++) {
             in >> node_ids[j];
         }
+        check_stream(in);
 
         elements.min_element_tag =
             std::min(elements.min_element_tag, static_cast<size_t>(element_num));
@@ -173,6 +179,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
     in >> elements.num_elements;
+    check_stream(in);
     elements.entity_blocks.reserve(elements.num_elements);
     eat_white_space(in, 1);
 
@@ -187,6 +194,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
         in.read(reinterpret_cast<char*>(&num_tags), 4);
+        check_stream(in);
 
         tags.resize(static_cast<size_t>(num_tags));
 
@@ -199,6 +207,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             in.read(reinterpret_cast<char*>(&element_id), 4);
             in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
+            check_stream(in);
 
             min_tag = std::min(min_tag, element_id);
             max_tag = std::max(max_tag, element_id);
diff --git a/src/load_msh_entities.cpp b/src/load_msh_entities.cpp
index 83f0cc1..3db5ec4 100644
--- a/src/load_msh_entities.cpp
+++ b/src/load_msh_entities.cpp
@@ -17,7 +17,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
     in >> num_curves;
     in >> num_surfaces;
     in >> num_volumes;
-    assert(in.good());
+    check_stream(in);
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -33,9 +33,11 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> point.z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         point.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> point.physical_group_tags[j];
+            check_stream(in);
         }
     }
 
@@ -50,15 +52,19 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> curve.max_z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         curve.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> curve.physical_group_tags[j];
+            check_stream(in);
         }
         size_t num_boundary_points;
         in >> num_boundary_points;
+        check_stream(in);
         curve.boundary_point_tags.resize(num_boundary_points);
         for (size_t j = 0; j < num_boundary_points; j++) {
             in >> curve.boundary_point_tags[j];
+            check_stream(in);
         }
     }
 
@@ -73,15 +79,19 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> surface.max_z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         surface.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> surface.physical_group_tags[j];
+            check_stream(in);
         }
         size_t num_boundary_curves;
         in >> num_boundary_curves;
+        check_stream(in);
         surface.boundary_curve_tags.resize(num_boundary_curves);
         for (size_t j = 0; j < num_boundary_curves; j++) {
             in >> surface.boundary_curve_tags[j];
+            check_stream(in);
         }
     }
 
@@ -96,19 +106,21 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> volume.max_z;
         size_t num_physical_groups;
         in >> num_physical_groups;
+        check_stream(in);
         volume.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> volume.physical_group_tags[j];
+            check_stream(in);
         }
         size_t num_boundary_surfaces;
         in >> num_boundary_surfaces;
+        check_stream(in);
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         for (size_t j = 0; j < num_boundary_surfaces; j++) {
             in >> volume.boundary_surface_tags[j];
+            check_stream(in);
         }
     }
-
-    assert(in.good());
 }
 
 void load_entities_binary(std::istream& in, MshSpec& spec)
@@ -119,7 +131,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&num_curves), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_surfaces), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_volumes), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
 
     Entities& entities = spec.entities;
     entities.points.resize(num_points);
@@ -135,12 +147,12 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&point.z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         point.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(point.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_curves; i++) {
@@ -154,21 +166,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&curve.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         curve.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(curve.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
         size_t num_boundary_points;
         in.read(reinterpret_cast<char*>(&num_boundary_points), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         curve.boundary_point_tags.resize(num_boundary_points);
         in.read(reinterpret_cast<char*>(curve.boundary_point_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_points));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_surfaces; i++) {
@@ -182,21 +194,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&surface.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         surface.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(surface.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
         size_t num_boundary_curves;
         in.read(reinterpret_cast<char*>(&num_boundary_curves), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         surface.boundary_curve_tags.resize(num_boundary_curves);
         in.read(reinterpret_cast<char*>(surface.boundary_curve_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_curves));
-        assert(in.good());
+        check_stream(in);
     }
 
     for (size_t i = 0; i < num_volumes; i++) {
@@ -210,21 +222,21 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&volume.max_z), sizeof(double));
         size_t num_physical_groups;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         volume.physical_group_tags.resize(num_physical_groups);
         in.read(reinterpret_cast<char*>(volume.physical_group_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
-        assert(in.good());
+        check_stream(in);
 
         size_t num_boundary_surfaces;
         in.read(reinterpret_cast<char*>(&num_boundary_surfaces), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         in.read(reinterpret_cast<char*>(volume.boundary_surface_tags.data()),
             static_cast<std::streamsize>(sizeof(int) * num_boundary_surfaces));
-        assert(in.good());
+        check_stream(in);
     }
 }
 
diff --git a/src/load_msh_format.cpp b/src/load_msh_format.cpp
index 6288d0c..cf55f0b 100644
--- a/src/load_msh_format.cpp
+++ b/src/load_msh_format.cpp
@@ -15,6 +15,7 @@ void load_mesh_format(std::istream& in, MshSpec& spec)
 {
     MeshFormat& format = spec.mesh_format;
     in >> format.version;
+    check_stream(in);
 
     if (format.version != "2.2" && format.version != "4.1") {
         std::stringstream msg;
@@ -24,6 +25,7 @@ void load_mesh_format(std::istream& in, MshSpec& spec)
 
     in >> format.file_type;
     in >> format.data_size;
+    check_stream(in);
 
     if (format.version == "4.1" && sizeof(size_t) != format.data_size) {
         std::stringstream msg;
@@ -36,6 +38,7 @@ void load_mesh_format(std::istream& in, MshSpec& spec)
         int one = 0;
         eat_white_space(in);
         in.read(reinterpret_cast<char*>(&one), sizeof(int));
+        check_stream(in);
         if (one != 1) {
             throw UnsupportedFeature(
                 "MSH file (v" + format.version + ") is encoded with unsupported endianness!");
diff --git a/src/load_msh_nanospline_format.h b/src/load_msh_nanospline_format.h
index 2ad4131..e70f1cd 100644
--- a/src/load_msh_nanospline_format.h
+++ b/src/load_msh_nanospline_format.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "io_utils.h"
+
 #include <mshio/MshSpec.h>
 
 #include <istream>
@@ -10,6 +12,7 @@ namespace mshio
 inline void load_nanospline_format(std::istream& in, MshSpec& spec)
 {
     in >> spec.nanospline_format.version;
+    check_stream(in);
 }
 
 }
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index f6c4627..d4f2e33 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -21,7 +21,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     in >> nodes.num_nodes;
     in >> nodes.min_node_tag;
     in >> nodes.max_node_tag;
-    assert(in.good());
+    check_stream(in);
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -29,13 +29,13 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.entity_tag;
         in >> block.parametric;
         in >> block.num_nodes_in_block;
-        assert(in.good());
+        check_stream(in);
 
         block.tags.resize(block.num_nodes_in_block);
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             in >> block.tags[j];
+            check_stream(in);
         }
-        assert(in.good());
 
         assert(block.parametric >= 0 && block.parametric <= 3);
         const size_t entries_per_node =
@@ -45,8 +45,8 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
             for (size_t k = 0; k < entries_per_node; k++) {
                 in >> block.data[j * entries_per_node + k];
             }
+            check_stream(in);
         }
-        assert(in.good());
     }
 }
 
@@ -58,7 +58,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&nodes.num_nodes), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.min_node_tag), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.max_node_tag), sizeof(size_t));
-    assert(in.good());
+    check_stream(in);
     nodes.entity_blocks.resize(nodes.num_entity_blocks);
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         NodeBlock& block = nodes.entity_blocks[i];
@@ -66,12 +66,12 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.entity_tag), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.parametric), sizeof(int));
         in.read(reinterpret_cast<char*>(&block.num_nodes_in_block), sizeof(size_t));
-        assert(in.good());
+        check_stream(in);
 
         block.tags.resize(block.num_nodes_in_block);
         in.read(reinterpret_cast<char*>(block.tags.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
-        assert(in.good());
+        check_stream(in);
 
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
@@ -79,7 +79,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
-        assert(in.good());
+        check_stream(in);
     }
 }
 
@@ -98,7 +98,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    check_stream(in);
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
@@ -108,7 +108,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         in >> block.data[i * 3];
         in >> block.data[i * 3 + 1];
         in >> block.data[i * 3 + 2];
-        assert(in.good());
+        check_stream(in);
     }
 
     if (block.num_nodes_in_block > 0) {
@@ -130,18 +130,18 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     block.entity_tag = 0; // Same as above.
     block.parametric = 0;
     in >> block.num_nodes_in_block;
-    assert(in.good());
+    check_stream(in);
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
     block.data.resize(block.num_nodes_in_block * 3);
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-        assert(in.good());
-        int tag;
+        int tag = 0;
         in.read(reinterpret_cast<char*>(&tag), sizeof(int));
         block.tags[i] = static_cast<size_t>(tag);
         in.read(reinterpret_cast<char*>(block.data.data() + i * 3), sizeof(double) * 3);
+        check_stream(in);
     }
 
     if (block.num_nodes_in_block > 0) {
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..3d5424f 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -11,6 +11,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
     auto& patches = spec.patches;
     size_t num_patches;
     in >> num_patches;
+    check_stream(in);
     patches.resize(num_patches);
 
     for (size_t i = 0; i < num_patches; i++) {
@@ -23,6 +24,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -31,6 +33,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         patch.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
             in >> patch.data[j];
+            check_stream(in);
         }
     }
 #endif
@@ -42,6 +45,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
     auto& patches = spec.patches;
     size_t num_patches;
     in >> num_patches;
+    check_stream(in);
     patches.resize(num_patches);
 
     for (size_t i = 0; i < num_patches; i++) {
@@ -54,6 +58,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.num_u_knots;
         in >> patch.num_v_knots;
         in >> patch.with_weights;
+        check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
         const size_t num_entries =
@@ -63,6 +68,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         eat_white_space(in, 1);
 
         in.read(reinterpret_cast<char*>(patch.data.data()), sizeof(double) * num_entries);
+        check_stream(in);
     }
 #endif
 }
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index c857d4a..4c39792 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -1,5 +1,7 @@
 #include "load_msh_physical_groups.h"
 
+#include "io_utils.h"
+
 #include <mshio/MshSpec.h>
 
 #include <cassert>
@@ -14,14 +16,15 @@ void load_physical_groups(std::istream& in, MshSpec& spec)
     auto& groups = spec.physical_groups;
     int num_groups;
     in >> num_groups;
+    check_stream(in);
     spec.physical_groups.resize(num_groups);
     for (int i = 0; i < num_groups; i++) {
         auto& group = groups[i];
         in >> group.dim;
         in >> group.tag;
         in >> std::quoted(group.name);
+        check_stream(in);
     }
-    assert(in.good());
 }
 
 } // namespace mshio
-- 
2.43.0


From b323910bcac65927a71e03a70752fbd49445d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 02/16] fix: reject counts and dimensions in a file that
 overflow or are negative instead of reading out of bounds

---
 src/io_utils.cpp          |  9 +++++++++
 src/io_utils.h            |  3 +++
 src/load_msh_curves.cpp   |  8 ++++----
 src/load_msh_data.cpp     | 25 +++++++++++++++++--------
 src/load_msh_elements.cpp |  7 ++++---
 src/load_msh_nodes.cpp    | 29 ++++++++++++++++++++---------
 src/load_msh_patches.cpp  |  8 ++++----
 7 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index d2a1cd3..97d5458 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -27,5 +27,14 @@ void check_stream(const std::istream& in)
     }
 }
 
+size_t checked_size(size_t a, size_t b, size_t c)
+{
+    constexpr size_t max_size = std::numeric_limits<size_t>::max();
+    if (b != 0 && a > (max_size - c) / b) {
+        throw InvalidFormat("Invalid count in MSH file!");
+    }
+    return a * b + c;
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index c253f46..30d46dd 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -10,5 +10,8 @@ void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t
 // Throws InvalidFormat if an earlier read from the stream has failed.
 void check_stream(const std::istream& in);
 
+// Returns a * b + c, the size of an array; throws InvalidFormat if it does not fit in a size_t.
+size_t checked_size(size_t a, size_t b, size_t c = 0);
+
 } // namespace mshio
 
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index fb4df0a..ba2fb79 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -24,8 +24,8 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.with_weights;
         check_stream(in);
 
-        size_t num_entries =
-            curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
+        size_t num_entries = checked_size(
+            curve.num_control_points, (curve.with_weights > 0) ? 4 : 3, curve.num_knots);
         curve.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
             in >> curve.data[j];
@@ -55,8 +55,8 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         eat_white_space(in, 1);
-        size_t num_entries =
-            curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
+        size_t num_entries = checked_size(
+            curve.num_control_points, (curve.with_weights > 0) ? 4 : 3, curve.num_knots);
         curve.data.resize(num_entries);
         in.read(reinterpret_cast<char*>(curve.data.data()), sizeof(double) * num_entries);
         check_stream(in);
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index a20fb89..16ad5c6 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -13,6 +13,14 @@ namespace mshio {
 
 namespace internal {
 
+size_t get_entry_size(const DataEntry& entry, size_t fields_per_entry)
+{
+    if (entry.num_nodes_per_element < 0) {
+        throw InvalidFormat("Negative number of nodes per element in data.");
+    }
+    return checked_size(fields_per_entry, static_cast<size_t>(entry.num_nodes_per_element));
+}
+
 void load_data_header(std::istream& in, DataHeader& header)
 {
     size_t num_string_tags, num_real_tags, num_int_tags;
@@ -58,7 +66,7 @@ void load_data_entry(
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
         check_stream(in);
-        entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
+        entry.data.resize(get_entry_size(entry, fields_per_entry));
     } else {
         entry.data.resize(fields_per_entry);
     }
@@ -81,7 +89,7 @@ void load_data_entry(
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         check_stream(in);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
-        entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
+        entry.data.resize(get_entry_size(entry, fields_per_entry));
     } else {
         entry.data.resize(fields_per_entry);
     }
@@ -102,6 +110,9 @@ void load_data(std::istream& in,
     if (data.header.int_tags.size() < 3) {
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
+    if (data.header.int_tags[1] < 0 || data.header.int_tags[2] < 0) {
+        throw InvalidFormat("Negative number of fields or entries in data.");
+    }
 
     size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
     size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
@@ -127,12 +138,10 @@ void load_data(std::istream& in,
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
                 check_stream(in);
-                entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
-                for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
-                    for (size_t k = 0; k < fields_per_entry; k++) {
-                        in >> entry.data[j * fields_per_entry + k];
-                        check_stream(in);
-                    }
+                entry.data.resize(get_entry_size(entry, fields_per_entry));
+                for (size_t j = 0; j < entry.data.size(); j++) {
+                    in >> entry.data[j];
+                    check_stream(in);
                 }
             } else {
                 entry.data.resize(fields_per_entry);
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index f4fba67..d4bd60f 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -40,7 +40,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
-        block.data.resize(block.num_elements_in_block * (n + 1));
+        block.data.resize(checked_size(block.num_elements_in_block, n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
                 in >> block.data[j * (n + 1) + k];
@@ -71,7 +71,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t n = nodes_per_element(block.element_type);
-        block.data.resize(block.num_elements_in_block * (n + 1));
+        block.data.resize(checked_size(block.num_elements_in_block, n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
         check_stream(in);
@@ -205,7 +205,8 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         // a regrouping will happen at post-processing time.
         for (size_t i = 0; i < num_elements_in_block; i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()),
+                static_cast<std::streamsize>(4 * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
             check_stream(in);
 
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index d4f2e33..9f14a30 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -14,6 +14,20 @@
 namespace mshio {
 namespace v41 {
 
+namespace {
+size_t get_entries_per_node(const NodeBlock& block)
+{
+    if (block.parametric < 0 || block.parametric > 3) {
+        throw InvalidFormat("Invalid parametric flag in node block.");
+    }
+    if (block.parametric != 1) return 3;
+    if (block.entity_dim < 0 || block.entity_dim > 3) {
+        throw InvalidFormat("Invalid entity dimension in node block.");
+    }
+    return static_cast<size_t>(3 + block.entity_dim);
+}
+} // namespace
+
 void load_nodes_ascii(std::istream& in, MshSpec& spec)
 {
     Nodes& nodes = spec.nodes;
@@ -37,10 +51,8 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
             check_stream(in);
         }
 
-        assert(block.parametric >= 0 && block.parametric <= 3);
-        const size_t entries_per_node =
-            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
-        block.data.resize(block.num_nodes_in_block * entries_per_node);
+        const size_t entries_per_node = get_entries_per_node(block);
+        block.data.resize(checked_size(block.num_nodes_in_block, entries_per_node));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             for (size_t k = 0; k < entries_per_node; k++) {
                 in >> block.data[j * entries_per_node + k];
@@ -73,9 +85,8 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
         check_stream(in);
 
-        const size_t entries_per_node =
-            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
-        block.data.resize(block.num_nodes_in_block * entries_per_node);
+        const size_t entries_per_node = get_entries_per_node(block);
+        block.data.resize(checked_size(block.num_nodes_in_block, entries_per_node));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
@@ -102,7 +113,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
-    block.data.resize(block.num_nodes_in_block * 3);
+    block.data.resize(checked_size(block.num_nodes_in_block, 3));
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         in >> block.tags[i];
         in >> block.data[i * 3];
@@ -134,7 +145,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
-    block.data.resize(block.num_nodes_in_block * 3);
+    block.data.resize(checked_size(block.num_nodes_in_block, 3));
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         int tag = 0;
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 3d5424f..74bb8ef 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -27,8 +27,8 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
-        const size_t num_entries =
-            patch.num_control_points * dim + patch.num_u_knots + patch.num_v_knots;
+        const size_t num_entries = checked_size(
+            patch.num_control_points, dim, checked_size(patch.num_u_knots, 1, patch.num_v_knots));
 
         patch.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
@@ -61,8 +61,8 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         check_stream(in);
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
-        const size_t num_entries =
-            patch.num_control_points * dim + patch.num_u_knots + patch.num_v_knots;
+        const size_t num_entries = checked_size(
+            patch.num_control_points, dim, checked_size(patch.num_u_knots, 1, patch.num_v_knots));
 
         patch.data.resize(num_entries);
         eat_white_space(in, 1);
-- 
2.43.0


From 821879bf14969a1631d180aa8bc3357579ebec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 03/16] fix: do not index node arrays by tag range when
 regrouping 2.2 nodes (out of bounds access, memory proportional to the
 largest tag)

---
 src/load_msh_post_process.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..0e5d4de 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -4,7 +4,8 @@
 #include <mshio/MshSpec.h>
 
 #include <cassert>
-#include <limits>
+#include <unordered_map>
+#include <utility>
 
 namespace mshio {
 namespace v22 {
@@ -14,19 +15,16 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    auto node_index = [&](size_t node_tag) {
-        return static_cast<size_t>(node_tag - nodes.min_node_tag);
-    };
+    // Node tag -> (dim, tag) of the entity it belongs to.  Node tags may be sparse, and elements may
+    // refer to nodes that are not in the file.
+    std::unordered_map<size_t, std::pair<int, int>> entity_of_node;
 
     for (const auto& block : elements.entity_blocks) {
         const auto n = nodes_per_element(block.element_type);
         for (size_t i = 0; i < block.num_elements_in_block; i++) {
             for (size_t j = 0; j < n; j++) {
-                size_t idx = node_index(block.data[i * (n + 1) + j + 1]);
-                entity_dims[idx] = block.entity_dim;
-                entity_tags[idx] = block.entity_tag;
+                entity_of_node[block.data[i * (n + 1) + j + 1]] = {
+                    block.entity_dim, block.entity_tag};
             }
         }
     }
@@ -34,21 +32,18 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     std::vector<NodeBlock> node_blocks;
     node_blocks.reserve(16);
 
-    constexpr size_t INVALID = std::numeric_limits<size_t>::max();
-    size_t curr_dim = INVALID, curr_tag = INVALID;
+    int curr_dim = -1, curr_tag = -1;
     for (auto& block : nodes.entity_blocks) {
         for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-            size_t idx = node_index(block.tags[i]);
-            size_t dim = entity_dims[idx];
-            size_t tag = entity_tags[idx];
+            const auto itr = entity_of_node.find(block.tags[i]);
+            const int dim = itr != entity_of_node.end() ? itr->second.first : 0;
+            const int tag = itr != entity_of_node.end() ? itr->second.second : 0;
 
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
                 auto& curr_block = node_blocks.back();
-                curr_block.tags.reserve(block.num_nodes_in_block);
-                curr_block.data.reserve(block.num_nodes_in_block * 3);
-                curr_block.entity_dim = static_cast<int>(dim);
-                curr_block.entity_tag = static_cast<int>(tag);
+                curr_block.entity_dim = dim;
+                curr_block.entity_tag = tag;
                 curr_dim = dim;
                 curr_tag = tag;
             }
-- 
2.43.0


From 541f37b42b05bce38a7917869cdb5319ebf385d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 04/16] fix: report a failed write when saving to a file

---
 src/save_msh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..ade0ca4 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -57,6 +57,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (!fout) {
+        throw std::runtime_error("Unable to write to output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0


From 54e5211617aaf90b40d743dde52c25cf67185316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 05/16] fix: refuse to save tags that do not fit the 32-bit
 integers of the encoding instead of altering them

---
 src/io_utils.cpp          | 10 ++++++++++
 src/io_utils.h            |  4 ++++
 src/save_msh_data.cpp     |  5 +++--
 src/save_msh_elements.cpp | 10 +++++-----
 src/save_msh_nodes.cpp    |  5 +++--
 5 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 97d5458..7c9589f 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -3,6 +3,7 @@
 #include <mshio/exception.h>
 
 #include <istream>
+#include <string>
 
 namespace mshio {
 
@@ -36,5 +37,14 @@ size_t checked_size(size_t a, size_t b, size_t c)
     return a * b + c;
 }
 
+int32_t checked_int32(size_t value)
+{
+    if (value > static_cast<size_t>(std::numeric_limits<int32_t>::max())) {
+        throw CorruptData(
+            std::to_string(value) + " does not fit in the 32-bit integer used by this MSH encoding!");
+    }
+    return static_cast<int32_t>(value);
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index 30d46dd..4100e70 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <istream>
 #include <limits>
 
@@ -13,5 +14,8 @@ void check_stream(const std::istream& in);
 // Returns a * b + c, the size of an array; throws InvalidFormat if it does not fit in a size_t.
 size_t checked_size(size_t a, size_t b, size_t c = 0);
 
+// Returns a tag or count as the 32-bit integer a file stores; throws CorruptData if it does not fit.
+int32_t checked_int32(size_t value);
+
 } // namespace mshio
 
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index eb35260..d71fa1f 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_data.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -41,7 +42,7 @@ void save_data(std::ostream& out,
                 // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
                 // bits tag, which is inconsistent with their spec.  Maybe
                 // report a bug?
-                tag = static_cast<int32_t>(entry.tag);
+                tag = checked_int32(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 // out.write(reinterpret_cast<const char*>(&entry.tag), sizeof(size_t));
                 if (is_element_node_data) {
@@ -54,7 +55,7 @@ void save_data(std::ostream& out,
         } else if (version == "2.2") {
             int32_t tag, num_nodes_per_element;
             for (const DataEntry& entry : data.entries) {
-                tag = static_cast<int32_t>(entry.tag);
+                tag = checked_int32(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 if (is_element_node_data) {
                     num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..e2a0c41 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -78,11 +78,11 @@ void save_elements_ascii(std::ostream& out, const MshSpec& spec)
         const size_t n = nodes_per_element(element_type);
         constexpr int num_tags = 1;
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-            size_t element_number = block.data[j * (n + 1)];
+            const int32_t element_number = checked_int32(block.data[j * (n + 1)]);
             out << element_number << " " << element_type << " " << num_tags << " "
                 << block.entity_tag << " ";
             for (size_t k = 0; k < n; k++) {
-                out << block.data[j * (n + 1) + k + 1];
+                out << checked_int32(block.data[j * (n + 1) + k + 1]);
                 if (k == n - 1) {
                     out << std::endl;
                 } else {
@@ -101,7 +101,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const ElementBlock& block = elements.entity_blocks[i];
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
-        const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
+        const int32_t num_element_in_block = checked_int32(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
@@ -110,11 +110,11 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const int32_t tag = static_cast<int32_t>(block.entity_tag);
 
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-            const int32_t element_number = static_cast<int32_t>(block.data[j * (n + 1)]);
+            const int32_t element_number = checked_int32(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
             out.write(reinterpret_cast<const char*>(&tag), 4);
             for (size_t k = 0; k < n; k++) {
-                const int32_t node_id = static_cast<int32_t>(block.data[j * (n + 1) + k + 1]);
+                const int32_t node_id = checked_int32(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
             }
         }
diff --git a/src/save_msh_nodes.cpp b/src/save_msh_nodes.cpp
index f08fbca..c9fd483 100644
--- a/src/save_msh_nodes.cpp
+++ b/src/save_msh_nodes.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_nodes.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -78,7 +79,7 @@ void save_nodes_ascii(std::ostream& out, const MshSpec& spec)
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
-            out << block.tags[j] << " " << block.data[j * entries_per_node] << " "
+            out << checked_int32(block.tags[j]) << " " << block.data[j * entries_per_node] << " "
                 << block.data[j * entries_per_node + 1] << " "
                 << block.data[j * entries_per_node + 2] << std::endl;
         }
@@ -95,7 +96,7 @@ void save_nodes_binary(std::ostream& out, const MshSpec& spec)
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
-            const int32_t node_id = static_cast<int32_t>(block.tags[j]);
+            const int32_t node_id = checked_int32(block.tags[j]);
             out.write(reinterpret_cast<const char*>(&node_id), 4);
             out.write(reinterpret_cast<const char*>(block.data.data() + j * entries_per_node),
                 static_cast<std::streamsize>(sizeof(double) * 3));
-- 
2.43.0


From 8ea9c795c178aa4ac627987f9c3c1b56179b1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 06/16] fix: refuse files without a leading $MeshFormat and
 saving as an unsupported version

---
 src/load_msh.cpp        | 32 ++++++++++++++++++++++----------
 src/save_msh_format.cpp |  4 ++++
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index dd7a8ee..a52c764 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -33,32 +33,41 @@ MshSpec load_msh(std::istream& in)
 {
     MshSpec spec;
     std::string buf, end_str;
+    bool has_format = false;
+
+    auto load_section = [&](void (*load)(std::istream&, MshSpec&)) {
+        if (!has_format) {
+            throw InvalidFormat("Section \"" + buf + "\" is not preceded by $MeshFormat!");
+        }
+        load(in, spec);
+    };
 
     while (in >> buf) {
         if (buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
         if (buf == "$MeshFormat") {
             load_mesh_format(in, spec);
+            has_format = true;
         } else if (buf == "$Entities") {
-            load_entities(in, spec);
+            load_section(load_entities);
         } else if (buf == "$PhysicalNames") {
-            load_physical_groups(in, spec);
+            load_section(load_physical_groups);
         } else if (buf == "$Nodes") {
-            load_nodes(in, spec);
+            load_section(load_nodes);
         } else if (buf == "$Elements") {
-            load_elements(in, spec);
+            load_section(load_elements);
         } else if (buf == "$NodeData") {
-            load_node_data(in, spec);
+            load_section(load_node_data);
         } else if (buf == "$ElementData") {
-            load_element_data(in, spec);
+            load_section(load_element_data);
         } else if (buf == "$ElementNodeData") {
-            load_element_node_data(in, spec);
+            load_section(load_element_node_data);
         } else if (buf == "$NanoSplineFormat") {
-            load_nanospline_format(in, spec);
+            load_section(load_nanospline_format);
         } else if (buf == "$Curves") {
-            load_curves(in, spec);
+            load_section(load_curves);
         } else if (buf == "$Patches") {
-            load_patches(in, spec);
+            load_section(load_patches);
         } else {
             std::cerr << "Warning: skipping section \"" << buf << "\"" << std::endl;
         }
@@ -67,6 +76,9 @@ MshSpec load_msh(std::istream& in)
     if (in.bad()) {
         throw InvalidFormat("Reading the MSH file failed!");
     }
+    if (!has_format) {
+        throw InvalidFormat("Missing $MeshFormat section!");
+    }
 
     load_msh_post_process(spec);
     return spec;
diff --git a/src/save_msh_format.cpp b/src/save_msh_format.cpp
index e4785c3..f11b9d2 100644
--- a/src/save_msh_format.cpp
+++ b/src/save_msh_format.cpp
@@ -1,6 +1,7 @@
 #include "save_msh_format.h"
 
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include <ostream>
 
@@ -9,6 +10,9 @@ namespace mshio {
 void save_mesh_format(std::ostream& out, const MshSpec& spec)
 {
     const MeshFormat& format = spec.mesh_format;
+    if (format.version != "2.2" && format.version != "4.1") {
+        throw UnsupportedFeature("Unsupported MSH version: " + format.version);
+    }
     out << "$MeshFormat" << std::endl;
     out << format.version << " " << format.file_type << " " << format.data_size << std::endl;
     if (format.file_type == 1) {
-- 
2.43.0


From 3baf5e7f3a049c8693cc7de8a95e8ee02c2dc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 07/16] fix: find the end of a skipped section whose end marker
 directly follows a binary payload

---
 src/load_msh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index a52c764..abea7ec 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -22,11 +22,13 @@ namespace mshio {
 
 void forward_to(std::istream& in, const std::string& flag)
 {
+    // A binary payload may be followed by its end marker without any white space in between.
     std::string buf;
-    while (buf != flag) {
+    do {
         in >> buf;
         check_stream(in);
-    }
+    } while (buf.size() < flag.size() ||
+             buf.compare(buf.size() - flag.size(), flag.size(), flag) != 0);
 }
 
 MshSpec load_msh(std::istream& in)
-- 
2.43.0


From d9f3ae818be17b42a39b430f0b242a6aa84e9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 08/16] fix: empty $Nodes and $Elements sections of a 2.2 file
 give an inverted tag range

---
 src/load_msh_post_process.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 0e5d4de..0b44cbf 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -100,6 +100,13 @@ void regroup_elements_into_blocks(MshSpec& spec)
 void load_msh_post_process(MshSpec& spec)
 {
     if (spec.mesh_format.version == "2.2") {
+        // Version 2.2 does not store tag ranges, and an empty section leaves an inverted range.
+        if (spec.nodes.num_nodes == 0) {
+            spec.nodes.min_node_tag = spec.nodes.max_node_tag = 0;
+        }
+        if (spec.elements.num_elements == 0) {
+            spec.elements.min_element_tag = spec.elements.max_element_tag = 0;
+        }
         v22::regroup_nodes_into_blocks(spec);
         v22::regroup_elements_into_blocks(spec);
     }
-- 
2.43.0


From ab8ae5a10f5a42f4c14e0d4f1a7c304ebfe8c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 09/16] fix: do not write headers of empty element blocks in
 binary 2.2 files

---
 src/save_msh_elements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index e2a0c41..11ed706 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -99,6 +99,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        if (block.num_elements_in_block == 0) continue; // Readers stop at the last element.
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
         const int32_t num_element_in_block = checked_int32(block.num_elements_in_block);
-- 
2.43.0


From 3187adb796805a69e28966cf5aaba5389dcbeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 10/16] fix: node and element blocks are lost on saving when
 all of them are empty

---
 src/save_msh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index ade0ca4..5ad84b3 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -24,10 +24,10 @@ void save_msh(std::ostream& out, const MshSpec& spec)
     if (!spec.entities.empty()) {
         save_entities(out, spec);
     }
-    if (spec.nodes.num_nodes > 0) {
+    if (spec.nodes.num_entity_blocks > 0) {
         save_nodes(out, spec);
     }
-    if (spec.elements.num_elements > 0) {
+    if (spec.elements.num_entity_blocks > 0) {
         save_elements(out, spec);
     }
     if (spec.node_data.size() > 0) {
-- 
2.43.0


From 815ce1ba782c371b99646fb694c0aec690797220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 11/16] fix: saving and loading depend on the formatting flags
 and locale of the caller's stream

---
 src/io_utils.cpp | 22 ++++++++++++++++++++++
 src/io_utils.h   | 21 +++++++++++++++++++++
 src/load_msh.cpp |  1 +
 src/save_msh.cpp |  2 ++
 4 files changed, 46 insertions(+)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 7c9589f..5593c18 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -7,6 +7,28 @@
 
 namespace mshio {
 
+StreamFormatGuard::StreamFormatGuard(std::ios& stream)
+    : m_stream(stream)
+    , m_flags(stream.flags())
+    , m_precision(stream.precision())
+    , m_fill(stream.fill())
+    , m_locale(stream.getloc())
+{
+    m_stream.imbue(std::locale::classic());
+    m_stream.flags(std::ios::dec | std::ios::skipws);
+    m_stream.precision(6);
+    m_stream.width(0);
+    m_stream.fill(' ');
+}
+
+StreamFormatGuard::~StreamFormatGuard()
+{
+    m_stream.imbue(m_locale);
+    m_stream.flags(m_flags);
+    m_stream.precision(m_precision);
+    m_stream.fill(m_fill);
+}
+
 void eat_white_space(std::istream& in, size_t count)
 {
     char ch = static_cast<char>(in.peek());
diff --git a/src/io_utils.h b/src/io_utils.h
index 4100e70..3940b49 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -3,9 +3,30 @@
 #include <cstdint>
 #include <istream>
 #include <limits>
+#include <locale>
 
 namespace mshio {
 
+// Gives a stream the default formatting and the classic locale, and restores its own on destruction,
+// so that what is written or read depends neither on the caller's stream settings nor on the global
+// locale.
+class StreamFormatGuard
+{
+public:
+    explicit StreamFormatGuard(std::ios& stream);
+    ~StreamFormatGuard();
+
+    StreamFormatGuard(const StreamFormatGuard&) = delete;
+    StreamFormatGuard& operator=(const StreamFormatGuard&) = delete;
+
+private:
+    std::ios& m_stream;
+    std::ios::fmtflags m_flags;
+    std::streamsize m_precision;
+    char m_fill;
+    std::locale m_locale;
+};
+
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
 // Throws InvalidFormat if an earlier read from the stream has failed.
diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index abea7ec..1f0095a 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -33,6 +33,7 @@ void forward_to(std::istream& in, const std::string& flag)
 
 MshSpec load_msh(std::istream& in)
 {
+    StreamFormatGuard guard(in);
     MshSpec spec;
     std::string buf, end_str;
     bool has_format = false;
diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 5ad84b3..0ed510b 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -1,5 +1,6 @@
 #include <mshio/MshSpec.h>
 
+#include "io_utils.h"
 #include "save_msh_curves.h"
 #include "save_msh_data.h"
 #include "save_msh_elements.h"
@@ -17,6 +18,7 @@ namespace mshio {
 
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
+    StreamFormatGuard guard(out);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
-- 
2.43.0


From c119265a1f8f8f86fe3460c7b27ff6ee9d2c5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 12/16] fix: ASCII files lose all but 6 digits of real numbers

---
 src/save_msh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 0ed510b..5a89ced 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -13,12 +13,14 @@
 
 #include <cassert>
 #include <fstream>
+#include <limits>
 
 namespace mshio {
 
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
     StreamFormatGuard guard(out);
+    out.precision(std::numeric_limits<double>::max_digits10);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
-- 
2.43.0


From 60f6e195e2a5e4ad7df6961f42e2c8a51ac658c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 13/16] fix: DataEntry.num_nodes_per_element is missing from
 the Python module under its C++ name

---
 python/pymshio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pymshio.cpp b/python/pymshio.cpp
index 19b7ec5..fed787b 100644
--- a/python/pymshio.cpp
+++ b/python/pymshio.cpp
@@ -92,11 +92,12 @@ NB_MODULE(pymshio, m)
     nb::class_<mshio::DataEntry>(m, "DataEntry")
         .def(nb::init<>())
         .def_rw("tag", &mshio::DataEntry::tag)
+        .def_rw("num_nodes_per_element", &mshio::DataEntry::num_nodes_per_element)
         .def_rw("num_nodes_per_elements", &mshio::DataEntry::num_nodes_per_element)
         .def_rw("data", &mshio::DataEntry::data)
         .def("__repr__", [](const mshio::DataEntry& self) {
             return "DataEntry(tag=" + std::to_string(self.tag) +
-                   ", num_nodes_per_elements=" + std::to_string(self.num_nodes_per_element) +
+                   ", num_nodes_per_element=" + std::to_string(self.num_nodes_per_element) +
                    ", data=" + std::to_string(self.data.size()) + ")";
         });
 
-- 
2.43.0


From c9ccd03d79c0348b99073e15b30588697416c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 14/16] fix: end the line of an ASCII data entry that has no
 values

The next entry, or the end marker of the section, continued on the same line.
---
 src/save_msh_data.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index d71fa1f..c5d1d34 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -69,18 +69,14 @@ void save_data(std::ostream& out,
         }
     } else {
         for (const DataEntry& entry : data.entries) {
-            out << entry.tag << " ";
+            out << entry.tag;
             if (is_element_node_data) {
-                out << entry.num_nodes_per_element << " ";
+                out << ' ' << entry.num_nodes_per_element;
             }
             for (size_t i = 0; i < entry.data.size(); i++) {
-                out << entry.data[i];
-                if (i == entry.data.size() - 1) {
-                    out << std::endl;
-                } else {
-                    out << ' ';
-                }
+                out << ' ' << entry.data[i];
             }
+            out << std::endl;
         }
     }
 }
-- 
2.43.0


From 94009f21e43eaafbb7e41e6bb5f03274a28e6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 15/16] fix: a repeated section replaces the earlier ones or is
 counted wrongly

---
 src/load_msh_curves.cpp          | 12 +++++---
 src/load_msh_elements.cpp        | 50 +++++++++++++++++++++++++++-----
 src/load_msh_entities.cpp        | 31 ++++++++++++++++++--
 src/load_msh_nodes.cpp           | 28 ++++++++++++++++--
 src/load_msh_patches.cpp         | 12 +++++---
 src/load_msh_physical_groups.cpp |  6 ++--
 6 files changed, 118 insertions(+), 21 deletions(-)

diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index ba2fb79..7acdc6d 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -13,9 +13,11 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
     in >> num_curves;
     check_stream(in);
 
-    curves.resize(num_curves);
+    // Sections may be repeated: the curves follow those of the sections before this one.
+    const size_t first = curves.size();
+    curves.resize(checked_size(num_curves, 1, first));
     for (size_t i = 0; i < num_curves; i++) {
-        auto& curve = curves[i];
+        auto& curve = curves[first + i];
         in >> curve.curve_tag;
         in >> curve.curve_type;
         in >> curve.curve_degree;
@@ -43,9 +45,11 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
     in >> num_curves;
     check_stream(in);
 
-    curves.resize(num_curves);
+    // Sections may be repeated: the curves follow those of the sections before this one.
+    const size_t first = curves.size();
+    curves.resize(checked_size(num_curves, 1, first));
     for (size_t i = 0; i < num_curves; i++) {
-        auto& curve = curves[i];
+        auto& curve = curves[first + i];
         in >> curve.curve_tag;
         in >> curve.curve_type;
         in >> curve.curve_degree;
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index d4bd60f..951b8a2 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -14,15 +14,39 @@
 #include <set>
 #include <sstream>
 #include <string>
+#include <utility>
 
 
 namespace mshio {
 
 namespace v41 {
 
+namespace {
+// Sections may be repeated: adds the elements of one section to those of the sections before it.
+void append_elements(Elements& elements, Elements&& section)
+{
+    if (elements.entity_blocks.empty()) {
+        elements = std::move(section);
+        return;
+    }
+    for (ElementBlock& block : section.entity_blocks) {
+        elements.entity_blocks.push_back(std::move(block));
+    }
+    elements.num_entity_blocks = elements.entity_blocks.size();
+    if (elements.num_elements == 0) {
+        elements.min_element_tag = section.min_element_tag;
+        elements.max_element_tag = section.max_element_tag;
+    } else if (section.num_elements > 0) {
+        elements.min_element_tag = std::min(elements.min_element_tag, section.min_element_tag);
+        elements.max_element_tag = std::max(elements.max_element_tag, section.max_element_tag);
+    }
+    elements.num_elements += section.num_elements;
+}
+} // namespace
+
 void load_elements_ascii(std::istream& in, MshSpec& spec)
 {
-    Elements& elements = spec.elements;
+    Elements elements;
     in >> elements.num_entity_blocks;
     in >> elements.num_elements;
     in >> elements.min_element_tag;
@@ -48,12 +72,13 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
             check_stream(in);
         }
     }
+    append_elements(spec.elements, std::move(elements));
 }
 
 void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     eat_white_space(in, 1);
-    Elements& elements = spec.elements;
+    Elements elements;
     in.read(reinterpret_cast<char*>(&elements.num_entity_blocks), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.num_elements), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&elements.min_element_tag), sizeof(size_t));
@@ -76,6 +101,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
         check_stream(in);
     }
+    append_elements(spec.elements, std::move(elements));
 }
 } // namespace v41
 
@@ -84,8 +110,14 @@ namespace v22 {
 namespace {
 template <typename Entity>
 void create_entities(
-    const std::map<int, std::set<int>>& entity_tag_to_physical_tags, std::vector<Entity>& entities)
+    std::map<int, std::set<int>>& entity_tag_to_physical_tags, std::vector<Entity>& entities)
 {
+    // Sections may be repeated: keep what the sections before this one said.
+    for (const Entity& entity : entities) {
+        entity_tag_to_physical_tags[entity.tag].insert(
+            entity.physical_group_tags.begin(), entity.physical_group_tags.end());
+    }
+    entities.clear();
     for (const auto& entry : entity_tag_to_physical_tags) {
         entities.emplace_back();
         Entity& entity = entities.back();
@@ -178,9 +210,13 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
 void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    in >> elements.num_elements;
+    size_t num_elements;
+    in >> num_elements;
     check_stream(in);
-    elements.entity_blocks.reserve(elements.num_elements);
+    elements.num_elements += num_elements;
+    if (elements.entity_blocks.empty()) {
+        elements.entity_blocks.reserve(num_elements);
+    }
     eat_white_space(in, 1);
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
@@ -189,7 +225,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     int32_t min_tag = std::numeric_limits<int32_t>::max();
     int32_t max_tag = 0;
     size_t num_processed_elements = 0;
-    while (num_processed_elements != elements.num_elements) {
+    while (num_processed_elements != num_elements) {
         int32_t element_type, num_elements_in_block, num_tags, element_id;
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
@@ -244,7 +280,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             }
 
             num_processed_elements++;
-            if (num_processed_elements > elements.num_elements) {
+            if (num_processed_elements > num_elements) {
                 throw InvalidFormat("Inconsistent element count detected!");
             }
         }
diff --git a/src/load_msh_entities.cpp b/src/load_msh_entities.cpp
index 3db5ec4..b253350 100644
--- a/src/load_msh_entities.cpp
+++ b/src/load_msh_entities.cpp
@@ -5,11 +5,36 @@
 
 #include <cassert>
 #include <fstream>
+#include <utility>
+#include <vector>
 
 namespace mshio {
 
 namespace v41 {
 
+namespace {
+template <typename Entity>
+void append(std::vector<Entity>& entities, std::vector<Entity>&& section)
+{
+    if (entities.empty()) {
+        entities = std::move(section);
+        return;
+    }
+    for (Entity& entity : section) {
+        entities.push_back(std::move(entity));
+    }
+}
+
+// Sections may be repeated: adds the entities of one section to those of the sections before it.
+void append_entities(Entities& entities, Entities&& section)
+{
+    append(entities.points, std::move(section.points));
+    append(entities.curves, std::move(section.curves));
+    append(entities.surfaces, std::move(section.surfaces));
+    append(entities.volumes, std::move(section.volumes));
+}
+} // namespace
+
 void load_entities_ascii(std::istream& in, MshSpec& spec)
 {
     size_t num_points, num_curves, num_surfaces, num_volumes;
@@ -19,7 +44,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
     in >> num_volumes;
     check_stream(in);
 
-    Entities& entities = spec.entities;
+    Entities entities;
     entities.points.resize(num_points);
     entities.curves.resize(num_curves);
     entities.surfaces.resize(num_surfaces);
@@ -121,6 +146,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
             check_stream(in);
         }
     }
+    append_entities(spec.entities, std::move(entities));
 }
 
 void load_entities_binary(std::istream& in, MshSpec& spec)
@@ -133,7 +159,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
     in.read(reinterpret_cast<char*>(&num_volumes), sizeof(size_t));
     check_stream(in);
 
-    Entities& entities = spec.entities;
+    Entities entities;
     entities.points.resize(num_points);
     entities.curves.resize(num_curves);
     entities.surfaces.resize(num_surfaces);
@@ -238,6 +264,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(int) * num_boundary_surfaces));
         check_stream(in);
     }
+    append_entities(spec.entities, std::move(entities));
 }
 
 } // namespace v41
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index 9f14a30..e35dffa 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <string>
 #include <limits>
+#include <utility>
 
 namespace mshio {
 namespace v41 {
@@ -26,11 +27,32 @@ size_t get_entries_per_node(const NodeBlock& block)
     }
     return static_cast<size_t>(3 + block.entity_dim);
 }
+
+// Sections may be repeated: adds the nodes of one section to those of the sections before it.
+void append_nodes(Nodes& nodes, Nodes&& section)
+{
+    if (nodes.entity_blocks.empty()) {
+        nodes = std::move(section);
+        return;
+    }
+    for (NodeBlock& block : section.entity_blocks) {
+        nodes.entity_blocks.push_back(std::move(block));
+    }
+    nodes.num_entity_blocks = nodes.entity_blocks.size();
+    if (nodes.num_nodes == 0) {
+        nodes.min_node_tag = section.min_node_tag;
+        nodes.max_node_tag = section.max_node_tag;
+    } else if (section.num_nodes > 0) {
+        nodes.min_node_tag = std::min(nodes.min_node_tag, section.min_node_tag);
+        nodes.max_node_tag = std::max(nodes.max_node_tag, section.max_node_tag);
+    }
+    nodes.num_nodes += section.num_nodes;
+}
 } // namespace
 
 void load_nodes_ascii(std::istream& in, MshSpec& spec)
 {
-    Nodes& nodes = spec.nodes;
+    Nodes nodes;
     in >> nodes.num_entity_blocks;
     in >> nodes.num_nodes;
     in >> nodes.min_node_tag;
@@ -60,11 +82,12 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
             check_stream(in);
         }
     }
+    append_nodes(spec.nodes, std::move(nodes));
 }
 
 void load_nodes_binary(std::istream& in, MshSpec& spec)
 {
-    Nodes& nodes = spec.nodes;
+    Nodes nodes;
     eat_white_space(in, 1);
     in.read(reinterpret_cast<char*>(&nodes.num_entity_blocks), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&nodes.num_nodes), sizeof(size_t));
@@ -92,6 +115,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
         check_stream(in);
     }
+    append_nodes(spec.nodes, std::move(nodes));
 }
 
 } // namespace v41
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 74bb8ef..9790be1 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -12,10 +12,12 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
     size_t num_patches;
     in >> num_patches;
     check_stream(in);
-    patches.resize(num_patches);
+    // Sections may be repeated: the patches follow those of the sections before this one.
+    const size_t first = patches.size();
+    patches.resize(checked_size(num_patches, 1, first));
 
     for (size_t i = 0; i < num_patches; i++) {
-        auto& patch = patches[i];
+        auto& patch = patches[first + i];
         in >> patch.patch_tag;
         in >> patch.patch_type;
         in >> patch.degree_u;
@@ -46,10 +48,12 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
     size_t num_patches;
     in >> num_patches;
     check_stream(in);
-    patches.resize(num_patches);
+    // Sections may be repeated: the patches follow those of the sections before this one.
+    const size_t first = patches.size();
+    patches.resize(checked_size(num_patches, 1, first));
 
     for (size_t i = 0; i < num_patches; i++) {
-        auto& patch = patches[i];
+        auto& patch = patches[first + i];
         in >> patch.patch_tag;
         in >> patch.patch_type;
         in >> patch.degree_u;
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index 4c39792..c5bae9a 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -17,9 +17,11 @@ void load_physical_groups(std::istream& in, MshSpec& spec)
     int num_groups;
     in >> num_groups;
     check_stream(in);
-    spec.physical_groups.resize(num_groups);
+    // Sections may be repeated: the groups follow those of the sections before this one.
+    const size_t first = groups.size();
+    groups.resize(checked_size(static_cast<size_t>(num_groups), 1, first));
     for (int i = 0; i < num_groups; i++) {
-        auto& group = groups[i];
+        auto& group = groups[first + static_cast<size_t>(i)];
         in >> group.dim;
         in >> group.tag;
         in >> std::quoted(group.name);
-- 
2.43.0


From 993f32098f790f0aeaef678a7285b61714485360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 16/16] fix: names and string tags are cut without any error
 when memory runs out

std::quoted writes through a string stream of its own, whose failures it ignores, so save_msh could
write part of a name and report success.
---
 src/io_utils.cpp                 | 10 ++++++++++
 src/io_utils.h                   |  6 ++++++
 src/save_msh_data.cpp            |  4 ++--
 src/save_msh_physical_groups.cpp |  5 +++--
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 5593c18..6ae3815 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -43,6 +43,16 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+void write_quoted(std::ostream& out, const std::string& text)
+{
+    out << '"';
+    for (const char ch : text) {
+        if (ch == '"' || ch == '\\') out << '\\';
+        out << ch;
+    }
+    out << '"';
+}
+
 void check_stream(const std::istream& in)
 {
     if (in.fail()) {
diff --git a/src/io_utils.h b/src/io_utils.h
index 3940b49..f6ecb1c 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -4,6 +4,8 @@
 #include <istream>
 #include <limits>
 #include <locale>
+#include <ostream>
+#include <string>
 
 namespace mshio {
 
@@ -29,6 +31,10 @@ private:
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+// Writes text between double quotes, the way std::quoted reads it.  std::quoted itself cuts the text
+// without any error when memory runs out.
+void write_quoted(std::ostream& out, const std::string& text);
+
 // Throws InvalidFormat if an earlier read from the stream has failed.
 void check_stream(const std::istream& in);
 
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index c5d1d34..71406ed 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -5,7 +5,6 @@
 #include <mshio/exception.h>
 
 #include <cassert>
-#include <iomanip>
 #include <ostream>
 #include <string>
 
@@ -21,7 +20,8 @@ void save_data(std::ostream& out,
 {
     out << data.header.string_tags.size() << std::endl;
     for (const std::string& tag : data.header.string_tags) {
-        out << std::quoted(tag) << std::endl;
+        write_quoted(out, tag);
+        out << std::endl;
     }
 
     out << data.header.real_tags.size() << std::endl;
diff --git a/src/save_msh_physical_groups.cpp b/src/save_msh_physical_groups.cpp
index 40bbff7..a3dcef5 100644
--- a/src/save_msh_physical_groups.cpp
+++ b/src/save_msh_physical_groups.cpp
@@ -1,10 +1,10 @@
 #include "save_msh_physical_groups.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
 #include <cassert>
-#include <iomanip>
 
 namespace mshio {
 
@@ -17,7 +17,8 @@ void save_physical_groups(std::ostream& out, const MshSpec& spec)
     for (const auto& group: groups) {
         out << group.dim << " ";
         out << group.tag << " ";
-        out << std::quoted(group.name) << std::endl;
+        write_quoted(out, group.name);
+        out << std::endl;
     }
     out << "$EndPhysicalNames" << std::endl;
 }
-- 
2.43.0

