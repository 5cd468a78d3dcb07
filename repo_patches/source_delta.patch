From ee961487ff069c13c6e4c4708d06c7527169a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 01/26] fix: reject empty, incomplete and out-of-range numeric
 option values

Option<T>::Parse only tested for end of input, so "", "-", "1e" and
"99999999999999999999" were accepted, leaving the default, zero or the
largest value of the type in the variable.
---
 cmd/Option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 6472c62..68f20d9 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -52,7 +52,7 @@ class Option : public BaseOption {
   bool Parse(const std::string &str) override {
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
-    return iss.eof();
+    return !iss.fail() && iss.eof();
   }
 
   const std::string& Name() const override {
-- 
2.43.0


From de47d299b09608de7b221236ef1ad8224ab085ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 02/26] fix: reject negative values of unsigned options

"-1" was accepted for --bootstrap_samples and friends and taken as
18446744073709551615.
---
 cmd/Option.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index 68f20d9..2f927d8 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 #include "core/TypeInfo.h"
 
@@ -50,6 +51,10 @@ class Option : public BaseOption {
   }
 
   bool Parse(const std::string &str) override {
+    // Streams silently wrap negative numbers read into unsigned types.
+    if (std::is_unsigned<T>::value && !str.empty() && str[0] == '-') {
+      return false;
+    }
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
     return !iss.fail() && iss.eof();
-- 
2.43.0


From c81d40cdc19faead6394c06350cf13ba001de524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 03/26] fix: do not take -Xname for the option --name

The first two characters of an option were dropped without looking at
the second one.
---
 cmd/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index cc48590..96be543 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -101,7 +101,7 @@ class Parser {
       if (arg == "--") { break; }   // Skip options section with "--".
       if (arg == "--help") { show_help = true; continue; }
       const std::string opt_name = arg.substr(2);
-      auto opt_it = opts_.find(opt_name);
+      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();
       if (opt_it == opts_.end()) {
         std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
         return false;
-- 
2.43.0


From 7748fb3aacad0fb552b0a2e94485e4cb96886c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 04/26] fix: ScoredEvent::operator<= compared in the wrong
 direction

---
 core/ScoredEvent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ScoredEvent.h b/core/ScoredEvent.h
index 269097f..d99c964 100644
--- a/core/ScoredEvent.h
+++ b/core/ScoredEvent.h
@@ -42,7 +42,7 @@ class ScoredEvent : public E {
   }
 
   virtual bool operator<=(const ScoredEvent& other) const {
-    return !(other > *this);
+    return !(*this > other);
   }
 
   virtual bool operator>=(const ScoredEvent& other) const {
-- 
2.43.0


From 1bcc7d6f0b15f2fd9279c2a9ace479f4851c700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 05/26] fix: infinite recursion in Match::operator!=

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 7a33e4e..173e9cb 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -76,7 +76,7 @@ class Match {
   }
 
   bool operator!=(const Match& other) const {
-    return !(*this != other);
+    return !(*this == other);
   }
 
   static Match<RE, HE> MakeFalsePositive(const HE& hyp) {
-- 
2.43.0


From 359eafd59c3633b5b930ddf745183e75106ebeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 06/26] fix: Match copy assignment leaked its events and lost
 them on self-assignment

---
 core/Match.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 173e9cb..46df177 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,8 +53,9 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
+    if (this == &other) return *this;
     error_ = other.error_;
-    ref_.release(); hyp_.release();
+    ref_.reset(); hyp_.reset();
     if (other.HasRef()) SetRef(other.GetRef());
     if (other.HasHyp()) SetHyp(other.GetHyp());
     return *this;
-- 
2.43.0


From 2a292c5036f5d51a38784c1eae48f533fd2f2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 07/26] fix: MatchesSampler put empty matches in front of the
 sampled ones

---
 core/Bootstrapping.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 7cbc227..cb02e73 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -21,7 +21,8 @@ class MatchesSampler {
   void operator()(const Container &original, Container *sampled) {
     const size_t num_matches = original.size();
     std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);
-    sampled->resize(num_matches);
+    sampled->clear();
+    sampled->reserve(num_matches);
     for (size_t i = 0; i < num_matches; ++i) {
       sampled->push_back(original[mdist(rng_)]);
     }
-- 
2.43.0


From f1e06b8c97a1a0b17a3b499c66ec56ee8a19f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 08/26] fix: uninitialised size of an EventSet built from a
 range

---
 core/DocumentBoundingBoxEventSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/DocumentBoundingBoxEventSet.h b/core/DocumentBoundingBoxEventSet.h
index 9328867..341d0ea 100644
--- a/core/DocumentBoundingBoxEventSet.h
+++ b/core/DocumentBoundingBoxEventSet.h
@@ -36,7 +36,7 @@ class EventSet<E<Q, DocumentBoundingBox<T>>> {
   virtual ~EventSet() {}
 
   template <typename I>
-  EventSet(I begin, I end) {
+  EventSet(I begin, I end) : size_(0) {
     for (I it = begin; it != end; ++it) { Insert(*it); }
   }
 
-- 
2.43.0


From 0bbf627802bcb84cae2bcf45aaeea58886abbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 09/26] fix: out-of-bounds reads for --bootstrap_alpha 0 and
 --bootstrap_samples 0

For alpha = 0 the lower bound was read one past the last deviation, and
without samples from an empty vector; values of alpha outside [0, 1],
which have no meaning, gave arbitrary positions.
---
 core/Bootstrapping.h       | 9 +++++++--
 tools/GenericKwsEvalTool.h | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index cb02e73..35477cc 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -78,8 +78,13 @@ double ComputePercentileBootstrapCI(
     statistics_diffs.push_back(sample_statistic - observed_statistic);
   }
   std::sort(statistics_diffs.begin(), statistics_diffs.end());
-  const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);
-  const auto ui = (size_t)((      alpha * 0.5) * repetitions);
+  if (statistics_diffs.empty()) {
+    *lower_bound = *upper_bound = observed_statistic;
+    return observed_statistic;
+  }
+  const size_t last = statistics_diffs.size() - 1;
+  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);
+  const auto ui = std::min((size_t)((      alpha * 0.5) * repetitions), last);
   *lower_bound = observed_statistic - statistics_diffs[li];
   *upper_bound = observed_statistic - statistics_diffs[ui];
   return observed_statistic;
diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b9bb0e..ecd7f04 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -267,6 +267,12 @@ class GenericKwsEvalTool {
       return 1;
     }
 
+    if (bootstrap_alpha < 0.0 || bootstrap_alpha > 1.0) {
+      std::cerr << "ERROR: --bootstrap_alpha must be in the range [0, 1]!"
+                << std::endl;
+      return 1;
+    }
+
     // Read reference events
     if (ref_filename.empty()) {
       std::cerr << "ERROR: Empty filename was given for the references!"
-- 
2.43.0


From 153588a9d97119c3a573d75ce184d61644497eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 10/26] fix: StringEventToIntMapper never freed the table it
 owns

---
 mapper/StringEventToIntMapper.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mapper/StringEventToIntMapper.h b/mapper/StringEventToIntMapper.h
index 48721cd..1cd40f0 100644
--- a/mapper/StringEventToIntMapper.h
+++ b/mapper/StringEventToIntMapper.h
@@ -30,6 +30,22 @@ class StringEventToIntMapper :
   StringEventToIntMapper(StringToIntMapper<Int> *map, bool own)
       : map_(map), own_(own) {}
 
+  ~StringEventToIntMapper() {
+    if (own_) {
+      delete map_;
+    }
+  }
+
+  // Like the copy constructor: share the table, without owning it.
+  StringEventToIntMapper &operator=(const StringEventToIntMapper &other) {
+    if (map_ != other.map_) {
+      if (own_) delete map_;
+      map_ = other.map_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     return OutputType((*map_)(input.Query()), (*map_)(input.Location()));
   }
-- 
2.43.0


From aaf76f83367f1d1fb1df89dcff8009213438bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 11/26] fix: assigning a StringToIntMapper freed the shared
 table twice

---
 mapper/StringToIntMapper.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 267ff0e..867d475 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -35,6 +35,16 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     }
   }
 
+  // Like the copy constructor: share the table, without owning it.
+  StringToIntMapper &operator=(const StringToIntMapper &other) {
+    if (impl_ != other.impl_) {
+      if (own_) delete impl_;
+      impl_ = other.impl_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     const auto it = impl_->find(input);
     if (it != impl_->end()) {
-- 
2.43.0


From 3819b6a9132fd89c79290e69ad08faa533e918b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 12/26] fix: StringToIntMapper<uint64_t> had a capacity of zero
 names

---
 mapper/StringToIntMapper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 867d475..af0f8c6 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -50,18 +50,18 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     if (it != impl_->end()) {
       return it->second;
     } else {
-      if (impl_->size() < kMaxSize) {
+      if (impl_->size() <= kMaxValue) {
         return impl_->emplace_hint(it, input, impl_->size())->second;
       } else {
         throw std::range_error(
-            "Max size reached (" + std::to_string(kMaxSize) + ")");
+            "Max size reached (" + std::to_string(impl_->size()) + ")");
       }
     }
   }
 
  private:
-  static constexpr size_t kMaxSize =
-      1 + static_cast<size_t>(std::numeric_limits<Int>::max());
+  static constexpr size_t kMaxValue =
+      static_cast<size_t>(std::numeric_limits<Int>::max());
 
   Impl *impl_;
   bool own_;
-- 
2.43.0


From 02811ce4785d9acf4a3092c7d6542e1d72267345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 13/26] fix: mean recall-precision curve was NaN without any
 query

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index ecd7f04..0d7452d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -146,7 +146,7 @@ class GenericKwsEvalTool {
       for (size_t q = 1; q <= NQ; ++q) {
         s += sampled_pr[q][i];
       }
-      sampled_pr[0].push_back(s / NQ);
+      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
     }
 
     core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);
-- 
2.43.0


From 67a68ca0ae8a108fe42f57425281bad6f65a7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 14/26] fix: an empty query set selected every query instead of
 none

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 0d7452d..57e0754 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -353,7 +353,7 @@ class GenericKwsEvalTool {
                 << querygroups_filename << "\"" << std::endl;
     }
 
-    if (!query2group.empty()) {
+    if (!queryset_filename.empty() || !querygroups_filename.empty()) {
       // Filter out reference events.
       const size_t num_ref_events = ref_events.size();
       filter_events(query2group, &ref_events);
-- 
2.43.0


From d47cbe2d09299ed8ca84efaa0f0946c50f8f0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 15/26] fix: a query set or groups file that fails to be read
 was evaluated in part

---
 tools/GenericKwsEvalTool.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 57e0754..86810c2 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -322,6 +322,11 @@ class GenericKwsEvalTool {
         auto q = (*query_mapper_)(qt);
         query2group[q] = q;
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Query set file \"" << queryset_filename
+                  << "\" could not be read!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
@@ -347,6 +352,11 @@ class GenericKwsEvalTool {
           query2group[fields[i]] = fields[0];
         }
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Query groups file \"" << querygroups_filename
+                  << "\" could not be read!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
-- 
2.43.0


From 57fbccf8b607bd67becdccca5d9e2c72cf35f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 16/26] fix: failing to write the dump of matches went
 unnoticed

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 86810c2..b0b3c6f 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -426,6 +426,11 @@ class GenericKwsEvalTool {
         mfs << "## " << m << std::endl;
       }
       mfs.close();
+      if (!mfs) {
+        std::cerr << "ERROR: Dump matches file \"" << matches_filename
+                  << "\" could not be written!" << std::endl;
+        return 1;
+      }
     }
 
     {
-- 
2.43.0


From 87106651cf3e3dc4e2cc04cf52873838d18f887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 17/26] fix: report unwritable results and curve files instead
 of ignoring or crashing

---
 tools/GenericKwsEvalTool.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index b0b3c6f..d00882c 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -481,16 +481,27 @@ class GenericKwsEvalTool {
         bootstrap_samples, bootstrap_seed,
         core::MeanNDCG<MatchType>(collapse_matches));
 
-    if (!grp_filename.empty()) {
-      WriteGlobalRPCurve(
-          grp_filename, matches, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+    if (!std::cout.flush()) {
+      std::cerr << "ERROR: Failed writing the results!" << std::endl;
+      return 1;
     }
 
-    if (!mrp_filename.empty()) {
-      WriteMeanRPCurve(
-          mrp_filename, matches_by_group, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+    try {
+      if (!grp_filename.empty()) {
+        WriteGlobalRPCurve(
+            grp_filename, matches, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
+
+      if (!mrp_filename.empty()) {
+        WriteMeanRPCurve(
+            mrp_filename, matches_by_group, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
+    } catch (const std::ios_base::failure &e) {
+      std::cerr << "ERROR: Failed writing a recall-precision curve: "
+                << e.what() << std::endl;
+      return 1;
     }
 
     return 0;
-- 
2.43.0


From 44ae51464a7ae7e09bfd90544fe90a292e16ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 18/26] fix: negative coordinates were read as huge unsigned
 ones

---
 core/BoundingBox.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 36b2228..8813a77 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -3,6 +3,7 @@
 
 #include <cmath>
 #include <iostream>
+#include <type_traits>
 
 namespace kws {
 namespace core {
@@ -62,9 +63,23 @@ struct BoundingBox {
   }
 };
 
+// Read a coordinate. Streams silently wrap negative numbers read into unsigned
+// types, here these are an error.
+template <typename T>
+std::istream& ReadCoordinate(std::istream& is, T* v) {
+  is >> std::ws;
+  if (std::is_unsigned<T>::value && is.good() && is.peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+  }
+  return is >> *v;
+}
+
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
-  is >> bb.x >> bb.y >> bb.w >> bb.h;
+  ReadCoordinate(is, &bb.x);
+  ReadCoordinate(is, &bb.y);
+  ReadCoordinate(is, &bb.w);
+  ReadCoordinate(is, &bb.h);
   return is;
 }
 
-- 
2.43.0


From 438f31caa653d245cfb3ba07f93fd7ddaac129e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 19/26] fix: a coordinate with text glued to it was split into
 two fields

---
 core/BoundingBox.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 8813a77..84d7d5e 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -1,6 +1,7 @@
 #ifndef CORE_BOUNDINGBOX_H_
 #define CORE_BOUNDINGBOX_H_
 
+#include <cctype>
 #include <cmath>
 #include <iostream>
 #include <type_traits>
@@ -63,15 +64,21 @@ struct BoundingBox {
   }
 };
 
-// Read a coordinate. Streams silently wrap negative numbers read into unsigned
-// types, here these are an error.
+// Read a coordinate, which must be followed by a whitespace or by the end of
+// the stream. Streams silently wrap negative numbers read into unsigned types,
+// here these are an error.
 template <typename T>
 std::istream& ReadCoordinate(std::istream& is, T* v) {
   is >> std::ws;
   if (std::is_unsigned<T>::value && is.good() && is.peek() == '-') {
     is.setstate(std::ios_base::failbit);
   }
-  return is >> *v;
+  is >> *v;
+  if (is.good()) {
+    const int c = is.peek();
+    if (!is.eof() && !std::isspace(c)) is.setstate(std::ios_base::failbit);
+  }
+  return is;
 }
 
 template <typename T>
-- 
2.43.0


From acd607e5a7d14affacc4d555f1165359ce30106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 20/26] fix: read negative coordinates again, the ground truth
 in examples has some

---
 core/BoundingBox.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 84d7d5e..4577c84 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -4,7 +4,6 @@
 #include <cctype>
 #include <cmath>
 #include <iostream>
-#include <type_traits>
 
 namespace kws {
 namespace core {
@@ -65,14 +64,9 @@ struct BoundingBox {
 };
 
 // Read a coordinate, which must be followed by a whitespace or by the end of
-// the stream. Streams silently wrap negative numbers read into unsigned types,
-// here these are an error.
+// the stream.
 template <typename T>
 std::istream& ReadCoordinate(std::istream& is, T* v) {
-  is >> std::ws;
-  if (std::is_unsigned<T>::value && is.good() && is.peek() == '-') {
-    is.setstate(std::ios_base::failbit);
-  }
   is >> *v;
   if (is.good()) {
     const int c = is.peek();
-- 
2.43.0


From 2646255a18d76c01770674d80d861ad327d5fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 21/26] fix: int8_t and uint8_t options were read and shown as
 characters

---
 cmd/Option.h | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index 2f927d8..f0f6b19 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -2,6 +2,7 @@
 #define CMD_OPTION_H
 
 #include <cassert>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
@@ -94,6 +95,48 @@ bool Option<bool>::Parse(const std::string& str) {
   }
 }
 
+// Specializations for int8_t and uint8_t, which streams read and write as
+// characters
+template <>
+std::string Option<int8_t>::Help(size_t w) const {
+  std::ostringstream oss;
+  oss << std::setw(w) << std::left << name_ << " : " << help_
+      << " (type = " << TypeInfo<int8_t>::Name()
+      << ", value = \"" << static_cast<int>(*value_) << "\")";
+  return oss.str();
+}
+
+template <>
+std::string Option<uint8_t>::Help(size_t w) const {
+  std::ostringstream oss;
+  oss << std::setw(w) << std::left << name_ << " : " << help_
+      << " (type = " << TypeInfo<uint8_t>::Name()
+      << ", value = \"" << static_cast<int>(*value_) << "\")";
+  return oss.str();
+}
+
+template <>
+bool Option<int8_t>::Parse(const std::string& str) {
+  int16_t value = 0;
+  if (!Option<int16_t>(name_, help_, &value).Parse(str) ||
+      value < INT8_MIN || value > INT8_MAX) {
+    return false;
+  }
+  *value_ = static_cast<int8_t>(value);
+  return true;
+}
+
+template <>
+bool Option<uint8_t>::Parse(const std::string& str) {
+  uint16_t value = 0;
+  if (!Option<uint16_t>(name_, help_, &value).Parse(str) ||
+      value > UINT8_MAX) {
+    return false;
+  }
+  *value_ = static_cast<uint8_t>(value);
+  return true;
+}
+
 // Specialization for std::string
 template <>
 bool Option<std::string>::Parse(const std::string &str) {
-- 
2.43.0


From 25d22bb071af0e166df8369704bca091cbc45256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 22/26] fix: a standard input that fails to be read was
 evaluated as no hypotheses

---
 tools/GenericKwsEvalTool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index d00882c..022420f 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -1,6 +1,7 @@
 #ifndef TOOLS_GENERICKWSEVALTOOL_H_
 #define TOOLS_GENERICKWSEVALTOOL_H_
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -291,7 +292,7 @@ class GenericKwsEvalTool {
     // Read hypothesis events
     std::vector<HypEvent> hyp_events;
     if (!(hyp_filename.empty()
-          ? hyp_reader_->Read(&std::cin, &hyp_events)
+          ? hyp_reader_->Read(&std::cin, &hyp_events) && !std::ferror(stdin)
           : hyp_reader_->Read(hyp_filename, &hyp_events))) {
       if (argc == 2) {
         std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
-- 
2.43.0


From c0ead3df5d8be48b20706c09b9e931c59959a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 23/26] fix: soft scorer charged errors below zero between
 boxes of double coordinates

---
 scorer/SoftBoundingBoxScorer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scorer/SoftBoundingBoxScorer.h b/scorer/SoftBoundingBoxScorer.h
index 66c9bd8..fc8a9d1 100644
--- a/scorer/SoftBoundingBoxScorer.h
+++ b/scorer/SoftBoundingBoxScorer.h
@@ -17,11 +17,14 @@ class SoftIntersectionOverHypothesisAreaScorer : public Scorer<RE, HE> {
 
   MatchError operator()(const RE& ref, const HE& hyp) override {
     if (ref.Query() != hyp.Query()) { return MatchError{1.0f, 1.0f}; }
+    // All areas have the same precision, so that no ratio exceeds 1.
     const float intersect_area = IntersectionArea(ref, hyp);
+    const float hyp_area = hyp.Area();
+    const float ref_area = ref.Area();
     const float fp =
-        1.0f - (hyp.Area() > 0.0f ? intersect_area / hyp.Area() : 0.0f);
+        1.0f - (hyp_area > 0.0f ? intersect_area / hyp_area : 0.0f);
     const float fn =
-        1.0f - (ref.Area() > 0.0f ? intersect_area / ref.Area() : 0.0f);
+        1.0f - (ref_area > 0.0f ? intersect_area / ref_area : 0.0f);
     return MatchError{fp, fn};
   }
 };
-- 
2.43.0


From 21a4a554d24dab16b32730fe742450a795ff9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 24/26] fix: boxes of int8_t and uint8_t coordinates were read
 and written as characters

---
 core/BoundingBox.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 4577c84..091874f 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -3,6 +3,7 @@
 
 #include <cctype>
 #include <cmath>
+#include <cstdint>
 #include <iostream>
 
 namespace kws {
@@ -75,6 +76,25 @@ std::istream& ReadCoordinate(std::istream& is, T* v) {
   return is;
 }
 
+// Streams read int8_t and uint8_t as characters.
+template <typename T>
+std::istream& ReadSmallCoordinate(std::istream& is, T* v) {
+  int c = 0;
+  if (ReadCoordinate(is, &c)) {
+    *v = static_cast<T>(c);
+    if (*v != c) is.setstate(std::ios_base::failbit);
+  }
+  return is;
+}
+
+inline std::istream& ReadCoordinate(std::istream& is, int8_t* v) {
+  return ReadSmallCoordinate(is, v);
+}
+
+inline std::istream& ReadCoordinate(std::istream& is, uint8_t* v) {
+  return ReadSmallCoordinate(is, v);
+}
+
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
   ReadCoordinate(is, &bb.x);
@@ -86,7 +106,8 @@ std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
 
 template <typename T>
 std::ostream& operator<<(std::ostream& os, const BoundingBox<T>& bb) {
-  os << bb.x << " " << bb.y << " " << bb.w << " " << bb.h;
+  // Promoted, as streams write int8_t and uint8_t as characters.
+  os << +bb.x << " " << +bb.y << " " << +bb.w << " " << +bb.h;
   return os;
 }
 
-- 
2.43.0


From 29c90d0cde3016bd6b53c9a6b7a6d99d0d2d374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:43 +0000
Subject: [PATCH 25/26] fix: error counts lost fractions of many ties and
 errors beyond 2^24, being added in single precision

---
 core/MatchError.h       | 12 +++++++-----
 core/MatchErrorCounts.h |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/MatchError.h b/core/MatchError.h
index 12a0fee..bb87ffa 100644
--- a/core/MatchError.h
+++ b/core/MatchError.h
@@ -8,9 +8,9 @@ namespace core {
 
 class MatchError {
 public:
-  MatchError() : fp_(0.0f), fn_(0.0f) {}
+  MatchError() : fp_(0.0), fn_(0.0) {}
 
-  MatchError(float fp, float fn) : fp_(fp), fn_(fn) {}
+  MatchError(double fp, double fn) : fp_(fp), fn_(fn) {}
 
   virtual ~MatchError() {}
 
@@ -22,16 +22,18 @@ public:
     return fp_ != other.fp_ || fn_ != other.fn_;
   }
 
-  inline float FP() const { return fp_; }
+  inline double FP() const { return fp_; }
 
-  inline float FN() const { return fn_; }
+  inline double FN() const { return fn_; }
 
   virtual size_t NH() const { return (fp_ > 0.0f || fn_ < 1.0f) ? 1 : 0; }
 
   virtual size_t NR() const { return (fp_ < 1.0f || fn_ > 0.0f) ? 1 : 0; }
 
 protected:
-  float fp_, fn_;
+  // Not float: sums of many fractions, or of more than 2^24 errors, would be
+  // rounded.
+  double fp_, fn_;
 };
 
 std::ostream& operator<<(std::ostream& oss, const MatchError& errors) {
diff --git a/core/MatchErrorCounts.h b/core/MatchErrorCounts.h
index 708486b..0b68aa0 100644
--- a/core/MatchErrorCounts.h
+++ b/core/MatchErrorCounts.h
@@ -15,12 +15,12 @@ public:
   using MatchError::fn_;
 
   MatchErrorCounts() :
-      MatchError(0.0f, 0.0f), nh_(0), nr_(0) {}
+      MatchError(0.0, 0.0), nh_(0), nr_(0) {}
 
   explicit MatchErrorCounts(const MatchError& m) :
       MatchError(m), nh_(m.NH()), nr_(m.NR()) {}
 
-  MatchErrorCounts(float fp, float fn, size_t nh, size_t nr) :
+  MatchErrorCounts(double fp, double fn, size_t nh, size_t nr) :
       MatchError(fp, fn), nh_(nh), nr_(nr) {}
 
   bool operator==(const MatchErrorCounts& other) const {
-- 
2.43.0


From e8405e2bf96faf485fabb34b26c3e9d9d1d0c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:38 +0000
Subject: [PATCH 26/26] fix: Match(fp, fn) held its errors in single precision

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 46df177..d360768 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -22,7 +22,7 @@ class Match {
     if (other.HasHyp()) SetHyp(other.GetHyp());
   }
 
-  Match(float fp, float fn) : error_(fp, fn) {}
+  Match(double fp, double fn) : error_(fp, fn) {}
 
   Match(const RefEvent& ref, const HypEvent& hyp, const MatchError& error) :
       error_(error) {
-- 
2.43.0

