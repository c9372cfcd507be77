From cdb9a545fff02429d79a8a340fa90d63ede488bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:26 +0000
Subject: [PATCH 01/46] fix: check prev() of enumerator items against the
 offset it reads

prev(n) reads the element n positions before the current one, but the
range check was done for the element n positions after it. prev() on the
first item read before the start of the sequence, and prev() on the last
item threw. The const overloads could not be called at all because the
check was not const.
---
 src/hstd/stdlib/Enumerate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 4e2e562..3728e67 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -34,7 +34,7 @@ class enumerator_impl {
                      - iterator_ref.skip_last;
             }
 
-            void check_offset(int offset) {
+            void check_offset(int offset) const {
                 int pos = index() + offset;
                 if (pos < 0 || size() <= pos) {
                     throw std::domain_error(
@@ -44,7 +44,7 @@ class enumerator_impl {
             }
 
             it_reference prev(int offset = 1) const {
-                check_offset(offset);
+                check_offset(-offset);
                 return *(iterator_ref.it - offset);
             }
 
@@ -54,7 +54,7 @@ class enumerator_impl {
             }
 
             it_reference prev(int offset = 1) {
-                check_offset(offset);
+                check_offset(-offset);
                 return *(iterator_ref.it - offset);
             }
 
-- 
2.43.0


From 903c41ddb0ab00964c0d30a8c75b71e29bef2296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:55 +0000
Subject: [PATCH 02/46] fix: clamp enumerator skip counts to the sequence

skip_first() and skip_last() together could move the begin iterator past
the end iterator, and the loop then ran off the end of the sequence. The
item size and base index also used the requested skip counts instead of
the ones that were applied, so they were wrong for negative or too large
counts.
---
 src/hstd/stdlib/Enumerate.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 3728e67..d8e0e7c 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -84,6 +84,15 @@ class enumerator_impl {
     int  skip_first_base = 0;
     int  skip_last_base  = 0;
 
+    /// Number of elements that are actually skipped at the start.
+    int skip_first_count() const { return std::clamp(skip_first_base, 0, base_size()); }
+
+    /// Number of elements that are actually skipped at the end: the elements
+    /// already skipped at the start can not be skipped once more.
+    int skip_last_count() const {
+        return std::clamp(skip_last_base, 0, base_size() - skip_first_count());
+    }
+
   public:
     enumerator_impl(Iter begin, Iter end) : base_begin(begin), base_end(end) {}
 
@@ -100,26 +109,25 @@ class enumerator_impl {
     int base_size() const { return std::distance(base_begin, base_end); }
 
     enumerate_iterator begin() {
-        auto start   = base_begin;
-        int  advance = std::clamp(skip_first_base, 0, base_size());
-        std::advance(start, advance);
+        auto start = base_begin;
+        std::advance(start, skip_first_count());
         return enumerate_iterator{
             .idx        = 0,
             .it         = start,
-            .skip_first = skip_first_base,
-            .skip_last  = skip_last_base,
+            .skip_first = skip_first_count(),
+            .skip_last  = skip_last_count(),
             .base_size  = base_size(),
         };
     }
 
     enumerate_iterator end() {
         auto end = base_end;
-        std::advance(end, -std::clamp(skip_last_base, 0, base_size()));
+        std::advance(end, -skip_last_count());
         return enumerate_iterator{
             .idx        = -1,
             .it         = end,
-            .skip_first = skip_first_base,
-            .skip_last  = skip_last_base,
+            .skip_first = skip_first_count(),
+            .skip_last  = skip_last_count(),
             .base_size  = base_size(),
         };
     }
-- 
2.43.0


From 90b1354303be0910f9382bdfcc1a0e2b27d268f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:24 +0000
Subject: [PATCH 03/46] fix: make the scope guard non-copyable so its action
 runs once

---
 src/hstd/stdlib/Func.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hstd/stdlib/Func.hpp b/src/hstd/stdlib/Func.hpp
index 1b30f15..1990847 100644
--- a/src/hstd/stdlib/Func.hpp
+++ b/src/hstd/stdlib/Func.hpp
@@ -31,6 +31,10 @@ struct finally {
     /// Default constructor, use as ~funally{[](){ callback-action(); }}~
     explicit finally(Func _action) : action(_action) {}
 
+    /// A copy of the guard would run the action once more
+    finally(finally const&)            = delete;
+    finally& operator=(finally const&) = delete;
+
     /// Overloaded constructor to run scope finalizer with some captured
     /// value
     template <typename T, typename Func1>
-- 
2.43.0


From c19c1030f689123e7ee9c78aca7da5d47720cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:53 +0000
Subject: [PATCH 04/46] fix: make from_index of dynamic variants callable and
 reject unknown indices

---
 src/hstd/stdlib/DynVariant.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/DynVariant.hpp b/src/hstd/stdlib/DynVariant.hpp
index 3972ebe..773020e 100644
--- a/src/hstd/stdlib/DynVariant.hpp
+++ b/src/hstd/stdlib/DynVariant.hpp
@@ -125,7 +125,7 @@ decltype(auto) dyn_visit(Visitor&& vis, dyn_variant<Tag> const& v) {
         std::forward<Visitor>(vis), v, std::make_index_sequence<Tag::type_count>{});
 }
 
-template <typename Tag, typename Factory, int... Is>
+template <typename Tag, typename Factory, std::size_t... Is>
 dyn_variant<Tag> from_index_impl(
     int       index,
     Factory&& factory,
@@ -144,6 +144,7 @@ dyn_variant<Tag> from_index_impl(
     static constexpr func_type table[] = {
         make_func(std::integral_constant<int, Is>{})...};
 
+    if (index < 0 || Tag::type_count <= index) { throw std::bad_variant_access{}; }
     return table[index](std::forward<Factory>(factory));
 }
 
-- 
2.43.0


From 526a637e1eda8c80c0b63d0d90b1fb7999a96b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:54 +0000
Subject: [PATCH 05/46] fix: saturate additions without relying on overflow

---
 src/hstd/system/basic_templates.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index 7002f53..1246422 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -125,27 +125,26 @@ struct value_domain_ungapped {
 
 template <std::integral T, std::integral Other>
 T saturating_add(T value, Other change) {
-    T res = value + change;
-    // Can only happen due to overflow
-    if (res < value) { res = value_domain<T>::high(); }
+    T res;
+    // Computed with infinite precision, true if the result does not fit
+    if (__builtin_add_overflow(value, change, &res)) {
+        res = change < 0 ? value_domain<T>::low() : value_domain<T>::high();
+    }
     return res;
 }
 
 template <std::integral T, std::integral Other>
 T saturating_sub(T value, Other change) {
-    T res = value - change;
-    // Can only happen due to overflow
-    if (value < res) { res = value_domain<T>::low(); }
+    T res;
+    if (__builtin_sub_overflow(value, change, &res)) {
+        res = change < 0 ? value_domain<T>::high() : value_domain<T>::low();
+    }
     return res;
 }
 
 template <std::integral T, std::integral Other>
 T saturating_add_any(T value, Other change) {
-    if (0 <= change) {
-        return saturating_add(value, change);
-    } else {
-        return saturating_sub(value, std::abs(change));
-    }
+    return saturating_add(value, change);
 }
 
 
-- 
2.43.0


From 7bc290d655c4a573832e3762264ce9f7a2c62f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:54 +0000
Subject: [PATCH 06/46] fix: do not truncate the ordinal of wide integers

---
 src/hstd/system/basic_templates.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index 1246422..d35c49e 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -69,7 +69,9 @@ struct value_domain<T> {
     static inline T             high() { return std::numeric_limits<T>::max(); }
     static inline T             succ(T const& val) { return val + 1; }
     static inline T             prev(T const& val) { return val - 1; }
-    static inline long long int ord(T const& val) { return static_cast<int>(val); }
+    static inline long long int ord(T const& val) {
+        return static_cast<long long int>(val);
+    }
 };
 
 template <typename T>
-- 
2.43.0


From b4bf5a973406eb02db055a9070ba3ca3ac8a7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:44 +0000
Subject: [PATCH 07/46] fix: keep fractional coordinates when a rectangle is
 extended

Rect::extend stored the merged bounds in int variables, so the result
did not cover the inputs when a coordinate had a fractional part.
---
 src/hstd/ext/geometry/hstd_geometry.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hstd/ext/geometry/hstd_geometry.hpp b/src/hstd/ext/geometry/hstd_geometry.hpp
index 3b3d63b..853c313 100644
--- a/src/hstd/ext/geometry/hstd_geometry.hpp
+++ b/src/hstd/ext/geometry/hstd_geometry.hpp
@@ -417,19 +417,19 @@ struct Rect : bg::model::box<Point> {
 
 
     inline void extend(Point const& point) {
-        int _min_x = std::min(min_x(), point.x());
-        int _max_x = std::max(max_x(), point.x());
-        int _min_y = std::min(min_y(), point.y());
-        int _max_y = std::max(max_y(), point.y());
-        *this      = Rect(_min_x, _min_y, _max_x - _min_x, _max_y - _min_y);
+        double _min_x = std::min(min_x(), point.x());
+        double _max_x = std::max(max_x(), point.x());
+        double _min_y = std::min(min_y(), point.y());
+        double _max_y = std::max(max_y(), point.y());
+        *this         = Rect(_min_x, _min_y, _max_x - _min_x, _max_y - _min_y);
     }
 
     inline void extend(Rect const& other) {
-        int _min_x = std::min(min_x(), other.min_x());
-        int _max_x = std::max(max_x(), other.max_x());
-        int _min_y = std::min(min_y(), other.min_y());
-        int _max_y = std::max(max_y(), other.max_y());
-        *this      = Rect(_min_x, _min_y, _max_x - _min_x, _max_y - _min_y);
+        double _min_x = std::min(min_x(), other.min_x());
+        double _max_x = std::max(max_x(), other.max_x());
+        double _min_y = std::min(min_y(), other.min_y());
+        double _max_y = std::max(max_y(), other.max_y());
+        *this         = Rect(_min_x, _min_y, _max_x - _min_x, _max_y - _min_y);
     }
 };
 } // namespace hstd::ext::geometry
-- 
2.43.0


From d8f0fa64027675a53b17f01c79756ec4e74eeb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:53 +0000
Subject: [PATCH 08/46] fix: report the whole type name and nothing else from
 get_type_name_fallback

---
 src/hstd/system/basic_templates.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index d35c49e..89abac8 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -10,12 +10,16 @@ namespace hstd {
 
 template <typename T>
 constexpr ::std::string_view get_type_name_fallback() {
-#if defined(__clang__)
-    ::std::string_view p = __PRETTY_FUNCTION__;
-    return ::std::string_view(p.data() + 34, p.size() - 35);
-#elif defined(__GNUG__)
-    std::string_view p = __PRETTY_FUNCTION__;
-    return std::string_view(p.data() + 49, p.find(';', 49) - 49);
+#if defined(__clang__) || defined(__GNUG__)
+    // The prefix differs between compilers: "... [T = int]" and
+    // "... [with T = int; ...]"
+    ::std::string_view p     = __PRETTY_FUNCTION__;
+    auto const         start = p.find("T = ") + 4;
+#    if defined(__clang__)
+    return p.substr(start, p.size() - start - 1);
+#    else
+    return p.substr(start, p.find(';', start) - start);
+#    endif
 #else
     return "unknown";
 #endif
-- 
2.43.0


From 817acf7028125a04e285cdd9129eb3f41cb0a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:56 +0000
Subject: [PATCH 09/46] fix: keep string literals with embedded NUL characters
 whole

---
 src/hstd/system/basic_typedefs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/system/basic_typedefs.hpp b/src/hstd/system/basic_typedefs.hpp
index 20c5b80..15f1e41 100644
--- a/src/hstd/system/basic_typedefs.hpp
+++ b/src/hstd/system/basic_typedefs.hpp
@@ -30,8 +30,8 @@ inline u8 operator""_u8(unsigned long long int value) {
     return static_cast<u8>(value);
 }
 
-inline std::string operator""_qs(char const* value,  [[maybe_unused]] unsigned long size) {
-    return std::string(value);
+inline std::string operator""_qs(char const* value, unsigned long size) {
+    return std::string(value, size);
 }
 
 template <typename T> using Ref   = T&;
-- 
2.43.0


From 9d2aec1440759e95cf4aaac927764017a38ce57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:13 +0000
Subject: [PATCH 10/46] fix: name the patchwork layout in reflection data and
 layout selection

The enumerator exists and is documented, but it was left out of the
description of the enum and had no layout engine name.
---
 src/hstd/ext/graph/visual/graph_graphviz.cpp | 1 +
 src/hstd/ext/graph/visual/graph_graphviz.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/visual/graph_graphviz.cpp b/src/hstd/ext/graph/visual/graph_graphviz.cpp
index 6af0e93..6e98c4f 100644
--- a/src/hstd/ext/graph/visual/graph_graphviz.cpp
+++ b/src/hstd/ext/graph/visual/graph_graphviz.cpp
@@ -586,6 +586,7 @@ Str gv::layoutTypeToString(LayoutType layoutType) {
         case LayoutType::Sfdp: return "sfdp";
         case LayoutType::Twopi: return "twopi";
         case LayoutType::Circo: return "circo";
+        case LayoutType::Patchwork: return "patchwork";
         default: throw std::runtime_error("Invalid layout type.");
     }
 }
diff --git a/src/hstd/ext/graph/visual/graph_graphviz.hpp b/src/hstd/ext/graph/visual/graph_graphviz.hpp
index fdec023..9cd1d16 100644
--- a/src/hstd/ext/graph/visual/graph_graphviz.hpp
+++ b/src/hstd/ext/graph/visual/graph_graphviz.hpp
@@ -90,7 +90,7 @@ enum class LayoutType
     Patchwork, /// Patchwork, squarified treemap layout
 };
 
-BOOST_DESCRIBE_ENUM(LayoutType, Dot, Neato, Fdp, Sfdp, Twopi, Circo);
+BOOST_DESCRIBE_ENUM(LayoutType, Dot, Neato, Fdp, Sfdp, Twopi, Circo, Patchwork);
 
 enum class RenderFormat
 {
-- 
2.43.0


From 6b2416b09f986baa96238467c1835e3f4cd2d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:13 +0000
Subject: [PATCH 11/46] fix: describe ImmAstTrackingMap::names once

The field was listed twice, so every visitor of the described fields
handled it twice.
---
 src/haxorg/imm/ImmOrg.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/haxorg/imm/ImmOrg.hpp b/src/haxorg/imm/ImmOrg.hpp
index 077efb8..8d2d667 100644
--- a/src/haxorg/imm/ImmOrg.hpp
+++ b/src/haxorg/imm/ImmOrg.hpp
@@ -341,8 +341,7 @@ struct ImmAstTrackingMap {
          names,
          customIds,
          parents,
-         hashtagDefinitions,
-         names));
+         hashtagDefinitions));
 
     bool isParentTracked(ImmId const& item) const { return parents.contains(item); }
 
-- 
2.43.0


From 01f1adc3319331388893dd4ee80a3f853c1b4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:53 +0000
Subject: [PATCH 12/46] fix: compare minutes in UserTimeBreakdown::operator==

Two times that differ only in the minute compared equal.
---
 src/hstd/stdlib/Time.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Time.hpp b/src/hstd/stdlib/Time.hpp
index b150a0f..665edf5 100644
--- a/src/hstd/stdlib/Time.hpp
+++ b/src/hstd/stdlib/Time.hpp
@@ -33,6 +33,7 @@ struct [[refl]] UserTimeBreakdown {
             && month == other.month   //
             && day == other.day       //
             && hour == other.hour     //
+            && minute == other.minute //
             && second == other.second //
             && zone == other.zone;
     }
-- 
2.43.0


From ad87392f8746a7d4d5c2c4b013f45b60bb929f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:53 +0000
Subject: [PATCH 13/46] fix: order node paths and unique ids lexicographically

Requiring every component to be smaller is not a strict weak order:
paths under one root, and ids that differ in only one component, were
equivalent to each other, so ordered containers lost entries.
---
 src/haxorg/imm/ImmOrg.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/imm/ImmOrg.hpp b/src/haxorg/imm/ImmOrg.hpp
index 8d2d667..82b3dd6 100644
--- a/src/haxorg/imm/ImmOrg.hpp
+++ b/src/haxorg/imm/ImmOrg.hpp
@@ -203,7 +203,8 @@ struct [[refl]] ImmPath {
 
     bool operator<(ImmPath const& other) const {
         return root < other.root
-            && hstd::itemwise_less_than(path, other.path, std::less<ImmPathStep>{});
+            || (root == other.root
+                && hstd::itemwise_less_than(path, other.path, std::less<ImmPathStep>{}));
     }
 };
 
@@ -241,7 +242,9 @@ struct [[refl]] ImmUniqId {
 
     bool operator==(ImmUniqId const& it) const { return id == it.id && path == it.path; }
 
-    bool operator<(ImmUniqId const& it) const { return id < it.id && path < it.path; }
+    bool operator<(ImmUniqId const& it) const {
+        return id < it.id || (id == it.id && path < it.path);
+    }
 };
 
 } // namespace org::imm
-- 
2.43.0


From 09c54c40e1f916505d852770626352c4c7301623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:53 +0000
Subject: [PATCH 14/46] fix: stop itemwise_less_than at the first differing
 element

A smaller element after a greater one made both sequences less than
each other.
---
 src/hstd/stdlib/Vec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Vec.hpp b/src/hstd/stdlib/Vec.hpp
index 99f69d0..b01154d 100644
--- a/src/hstd/stdlib/Vec.hpp
+++ b/src/hstd/stdlib/Vec.hpp
@@ -33,6 +33,7 @@ bool itemwise_less_than(
                     );
          ++i) {
         if (cmp(lhs.at(i), rhs.at(i))) { return true; }
+        if (cmp(rhs.at(i), lhs.at(i))) { return false; }
     }
     return lhs.size() < rhs.size();
 }
-- 
2.43.0


From a027917cc3ac80e3cbc62231f0a7c5f865934a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:36 +0000
Subject: [PATCH 15/46] fix: let C field getters read the record they are given

---
 src/wrappers/c/haxorg_c_utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wrappers/c/haxorg_c_utils.hpp b/src/wrappers/c/haxorg_c_utils.hpp
index a0e5a75..19225f0 100644
--- a/src/wrappers/c/haxorg_c_utils.hpp
+++ b/src/wrappers/c/haxorg_c_utils.hpp
@@ -97,7 +97,8 @@ concept NoVtable = !requires { VTable<T>::no_vtable; } || requires {
 };
 
 template <typename T>
-concept IsExactlyValue = std::same_as<std::remove_cvref_t<T>, T>;
+concept IsExactlyValue = std::same_as<std::remove_cvref_t<T>, T>
+                      && !std::is_pointer_v<T>;
 
 template <typename CppType, typename CType>
 struct ArgUnwrapper;
@@ -163,7 +164,7 @@ struct ArgUnwrapper<org::sem::SemId<CppType>, CType> {
 template <typename CppType, IsCWrapped CType>
 struct ArgUnwrapper<CppType, CType> {
     static CppType unwrap(OrgContext* ctx, CType val) {
-        return unwrap_instance<CppType>(ctx, val.data);
+        return unwrap_instance<std::remove_pointer_t<CppType>>(ctx, val.data);
     }
 };
 
-- 
2.43.0


From 1227b7736d8b30f2460225c17fa83efe0657ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:36 +0000
Subject: [PATCH 16/46] fix: report a null C handle as an error of the call

---
 src/wrappers/c/haxorg_c_utils.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/wrappers/c/haxorg_c_utils.hpp b/src/wrappers/c/haxorg_c_utils.hpp
index 19225f0..6fdac2b 100644
--- a/src/wrappers/c/haxorg_c_utils.hpp
+++ b/src/wrappers/c/haxorg_c_utils.hpp
@@ -44,10 +44,7 @@ inline void set_context_error(OrgContext* ctx, char const* msg) {
 
 template <typename CoreT>
 CoreT* unwrap_instance(OrgContext* ctx, haxorg_ptr_payload const& payload) {
-    if (!payload.data) {
-        set_context_error(ctx, "Instance pointer is null");
-        return nullptr;
-    }
+    if (!payload.data) { throw std::invalid_argument("Instance pointer is null"); }
 
     MemoryPolicy policy  = get_pointer_policy(payload.data);
     void*        raw_ptr = untag_pointer(payload.data);
@@ -321,8 +318,8 @@ ResultCType execute_cpp(
     OrgContext* ctx,
     CFirstArg   c_self,
     CArgs... c_args) {
-    Class& self_ref = ArgUnwrapper<Class&, CFirstArg>::unwrap(ctx, c_self);
-    auto   bound    = [&self_ref, method](CppArgs... cpp_args) -> ResultCppType {
+    auto bound = [ctx, c_self, method](CppArgs... cpp_args) -> ResultCppType {
+        Class& self_ref = ArgUnwrapper<Class&, CFirstArg>::unwrap(ctx, c_self);
         return (self_ref.*method)(std::forward<CppArgs>(cpp_args)...);
     };
     return detail::
@@ -343,8 +340,9 @@ ResultCType execute_cpp(
     OrgContext* ctx,
     CFirstArg   c_self,
     CArgs... c_args) {
-    Class const& self_ref = ArgUnwrapper<const Class&, CFirstArg>::unwrap(ctx, c_self);
-    auto         bound    = [&self_ref, method](CppArgs... cpp_args) -> ResultCppType {
+    auto bound = [ctx, c_self, method](CppArgs... cpp_args) -> ResultCppType {
+        Class const&
+            self_ref = ArgUnwrapper<const Class&, CFirstArg>::unwrap(ctx, c_self);
         return (self_ref.*method)(std::forward<CppArgs>(cpp_args)...);
     };
     return detail::
-- 
2.43.0


From 3e95345a2a21287bc8a074bb75662a1316791dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:36 +0000
Subject: [PATCH 17/46] fix: destroy only what a C handle owns

---
 src/wrappers/c/haxorg_c_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrappers/c/haxorg_c_utils.hpp b/src/wrappers/c/haxorg_c_utils.hpp
index 6fdac2b..0a5a5ea 100644
--- a/src/wrappers/c/haxorg_c_utils.hpp
+++ b/src/wrappers/c/haxorg_c_utils.hpp
@@ -371,12 +371,12 @@ ResultCType get_cpp_field(
 
 template <typename BaseType, typename WrappedType>
 void execute_destroy(OrgContext* ctx, WrappedType* type) {
-    delete unwrap_instance<BaseType>(ctx, type->data);
-    type->data.data = nullptr;
+    destroy_instance<BaseType>(&type->data.data, ctx);
 }
 
 template <typename VTableType, typename WrappedType>
 void execute_destroy_vtable(OrgContext* ctx, WrappedType* type) {
+    if (!type->data.vtable) { return; }
     static_cast<VTableType const*>(type->data.vtable)->destroy(ctx, type);
     // delete unwrap_instance<BaseType>(ctx, type->data);
     type->data.data = nullptr;
-- 
2.43.0


From 7c2d8e092fe7b653a16b8bce473ee9c667b7387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:36 +0000
Subject: [PATCH 18/46] fix: reach the object behind a shared C handle

---
 src/wrappers/c/haxorg_c_utils.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wrappers/c/haxorg_c_utils.hpp b/src/wrappers/c/haxorg_c_utils.hpp
index 0a5a5ea..0d210c4 100644
--- a/src/wrappers/c/haxorg_c_utils.hpp
+++ b/src/wrappers/c/haxorg_c_utils.hpp
@@ -42,6 +42,11 @@ inline void set_context_error(OrgContext* ctx, char const* msg) {
 }
 
 
+template <typename T>
+constexpr bool is_shared_ptr = false;
+template <typename T>
+constexpr bool is_shared_ptr<std::shared_ptr<T>> = true;
+
 template <typename CoreT>
 CoreT* unwrap_instance(OrgContext* ctx, haxorg_ptr_payload const& payload) {
     if (!payload.data) { throw std::invalid_argument("Instance pointer is null"); }
@@ -49,6 +54,13 @@ CoreT* unwrap_instance(OrgContext* ctx, haxorg_ptr_payload const& payload) {
     MemoryPolicy policy  = get_pointer_policy(payload.data);
     void*        raw_ptr = untag_pointer(payload.data);
 
+    if constexpr (!is_shared_ptr<std::remove_const_t<CoreT>>) {
+        if (policy == MemoryPolicy::Shared) {
+            return static_cast<std::shared_ptr<std::remove_const_t<CoreT>>*>(raw_ptr)
+                ->get();
+        }
+    }
+
     return static_cast<CoreT*>(raw_ptr);
 }
 
-- 
2.43.0


From 4ffbb51fa4edac852ef1e5111d484a3803a39289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:36 +0000
Subject: [PATCH 19/46] fix: hand out returned pointers as borrowed C handles

---
 src/wrappers/c/haxorg_c_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/wrappers/c/haxorg_c_utils.hpp b/src/wrappers/c/haxorg_c_utils.hpp
index 0d210c4..6c1bfe6 100644
--- a/src/wrappers/c/haxorg_c_utils.hpp
+++ b/src/wrappers/c/haxorg_c_utils.hpp
@@ -242,6 +242,11 @@ struct InferMemoryPolicy<T&> {
     static constexpr MemoryPolicy value = MemoryPolicy::Reference;
 };
 
+template <typename T>
+struct InferMemoryPolicy<T*> {
+    static constexpr MemoryPolicy value = MemoryPolicy::Reference;
+};
+
 template <
     typename ResultCType,
     typename ResultCppType,
@@ -275,6 +280,12 @@ ResultCType execute_cpp_impl(
                     Policy == MemoryPolicy::Unique || Policy == MemoryPolicy::Shared) {
                     using DecayedT = std::decay_t<decltype(result)>;
                     raw_ptr        = new DecayedT(std::forward<decltype(result)>(result));
+                } else if constexpr (std::is_pointer_v<ResultCppType>) {
+                    raw_ptr = (void*)(result);
+                    if (!raw_ptr) {
+                        return ResultTypeBuilder<ResultCType, ResultCppType>::
+                            build_null();
+                    }
                 } else if constexpr (Policy == MemoryPolicy::Reference) {
                     raw_ptr = (void*)(&result);
                 }
-- 
2.43.0


From b6c6ce6083d8ccd1d9142a005d249046fc210e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:36 +0000
Subject: [PATCH 20/46] fix: give every C handle the function table of what it
 refers to

---
 src/wrappers/c/haxorg_c_utils.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/wrappers/c/haxorg_c_utils.hpp b/src/wrappers/c/haxorg_c_utils.hpp
index 6c1bfe6..88f9d6c 100644
--- a/src/wrappers/c/haxorg_c_utils.hpp
+++ b/src/wrappers/c/haxorg_c_utils.hpp
@@ -202,7 +202,7 @@ struct ResultTypeBuilder<CType, CppRetT> {
     static CType build(void* t) {
         return {haxorg_ptr_payload{
             .data   = t,
-            .vtable = VTable<CppRetT>::get_vtable(),
+            .vtable = VTable<CoreT>::get_vtable(),
         }};
     }
 
@@ -247,6 +247,17 @@ struct InferMemoryPolicy<T*> {
     static constexpr MemoryPolicy value = MemoryPolicy::Reference;
 };
 
+// Immutable nodes keep some of the field values in boxes
+template <typename T>
+struct Unboxed {
+    using Type = T;
+};
+
+template <typename T>
+struct Unboxed<hstd::ext::ImmBox<T>> {
+    using Type = T;
+};
+
 template <
     typename ResultCType,
     typename ResultCppType,
@@ -383,10 +394,13 @@ ResultCType get_cpp_field(
     OrgContext*   ctx,
     CRecordType   __this,
     ResultCppType CppRecordType::* field_ptr) {
-    auto lambda = [field_ptr](CppRecordType const* _class) { return _class->*field_ptr; };
+    using ValueT = typename detail::Unboxed<ResultCppType>::Type;
+    auto lambda  = [field_ptr](CppRecordType const* _class) -> ValueT {
+        return _class->*field_ptr;
+    };
     return detail::execute_cpp_impl<
         ResultCType,
-        ResultCppType,
+        ValueT,
         decltype(lambda),
         CppRecordType const*>(lambda, ctx, __this);
 }
-- 
2.43.0


From ad6e27f853d78b6d0291a91315616f0fb7f703e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:51 +0000
Subject: [PATCH 21/46] fix: let slices that share a boundary overlap

---
 src/hstd/stdlib/Slice.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/Slice.hpp b/src/hstd/stdlib/Slice.hpp
index 733041c..55c8e08 100644
--- a/src/hstd/stdlib/Slice.hpp
+++ b/src/hstd/stdlib/Slice.hpp
@@ -73,10 +73,10 @@ struct Slice : public HSlice<T, T> {
     }
 
     std::optional<Slice<T>> overlap(Slice<T> const& other) const {
-        if (first < other.last && other.first < last) {
-            int overlap_start = std::max(first, other.first);
-            int overlap_end   = std::min(last, other.last);
-            return Slice<int>{overlap_start, overlap_end};
+        if (first <= other.last && other.first <= last) {
+            T overlap_start = std::max(first, other.first);
+            T overlap_end   = std::min(last, other.last);
+            return Slice<T>{overlap_start, overlap_end};
         } else {
             return std::nullopt;
         }
-- 
2.43.0


From 9195b2106473161dbc43b7b94fac7a2f9bf57ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:51 +0000
Subject: [PATCH 22/46] fix: reject container slices that end before they start

---
 src/hstd/stdlib/Slice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Slice.hpp b/src/hstd/stdlib/Slice.hpp
index 55c8e08..ef3afbd 100644
--- a/src/hstd/stdlib/Slice.hpp
+++ b/src/hstd/stdlib/Slice.hpp
@@ -223,7 +223,8 @@ Pair<int, int> getSpan(
     }
 
     if (checkRange
-        && !((0 <= startPos && startPos < size) && (0 <= endPos && endPos < size))) {
+        && !((0 <= startPos && startPos < size) && (0 <= endPos && endPos < size)
+             && startPos <= endPos + 1)) {
         throw hstd::range_error::init(
             fmt::format(
                 "Container index is out of range: real span range is "
-- 
2.43.0


From dda17234417827966927dfd4d39de6092bc0f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:51 +0000
Subject: [PATCH 23/46] fix: give no data for negative span offsets

---
 src/hstd/stdlib/Span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Span.hpp b/src/hstd/stdlib/Span.hpp
index 07fceb6..d51bcfe 100644
--- a/src/hstd/stdlib/Span.hpp
+++ b/src/hstd/stdlib/Span.hpp
@@ -40,7 +40,7 @@ class Span : public std::span<T> {
     /// cutting `[1, 2]` out of `[1, 2, 3, 4, 5]`) but avoid creation of
     /// dangling pointers.
     T* dataAtOffset(int offset) {
-        if (offset < size() && data() != nullptr) {
+        if (0 <= offset && offset < size() && data() != nullptr) {
             return data() + offset;
         } else {
             return nullptr;
-- 
2.43.0


From a0c97a84c4a2571db2eec24e76f843f2c681efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:51 +0000
Subject: [PATCH 24/46] fix: keep the size of a span window moved by its end

---
 src/hstd/stdlib/Span.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Span.hpp b/src/hstd/stdlib/Span.hpp
index d51bcfe..9c497c8 100644
--- a/src/hstd/stdlib/Span.hpp
+++ b/src/hstd/stdlib/Span.hpp
@@ -100,8 +100,7 @@ class Span : public std::span<T> {
         /// directions.
         bool fixSize = false) {
         if (fixSize) {
-            auto data = dataAtOffset(steps);
-            *this     = Span<T>(data, clampSize(size() + steps, data, maxEnd));
+            moveStart(steps, maxEnd, true);
         } else {
             *this = Span<T>(data(), clampSize(size() + steps, data(), maxEnd));
         }
-- 
2.43.0


From a8c4f15247599a907d55a0dd6705e9bb12ae7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 25/46] fix: keep the mask of an id when its unmasked part is
 set

---
 src/hstd/stdlib/dod_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 4e874d6..bb983a1 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -129,7 +129,7 @@ struct [[nodiscard]] Id {
     }
 
     /// \brief Set unmasked portion of the value
-    inline void setUnmasked(IdType base) { value = getMask() | base; }
+    inline void setUnmasked(IdType base) { value = getMaskUnshifed() | base; }
 
     /// \brief Set mask for the ID
     inline void setMask(MaskType mask) {
-- 
2.43.0


From 1cc60d5747bdb45260acff82c4fe8b2e20207c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 26/46] fix: read the mask of an id without mask bits as zero

---
 src/hstd/stdlib/dod_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index bb983a1..96ee209 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -119,12 +119,14 @@ struct [[nodiscard]] Id {
     /// \brief Get mask value
     inline MaskType getMask() const {
 #pragma clang diagnostic ignored "-Wshift-count-overflow"
+        if (mask_size == 0) { return 0; }
         return (value & (~IdType(0) << mask_offset)) >> mask_offset;
     }
 
     /// \brief Get direct value of the mask, with right-padded zeroes that
     /// were occupied by the value.
     inline MaskType getMaskUnshifed() const {
+        if (mask_size == 0) { return 0; }
         return (value & (~IdType(0) << mask_offset));
     }
 
-- 
2.43.0


From 8a2c1d84f6dc83950aeec8b7a4736a73fe077c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 27/46] fix: stop incremented ids at the last index instead of
 changing the mask

---
 src/hstd/stdlib/dod_base.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 96ee209..ee6b776 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -130,6 +130,11 @@ struct [[nodiscard]] Id {
         return (value & (~IdType(0) << mask_offset));
     }
 
+    /// \brief Largest value of the unmasked part
+    static constexpr IdType maxUnmasked() {
+        return static_cast<IdType>(std::numeric_limits<IdType>::max() >> MaskSizeT::value);
+    }
+
     /// \brief Set unmasked portion of the value
     inline void setUnmasked(IdType base) { value = getMaskUnshifed() | base; }
 
@@ -299,7 +304,9 @@ Id operator--(Id& id, int) {
 /// \brief Saturated in-place pre-increment of the ID
 template <IsIdType Id>
 Id& operator++(Id& id) {
-    id.setValue(id.getMaskUnshifed() | saturating_add(id.getUnmasked(), 1));
+    id.setValue(
+        id.getMaskUnshifed()
+        | std::min(Id::maxUnmasked(), saturating_add(id.getUnmasked(), 1)));
     return id;
 }
 
@@ -313,14 +320,17 @@ auto operator-(Id lhs, Id rhs) {
 template <IsIdType Id>
 Id operator+(Id id, int extent) {
     return Id::FromValue(
-        id.getMaskUnshifed() | saturating_add_any(id.getUnmasked(), extent));
+        id.getMaskUnshifed()
+        | std::min(Id::maxUnmasked(), saturating_add_any(id.getUnmasked(), extent)));
 }
 
 /// \brief Saturated in-place post-increment of the ID
 template <IsIdType Id>
 Id operator++(Id& id, int) {
     Id res = id;
-    id.setValue(id.getMaskUnshifed() | saturating_add(id.getUnmasked(), 1));
+    id.setValue(
+        id.getMaskUnshifed()
+        | std::min(Id::maxUnmasked(), saturating_add(id.getUnmasked(), 1)));
     return res;
 }
 
-- 
2.43.0


From fe096c9f340df743e8374e2fe64f65934f95caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 28/46] fix: format nil ids without asking for their index

---
 src/hstd/stdlib/dod_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index ee6b776..6c2f5eb 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -219,7 +219,8 @@ struct [[nodiscard]] Id {
 
     /// \brief Write strig representation of the ID into output stream
     std::string format(FormatConfig const& conf = FormatConfig{}) const {
-        return detail::format_id(getMask(), getIndex(), mask_size, conf, isNil());
+        return detail::format_id(
+            getMask(), isNil() ? 0 : getIndex(), mask_size, conf, isNil());
     }
 
   public:
-- 
2.43.0


From 5d19b344b893940b2322dd86667522abd4eb792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 29/46] fix: make the last id of a store refer to the last
 element

---
 src/hstd/stdlib/dod_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 6c2f5eb..7d82bfd 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -438,7 +438,7 @@ struct Store {
 
     /// \brief Last element stored in the store (by index)
     Id back() const { return Id::FromValue(content.size()); }
-    Id high() const { return Id::FromValue(content.size() - 1); }
+    Id high() const { return back(); }
 
     /// \brief Mutable reference of the value at specific *index* (don't
     /// confuse with ID)
-- 
2.43.0


From a53c52c1119e72faddf106152c7c03b3d1e4d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 30/46] fix: let stores be sliced by ids

---
 src/hstd/stdlib/dod_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 7d82bfd..3a768c6 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -451,7 +451,8 @@ struct Store {
     /// \note Both start and end ID should ideally have the same store
     /// index, otherwise this method does not make a lot of sense.
     std::span<T> at(HSlice<Id, Id> slice) {
-        return content.at(slice(slice.first.getIndex(), slice.last.getIndex()));
+        return content.at(
+            hstd::slice(slice.first.getIntIndex(), slice.last.getIntIndex()));
     }
 
 
-- 
2.43.0


From 8216d080350c6a86e0af95f17acf500b099a11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:31 +0000
Subject: [PATCH 31/46] fix: let temporaries be added to a store with a mask

---
 src/hstd/stdlib/dod_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 3a768c6..27f3bce 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -413,7 +413,7 @@ struct Store {
         auto result = Id::FromMaskedIdx(index, mask);
         LOGIC_ASSERTION_CHECK(
             !result.isNil(), "Implementation error, added ID cannot be nil");
-        return result;
+        return Id(result);
     }
 
     /// Add value to the storage and return newly created ID
-- 
2.43.0


From b477d029b68ee8a5966998d20286d4272324ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:14 +0000
Subject: [PATCH 32/46] fix: make the complement of an integer set compile

---
 src/hstd/stdlib/IntSet.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/IntSet.hpp b/src/hstd/stdlib/IntSet.hpp
index 4bfd621..2bbc261 100644
--- a/src/hstd/stdlib/IntSet.hpp
+++ b/src/hstd/stdlib/IntSet.hpp
@@ -135,7 +135,11 @@ struct [[refl(R"({
 
     /// Return complement of the set that contains all values that were not
     /// placed in the original set.
-    IntSet<T> operator~() { return {.values = ~values}; }
+    IntSet<T> operator~() const {
+        IntSet<T> result;
+        result.values = ~values;
+        return result;
+    }
 
     int  size() const { return values.count(); }
     bool empty() const { return size() == 0; }
-- 
2.43.0


From 959fb913d528681bc52aa65ceae03006759c0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:13:14 +0000
Subject: [PATCH 33/46] fix: iterate integer sets over the values that were put
 in

---
 src/hstd/stdlib/IntSet.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/IntSet.hpp b/src/hstd/stdlib/IntSet.hpp
index 2bbc261..0bde95b 100644
--- a/src/hstd/stdlib/IntSet.hpp
+++ b/src/hstd/stdlib/IntSet.hpp
@@ -23,7 +23,12 @@ T value_from_bitset_index(int index);
 
 template <typename T>
 T value_from_bitset_index(int index) {
-    return static_cast<T>(index);
+    if constexpr (requires { value_domain<T>::D[index]; }) {
+        // Ordinal of the described enumeration is a position of the value
+        return value_domain<T>::D[index];
+    } else {
+        return static_cast<T>(static_cast<long long int>(value_domain<T>::low()) + index);
+    }
 }
 
 /*!
@@ -71,7 +76,7 @@ struct [[refl(R"({
     // added purely for footgun reasons.
   private:
     constexpr static inline std::size_t toIdx(T const& value) {
-        return value_domain<T>::ord(value);
+        return value_domain<T>::ord(value) - value_domain<T>::ord(value_domain<T>::low());
     }
 
     constexpr void buildSet(Ref<IntSet<T>> result) {}
-- 
2.43.0


From d88f143a217368491c46bcf6bd8a6ca94ef870ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:04:15 +0000
Subject: [PATCH 34/46] fix: do not order a range before an equal one when
 building a range tree

---
 src/hstd/stdlib/RangeTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeTree.hpp b/src/hstd/stdlib/RangeTree.hpp
index 95bae8a..eb07790 100644
--- a/src/hstd/stdlib/RangeTree.hpp
+++ b/src/hstd/stdlib/RangeTree.hpp
@@ -117,7 +117,7 @@ class RangeTree {
                 // When lhs completely contains rhs, sort lhs first.
                 return rhs.range.last < lhs.range.last;
             } else {
-                return true;
+                return false;
             }
         });
 
-- 
2.43.0


From 5d25cddd7d4b72c8043142c4b6abc35bb6542a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:04:15 +0000
Subject: [PATCH 35/46] fix: count protected and private fields in fields by
 own index

---
 src/hstd/system/reflection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/system/reflection.hpp b/src/hstd/system/reflection.hpp
index 0c44a6d..c1418fb 100644
--- a/src/hstd/system/reflection.hpp
+++ b/src/hstd/system/reflection.hpp
@@ -473,7 +473,7 @@ template <typename T>
 void* get_field_ptr_by_own_index(T& object, int index) {
     if constexpr (boost::describe::has_describe_members<T>::value) {
         using own_members = boost::describe::
-            describe_members<T, boost::describe::mod_public>;
+            describe_members<T, boost::describe::mod_any_access>;
         constexpr int own_count = boost::mp11::mp_size<own_members>::value;
 
         if (index < 0 || own_count <= index) {
-- 
2.43.0


From b5f1bad4a997ed534d4ce64a6c9c856d01e3e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:24 +0000
Subject: [PATCH 36/46] fix: end iteration over typed array pairs after the
 last key

---
 src/hstd/stdlib/Array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/Array.hpp b/src/hstd/stdlib/Array.hpp
index b91236e..d2eb4fa 100644
--- a/src/hstd/stdlib/Array.hpp
+++ b/src/hstd/stdlib/Array.hpp
@@ -101,16 +101,16 @@ struct TypArray : public Array<Val, pow_v<2, 8 * sizeof(Key)>::res> {
 
 
     generator<Pair<Key, Val const*>> pairs() const {
-        for (auto i = value_domain<Key>::low(); i <= value_domain<Key>::high();
-             i      = value_domain<Key>::succ(i)) {
+        for (auto i = value_domain<Key>::low();; i = value_domain<Key>::succ(i)) {
             co_yield {i, &this->operator[](i)};
+            if (i == value_domain<Key>::high()) { break; }
         }
     }
 
     generator<Pair<Key, Val*>> pairs() {
-        for (auto i = value_domain<Key>::low(); i <= value_domain<Key>::high();
-             i      = value_domain<Key>::succ(i)) {
+        for (auto i = value_domain<Key>::low();; i = value_domain<Key>::succ(i)) {
             co_yield {i, &this->operator[](i)};
+            if (i == value_domain<Key>::high()) { break; }
         }
     }
 };
-- 
2.43.0


From 8e4bcbbca5e0cb2f47f6b144709cb2f59a6ed552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:24 +0000
Subject: [PATCH 37/46] fix: name the filled-in side of zipToMax after the side
 it fills

---
 src/hstd/stdlib/diffs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.hpp b/src/hstd/stdlib/diffs.hpp
index 96271be..e1fe4de 100644
--- a/src/hstd/stdlib/diffs.hpp
+++ b/src/hstd/stdlib/diffs.hpp
@@ -241,8 +241,8 @@ template <typename T>
 struct ZipToMaxResult {
     T    lhs;
     T    rhs;
-    bool rhsDefault;
     bool lhsDefault;
+    bool rhsDefault;
     int  idx;
 };
 
-- 
2.43.0


From e65efd7eae4d44a3ba21f267ca3f456ad38576d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:27:35 +0000
Subject: [PATCH 38/46] fix: a source block without arguments gets one child
 for them

---
 src/haxorg/parse/OrgParser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index fab44ee..93c0a4b 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1403,7 +1403,6 @@ OrgParser::ParseResult OrgParser::parseSrcArguments(OrgLexer& lex) {
     auto __trace = trace(lex);
     space(lex);
     if (lex.at(Newline)) {
-        empty();
         empty();
         return ParseOk{};
     } else {
-- 
2.43.0


From 98824ad43c683953a03ba285db44a71a56a7667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:57:57 +0000
Subject: [PATCH 39/46] fix: a link with its own protocol keeps its target

---
 src/haxorg/sem/SemConvert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index a23745e..7a8128a 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -1286,7 +1286,8 @@ OrgConverter::ConvResult<Link> OrgConverter::convertLink(__args) {
             link->target = LinkTarget{LinkTarget::CustomId{.text = getTarget()}};
 
         } else {
-            link->target = LinkTarget{LinkTarget::UserProtocol{.protocol = protocol}};
+            link->target = LinkTarget{
+                LinkTarget::UserProtocol{.protocol = protocol, .target = getTarget()}};
         }
     }
 
-- 
2.43.0


From 8c1210c7309d11a04faa78a8e01e2e6837f2081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:01 +0000
Subject: [PATCH 40/46] fix: the formatter keeps an attribute list on one line

---
 src/haxorg/sem/SemOrgFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index c0aa699..f11f072 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -58,7 +58,7 @@ void Formatter::add(Res id, Res other) {
 }
 
 Formatter::Res Formatter::toString(sem::AttrList const& args, Context const& ctx) {
-    Res res = b.stack();
+    Res res = b.line();
     for (auto const& it : enumerator(args.items)) {
         if (!it.is_first()) { b.add_at(res, str(" ")); }
         b.add_at(res, toString(it.value(), ctx));
-- 
2.43.0


From 7e8e5e21943353df4ca22fca86599fcf60d42a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:02 +0000
Subject: [PATCH 41/46] fix: todo keyword shortcuts are written in balanced
 parentheses

---
 src/haxorg/sem/SemOrgFormat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index f11f072..fa96629 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -71,7 +71,7 @@ Formatter::Res Formatter::toString(sem::TodoKeyword const& id, Context const& ct
     b.add_at(res, str(id.name));
     using T = sem::TodoKeyword::Transition;
     if (id.onEnter != T::None || id.onLeave != T::None || id.shortcut) {
-        b.add_at(res, str(")"));
+        b.add_at(res, str("("));
         if (id.shortcut) { b.add_at(res, str(id.shortcut.value())); }
 
         auto write = [&](T t) {
@@ -89,7 +89,7 @@ Formatter::Res Formatter::toString(sem::TodoKeyword const& id, Context const& ct
             write(id.onLeave);
         }
 
-        b.add_at(res, str("("));
+        b.add_at(res, str(")"));
     }
     return res;
 }
-- 
2.43.0


From b7fdddb53572b74115687108e898c467214f129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:02 +0000
Subject: [PATCH 42/46] fix: column summaries are written the way they are read

The summary goes in braces, and the maximum is named max.
---
 src/haxorg/sem/SemOrgFormat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index fa96629..639607f 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -219,7 +219,7 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
 
             if (col.summary) {
                 auto const& s = col.summary.value();
-                res += "[";
+                res += "{";
                 if (s.isCheckboxAggregate()) {
                     auto const& check = s.getCheckboxAggregate();
                     switch (check.kind) {
@@ -240,7 +240,7 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
                     auto const& math = s.getMathAggregate();
                     switch (math.kind) {
                         case type::MathAggregate::Kind::Max: {
-                            res += "min";
+                            res += "max";
                             break;
                         }
                         case type::MathAggregate::Kind::LowHighEst: {
@@ -261,7 +261,7 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
                         }
                     }
                 }
-                res += "]";
+                res += "}";
             }
 
             buf.push_back(str(res));
-- 
2.43.0


From a292cce579e63709cbf63ac2bdac824611795045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:02 +0000
Subject: [PATCH 43/46] fix: the formatter writes done keywords of a document

---
 src/haxorg/sem/SemOrgFormat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 639607f..c8a6d96 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -278,14 +278,14 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
 
     if (!id->options->todoKeywords.empty() || !id->options->doneKeywords.empty()) {
         auto keywords = b.line();
-        b.add_at(keywords, str("#+keywords"));
+        b.add_at(keywords, str("#+keywords: "));
 
         Vec<Res> tmp;
         for (auto const& k : id->options->todoKeywords) {
             tmp.push_back(toString(k, ctx));
         }
 
-        if (id->options->doneKeywords.empty()) {
+        if (!id->options->doneKeywords.empty()) {
             tmp.push_back(str("|"));
             for (auto const& k : id->options->doneKeywords) {
                 tmp.push_back(toString(k, ctx));
-- 
2.43.0


From 9f69562b7a08d00c6e1153913f8348f86503025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:02 +0000
Subject: [PATCH 44/46] fix: the broken links option is written with the word
 that is read back

---
 src/haxorg/sem/SemOrgFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index c8a6d96..e35786b 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -309,7 +309,7 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
         using BL       = sem::DocumentExportConfig::BrokenLinks;
         switch (ec.brokenLinks) {
             case BL::None: break;
-            case BL::Ignore: exp.push_back(str("broken-links:ignore")); break;
+            case BL::Ignore: exp.push_back(str("broken-links:t")); break;
             case BL::Mark: exp.push_back(str("broken-links:mark")); break;
             case BL::Raise: exp.push_back(str("broken-links:raise")); break;
         }
-- 
2.43.0


From d5345954264a39e4490def62cef28f48c00dd872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:02 +0000
Subject: [PATCH 45/46] fix: the latex class of a document is written as
 latex_class

---
 src/haxorg/sem/SemOrgFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index e35786b..6769eaa 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -357,7 +357,7 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
                 case P::Kind::ExportLatexClass: {
                     add(result,
                         str(hstd::fmt(
-                            "#+latex_header: {}",
+                            "#+latex_class: {}",
                             prop.getExportLatexClass().latexClass)));
                     break;
                 }
-- 
2.43.0


From 9bdd4f4c3bb656901a82f0953d227ead76bad93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:33:02 +0000
Subject: [PATCH 46/46] fix: the formatter writes the end header arguments of a
 call

---
 src/haxorg/sem/SemOrgFormat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 6769eaa..eff588a 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -781,9 +781,9 @@ auto Formatter::toString(SemId<CmdCall> id, Context const& ctx) -> Res {
         b.add_at(res, str(")"));
     }
 
-    if (!id->insideHeaderAttrs.isEmpty()) {
+    if (!id->endHeaderAttrs.isEmpty()) {
         b.add_at(res, str(" "));
-        b.add_at(res, toString(id->insideHeaderAttrs, ctx));
+        b.add_at(res, toString(id->endHeaderAttrs, ctx));
     }
 
     return res;
-- 
2.43.0

