From 942cb118713011f70803ec661fa4e6e8d42ade25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 01/34] fix: reject documents followed by a slash or a
 malformed comment

---
 include/parser/parser_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..2812c58 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -42,6 +42,11 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
         return std::nullopt;
     }
 
+    // skip_whitespace() also stops at a stray '/' or at a malformed comment, which is not the end of the content
+    if (_cur != _end && *_cur != '\0') {
+        return std::nullopt;
+    }
+
     return result_value;
 }
 
@@ -500,7 +505,9 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_whitespace() noe
             break;
         case '/':
             if constexpr (accept_jsonc) {
+                const auto comment_beg = _cur;
                 if (!skip_comment()) {
+                    _cur = comment_beg;
                     return false;
                 }
                 // else continue;
-- 
2.43.0


From 568c1251c34f90d53f62536c19164bb8989283ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 02/34] fix: reject surrogate pairs split by raw characters on
 the accelerated path

---
 include/parser/parser_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 2812c58..dd3a331 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -321,7 +321,8 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
 
     while (_cur != _end) {
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
-            if (!skip_string_literal_with_accel()) {
+            // a pending high surrogate must be followed by a low one at once, so nothing can be skipped then
+            if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
         }
-- 
2.43.0


From a905728934982c56019d58829ab22ea267159935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 03/34] fix: do not move out of the content of lvalue or shared
 nullable wrappers

---
 include/common/value.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..34dc19e 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -139,11 +139,13 @@ public:
     template <
         typename wrapper_t,
         std::enable_if_t<
-            _utils::is_nullable<std::decay_t<wrapper_t>> && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
+            !std::is_lvalue_reference_v<wrapper_t> && _utils::is_nullable<std::decay_t<wrapper_t>>
+                && std::is_constructible_v<value, typename _utils::nullable_value_t<wrapper_t>>
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-        : value(wrapper ? value(std::move(*wrapper)) : value())
+        // moves the content of an optional; what a pointer points to may be shared and is copied
+        : value(wrapper ? value(*std::move(wrapper)) : value())
     {
     }
 
-- 
2.43.0


From 4c0df7626392c63313ac5b0b8bc6a378e21aa7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 04/34] fix: do not move out of objects a temporary tuple only
 refers to

---
 include/common/array_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..a220cdc 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -531,7 +531,8 @@ template <typename tuple_t, size_t... Is>
 inline void array::construct_from_tuple_move_helper(tuple_t&& tpl, std::index_sequence<Is...>)
 {
     using std::get;
-    (_array_data.emplace_back(std::move(get<Is>(tpl))), ...);
+    // get() on an rvalue tuple moves its own elements, but not what its reference elements refer to
+    (_array_data.emplace_back(get<Is>(std::move(tpl))), ...);
 }
 
 template <typename tuple_t, size_t... Is>
-- 
2.43.0


From f784546591b44315e9db40013ee9bdf0c787580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 05/34] fix: do not move elements out of temporary views such
 as std::span

---
 include/common/array_impl.hpp | 7 ++++++-
 include/common/utils.hpp      | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index a220cdc..50a20c5 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -98,7 +98,12 @@ inline array::array(collection_t&& coll)
         _array_data.reserve(coll.size());
     }
     for (auto& val : coll) {
-        _array_data.emplace_back(std::move(val));
+        if constexpr (_utils::owns_elements<collection_t>) {
+            _array_data.emplace_back(std::move(val));
+        }
+        else {
+            _array_data.emplace_back(val);
+        }
     }
 }
 
diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..6808bb2 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -73,6 +73,10 @@ constexpr bool is_collection = false;
 template <typename T>
 constexpr bool is_collection<T> = is_container<T> && !is_map<T> && !is_fixed_array<T>;
 
+// collections whose constness does not extend to their elements (e.g. std::span) do not own them
+template <typename T>
+constexpr bool owns_elements = !std::is_same_v<decltype(*std::declval<T&>().begin()), decltype(*std::declval<const T&>().begin())>;
+
 template <typename T, typename = void>
 constexpr bool is_nullable = false;
 template <typename T>
-- 
2.43.0


From c6774709fa3fdf4bf5639987bee7e4cb92e73901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 06/34] fix: convert null to an empty std::optional in as()

---
 include/common/value_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..9450f46 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -698,6 +698,10 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_nullable<value_t>) {
+        // static_cast would prefer the converting constructor of std::optional, which needs a non-null value
+        return is_null() ? value_t() : static_cast<value_t>(*this);
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -723,6 +727,9 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_nullable<value_t>) {
+        return is_null() ? value_t() : static_cast<value_t>(*this);
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 459c720826b95b873f30d0c31b0085f62f56eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 07/34] fix: leave moved-from values valid and allow moving a
 part over the whole

---
 include/common/value_impl.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 9450f46..1909633 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,14 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+    : _type(rhs._type)
+    , _raw_data(std::move(rhs._raw_data))
+{
+    // leave a valid value behind: the moved-from storage no longer matches the type
+    rhs._type = value_type::null;
+    rhs._raw_data = var_t();
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
@@ -858,7 +865,15 @@ inline value& value::operator=(const value& rhs)
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
+inline value& value::operator=(value&& rhs) noexcept
+{
+    // rhs may be a part of *this, so it has to be taken out before the old content is released
+    value temp(std::move(rhs));
+    std::swap(_type, temp._type);
+    _raw_data.swap(temp._raw_data);
+
+    return *this;
+}
 
 inline bool value::operator==(const value& rhs) const
 {
-- 
2.43.0


From ccaec095c5f747a59445a1495819c2c9d6f113fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 08/34] fix: keep the type and the content of a value
 consistent when an allocation fails

---
 include/common/value_impl.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 1909633..3629964 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -647,8 +647,7 @@ inline const object& value::as_object() const
 inline array& value::as_array()
 {
     if (empty()) {
-        _type = value_type::array;
-        _raw_data = std::make_unique<array>();
+        *this = value(array());
     }
 
     if (is_array()) {
@@ -661,8 +660,7 @@ inline array& value::as_array()
 inline object& value::as_object()
 {
     if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
+        *this = value(object());
     }
 
     if (is_object()) {
@@ -859,10 +857,8 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
-
-    return *this;
+    // copy first: rhs may be a part of *this, and copying may throw
+    return *this = value(rhs);
 }
 
 inline value& value::operator=(value&& rhs) noexcept
@@ -1009,8 +1005,7 @@ inline value& value::operator[](size_t pos)
 inline value& value::operator[](const std::string& key)
 {
     if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
+        *this = value(object());
     }
 
     return as_object()[key];
@@ -1019,8 +1014,7 @@ inline value& value::operator[](const std::string& key)
 inline value& value::operator[](std::string&& key)
 {
     if (empty()) {
-        _type = value_type::object;
-        _raw_data = std::make_unique<object>();
+        *this = value(object());
     }
 
     return as_object()[std::move(key)];
-- 
2.43.0


From f7780ae4a702861847e7e14745362f875ebb1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 09/34] fix: allow assigning a part of an array or object to
 the whole

---
 include/common/array_impl.hpp  | 15 +++++++++++++--
 include/common/object_impl.hpp | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index 50a20c5..67b424e 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,19 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    return *this = array(rhs);
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    // rhs may be a part of *this, so it has to be taken out before the old content is released
+    array temp(std::move(rhs));
+    _array_data.swap(temp._array_data);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..b419ffe 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -25,8 +25,19 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    return *this = object(rhs);
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    // rhs may be a part of *this, so it has to be taken out before the old content is released
+    object temp(std::move(rhs));
+    _object_data.swap(temp._object_data);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
-- 
2.43.0


From 27e40dfd317208d77a231ebc1686c08654c3244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 10/34] fix: allow merging a member of an object into the
 object itself

---
 include/common/object_impl.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b419ffe..af6d1fd 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,18 +6,19 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
+inline void merge_object_move(object::raw_object& dst, object& src)
 {
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
+    // src may be a part of dst that the merge replaces, so its members are taken out first
+    object temp(std::move(src));
+    for (auto& [key, val] : temp) {
+        dst.insert_or_assign(key, std::move(val));
     }
 }
 
-inline void merge_object_move(object::raw_object& dst, object& src)
+inline void merge_object(object::raw_object& dst, const object& src)
 {
-    for (auto& [key, val] : src) {
-        dst.insert_or_assign(key, std::move(val));
-    }
+    object temp(src);
+    merge_object_move(dst, temp);
 }
 } // namespace _object_impl_detail
 
-- 
2.43.0


From 6751b0db286ac74510dd87ef3867c0eb46373758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 11/34] fix: format floating-point numbers independently of the
 locale

---
 include/common/utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6808bb2..2c5c5d9 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -480,16 +481,19 @@ inline std::string_view null_string()
 template <typename any_t>
 inline std::string to_basic_string(any_t&& arg)
 {
-#ifdef MEOJSON_KEEP_FLOATING_PRECISION
     using real_type = std::remove_reference_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
+        // JSON always uses a dot and no grouping, whatever the current locale
         std::ostringstream oss;
+        oss.imbue(std::locale::classic());
+#ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
+#else
+        oss << std::fixed << arg; // the same as std::to_string in the "C" locale
+#endif
         return oss.str();
     }
-    else
-#endif
-    {
+    else {
         return std::to_string(std::forward<any_t>(arg));
     }
 }
-- 
2.43.0


From 22ee89eca13b7b3da347a8a1f056c1c168b22306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 12/34] fix: read subnormal floating-point numbers,
 independently of the locale

---
 include/common/value_impl.hpp | 77 +++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 3629964..422ea0f 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <charconv>
+
 #include "value.hpp"
 
 namespace json
@@ -27,12 +30,48 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
 }
 
+// Whether the magnitude of a number is below one: only such a number can underflow
+inline bool is_small_number(std::string_view str) noexcept
+{
+    long long exponent = 0;
+    const size_t exponent_pos = str.find_first_of("eE");
+    if (exponent_pos != std::string_view::npos) {
+        std::string_view exponent_str = str.substr(exponent_pos + 1);
+        if (!exponent_str.empty() && exponent_str.front() == '+') {
+            exponent_str.remove_prefix(1);
+        }
+        const auto result = std::from_chars(exponent_str.data(), exponent_str.data() + exponent_str.size(), exponent);
+        if (result.ec == std::errc::result_out_of_range) {
+            return exponent_str.front() == '-';
+        }
+    }
+
+    const std::string_view digits = str.substr(0, exponent_pos);
+    const auto point = static_cast<long long>((std::min)(digits.find('.'), digits.size()));
+    const auto leading = static_cast<long long>((std::min)(digits.find_first_of("123456789"), digits.size()));
+    return exponent < leading - point;
+}
+
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
 {
+    static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
+#ifdef __cpp_lib_to_chars
+    // unlike std::stod, this does not depend on the locale and accepts subnormal numbers
+    const char* first = str.data();
+    const char* last = str.data() + str.size();
+    const auto [ptr, ec] = std::from_chars(first, last, result);
+    if (ptr != last) {
+        return false;
+    }
+    if (ec == std::errc::result_out_of_range && is_small_number(str)) {
+        result = str.front() == '-' ? -value_t(0) : value_t(0);
+        return true;
+    }
+    return ec == std::errc {};
+#else
     try {
         size_t pos = 0;
-        value_t result {};
         if constexpr (std::is_same_v<value_t, float>) {
             result = std::stof(str, &pos);
         }
@@ -42,12 +81,20 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
         else {
             result = std::stold(str, &pos);
         }
-
-        if (pos == str.size()) {
-            return result;
-        }
+        return pos == str.size();
     }
     catch (const std::exception&) {
+        return false;
+    }
+#endif
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +103,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t parsed {};
+    return try_parse_floating(str, parsed);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From 52ac2caccff0528f31af240ae01e9828b3bdea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 13/34] fix: read streams completely, without seeking to the
 end, and report read errors

---
 include/parser/parser.hpp      |  1 +
 include/parser/parser_impl.hpp | 26 +++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/parser/parser.hpp b/include/parser/parser.hpp
index 858f971..185fdf9 100644
--- a/include/parser/parser.hpp
+++ b/include/parser/parser.hpp
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <array>
 #include <cctype>
 #include <fstream>
 #include <optional>
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index dd3a331..53278f6 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -617,13 +617,29 @@ inline std::optional<value> parse(const char* content)
 
 inline std::optional<value> parse(std::istream& istream, bool check_bom, bool with_commets)
 {
-    istream.seekg(0, std::ios::end);
-    auto file_size = istream.tellg();
+    if (!istream) {
+        return std::nullopt;
+    }
 
-    istream.seekg(0, std::ios::beg);
-    std::string str(file_size, '\0');
+    // start at the beginning, or where the stream is if it cannot seek
+    std::streambuf* const buf = istream.rdbuf();
+    buf->pubseekpos(0, std::ios::in);
 
-    istream.read(str.data(), file_size);
+    std::string str;
+    std::array<char, 4096> chunk;
+    while (true) {
+        std::streamsize count = 0;
+        try {
+            count = buf->sgetn(chunk.data(), static_cast<std::streamsize>(chunk.size()));
+        }
+        catch (...) {
+            return std::nullopt; // read error, e.g. the path is a directory
+        }
+        if (count <= 0) {
+            break;
+        }
+        str.append(chunk.data(), static_cast<size_t>(count));
+    }
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From f4d0648ed99441591c35fb6f644168bfdcccca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 14/34] fix: do not name enumerators after a truncated value

---
 include/common/enum_reflection.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..84738a9 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -188,7 +188,21 @@ constexpr std::string_view enum_to_string(E val)
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
+    // compare before narrowing to int: the underlying type may be wider
+    using underlying_t = std::underlying_type_t<E>;
+    const auto raw = static_cast<underlying_t>(val);
+    if constexpr (std::is_signed_v<underlying_t>) {
+        if (static_cast<long long>(raw) < min || static_cast<long long>(raw) > max) {
+            return {};
+        }
+    }
+    else {
+        if (max < 0 || static_cast<unsigned long long>(raw) > static_cast<unsigned long long>(max)) {
+            return {};
+        }
+    }
+
+    int idx = static_cast<int>(raw) - min;
     if (idx >= 0 && idx < range) {
         return names[idx];
     }
-- 
2.43.0


From 1528f9ed3cf056a2f9cd45cceb70172e4c6e9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 15/34] fix: prefer the exactly matching enumerator name

---
 include/common/enum_reflection.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index 84738a9..09acd41 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -238,6 +238,12 @@ std::optional<E> string_to_enum(std::string_view str)
 
     const auto& names = enum_name_storage<E>::names;
 
+    // enumerators may differ in case only, so an exact match comes first
+    for (int i = 0; i < range; ++i) {
+        if (!names[i].empty() && names[i] == str) {
+            return static_cast<E>(i + min);
+        }
+    }
     for (int i = 0; i < range; ++i) {
         if (!names[i].empty()) {
             if (iequals(names[i], str)) {
-- 
2.43.0


From 2a36fc9bbb8bde6faf6c329a1c89a47b8082273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 16/34] fix: refuse converting temporary null or empty values
 of another type to containers

---
 include/common/value.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 34dc19e..250f9bc 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -624,6 +624,7 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        (void)std::as_const(*this).as_array(); // the non-const overload would turn an empty value into an array
         return std::move(as_array()).template as<T>();
     }
 
@@ -646,6 +647,7 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        (void)std::as_const(*this).as_object(); // the non-const overload would turn an empty value into an object
         return std::move(as_object()).template as<T>();
     }
 
-- 
2.43.0


From 837acc2688952cfa90a8f78bf4ba4b4932130345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 17/34] fix: do not load blocks across the nodes of
 non-contiguous containers

---
 include/common/utils.hpp       | 5 +++++
 include/parser/parser_impl.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 2c5c5d9..e48c8c6 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -74,6 +74,11 @@ constexpr bool is_collection = false;
 template <typename T>
 constexpr bool is_collection<T> = is_container<T> && !is_map<T> && !is_fixed_array<T>;
 
+template <typename T, typename = void>
+constexpr bool is_contiguous = false;
+template <typename T>
+constexpr bool is_contiguous<T, std::void_t<decltype(std::declval<const T&>().data())>> = true;
+
 // collections whose constness does not extend to their elements (e.g. std::span) do not own them
 template <typename T>
 constexpr bool owns_elements = !std::is_same_v<decltype(*std::declval<T&>().begin()), decltype(*std::declval<const T&>().begin())>;
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 53278f6..cc47d90 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -320,7 +320,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && accel_traits::available && _utils::is_contiguous<parsing_t>) {
             // a pending high surrogate must be followed by a low one at once, so nothing can be skipped then
             if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
-- 
2.43.0


From 72e38bd88efeecb3c97b693ce637bb175b32d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 18/34] fix: reject a high surrogate escape followed by another
 unicode escape

---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index cc47d90..1690798 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -443,6 +443,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        // a high surrogate must be followed by a low one
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From da80ed299ac38b207c7abc321e38e8851839a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 19/34] fix: let emplace into an empty value use that value as
 its argument

---
 include/common/value_impl.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 422ea0f..042d9be 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -791,10 +791,23 @@ inline decltype(auto) value::emplace(args_t&&... args)
 
     static_assert(is_array_args || is_object_args, "Args can not constructure a array or object value");
 
+    // the args may refer to *this, so they have to be used before an empty value becomes a container
     if constexpr (is_array_args) {
+        if (empty() && !is_array()) {
+            array arr;
+            arr.emplace_back(std::forward<args_t>(args)...);
+            *this = value(std::move(arr));
+            return as_array()[0];
+        }
         return as_array().emplace_back(std::forward<args_t>(args)...);
     }
     else if constexpr (is_object_args) {
+        if (empty() && !is_object()) {
+            object obj;
+            auto result = obj.emplace(std::forward<args_t>(args)...);
+            *this = value(std::move(obj));
+            return result;
+        }
         return as_object().emplace(std::forward<args_t>(args)...);
     }
 }
-- 
2.43.0


From f51420438195896cf8fc9b40a6c5b441c0af7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 20/34] fix: keep the container when an empty array or object
 is accessed for writing

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 042d9be..6217670 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -679,7 +679,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (!is_array() && empty()) {
         *this = value(array());
     }
 
@@ -692,7 +692,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         *this = value(object());
     }
 
@@ -1050,7 +1050,7 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         *this = value(object());
     }
 
@@ -1059,7 +1059,7 @@ inline value& value::operator[](const std::string& key)
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
+    if (!is_object() && empty()) {
         *this = value(object());
     }
 
-- 
2.43.0


From 2293d42182f21290265d4db29040c81216e55601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 21/34] fix: let as<> read one-element tuples and variants
 holding values

---
 include/common/value_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 6217670..6849ecc 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -740,6 +740,10 @@ inline value_t value::as() const&
         // static_cast would prefer the converting constructor of std::optional, which needs a non-null value
         return is_null() ? value_t() : static_cast<value_t>(*this);
     }
+    else if constexpr (_utils::is_tuple_like<value_t> || _utils::is_variant<value_t>) {
+        // static_cast would prefer the converting constructors of std::tuple and std::variant, which take the value as an element
+        return std::as_const(*this).operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -768,6 +772,10 @@ inline value_t value::as() &&
     else if constexpr (_utils::is_nullable<value_t>) {
         return is_null() ? value_t() : static_cast<value_t>(*this);
     }
+    else if constexpr (_utils::is_tuple_like<value_t> || _utils::is_variant<value_t>) {
+        // static_cast would prefer the converting constructors of std::tuple and std::variant, which take the value as an element
+        return std::as_const(*this).operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 10faabaeb5bb1b7d8c261ffd70c2ecb4e2348664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 22/34] fix: accept temporary std::vector<bool> collections

---
 include/common/array_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index 67b424e..051ad4d 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -108,7 +108,7 @@ inline array::array(collection_t&& coll)
     if constexpr (_utils::has_size<collection_t>::value) {
         _array_data.reserve(coll.size());
     }
-    for (auto& val : coll) {
+    for (auto&& val : coll) {
         if constexpr (_utils::owns_elements<collection_t>) {
             _array_data.emplace_back(std::move(val));
         }
-- 
2.43.0


From 9d19f849f45f52e5b0508b9ba96a209105b84b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 23/34] fix: let get with a std::string_view default return a
 string

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 6849ecc..70dcf99 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -482,11 +482,11 @@ inline auto value::get_helper(const value_t& default_value, first_key_t&& first,
 {
     if constexpr (std::is_constructible_v<std::string, first_key_t>) {
         return is_object() ? as_object().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                           : default_value;
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<first_key_t>>) {
         return is_array() ? as_array().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                          : default_value;
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(first_key_t), "Parameter must be integral or std::string constructible");
@@ -497,10 +497,10 @@ template <typename value_t, typename unique_key_t>
 inline auto value::get_helper(const value_t& default_value, unique_key_t&& first) const
 {
     if constexpr (std::is_constructible_v<std::string, unique_key_t>) {
-        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<unique_key_t>>) {
-        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(unique_key_t), "Parameter must be integral or std::string constructible");
-- 
2.43.0


From a3c01127b2015f3e7f289bfc3b767e72568ecdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 24/34] fix: serialise reflected fields named result correctly

---
 include/reflection/jsonization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflection/jsonization.hpp b/include/reflection/jsonization.hpp
index ba0386b..c929b5a 100644
--- a/include/reflection/jsonization.hpp
+++ b/include/reflection/jsonization.hpp
@@ -428,11 +428,11 @@ namespace json::_private_macro
 #define MEO_TOJSON(...)                                                                                                    \
     json::value to_json() const                                                                                            \
     {                                                                                                                      \
-        json::object result;                                                                                               \
+        json::object _MEOJSON_VARNAME(result);                                                                             \
         json::_jsonization_helper::dumper()._to_json(                                                                      \
-            result,                                                                                                        \
+            _MEOJSON_VARNAME(result),                                                                                      \
             _MEOJSON_EXPAND(_MEOJSON_FOR_EACH(_MEOJSON_KEY_VALUE, __VA_ARGS__)) json::_jsonization_helper::va_arg_end {}); \
-        return result;                                                                                                     \
+        return _MEOJSON_VARNAME(result);                                                                                   \
     }
 
 #define MEO_CHECKJSON(...)                                                                                                 \
-- 
2.43.0


From 1035c1fd7fdffc226f8a217315c3457ca6b1feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 25/34] fix: let get return a default of a reflected type that
 also converts to a string

---
 include/common/utils.hpp | 59 ++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index e48c8c6..8b76123 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -151,35 +151,6 @@ template <typename T>
 constexpr bool is_json_value = std::is_same_v<std::decay_t<T>, value> || std::is_same_v<std::decay_t<T>, array>
     || std::is_same_v<std::decay_t<T>, object>;
 
-template <typename T>
-constexpr bool should_return_string = std::is_constructible_v<std::string, T> && !is_json_value<T>;
-
-template <typename value_t>
-inline auto default_or_string(const value_t& default_value)
-{
-    if constexpr (should_return_string<value_t>) {
-        return std::string(default_value);
-    }
-    else {
-        return value_t(default_value);
-    }
-}
-
-template <typename value_t, typename json_value_t>
-inline auto json_value_or_default(const json_value_t& val, const value_t& default_value)
-{
-    if (!val.template is<value_t>()) {
-        return default_or_string(default_value);
-    }
-
-    if constexpr (should_return_string<value_t>) {
-        return val.template as<std::string>();
-    }
-    else {
-        return val.template as<value_t>();
-    }
-}
-
 template <typename T, typename = void>
 struct has_to_json_in_member : std::false_type
 {
@@ -247,6 +218,36 @@ struct has_from_json_in_templ_spec<
 {
 };
 
+template <typename T>
+constexpr bool should_return_string = std::is_constructible_v<std::string, T> && !is_json_value<T>
+    && !has_from_json_in_member<T>::value && !has_from_json_in_templ_spec<T>::value;
+
+template <typename value_t>
+inline auto default_or_string(const value_t& default_value)
+{
+    if constexpr (should_return_string<value_t>) {
+        return std::string(default_value);
+    }
+    else {
+        return value_t(default_value);
+    }
+}
+
+template <typename value_t, typename json_value_t>
+inline auto json_value_or_default(const json_value_t& val, const value_t& default_value)
+{
+    if (!val.template is<value_t>()) {
+        return default_or_string(default_value);
+    }
+
+    if constexpr (should_return_string<value_t>) {
+        return val.template as<std::string>();
+    }
+    else {
+        return val.template as<value_t>();
+    }
+}
+
 template <typename T, typename = void>
 struct has_move_to_json_in_templ_spec : std::false_type
 {
-- 
2.43.0


From 992ee80ca27902145023065795b7716ffc31461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 26/34] fix: move out of unique pointers that are consumed, as
 before

---
 include/common/utils.hpp | 12 ++++++++++++
 include/common/value.hpp |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 8b76123..a4cf7a4 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -96,6 +96,18 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+// The content of a wrapper that is about to be consumed: only what the wrapper owns exclusively may be moved
+template <typename T>
+constexpr decltype(auto) owned_content(T& wrapper)
+{
+    if constexpr (std::is_copy_constructible_v<T>) {
+        return *std::move(wrapper);
+    }
+    else {
+        return std::move(*wrapper);
+    }
+}
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index 250f9bc..3a1efaf 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -144,8 +144,8 @@ public:
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-        // moves the content of an optional; what a pointer points to may be shared and is copied
-        : value(wrapper ? value(*std::move(wrapper)) : value())
+        // moves the content of an optional or a unique pointer; what other pointers point to may be shared and is copied
+        : value(wrapper ? value(_utils::owned_content(wrapper)) : value())
     {
     }
 
-- 
2.43.0


From f75f5f74f6b2139faf45c6c8875ac8b2e157c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 27/34] fix: convert numbers and names to enums with small
 underlying types

---
 include/common/value.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 3a1efaf..1e7d975 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -494,7 +494,17 @@ public:
             }
         }
         else if (is_number()) {
-            return static_cast<enum_t>(static_cast<std::underlying_type_t<enum_t>>(*this));
+            using underlying_t = std::underlying_type_t<enum_t>;
+            if constexpr (sizeof(underlying_t) < sizeof(int)) {
+                // there is no conversion to the small integers, so read an int that fits
+                if (!is<underlying_t>()) {
+                    throw exception("Cannot convert to enum: number out of range, " + value_info());
+                }
+                return static_cast<enum_t>(static_cast<underlying_t>(as_integer()));
+            }
+            else {
+                return static_cast<enum_t>(static_cast<underlying_t>(*this));
+            }
         }
         else {
             throw exception("Cannot convert to enum: expected string or number type, " + value_info());
-- 
2.43.0


From 2e020f5f39fe4b1f3e4ac2da48527946a5324d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 28/34] fix: return nothing when rewinding a stream throws

---
 include/parser/parser_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 1690798..a60ba89 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -627,7 +627,12 @@ inline std::optional<value> parse(std::istream& istream, bool check_bom, bool wi
 
     // start at the beginning, or where the stream is if it cannot seek
     std::streambuf* const buf = istream.rdbuf();
-    buf->pubseekpos(0, std::ios::in);
+    try {
+        buf->pubseekpos(0, std::ios::in);
+    }
+    catch (...) {
+        return std::nullopt;
+    }
 
     std::string str;
     std::array<char, 4096> chunk;
-- 
2.43.0


From ec0a7aef95b6a4a6e9260ae2ffc4fe2f8da135dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 29/34] fix: parse derived streams passed without options

---
 include/parser/parser.hpp      | 2 +-
 include/parser/parser_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser.hpp b/include/parser/parser.hpp
index 185fdf9..90f9762 100644
--- a/include/parser/parser.hpp
+++ b/include/parser/parser.hpp
@@ -65,7 +65,7 @@ private:
 // *      utils declare      *
 // ***************************
 
-template <typename parsing_t>
+template <typename parsing_t, std::enable_if_t<!std::is_base_of_v<std::istream, parsing_t>, bool> = true>
 std::optional<value> parse(const parsing_t& content);
 
 std::optional<value> parse(const char* content);
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index a60ba89..acdc11b 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -608,7 +608,7 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_digit()
 // *      utils impl       *
 // *************************
 
-template <typename parsing_t>
+template <typename parsing_t, std::enable_if_t<!std::is_base_of_v<std::istream, parsing_t>, bool>>
 inline std::optional<value> parse(const parsing_t& content)
 {
     return parser<false, parsing_t>::parse(content);
-- 
2.43.0


From 6e16dea2618a1e201d71bf116e5319a498948b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 30/34] fix: let is<T>() report running out of memory instead
 of terminating

---
 include/common/value.hpp      | 6 +++---
 include/common/value_impl.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 1e7d975..1aa6803 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -329,7 +329,7 @@ public:
     bool is_object() const noexcept;
 
     template <typename value_t>
-    bool is() const noexcept;
+    bool is() const;
 
     template <typename value_t>
     bool all() const;
@@ -393,10 +393,10 @@ public:
 
 private:
     template <typename tuple_t, size_t... Is>
-    bool is_tuple_helper(std::index_sequence<Is...>) const noexcept;
+    bool is_tuple_helper(std::index_sequence<Is...>) const;
 
     template <typename... Ts>
-    bool is_variant_helper(std::variant<Ts...>*) const noexcept;
+    bool is_variant_helper(std::variant<Ts...>*) const;
 
     template <typename... Ts>
     std::variant<Ts...> to_variant_helper() const&;
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 70dcf99..a63cc03 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -297,7 +297,7 @@ inline bool value::is_object() const noexcept
 }
 
 template <typename value_t>
-inline bool value::is() const noexcept
+inline bool value::is() const
 {
     if constexpr (std::is_same_v<value, value_t>) {
         return true;
@@ -704,14 +704,14 @@ inline object& value::as_object()
 }
 
 template <typename tuple_t, size_t... Is>
-inline bool value::is_tuple_helper(std::index_sequence<Is...>) const noexcept
+inline bool value::is_tuple_helper(std::index_sequence<Is...>) const
 {
     const auto& arr = as_array();
     return (arr[Is].is<std::tuple_element_t<Is, tuple_t>>() && ...);
 }
 
 template <typename... Ts>
-inline bool value::is_variant_helper(std::variant<Ts...>*) const noexcept
+inline bool value::is_variant_helper(std::variant<Ts...>*) const
 {
     return (is<Ts>() || ...);
 }
-- 
2.43.0


From 69fa86fe7e32f88f198a4d154c4a6fbb88f2f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 31/34] fix: do not cut floating-point numbers short when
 memory runs out

---
 include/common/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index a4cf7a4..fb7023c 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -504,6 +504,7 @@ inline std::string to_basic_string(any_t&& arg)
         // JSON always uses a dot and no grouping, whatever the current locale
         std::ostringstream oss;
         oss.imbue(std::locale::classic());
+        oss.exceptions(std::ios_base::badbit); // report running out of memory instead of cutting the text short
 #ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
 #else
-- 
2.43.0


From 4b1882b29ddf9419b061c09cf68ff1e3bb9ff11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 32/34] fix: do not cut exception texts inside a character

---
 include/common/value_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index a63cc03..d8c8b22 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -423,7 +423,12 @@ inline std::string value::value_info() const noexcept
         case value_type::string: {
             std::string str_repr = to_string();
             if (str_repr.length() > 100) {
-                info += ", value=" + str_repr.substr(0, 100) + "...";
+                size_t len = 100;
+                // do not cut inside a UTF-8 sequence
+                while (len > 0 && (static_cast<unsigned char>(str_repr[len]) & 0xC0) == 0x80) {
+                    --len;
+                }
+                info += ", value=" + str_repr.substr(0, len) + "...";
             }
             else {
                 info += ", value=" + str_repr;
-- 
2.43.0


From 6746216f5512d9640f8f8f75acfa65d51175ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 33/34] fix: read files byte for byte, whatever the global
 locale

---
 include/parser/parser_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index acdc11b..ac60a2e 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -671,6 +671,7 @@ inline std::optional<value> open(const path_t& filepath, bool check_bom, bool wi
     if (!ifs.is_open()) {
         return std::nullopt;
     }
+    ifs.imbue(std::locale::classic()); // read the bytes as they are, whatever the global locale
     auto opt = parse(ifs, check_bom, with_commets);
     ifs.close();
     return opt;
-- 
2.43.0


From e25dd9711958e899fcd03aebe48cd07d0368477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 34/34] fix: appending arrays step by step takes linear time

operator+= and operator+ on an rvalue reserved exactly the new size, so
every single append reallocated and moved the whole array. Grow
geometrically, as push_back does.
---
 include/common/array_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index 051ad4d..6470e09 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -1,20 +1,30 @@
 #pragma once
 
+#include <algorithm>
+
 #include "array.hpp"
 
 namespace json
 {
 namespace _array_impl_detail
 {
+// grow geometrically, so that appending step by step takes linear time; src may be a part of dst, so make room before using it
+inline void make_room(array::raw_array& dst, size_t count)
+{
+    if (count > dst.capacity() - dst.size()) {
+        dst.reserve(dst.size() + std::max(dst.size(), count));
+    }
+}
+
 inline void append_array(array::raw_array& dst, const array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    make_room(dst, src.size());
     dst.insert(dst.end(), src.begin(), src.end());
 }
 
 inline void append_array_move(array::raw_array& dst, array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    make_room(dst, src.size());
     dst.insert(dst.end(), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
 }
 } // namespace _array_impl_detail
-- 
2.43.0

