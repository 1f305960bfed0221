From 069564e180f90a31b580220f6098a451ee27ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 01/46] fix: one_of no longer remembers its selected child
 between parses

The selected child was kept in a mutable member that was never reset, so the
second parse of a tree (or a concurrent one) that used another child was
rejected.  Take it from the owner's already processed targets instead.
---
 include/arg_router/dependency/one_of.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/dependency/one_of.hpp b/include/arg_router/dependency/one_of.hpp
index 0a7e3c5..e00e035 100644
--- a/include/arg_router/dependency/one_of.hpp
+++ b/include/arg_router/dependency/one_of.hpp
@@ -87,17 +87,34 @@ public:
     {
         // We need to wrap the pre_parse_data validator so that we can catch child type mismatches
         // before the caller's validation, otherwise the user can get misleading error messages
+        auto selected = std::optional<std::size_t>{};
+        if constexpr (HasTarget) {
+            // Whatever this parse has selected so far is in the owner's target, so there is no need
+            // to hold any state between calls
+            for (const auto& sub_target : pre_parse_data.target().sub_targets()) {
+                utility::tuple_iterator(
+                    [&](auto /*i*/, const auto& child) {
+                        if (sub_target.node_type() ==
+                            utility::type_hash<std::decay_t<decltype(child)>>()) {
+                            selected = sub_target.node_type();
+                        }
+                    },
+                    this->children());
+            }
+        }
+        auto& last_typeid = HasTarget ? selected : last_typeid_;
+
         const auto validator = [&](const auto& child, const auto&... parents) {
             using child_type = std::decay_t<decltype(child)>;
 
             auto type_hash = utility::type_hash<child_type>();
-            if (last_typeid_) {
-                if (type_hash != *last_typeid_) {
+            if (last_typeid) {
+                if (type_hash != *last_typeid) {
                     throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
                                                parsing::node_token_type<one_of_t>()};
                 }
             } else {
-                last_typeid_ = type_hash;
+                last_typeid = type_hash;
             }
 
             return pre_parse_data.validator()(child, parents...);
-- 
2.43.0


From e11a9e5243f5069d8001fb53eedd9a0aa8547c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 02/46] fix: do not step past the end of truncated UTF-8
 strings

The iterators advanced by the size announced in the leading byte, which for a
truncated last code point is beyond the end of the string.
---
 include/arg_router/utility/utf8.hpp            | 6 +++---
 include/arg_router/utility/utf8/code_point.hpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a313b75..a156882 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -235,7 +235,7 @@ private:
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-            current_ += code_point::size(*it);
+            current_ += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
@@ -499,7 +499,7 @@ private:
                 if (!is_whitespace(cp)) {
                     break;
                 }
-                bytes += code_point::size(cp);
+                bytes += cp.size();
             }
             str_.remove_prefix(bytes);
 
@@ -528,7 +528,7 @@ private:
                 return;
             }
 
-            bytes += code_point::size(*it);
+            bytes += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index c1dfffd..ca06cda 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <optional>
@@ -325,7 +326,8 @@ public:
      */
     constexpr iterator& operator++() noexcept
     {
-        const auto num_bytes = code_point::size(str_);
+        // The last code point may be truncated
+        const auto num_bytes = std::min(code_point::size(str_), str_.size());
         str_.remove_prefix(num_bytes);
         return *this;
     }
-- 
2.43.0


From 60b9dc2054dbec572812c8cdb4986a3aa9fff9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 03/46] fix: code points led by 0xDF and 0xEF have two and
 three bytes

U+07C0 to U+07FF and U+F000 to U+FFFF were taken to be one byte longer than they
are.
---
 include/arg_router/utility/utf8/code_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index ca06cda..503b340 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -163,12 +163,12 @@ private:
 
     // Can't think of a way to do this without branches
     constexpr auto max_2_byte_header = std::uint8_t{0b1101'1111};
-    if (first_byte < max_2_byte_header) {
+    if (first_byte <= max_2_byte_header) {
         return 2;
     }
 
     constexpr auto max_3_byte_header = std::uint8_t{0b1110'1111};
-    if (first_byte < max_3_byte_header) {
+    if (first_byte <= max_3_byte_header) {
         return 3;
     }
 
-- 
2.43.0


From 77dd426d50e3f78c0c379177df335a14c2bf8cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 04/46] fix: wrapping to fewer columns than a code point needs
 no longer hangs

A line_iterator that could not fit its first code point never advanced.
---
 include/arg_router/utility/utf8.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a156882..a99092d 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -520,8 +520,9 @@ private:
             if (column > max_columns_) {
                 if (line_break_column == 0) {
                     // Oh dear, the line has no whitespace in it to break on, so force break on the
-                    // last code point
-                    line_break_byte_ = bytes;
+                    // last code point.  At least one is needed though, otherwise a code point wider
+                    // than the line would never be consumed
+                    line_break_byte_ = (bytes == 0) ? (*it).size() : bytes;
                 } else {
                     line_break_byte_ = line_break_byte;
                 }
-- 
2.43.0


From f7ccb90cf1a92ae83a9cce953c13508598fcc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 05/46] fix: a leading token end marker ends an empty list

With nothing before the marker the token count wrapped around, so the tokens
after the marker were consumed as the list's values.
---
 include/arg_router/policy/min_max_count.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arg_router/policy/min_max_count.hpp b/include/arg_router/policy/min_max_count.hpp
index 1e8a5d7..dd36f2c 100644
--- a/include/arg_router/policy/min_max_count.hpp
+++ b/include/arg_router/policy/min_max_count.hpp
@@ -109,6 +109,11 @@ public:
                                         parsing::node_token_type<owner_type>()};
         }
 
+        // Nothing to transfer, e.g. an empty list ended by its token end marker
+        if (num_tokens == 0) {
+            return parsing::pre_parse_action::valid_node;
+        }
+
         // Transfer any remaining up to the maximum count
         tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
 
-- 
2.43.0


From a5808eeb4fd99a715db8a310b2535e642a986164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 06/46] fix: a lone short prefix is not expanded

There is no first character to keep, and the size passed to reserve wrapped
around so a std::length_error escaped from the parse.
---
 include/arg_router/policy/short_form_expander.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/short_form_expander.hpp b/include/arg_router/policy/short_form_expander.hpp
index d3ffa80..a9dfa47 100644
--- a/include/arg_router/policy/short_form_expander.hpp
+++ b/include/arg_router/policy/short_form_expander.hpp
@@ -87,8 +87,9 @@ public:
             return parsing::pre_parse_action::valid_node;
         }
 
-        // Exit early if there's no expansion to be done
-        if (first_token.name.size() == owner_type::short_name().size()) {
+        // Exit early if there's no expansion to be done, the name is empty for a lone prefix
+        if (first_token.name.empty() ||
+            (first_token.name.size() == owner_type::short_name().size())) {
             return parsing::pre_parse_action::valid_node;
         }
 
-- 
2.43.0


From cc36e063cb8296c0b5ba90a2a89b31447962125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 07/46] fix: help for a runtime-disabled leaf is an unknown
 argument error

The disabled node was only noticed after its token had been removed, so the
error was made from the front of an empty list.
---
 include/arg_router/help.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index ec53378..dd680fa 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -237,12 +237,6 @@ private:
                                  const Node& node,
                                  const TargetFn& fn)
     {
-        if constexpr (traits::has_runtime_enabled_method_v<Node>) {
-            if (!node.runtime_enabled()) {
-                throw multi_lang_exception{error_code::unknown_argument, tokens.front()};
-            }
-        }
-
         if (tokens.empty()) {
             fn(node);
             return;
@@ -262,6 +256,12 @@ private:
                 // token_type from them, as they all of a prefix_type of none
                 const auto token = parsing::get_token_type(child, tokens.front().name);
                 if (!result && parsing::match<child_type>(token)) {
+                    if constexpr (traits::has_runtime_enabled_method_v<child_type>) {
+                        if (!child.runtime_enabled()) {
+                            return;
+                        }
+                    }
+
                     result = true;
                     tokens.erase(tokens.begin());
                     find_help_target(tokens, child, fn);
-- 
2.43.0


From f1f412d21c308deee43abf2dca2f072e493a1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 08/46] fix: a runtime-disabled node does not ask for its value
 separator

The value separator policy ran before the node was found to be disabled, so the
error revealed a node that should be unknown.
---
 include/arg_router/policy/runtime_enable.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/runtime_enable.hpp b/include/arg_router/policy/runtime_enable.hpp
index b7276f1..9a6f1db 100644
--- a/include/arg_router/policy/runtime_enable.hpp
+++ b/include/arg_router/policy/runtime_enable.hpp
@@ -24,8 +24,12 @@ template <typename T = void>
 class runtime_enable
 {
 public:
-    /** Policy priority. */
-    constexpr static auto priority = std::size_t{800};
+    /** Policy priority.
+     *
+     * Higher than any policy that can return an exception, as a disabled node must not report
+     * anything about itself.
+     */
+    constexpr static auto priority = std::size_t{1100};
 
     /** Constructor.
      *
-- 
2.43.0


From 5f346956f61db5b94ce5158b06bf463c296df431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 09/46] fix: a runtime-disabled anonymous mode is skipped

Anonymous modes do not run their own pre-parse policies, so the runtime_enable
policy had no effect on them.
---
 include/arg_router/mode.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 495f6ca..0e8d442 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -271,6 +271,11 @@ private:
                     return match;
                 }
             }
+        } else if constexpr (traits::has_runtime_enabled_method_v<mode_t>) {
+            // The policies of an anonymous mode are not pre-parsed, so check explicitly
+            if (!this->runtime_enabled()) {
+                return {};
+            }
         }
 
         if (!pre_parse_data.validator()(this_mode, parents...)) {
-- 
2.43.0


From bc1325359427da4c6a517a480a04807f2fda611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 10/46] fix: find multi-byte value separators as a whole

find_first_of matched any single byte of the separator, so a label sharing a
byte with it was cut in the wrong place.
---
 include/arg_router/policy/value_separator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index 91675b1..d10e955 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -94,7 +94,7 @@ public:
         const auto first_token = *first;
 
         // Find the separator
-        const auto separator_index = first_token.name.find_first_of(value_separator());
+        const auto separator_index = first_token.name.find(value_separator());
         if (separator_index == std::string_view::npos) {
             // If we can't find the separator but the token matches the parent node name, then we
             // need to throw as the user has just forgotten the separator and needs to be told
-- 
2.43.0


From 8729305f0e98871b6166c1a8f09f68b45934cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 11/46] fix: multi-language help() returns the selected root's
 help

The visitor had no return statement, so the method did not compile when used.
---
 include/arg_router/multi_lang/root.hpp         | 2 +-
 include/arg_router/multi_lang/root_wrapper.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index e76aaaa..c2c1d4a 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -194,7 +194,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index 8a32fdd..db95f25 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -131,7 +131,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
-- 
2.43.0


From 1a7b2b42e83f48f1e1a25807682ac9264d83a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 12/46] fix: the colour help formatter does not indent the top
 level by one

A zero-width field still prints its one character, so the top level label and
its description were one column off.
---
 include/arg_router/policy/colour_help_formatter.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 1be3dbe..8c25873 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -86,7 +86,11 @@ public:
     {
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
-            stream << red_colour << std::setw(indent) << ' ' << help_data.label;
+            stream << red_colour;
+            if (indent > 0) {
+                stream << std::setw(indent) << ' ';
+            }
+            stream << help_data.label;
 
             if (!help_data.description.empty()) {
                 const auto gap =
-- 
2.43.0


From 643728922b403ef0bfd4f1e33f908ada47fcbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 13/46] fix: an alias of an alias sets the nodes it stands for

The inner alias was added as a sub-target, but it has no result of its own, so the
nodes it refers to were silently left unset.
---
 include/arg_router/policy/alias.hpp | 60 ++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 134dce0..3c23449 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -118,30 +118,9 @@ public:
         tokens.transfer(tokens.begin() + count);
 
         // Now do the runtime target building
-        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
-            using policies_type = typename std::decay_t<decltype(current)>::policies_type;
-
-            using intersection =
-                boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
-
-            if constexpr ((std::tuple_size_v<intersection>) > 0) {
-                auto target_tokens = vector<parsing::token_type>{};
-                target_tokens.reserve(count);
-
-                auto value_it = tokens.begin();
-                for (auto j = 0u; j < count; ++j) {
-                    // Pre-increment the value iterator so we skip over the label token
-                    target_tokens.push_back(*(++value_it));
-                }
-
-                target.add_sub_target({std::move(target_tokens),  //
-                                       current,
-                                       parents...});
-            }
-        };
         const auto& mode =
             std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
-        utility::tree_recursor(visitor, mode);
+        add_sub_targets<aliased_policies_type, count>(tokens, target, mode);
 
         // Now remove the original tokens as they refer to the aliased node
         tokens.processed().erase(tokens.processed().begin(),
@@ -240,6 +219,43 @@ private:
         constexpr static bool value = check<0, AliasNodesTuple>();
     };
 
+    // Adds a sub-target for each node under mode named by PoliciesTuple.  A target that is an alias
+    // itself is replaced by the nodes it refers to, it has no result of its own
+    template <typename PoliciesTuple, std::size_t Count, typename Mode>
+    static void add_sub_targets(parsing::dynamic_token_adapter& tokens,
+                                parsing::parse_target& target,
+                                const Mode& mode)
+    {
+        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
+            using node_type = std::decay_t<decltype(current)>;
+            using policies_type = typename node_type::policies_type;
+
+            using intersection = boost::mp11::mp_set_intersection<PoliciesTuple, policies_type>;
+
+            if constexpr ((std::tuple_size_v<intersection>) > 0) {
+                if constexpr (algorithm::has_specialisation_v<alias_t, policies_type>) {
+                    add_sub_targets<typename node_type::aliased_policies_type, Count>(tokens,
+                                                                                      target,
+                                                                                      mode);
+                } else {
+                    auto target_tokens = vector<parsing::token_type>{};
+                    target_tokens.reserve(Count);
+
+                    auto value_it = tokens.begin();
+                    for (auto j = std::size_t{0}; j < Count; ++j) {
+                        // Pre-increment the value iterator so we skip over the label token
+                        target_tokens.push_back(*(++value_it));
+                    }
+
+                    target.add_sub_target({std::move(target_tokens),  //
+                                           current,
+                                           parents...});
+                }
+            }
+        };
+        utility::tree_recursor(visitor, mode);
+    }
+
     template <std::size_t Count, typename TargetsTuple>
     constexpr static void check_target_counts() noexcept
     {
-- 
2.43.0


From 6f0b31e43741cd3e1ff10c61f3e3cc2600ec1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 14/46] fix: a missing dependency of an alias is reported as
 such

dependent_t had no priority, so it ran after alias_t had removed the label token and
its error was dropped in favour of an unknown argument error.
---
 include/arg_router/policy/dependent.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/arg_router/policy/dependent.hpp b/include/arg_router/policy/dependent.hpp
index 9b01594..1e40e80 100644
--- a/include/arg_router/policy/dependent.hpp
+++ b/include/arg_router/policy/dependent.hpp
@@ -26,6 +26,12 @@ public:
     /** Tuple of policy types. */
     using depends_policies_type = std::tuple<std::decay_t<DependsPolicies>...>;
 
+    /** Policy priority.
+     *
+     * Must be before alias_t, which removes the label token an error is matched against.
+     */
+    constexpr static auto priority = std::size_t{200};
+
     /** Constructor.
      *
      * @param policies Policy instances
-- 
2.43.0


From d19e5710d79b6d05aa4c0fbfd6a896cffddf5ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 15/46] fix: integers not representable in their type are
 rejected

std::int8_t and std::uint8_t were parsed as characters, so "5" became 53 and "12" was
rejected, and negative values wrapped around in unsigned types.
---
 include/arg_router/parsing/global_parser.hpp | 32 ++++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 75bcea4..8ea825f 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -10,6 +10,8 @@
 
 #include <boost/lexical_cast/try_lexical_convert.hpp>
 
+#include <limits>
+
 namespace arg_router
 {
 /** Global parsing struct.
@@ -39,13 +41,37 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace utility::string_view_ops;
         using namespace std::string_view_literals;
 
-        auto result = T{};
-        if (!boost::conversion::try_lexical_convert(token, result)) {
+        // lexical_cast treats signed and unsigned char as characters, but they are std::int8_t and
+        // std::uint8_t here
+        using intermediate_type = std::conditional_t<std::is_same_v<T, signed char> ||  //
+                                                         std::is_same_v<T, unsigned char>,
+                                                     int,
+                                                     T>;
+
+        auto result = intermediate_type{};
+        if (!boost::conversion::try_lexical_convert(token, result) ||
+            !is_representable(token, result)) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
 
-        return result;
+        return static_cast<T>(result);
+    }
+
+private:
+    template <typename U>
+    [[nodiscard]] constexpr static bool is_representable([[maybe_unused]] std::string_view token,
+                                                         [[maybe_unused]] U value) noexcept
+    {
+        if constexpr (sizeof(U) > sizeof(T)) {
+            return (value >= std::numeric_limits<T>::min()) &&
+                   (value <= std::numeric_limits<T>::max());
+        } else if constexpr (std::is_unsigned_v<T>) {
+            // lexical_cast wraps negative values
+            return token.empty() || (token.front() != '-') || (value == U{0});
+        } else {
+            return true;
+        }
     }
 };
 
-- 
2.43.0


From a9ae036b199c177cf545b0494ea8866cd46ea50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 16/46] fix: std::optional of a string-like type is a usable
 value type

The parser specialisations for optionals and for types constructible from a string_view were
ambiguous for it, so any tree using it failed to compile.
---
 include/arg_router/parsing/global_parser.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 8ea825f..5ab829f 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -11,6 +11,7 @@
 #include <boost/lexical_cast/try_lexical_convert.hpp>
 
 #include <limits>
+#include <optional>
 
 namespace arg_router
 {
@@ -76,7 +77,9 @@ private:
 };
 
 template <typename T>
-struct parser<T, typename std::enable_if_t<std::is_constructible_v<T, std::string_view>>> {
+struct parser<T,
+              typename std::enable_if_t<std::is_constructible_v<T, std::string_view> &&
+                                        !traits::is_specialisation_of_v<T, std::optional>>> {
     [[nodiscard]] static T parse(std::string_view token) { return T{token}; }
 };
 
-- 
2.43.0


From aff5d32a4e86efcd9b2a65c4374fe30202f2dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 17/46] fix: an alias does not set a runtime-disabled node

---
 include/arg_router/policy/alias.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 3c23449..2979a3f 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -238,6 +238,11 @@ private:
                                                                                       target,
                                                                                       mode);
                 } else {
+                    // The value of a disabled node never comes from the command line
+                    if (parsing::is_runtime_disabled(current, parents...)) {
+                        return;
+                    }
+
                     auto target_tokens = vector<parsing::token_type>{};
                     target_tokens.reserve(Count);
 
-- 
2.43.0


From 07e60e5ec5389e2c063b1d42fcd301ceb7d5e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 18/46] fix: unpaired brackets in messages are literal text

---
 include/arg_router/utility/exception_formatter.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/exception_formatter.hpp b/include/arg_router/utility/exception_formatter.hpp
index 4b2212a..a03508e 100644
--- a/include/arg_router/utility/exception_formatter.hpp
+++ b/include/arg_router/utility/exception_formatter.hpp
@@ -62,7 +62,9 @@ class exception_formatter
     [[nodiscard]] static constexpr auto placeholders_impl() noexcept
     {
         constexpr auto start = Str::get().find('{', Current);
-        constexpr auto end = Str::get().find('}', Current + 1);
+        // A closing bracket that precedes the opening one is literal text
+        constexpr auto end = start == std::string_view::npos ? start :  //
+                                                               Str::get().find('}', start + 1);
 
         if constexpr ((start != std::string_view::npos) && (end != std::string_view::npos)) {
             return placeholders_impl<
@@ -98,8 +100,7 @@ public:
         if constexpr ((std::tuple_size_v<initial_placeholders>) > 0) {
             return fmt<S>(tokens);
         } else if (!tokens.empty()) {
-            using greedy_appended = typename S::template append_t<AR_STRING(": {, }")>;
-            return fmt<greedy_appended>(tokens);
+            return string{S::get()} + fmt<AR_STRING(": {, }")>(tokens);
         }
 
         return string{S::get()};
-- 
2.43.0


From f9f1362e612c7480f3ab3231d3765b3a3e9b0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 19/46] fix: do not wrap a line between a character and its
 combining mark

---
 .../arg_router/utility/utf8/line_break.hpp    | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index f9c3c97..9d1d70e 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -112,6 +112,31 @@ template <std::size_t N>
            (trailing_window[0] == line_break_class::ZWJ);
 }
 
+/** Rule LB9, do not break a combining character sequence, i.e. before a combining mark or zero width
+ * joiner unless it has nothing to combine with.
+ *
+ * From https://www.unicode.org/reports/tr14/#Algorithm.
+ * @tparam N Size of trailing window
+ * @param trailing_window Trailing window of properties, the zeroth index is the 'current' class
+ * begin iterated over
+ * @param next_class The class after the current one
+ * @return True if you should not break between these break classes
+ */
+template <std::size_t N>
+[[nodiscard]] constexpr bool LB9(const std::array<line_break_class, N>& trailing_window,
+                                 line_break_class next_class) noexcept
+{
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return ((next_class == line_break_class::CM) ||         //
+            (next_class == line_break_class::ZWJ)) &&       //
+           (trailing_window[0] != line_break_class::BK) &&  //
+           (trailing_window[0] != line_break_class::CR) &&  //
+           (trailing_window[0] != line_break_class::LF) &&  //
+           (trailing_window[0] != line_break_class::NL) &&  //
+           (trailing_window[0] != line_break_class::SP) &&  //
+           (trailing_window[0] != line_break_class::ZW);
+}
+
 /** Rule LB11, do not break before or after Word joiner and related characters.
  *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
@@ -683,9 +708,10 @@ template <std::size_t N>
  */
 template <std::size_t N>
 constexpr auto line_break = std::array{
-    &LB6<N>,  &LB7<N>,  &LB8a_9<N>, &LB11<N>, &LB12<N>,  &LB12a<N>, &LB13<N>, &LB14<N>,  &LB15<N>,
-    &LB16<N>, &LB17<N>, &LB19<N>,   &LB21<N>, &LB21a<N>, &LB21b<N>, &LB22<N>, &LB23<N>,  &LB23a<N>,
-    &LB24<N>, &LB25<N>, &LB26<N>,   &LB27<N>, &LB28<N>,  &LB29<N>,  &LB30<N>, &LB30a<N>, &LB30b<N>,
+    &LB6<N>,  &LB7<N>,  &LB8a_9<N>, &LB9<N>,  &LB11<N>,  &LB12<N>,  &LB12a<N>, &LB13<N>,
+    &LB14<N>, &LB15<N>, &LB16<N>,   &LB17<N>, &LB19<N>,  &LB21<N>,  &LB21a<N>, &LB21b<N>,
+    &LB22<N>, &LB23<N>, &LB23a<N>,  &LB24<N>, &LB25<N>,  &LB26<N>,  &LB27<N>,  &LB28<N>,
+    &LB29<N>, &LB30<N>, &LB30a<N>,  &LB30b<N>,
 };
 }  // namespace no_break_rules
 
-- 
2.43.0


From 26cf2705ca7244a32fef247b653c3f480a8eb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 20/46] fix: allow a line break after spaces whatever follows
 (LB18)

---
 .../arg_router/utility/utf8/line_break.hpp    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index 9d1d70e..c0c7663 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -339,7 +339,8 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::QU) ||  //
+    return ((next_class == line_break_class::QU) &&
+            (trailing_window[0] != line_break_class::SP)) ||  // LB18, break after spaces
            (trailing_window[0] == line_break_class::QU);
 }
 
@@ -358,9 +359,10 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::BA) ||  //
-           (next_class == line_break_class::HY) ||  //
-           (next_class == line_break_class::NS) ||  //
+    return (((next_class == line_break_class::BA) ||  //
+             (next_class == line_break_class::HY) ||  //
+             (next_class == line_break_class::NS)) &&
+            (trailing_window[0] != line_break_class::SP)) ||  // LB18, break after spaces
            (trailing_window[0] == line_break_class::BB);
 }
 
@@ -411,11 +413,12 @@ template <std::size_t N>
  * @return True if you should not break between these break classes
  */
 template <std::size_t N>
-[[nodiscard]] constexpr bool LB22(
-    [[maybe_unused]] const std::array<line_break_class, N>& trailing_window,
-    line_break_class next_class) noexcept
+[[nodiscard]] constexpr bool LB22(const std::array<line_break_class, N>& trailing_window,
+                                  line_break_class next_class) noexcept
 {
-    return next_class == line_break_class::IN_;
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return (next_class == line_break_class::IN_) &&
+           (trailing_window[0] != line_break_class::SP);  // LB18, break after spaces
 }
 
 /** Rule LB23, do not break between digits and letters.
-- 
2.43.0


From d5ff4265baaaa2c98b9777ec6471052008e7cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 21/46] fix: restore the line break context when wrapping
 before the column limit

---
 include/arg_router/utility/utf8.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a99092d..157a88a 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -500,6 +500,9 @@ private:
                     break;
                 }
                 bytes += cp.size();
+
+                rotate_trailing_window();
+                trailing_window_.front() = extract_class(*code_point::decode(cp));
             }
             str_.remove_prefix(bytes);
 
@@ -514,6 +517,7 @@ private:
         auto bytes = std::size_t{0};
         auto line_break_column = std::size_t{0};
         auto line_break_byte = std::size_t{0};
+        auto line_break_window = trailing_window_;
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
             // Have we exceeded the terminal width?
             column += terminal_width(*it);
@@ -525,6 +529,9 @@ private:
                     line_break_byte_ = (bytes == 0) ? (*it).size() : bytes;
                 } else {
                     line_break_byte_ = line_break_byte;
+
+                    // The next line starts at the break, so forget what has been read beyond it
+                    trailing_window_ = line_break_window;
                 }
                 return;
             }
@@ -556,6 +563,7 @@ private:
             if (should_break(next_break_class)) {
                 line_break_column = column;
                 line_break_byte = bytes;
+                line_break_window = trailing_window_;
             }
         }
 
-- 
2.43.0


From a00321e3fdd25c9cbbf88b4eac5c7738e2881314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 22/46] fix: do not join control characters to a grapheme
 cluster (GB4, GB5)

---
 include/arg_router/utility/utf8.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 157a88a..352e6bd 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -193,8 +193,20 @@ private:
         return result;
     }
 
+    [[nodiscard]] constexpr static bool is_control(grapheme_cluster_break_class c) noexcept
+    {
+        return (c == grapheme_cluster_break_class::control) ||
+               (c == grapheme_cluster_break_class::CR) || (c == grapheme_cluster_break_class::LF);
+    }
+
     [[nodiscard]] constexpr bool should_break(grapheme_cluster_break_class next_class) noexcept
     {
+        // Rules GB4 and GB5, always break around controls other than within CR LF
+        if ((is_control(trailing_window_.front()) || is_control(next_class)) &&
+            !no_break_rules::GB3(trailing_window_, next_class)) {
+            return true;
+        }
+
         for (auto rule : no_break_rules::grapheme_cluster<trailing_window_size>) {
             if (rule(trailing_window_, next_class)) {
                 return false;
-- 
2.43.0


From f0cc35ed0525d8ff9d7ce8db890d8b901766c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 23/46] fix: inserting at end() returns the inserted element

---
 include/arg_router/parsing/dynamic_token_adapter.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/parsing/dynamic_token_adapter.hpp b/include/arg_router/parsing/dynamic_token_adapter.hpp
index 064b011..a8b76fa 100644
--- a/include/arg_router/parsing/dynamic_token_adapter.hpp
+++ b/include/arg_router/parsing/dynamic_token_adapter.hpp
@@ -390,8 +390,8 @@ public:
         auto processed_it = it.is_end() ? processed_->end() :  //
                                           processed_->begin() + it.i_;
 
-        processed_->insert(processed_it, value);
-        return {this, it.i_};
+        processed_it = processed_->insert(processed_it, value);
+        return {this, processed_it - processed_->begin()};
     }
 
     /** Inserts the value in the range [ @a first, @a last ) at position @a it.
@@ -410,8 +410,8 @@ public:
         auto processed_it = it.is_end() ? processed_->end() :  //
                                           processed_->begin() + it.i_;
 
-        processed_->insert(processed_it, first, last);
-        return {this, it.i_};
+        processed_it = processed_->insert(processed_it, first, last);
+        return {this, processed_it - processed_->begin()};
     }
 
     /** Erases the element at @a it.
-- 
2.43.0


From a4527cfd43731d747e5153985afe831f14d429c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 24/46] fix: unsafe_any holds only trivially copyable objects
 internally

---
 include/arg_router/utility/unsafe_any.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 4443ee6..825e2f5 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -23,8 +23,12 @@ class unsafe_any_t
     using ptr_type = void*;
     using aligned_storage_type = std::aligned_storage_t<SmallObjectOptimisationSize>;
 
+    // swap() exchanges the storage bytewise, so only types for which that is a valid move can use it
     template <typename T>
-    constexpr static bool use_internal_storage = (sizeof(T) <= sizeof(aligned_storage_type));
+    constexpr static bool use_internal_storage =
+        (sizeof(std::decay_t<T>) <= sizeof(aligned_storage_type)) &&
+        (alignof(std::decay_t<T>) <= alignof(aligned_storage_type)) &&
+        std::is_trivially_copyable_v<std::decay_t<T>>;
 
 public:
     /** Default constructor.
-- 
2.43.0


From 88f28abb91f7481bcb3ee466c99003a39830bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 25/46] fix: an empty unsafe_any can be copied

---
 include/arg_router/utility/unsafe_any.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 825e2f5..51f1068 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -111,8 +111,10 @@ public:
      */
     unsafe_any_t(const unsafe_any_t& other)
     {
-        auto new_any = other.copier_(other.storage_);
-        swap(*this, new_any);
+        if (other.has_value()) {
+            auto new_any = other.copier_(other.storage_);
+            swap(*this, new_any);
+        }
     }
 
     /** Assignment operator.
-- 
2.43.0


From 6533cd91b756c970bf612eec3c3e083c810d893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 26/46] fix: unsafe_any releases its storage when the value's
 constructor throws

---
 include/arg_router/utility/unsafe_any.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 51f1068..0238b14 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -83,8 +83,14 @@ public:
         using value_type = std::decay_t<T>;
 
         // Build using memory from allocator
-        storage_.ptr = alloc.allocate(1);
-        new (storage_.ptr) value_type(std::forward<T>(value));
+        auto ptr = alloc.allocate(1);
+        try {
+            new (ptr) value_type(std::forward<T>(value));
+        } catch (...) {
+            alloc.deallocate(ptr, 1);
+            throw;
+        }
+        storage_.ptr = ptr;
 
         copier_ = [](const storage_type& storage) -> unsafe_any_t {
             return *reinterpret_cast<const value_type*>(storage.ptr);
-- 
2.43.0


From 44fb52710254a11ea1a3fd1eb084b06fb631ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 27/46] fix: short names are usable when both prefixes are the
 same

---
 include/arg_router/parsing/parsing.hpp    | 6 +++++-
 include/arg_router/parsing/token_type.hpp | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/parsing/parsing.hpp b/include/arg_router/parsing/parsing.hpp
index 0ca95d0..2f49781 100644
--- a/include/arg_router/parsing/parsing.hpp
+++ b/include/arg_router/parsing/parsing.hpp
@@ -43,7 +43,11 @@ template <typename T>
         }
     }
     if constexpr (traits::has_short_name_method_v<T>) {
-        if ((token.prefix == prefix_type::short_) && (token.name == T::short_name())) {
+        // If the prefixes are the same, then a prefixed token is always treated as a long one
+        if (((token.prefix == prefix_type::short_) ||
+             ((config::short_prefix == config::long_prefix) &&
+              (token.prefix == prefix_type::long_))) &&
+            (token.name == T::short_name())) {
             return true;
         }
     }
diff --git a/include/arg_router/parsing/token_type.hpp b/include/arg_router/parsing/token_type.hpp
index 47da7b7..04e7bf5 100644
--- a/include/arg_router/parsing/token_type.hpp
+++ b/include/arg_router/parsing/token_type.hpp
@@ -137,7 +137,8 @@ template <typename Node>
     }
     if constexpr (traits::has_short_name_method_v<Node>) {
         if ((token.substr(0, short_prefix.size()) == short_prefix) &&
-            (token.substr(0, long_prefix.size()) != long_prefix)) {
+            ((short_prefix == long_prefix) ||
+             (token.substr(0, long_prefix.size()) != long_prefix))) {
             token.remove_prefix(short_prefix.size());
             return {prefix_type::short_, token};
         }
-- 
2.43.0


From 7be5b4591546076c5e5f8d8ef6511d51942e6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 28/46] fix: default_help_formatter_t with its own addendum
 formatter is a policy

---
 include/arg_router/policy/default_help_formatter.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/policy/default_help_formatter.hpp b/include/arg_router/policy/default_help_formatter.hpp
index 6e91d37..251caf7 100644
--- a/include/arg_router/policy/default_help_formatter.hpp
+++ b/include/arg_router/policy/default_help_formatter.hpp
@@ -374,9 +374,12 @@ constexpr auto default_help_formatter = default_help_formatter_t<>{};
 template <typename Indent,
           typename DescColumnOffset,
           typename LineFormatter,
-          typename PreambleFormatter>
-struct is_policy<
-    default_help_formatter_t<Indent, DescColumnOffset, LineFormatter, PreambleFormatter>> :
-    std::true_type {
+          typename PreambleFormatter,
+          typename AddendumFormatter>
+struct is_policy<default_help_formatter_t<Indent,
+                                          DescColumnOffset,
+                                          LineFormatter,
+                                          PreambleFormatter,
+                                          AddendumFormatter>> : std::true_type {
 };
 }  // namespace arg_router::policy
-- 
2.43.0


From 2af6ec9216ac21af8fac7c08ea46b2224840e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 29/46] fix: integers keep their zeros and sign as compile-time
 strings

---
 .../utility/compile_time_string.hpp           | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index 4302b3a..69f0373 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -245,21 +245,22 @@ private:
     template <typename Str, auto NewValue>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
-        constexpr auto digit = NewValue / power10;
+        // Works up from the least significant digit so that zeros are kept, each digit's sign is
+        // dropped rather than the whole value's as the latter can't be done for a minimum value
+        constexpr auto digit = NewValue % 10;
+        constexpr auto next_value = NewValue / 10;
 
-        using digit_str = str<'0' + digit>;
+        using digit_str = typename str<static_cast<char>(
+            '0' + (digit < 0 ? -digit : digit))>::template append_t<Str>;
 
-        if constexpr (num_digits != 1) {
-            constexpr auto next_value = NewValue % power10;
-            return build<typename Str::template append_t<digit_str>, next_value>();
+        if constexpr (next_value != 0) {
+            return build<digit_str, next_value>();
         } else {
-            return typename Str::template append_t<digit_str>{};
+            return digit_str{};
         }
     }
 
-    using digit_str = decltype(build<str<>, math::abs(Value)>());
+    using digit_str = decltype(build<str<>, Value>());
 
 public:
     using type = std::conditional_t<(Value < 0), str<'-'>::template append_t<digit_str>, digit_str>;
@@ -455,21 +456,22 @@ private:
     template <typename Str, auto NewValue>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
-        constexpr auto power10 = math::pow<10>(num_digits - 1);
-        constexpr auto digit = NewValue / power10;
+        // Works up from the least significant digit so that zeros are kept, each digit's sign is
+        // dropped rather than the whole value's as the latter can't be done for a minimum value
+        constexpr auto digit = NewValue % 10;
+        constexpr auto next_value = NewValue / 10;
 
-        using digit_str = typename Str::template append_t<compile_time_string<'0' + digit>>;
+        using digit_str = typename compile_time_string<static_cast<char>(
+            '0' + (digit < 0 ? -digit : digit))>::template append_t<Str>;
 
-        if constexpr (num_digits != 1) {
-            constexpr auto next_value = NewValue % power10;
+        if constexpr (next_value != 0) {
             return build<digit_str, next_value>();
         } else {
             return digit_str{};
         }
     }
 
-    using digit_str = decltype(build<compile_time_string<>, math::abs(Value)>());
+    using digit_str = decltype(build<compile_time_string<>, Value>());
 
 public:
     using type = std::conditional_t<(Value < 0),
-- 
2.43.0


From 4f4273f1b5da162ad876dcd950d9581b22f6a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 30/46] fix: routed values are moved as documented, and a copy
 that fails does not terminate

---
 include/arg_router/algorithm.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/algorithm.hpp b/include/arg_router/algorithm.hpp
index ca20ade..e7578b3 100644
--- a/include/arg_router/algorithm.hpp
+++ b/include/arg_router/algorithm.hpp
@@ -175,7 +175,7 @@ namespace detail
 template <typename U, typename... I>
 [[nodiscard]] constexpr auto tuple_filter_and_construct_impl(
     U&& input,
-    [[maybe_unused]] std::tuple<I...> Is) noexcept
+    [[maybe_unused]] std::tuple<I...> Is)
 {
     return std::tuple{std::get<I::value>(std::forward<U>(input))...};
 }
@@ -193,7 +193,7 @@ template <typename U, typename... I>
  * @return Result tuple
  */
 template <template <typename...> typename Fn, typename U>
-[[nodiscard]] constexpr auto tuple_filter_and_construct(U&& input) noexcept
+[[nodiscard]] constexpr auto tuple_filter_and_construct(U&& input)
 {
     // Zip together an index-sequence of U and the elements of it
     using zipped =
@@ -206,7 +206,8 @@ template <template <typename...> typename Fn, typename U>
     using filtered = boost::mp11::mp_filter_q<wrapped_fn, zipped>;
 
     // Fold construct the return value using the zip indices as accessors to input
-    return detail::tuple_filter_and_construct_impl(input, typename unzip<filtered>::first_type{});
+    return detail::tuple_filter_and_construct_impl(std::forward<U>(input),
+                                                   typename unzip<filtered>::first_type{});
 }
 
 namespace detail
-- 
2.43.0


From c19c57b284e06c5c8bf021138d9ba091af57e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 31/46] fix: long numeric tokens are parsed without a temporary
 from the default allocator

---
 include/arg_router/parsing/global_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 5ab829f..695a38f 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -50,7 +50,7 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
                                                      T>;
 
         auto result = intermediate_type{};
-        if (!boost::conversion::try_lexical_convert(token, result) ||
+        if (!boost::conversion::try_lexical_convert(token.data(), token.size(), result) ||
             !is_representable(token, result)) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
-- 
2.43.0


From 11fb20cbfc553ce33589e713bd76629cd1bae18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 32/46] fix: a default value whose copy fails does not
 terminate

---
 include/arg_router/policy/default_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/default_value.hpp b/include/arg_router/policy/default_value.hpp
index c11e6d7..cffd1b1 100644
--- a/include/arg_router/policy/default_value.hpp
+++ b/include/arg_router/policy/default_value.hpp
@@ -39,7 +39,7 @@ public:
      */
     template <typename ValueType, typename... Parents>
     [[nodiscard]] constexpr ValueType missing_phase(
-        [[maybe_unused]] const Parents&... parents) const noexcept
+        [[maybe_unused]] const Parents&... parents) const
     {
         return value_;
     }
-- 
2.43.0


From e3a7d5aba64707d7e486cc493e5ab431fee40773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 33/46] fix: an allocation failure while generating help does
 not terminate

---
 include/arg_router/help.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index dd680fa..04eb342 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -133,8 +133,7 @@ public:
      * @return Runtime help data
      */
     template <bool Flatten, typename Node>
-    [[nodiscard]] runtime_help_data generate_runtime_help_data(
-        const Node& start_node) const noexcept
+    [[nodiscard]] runtime_help_data generate_runtime_help_data(const Node& start_node) const
     {
         using node_hdt = typename Node::template help_data_type<Flatten>;
 
-- 
2.43.0


From 0cf7b141344a7f88c68eea754411491fe8b53f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 34/46] fix: an allocation failure while generating help text
 surfaces rather than truncating it

---
 include/arg_router/help.hpp | 6 ++++++
 include/arg_router/root.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index 04eb342..99e9ff0 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -205,7 +205,10 @@ public:
                     std::exit(EXIT_SUCCESS);
                 } else {
                     auto stream = ostringstream{};
+                    // Otherwise the stream swallows an allocation failure and truncates the output
+                    stream.exceptions(std::ios_base::badbit);
                     formatter_type::template generate_help<node_type, help_t, flatten>(stream, rhd);
+                    stream.exceptions(std::ios_base::goodbit);
                     this->routing_policy::routing_phase(std::move(stream));
                 }
             } else {
@@ -216,7 +219,10 @@ public:
                     std::exit(EXIT_SUCCESS);
                 } else {
                     auto stream = ostringstream{};
+                    // Otherwise the stream swallows an allocation failure and truncates the output
+                    stream.exceptions(std::ios_base::badbit);
                     formatter_type::template generate_help<node_type, help_t, flatten>(stream);
+                    stream.exceptions(std::ios_base::goodbit);
                     this->routing_policy::routing_phase(std::move(stream));
                 }
             }
diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index d91510a..089d420 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -278,6 +278,8 @@ public:
     [[nodiscard]] string help() const
     {
         auto stream = ostringstream{};
+        // Otherwise the stream swallows an allocation failure and truncates the output
+        stream.exceptions(std::ios_base::badbit);
         help(stream);
 
         return stream.str();
-- 
2.43.0


From 3692e02a13a6eb207c1d59982064a11d1b799f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 35/46] fix: reject duplicate names on nodes of an identical
 type

The uniqueness check skipped every policy whose path of parent types is the
same as that of the policy being checked, which is so for the policies of two
siblings of the same type (e.g. the same flag twice).
---
 include/arg_router/policy/validator.hpp | 52 +++++++++++--------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index db925ed..77a3d22 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -203,41 +203,31 @@ template <template <typename...> typename... ModeTypes>
 struct policy_unique_from_owner_parent_to_mode_or_root {
     static_assert(sizeof...(ModeTypes), "Must be at least one mode type");
 
-    template <typename Policy, typename PathToThis>
-    struct checker {
-        template <typename Current, typename... Parents>
-        constexpr static void fn() noexcept
-        {
-            using path_type = std::tuple<Parents...>;
-
-            // Skip checking ourself
-            if constexpr (!std::is_same_v<PathToThis, path_type>) {
-                static_assert(!std::is_same_v<Policy, Current>,
-                              "Policy must be unique in the parse tree up to "
-                              "the nearest mode or root");
-            }
-        }
-    };
-
     template <typename T>
     using is_mode =
         boost::mp11::mp_any_of<std::tuple<traits::is_specialisation_of<T, ModeTypes>...>,
                                boost::mp11::mp_to_bool>;
 
-    // Don't recurse into child modes, they effectively have their own namespace
-    template <typename StartType>
-    struct skipper {
-        template <typename Current, typename...>
-        [[nodiscard]] constexpr static bool fn() noexcept
-        {
-            // If the start node is a mode, don't skip it!
-            if constexpr (std::is_same_v<StartType, Current>) {
-                return false;
-            } else {
-                return is_mode<Current>::value;
-            }
+    // Counts the uses of Policy in Current and below.  The path of a policy does not identify it
+    // (nodes can have an identical type), so we can't skip ourself by comparing those
+    template <typename Policy, typename StartType, typename Current>
+    [[nodiscard]] constexpr static std::size_t count() noexcept
+    {
+        // Don't recurse into child modes, they effectively have their own namespace.  If the start
+        // node is a mode, don't skip it!
+        if constexpr (is_mode<Current>::value && !std::is_same_v<StartType, Current>) {
+            return 0;
+        } else {
+            using children_type = typename Current::children_type;
+            using policies_type = typename Current::policies_type;
+
+            std::size_t result = boost::mp11::mp_count<policies_type, Policy>::value;
+            utility::tuple_type_iterator<children_type>([&](auto i) {
+                result += count<Policy, StartType, std::tuple_element_t<i, children_type>>();
+            });
+            return result;
         }
-    };
+    }
 
     template <typename T, typename... Parents>
     constexpr static void check() noexcept
@@ -257,7 +247,9 @@ struct policy_unique_from_owner_parent_to_mode_or_root {
 
             // Recurse the tree from the oldest generation, testing that no other policy matches
             // ours
-            utility::tree_type_recursor<checker<T, path_type>, skipper<start_type>, start_type>();
+            static_assert(count<T, start_type, start_type>() <= 1,
+                          "Policy must be unique in the parse tree up to "
+                          "the nearest mode or root");
         }
     }
 };
-- 
2.43.0


From c81a27bf0d1d1c0191e68bffbfaf2fa05864dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 36/46] fix: reject sibling modes with the same name

The scope of a mode's own name was the mode itself, so two modes next to each
other could have the same name and the second was unreachable.
---
 include/arg_router/policy/validator.hpp | 38 +++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index 77a3d22..7873107 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -213,20 +213,20 @@ struct policy_unique_from_owner_parent_to_mode_or_root {
     template <typename Policy, typename StartType, typename Current>
     [[nodiscard]] constexpr static std::size_t count() noexcept
     {
-        // Don't recurse into child modes, they effectively have their own namespace.  If the start
-        // node is a mode, don't skip it!
-        if constexpr (is_mode<Current>::value && !std::is_same_v<StartType, Current>) {
-            return 0;
-        } else {
-            using children_type = typename Current::children_type;
-            using policies_type = typename Current::policies_type;
-
-            std::size_t result = boost::mp11::mp_count<policies_type, Policy>::value;
+        using children_type = typename Current::children_type;
+        using policies_type = typename Current::policies_type;
+
+        std::size_t result = boost::mp11::mp_count<policies_type, Policy>::value;
+
+        // Don't recurse into child modes, they effectively have their own namespace (but their own
+        // names are in ours).  If the start node is a mode, don't skip it!
+        if constexpr (!is_mode<Current>::value || std::is_same_v<StartType, Current>) {
             utility::tuple_type_iterator<children_type>([&](auto i) {
                 result += count<Policy, StartType, std::tuple_element_t<i, children_type>>();
             });
-            return result;
         }
+
+        return result;
     }
 
     template <typename T, typename... Parents>
@@ -237,17 +237,25 @@ struct policy_unique_from_owner_parent_to_mode_or_root {
 
         // Make sure there's at least one parent beyond the owner
         if constexpr (NumParents > 1) {
-            // Find a mode type, if there's one present we stop moving up through the ancestors at
-            // that point, otherwise we go up to the root
-            constexpr auto mode_index = boost::mp11::mp_find_if<ParentTuple, is_mode>::value;
+            // Find a mode type beyond the owner, if there's one present we stop moving up through
+            // the ancestors at that point, otherwise we go up to the root
+            using owner_type = boost::mp11::mp_front<ParentTuple>;
+            using ancestors_type = boost::mp11::mp_pop_front<ParentTuple>;
+            constexpr auto mode_index = boost::mp11::mp_find_if<ancestors_type, is_mode>::value;
 
             using path_type =
-                boost::mp11::mp_take_c<ParentTuple, std::min(mode_index + 1, NumParents)>;
+                boost::mp11::mp_take_c<ancestors_type, std::min(mode_index + 1, NumParents - 1)>;
             using start_type = boost::mp11::mp_back<path_type>;
 
+            // A mode can have the same name as the mode it is in
+            constexpr auto start_count =
+                is_mode<owner_type>::value ?
+                    boost::mp11::mp_count<typename start_type::policies_type, T>::value :
+                    0;
+
             // Recurse the tree from the oldest generation, testing that no other policy matches
             // ours
-            static_assert(count<T, start_type, start_type>() <= 1,
+            static_assert((count<T, start_type, start_type>() - start_count) <= 1,
                           "Policy must be unique in the parse tree up to "
                           "the nearest mode or root");
         }
-- 
2.43.0


From 9a1f233d0e323701e809f0f040eba51a1be69e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 37/46] fix: reject a policy that only some of the children
 must not have

child_must_not_have_policy is to check that every child does not have the
policy, but only failed if all of the children had it.
---
 include/arg_router/policy/validator.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index 7873107..33e606a 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -381,15 +381,33 @@ struct child_must_have_policy {
 
 /** A rule condition that checks that every child under @a T does not have a particular policy.
  *
+ * Flags bring their own default value, so a T where only some of the children are flags is not
+ * rejected because of them.
  * @tparam Policy Despecialised policy to check for
  */
 template <template <typename...> typename Policy>
 struct child_must_not_have_policy {
+    template <typename Child>
+    struct given_policies {
+        using type = typename Child::policies_type;
+    };
+    template <typename... Policies>
+    struct given_policies<flag_t<Policies...>> {
+        using type = std::tuple<Policies...>;
+    };
+
+    template <typename Child>
+    using child_checker =
+        algorithm::has_specialisation<Policy, typename given_policies<Child>::type>;
+
     template <typename T, typename...>
     constexpr static void check() noexcept
     {
-        if constexpr ((std::tuple_size_v<typename T::children_type>) > 0) {
-            static_assert(!basic_child_must_have_policy<Policy>::template value<T>,
+        using children_type = typename T::children_type;
+
+        if constexpr (std::tuple_size_v<children_type> > 0) {
+            static_assert(!basic_child_must_have_policy<Policy>::template value<T> &&
+                              boost::mp11::mp_none_of<children_type, child_checker>::value,
                           "All children of T must not have this policy");
         }
     }
-- 
2.43.0


From ab1a2a3d90b877e28741cb0a8c96a49d2ac0b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 38/46] fix: reject a mode after an anonymous mode

It compiled but was unreachable, the anonymous mode rejects its name as an
unknown argument.
---
 include/arg_router/policy/validator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/validator.hpp b/include/arg_router/policy/validator.hpp
index 33e606a..2ef9633 100644
--- a/include/arg_router/policy/validator.hpp
+++ b/include/arg_router/policy/validator.hpp
@@ -520,8 +520,8 @@ struct node_types_must_be_at_end {
     }
 };
 
-/** A rule condition that checks if there are more than one child of @a T that is a mode, only one
- * can be anonymous.
+/** A rule condition that checks that if a child of @a T is an anonymous mode, then all the modes are
+ * at the end of the child list and the anonymous one is the last.
  *
  * @tparam ModeTypes Pack of types that are considered modes
  */
@@ -552,6 +552,11 @@ struct anonymous_mode_must_be_at_end {
 
         if constexpr (has_anonymous_mode_child) {
             node_types_must_be_at_end<ModeTypes...>::template check<T>();
+
+            // Any mode after an anonymous one would be unreachable
+            using last_child = boost::mp11::mp_back<typename T::children_type>;
+            static_assert(is_anonymous_mode<last_child>::value,
+                          "Anonymous mode must be the last child");
         }
     }
 };
-- 
2.43.0


From 16ead6d4a1a5468776fe6ac78bed9440a664eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 39/46] fix: generated translations did not compile if a
 comment or blank line followed the last error code

---
 .../translation_generator_script.cmake            | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 4470fba..284727b 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -50,6 +50,7 @@ public:
 
         if (line STREQUAL "[error_code]")
             set(error_code_section TRUE)
+            set(first_error_code TRUE)
             string(APPEND output_data "${error_code_header}")
             continue()
         endif()
@@ -68,13 +69,12 @@ public:
 
         # Process the entry data
         if (error_code_section)
-            set(output_line "        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
-            # Don't append a comma if this is the last tuple entry, won't compile in C++
-            if (line_index EQUAL num_lines)
-                string(APPEND output_line "\n")
-            else()
-                string(APPEND output_line ",\n")
+            # Separate from the previous tuple entry, a comma after the last won't compile in C++
+            if (NOT first_error_code)
+                string(APPEND output_data ",\n")
             endif()
+            set(first_error_code FALSE)
+            set(output_line "        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
             string(APPEND output_data "${output_line}")
         else()
             set(output_line "    using ${key} = ${value_str};\n")
@@ -86,6 +86,9 @@ public:
 
     # Write the footer and finish
     if (error_code_section)
+        if (NOT first_error_code)
+            string(APPEND output_data "\n")
+        endif()
         string(APPEND output_data "${error_code_footer}")
     endif()
     string(APPEND output_data "${footer}")
-- 
2.43.0


From 35992d835e08c3775b6ed4004af62c66ae17515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 40/46] fix: translations were lost or merged by square
 brackets or a trailing backslash, and empty files failed

---
 .../translation_generator_script.cmake        | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 284727b..91d3877 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -30,17 +30,25 @@ public:
     set(output_data "${${ARGS_OUTPUT_VAR}}${header}")
     set(error_code_section FALSE)
 
-    cmake_policy(PUSH)
-    cmake_policy(SET CMP0007 NEW)
-
-    # CMake ranges are inclusive for some reason, so we need to decrement the array length before
-    # using in the for-loop
-    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8)
-    list(LENGTH lines num_lines_over)
-    math(EXPR num_lines "${num_lines_over}-1")
-
-    foreach(line_index RANGE ${num_lines})
-        list(GET lines ${line_index} line)
+    # The lines cannot be held in a list, because any square brackets or trailing backslashes in them
+    # would be treated as part of the list syntax and merge the lines together
+    file(READ "${ARGS_SOURCE}" lines)
+    string(ASCII 239 187 191 byte_order_mark)
+    string(REGEX REPLACE "^${byte_order_mark}" "" lines "${lines}")
+    string(REPLACE "\r" "" lines "${lines}")
+
+    string(LENGTH "${lines}" length)
+    while(length GREATER 0)
+        # Pop the next line
+        string(FIND "${lines}" "\n" line_end)
+        string(SUBSTRING "${lines}" 0 ${line_end} line)
+        if (line_end EQUAL -1)
+            set(lines "")
+        else()
+            math(EXPR next_line "${line_end}+1")
+            string(SUBSTRING "${lines}" ${next_line} -1 lines)
+        endif()
+        string(LENGTH "${lines}" length)
 
         # Skip comment lines
         string(SUBSTRING "${line}" 0 1 first_char)
@@ -80,9 +88,7 @@ public:
             set(output_line "    using ${key} = ${value_str};\n")
             string(APPEND output_data "${output_line}")
         endif()
-    endforeach()
-
-    cmake_policy(POP)
+    endwhile()
 
     # Write the footer and finish
     if (error_code_section)
-- 
2.43.0


From 420610dc6d277a0504af4ea2c78a1b87e0c744bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:30 +0000
Subject: [PATCH 41/46] fix: languages whose trees have the same type did not
 compile

The variant was constructed by converting from the root, which is
ambiguous if two languages give the same type.
---
 include/arg_router/multi_lang/root.hpp         | 4 ++--
 include/arg_router/multi_lang/root_wrapper.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index c2c1d4a..c578380 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -119,12 +119,12 @@ public:
                 return;
             }
 
-            root_.emplace(root_variant_t{f(translation<id>{})});
+            root_.emplace(std::in_place_index<I>, f(translation<id>{}));
         });
 
         // No match, so fall back to the default (the first language)
         if (!root_) {
-            root_.emplace(root_variant_t{f(translation<DefaultLanguageID>{})});
+            root_.emplace(std::in_place_index<0>, f(translation<DefaultLanguageID>{}));
         }
     }
 
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index db95f25..a467ce4 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -97,12 +97,12 @@ public:
                 return;
             }
 
-            root_.emplace(root_variant_t{f(I)});
+            root_.emplace(std::in_place_index<I>, f(I));
         });
 
         // No match, so fall back to the default (the first language)
         if (!root_) {
-            root_.emplace(root_variant_t{f(traits::integral_constant<std::size_t{0}>{})});
+            root_.emplace(std::in_place_index<0>, f(traits::integral_constant<std::size_t{0}>{}));
         }
     }
 
-- 
2.43.0


From f27f41f14ed973ab228e795d40f94e5f7001d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 42/46] fix: an empty list of nodes did not compile as a child

---
 include/arg_router/list.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/arg_router/list.hpp b/include/arg_router/list.hpp
index bdae2a8..f9c02bb 100644
--- a/include/arg_router/list.hpp
+++ b/include/arg_router/list.hpp
@@ -51,6 +51,13 @@ private:
 
 namespace detail
 {
+// Recursion end condition
+template <typename Result>
+[[nodiscard]] constexpr auto list_expander_impl(Result result) noexcept
+{
+    return result;
+}
+
 // Forward declared
 template <typename Result, typename Next, typename... Others>
 constexpr auto list_expander_impl(Result r, Next n, Others... others) noexcept;
@@ -64,13 +71,6 @@ template <typename Result, typename ListChildren, std::size_t... I>
     return list_expander_impl(std::move(result), std::move(std::get<I>(list_children))...);
 }
 
-// Recursion end condition
-template <typename Result>
-[[nodiscard]] constexpr auto list_expander_impl(Result result) noexcept
-{
-    return result;
-}
-
 template <typename Result, typename Next, typename... Others>
 [[nodiscard]] constexpr auto list_expander_impl(Result result, Next next, Others... others) noexcept
 {
-- 
2.43.0


From 874a11b0d2c9d254a52c93a5038833ab6a5b95d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:25 +0000
Subject: [PATCH 43/46] fix: run-time value bounds could not be given as
 variables

---
 include/arg_router/policy/min_max_value.hpp | 28 +++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/arg_router/policy/min_max_value.hpp b/include/arg_router/policy/min_max_value.hpp
index 5b21d3c..743b7b6 100644
--- a/include/arg_router/policy/min_max_value.hpp
+++ b/include/arg_router/policy/min_max_value.hpp
@@ -193,13 +193,13 @@ public:
  * @return min_max_value_t instance
  */
 template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
-[[nodiscard]] constexpr auto min_max_value(ValueType&& min,
-                                           ValueType&& max,
-                                           LessThanCompare&& compare = LessThanCompare{}) noexcept
+[[nodiscard]] constexpr auto min_max_value(ValueType min,
+                                           ValueType max,
+                                           LessThanCompare compare = LessThanCompare{}) noexcept
 {
-    return min_max_value_t<ValueType, LessThanCompare>{std::forward<ValueType>(min),
-                                                       std::forward<ValueType>(max),
-                                                       std::forward<LessThanCompare>(compare)};
+    return min_max_value_t<ValueType, LessThanCompare>{std::move(min),
+                                                       std::move(max),
+                                                       std::move(compare)};
 }
 
 /** Constructs a min_max_value_t with the given params.
@@ -211,12 +211,10 @@ template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
  * @return min_max_value_t instance
  */
 template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
-[[nodiscard]] constexpr auto min_value(ValueType&& min,
-                                       LessThanCompare&& compare = LessThanCompare{}) noexcept
+[[nodiscard]] constexpr auto min_value(ValueType min,
+                                       LessThanCompare compare = LessThanCompare{}) noexcept
 {
-    return min_max_value_t<ValueType, LessThanCompare>{std::forward<ValueType>(min),
-                                                       {},
-                                                       std::forward<LessThanCompare>(compare)};
+    return min_max_value_t<ValueType, LessThanCompare>{std::move(min), {}, std::move(compare)};
 }
 
 /** Constructs a min_max_value_t with the given params.
@@ -228,12 +226,10 @@ template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
  * @return min_max_value_t instance
  */
 template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
-[[nodiscard]] constexpr auto max_value(ValueType&& max,
-                                       LessThanCompare&& compare = LessThanCompare{}) noexcept
+[[nodiscard]] constexpr auto max_value(ValueType max,
+                                       LessThanCompare compare = LessThanCompare{}) noexcept
 {
-    return min_max_value_t<ValueType, LessThanCompare>{{},
-                                                       std::forward<ValueType>(max),
-                                                       std::forward<LessThanCompare>(compare)};
+    return min_max_value_t<ValueType, LessThanCompare>{{}, std::move(max), std::move(compare)};
 }
 
 /** Constructs a min_max_value_ct with the given params.
-- 
2.43.0


From 2bb10b21b57331f305c25313a7e8a98f0d2e4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:01 +0000
Subject: [PATCH 44/46] fix: value bounds of another arithmetic type were
 compared after conversion

---
 include/arg_router/policy/min_max_value.hpp | 38 +++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/policy/min_max_value.hpp b/include/arg_router/policy/min_max_value.hpp
index 743b7b6..f77add7 100644
--- a/include/arg_router/policy/min_max_value.hpp
+++ b/include/arg_router/policy/min_max_value.hpp
@@ -12,13 +12,39 @@
 
 namespace arg_router::policy
 {
+namespace detail
+{
+// operator<, except that integrals of different signedness are compared by value
+struct value_less {
+    template <typename T, typename U>
+    [[nodiscard]] constexpr bool operator()(const T& lhs, const U& rhs) const
+    {
+        if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) {
+            if constexpr (std::is_signed_v<T> && std::is_unsigned_v<U>) {
+                if (lhs < 0) {
+                    return true;
+                }
+            } else if constexpr (std::is_unsigned_v<T> && std::is_signed_v<U>) {
+                if (rhs < 0) {
+                    return false;
+                }
+            }
+            using common_type = std::common_type_t<T, U>;
+            return static_cast<common_type>(lhs) < static_cast<common_type>(rhs);
+        } else {
+            return lhs < rhs;
+        }
+    }
+};
+}  // namespace detail
+
 /** Provides inclusive minimum and maximum values for a parsed value.
  *
  * By default <TT>operator\<</TT> is used for comparisons, but can be overridden.
  * @tparam ValueType Minimum and maximum value type
  * @tparam LessThanCompare Less than comparator type
  */
-template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
+template <typename ValueType, typename LessThanCompare = detail::value_less>
 class min_max_value_t
 {
 public:
@@ -169,13 +195,13 @@ public:
         using node_type = boost::mp11::mp_first<std::tuple<Parents...>>;
 
         if constexpr (!std::is_void_v<MinType>) {
-            if (value < minimum_value()) {
+            if (detail::value_less{}(value, minimum_value())) {
                 throw multi_lang_exception{error_code::minimum_value_not_reached,
                                            parsing::node_token_type<node_type>()};
             }
         }
         if constexpr (!std::is_void_v<MaxType>) {
-            if (value > maximum_value()) {
+            if (detail::value_less{}(maximum_value(), value)) {
                 throw multi_lang_exception{error_code::maximum_value_exceeded,
                                            parsing::node_token_type<node_type>()};
             }
@@ -192,7 +218,7 @@ public:
  * @param compare Comparator instance
  * @return min_max_value_t instance
  */
-template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
+template <typename ValueType, typename LessThanCompare = detail::value_less>
 [[nodiscard]] constexpr auto min_max_value(ValueType min,
                                            ValueType max,
                                            LessThanCompare compare = LessThanCompare{}) noexcept
@@ -210,7 +236,7 @@ template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
  * @param compare Comparator instance
  * @return min_max_value_t instance
  */
-template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
+template <typename ValueType, typename LessThanCompare = detail::value_less>
 [[nodiscard]] constexpr auto min_value(ValueType min,
                                        LessThanCompare compare = LessThanCompare{}) noexcept
 {
@@ -225,7 +251,7 @@ template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
  * @param compare Comparator instance
  * @return min_max_value_t instance
  */
-template <typename ValueType, typename LessThanCompare = std::less<ValueType>>
+template <typename ValueType, typename LessThanCompare = detail::value_less>
 [[nodiscard]] constexpr auto max_value(ValueType max,
                                        LessThanCompare compare = LessThanCompare{}) noexcept
 {
-- 
2.43.0


From a902ae61f1bcd81c75148275aa69fb6c68042949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:52 +0000
Subject: [PATCH 45/46] fix: parse read past the end of argv when argc is zero

---
 include/arg_router/root.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index 089d420..aeda61e 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -227,8 +227,8 @@ public:
      */
     void parse(int argc, char** argv) const
     {
-        // Skip the program name
-        parse(&argv[1], &argv[argc]);
+        // Skip the program name, if there is one
+        parse(&argv[argc > 0 ? 1 : 0], &argv[argc]);
     }
 
     /** Generates a root-level help string and writes it into @a stream.
-- 
2.43.0


From c1ddbec23f026ba54ae9ebcdbde43b9a402e5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:22 +0000
Subject: [PATCH 46/46] fix: join an emoji after a joiner only to another emoji
 (GB11)

---
 .../utility/utf8/grapheme_cluster_break.hpp      | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
index e5e74f5..84bc31d 100644
--- a/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
+++ b/include/arg_router/utility/utf8/grapheme_cluster_break.hpp
@@ -185,8 +185,20 @@ template <std::size_t N>
     grapheme_cluster_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (trailing_window[0] == grapheme_cluster_break_class::ZWJ) &&
-           (next_class == grapheme_cluster_break_class::extended_pictographic);
+    if ((trailing_window[0] != grapheme_cluster_break_class::ZWJ) ||
+        (next_class != grapheme_cluster_break_class::extended_pictographic)) {
+        return false;
+    }
+
+    // The joiner must follow an emoji and any extenders, without the preceding classes to look at
+    // then assume it does
+    for (auto i = 1u; i < trailing_window.size(); ++i) {
+        if (trailing_window[i] != grapheme_cluster_break_class::extend) {
+            return trailing_window[i] == grapheme_cluster_break_class::extended_pictographic;
+        }
+    }
+
+    return true;
 };
 
 /** Rule GB12 and GB13, do not break within emoji flag sequences.
-- 
2.43.0

