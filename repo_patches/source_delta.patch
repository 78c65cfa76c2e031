From fbf0292ce07039ef42bb91421a43f22fddda64f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:56 +0000
Subject: [PATCH 01/17] fix: restore the previous content of a capturing group
 on backtracking

(a)* on "aa" reported an empty group 1: the failed extra iteration cleared
the content captured by the last successful one.
---
 include/mregex/ast/nodes/capture.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..e611577 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -9,7 +9,7 @@
 namespace meta::ast
 {
     /**
-     * @note Since matching captures implies side effects like storing and clearing matched
+     * @note Since matching captures implies side effects like storing and restoring matched
      * content, they cannot be considered trivially matchable even when the inner node is.
      */
     template<std::size_t ID, typename Name, typename Inner>
@@ -20,13 +20,15 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                // If the rest of the regex fails to match, the previous content must be restored
+                auto const previous_capture = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                auto rest_match = cont(next);
+                if (!rest_match)
+                    std::get<ID>(ctx.captures) = previous_capture;
+                return rest_match;
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures).clear();
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From acb48ef4be82b74d2d8bb1acf8f94c3b48eca79a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:21 +0000
Subject: [PATCH 02/17] fix: assign distinct capture indices to the
 alternatives of an alternation

(a)|(b) on "b" reported "b" as group 1: only sequences advanced the index
offset, so every alternative started from the same index.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From 9e9b11861440f7f8bdec099f23d10584a7794bd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:29 +0000
Subject: [PATCH 03/17] fix: leave group 0 empty when match or match_prefix
 fails

regex<"test">::match("testx") did not match, but its group 0 had length 4.
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From f4443bdeef0394799b3d4c39f2b854a66da9d868 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 04/17] fix: keep alternation precedence after a literal '{'

xa{|b was parsed as x(?:a{|b): aborting a quantifier pushed an extra
alternation symbol that swallowed the alternatives following it.
---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From 6522e0c1d5d03c29c89c636ea941e28eb3944cad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:26 +0000
Subject: [PATCH 05/17] fix: mirror the anchors when an AST is inverted for a
 lookbehind

(?<=^a)b did not find "b" in "ab": the pattern of a lookbehind is matched
backwards, where the beginning of the input or line is its end.
---
 include/mregex/ast/inversion.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..7f795b0 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,30 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From 22e400530cafd600379b87236d6c97694c225edf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:07 +0000
Subject: [PATCH 06/17] fix: match lookarounds nested in a lookbehind in the
 right direction

(?<=(?=ab)ab)c did not find "c" in "abc": the pattern of a lookaround inside
a lookbehind was matched against the mirrored input without being mirrored.
---
 .../ast/predicates/lookaround_predicate.hpp   | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..e70beea 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -13,7 +13,11 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
+            // Inside a lookbehind, looking ahead in the reversed input means looking behind in the original one
+            constexpr bool is_reversed = !std::is_same_v<Iter, typename Context::iterator>;
+            using ast_type = std::conditional_t<is_reversed, invert_t<Inner>, Inner>;
+
+            auto inner_match = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
             return inner_match.matched;
         }
 
@@ -31,15 +35,26 @@ namespace meta::ast::predicates
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            // For non-trivial nodes, the AST is inverted to match the regex backwards
-            using ast_type = invert_t<Inner>;
-            using iterator = std::reverse_iterator<Iter>;
-
-            auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
-            auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
-            auto rcurrent = std::make_reverse_iterator(current);
-            auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
-            return result.matched;
+            if constexpr (std::is_same_v<Iter, typename Context::iterator>)
+            {
+                // For non-trivial nodes, the AST is inverted to match the regex backwards
+                using ast_type = invert_t<Inner>;
+                using iterator = std::reverse_iterator<Iter>;
+
+                auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
+                auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
+                auto rcurrent = std::make_reverse_iterator(current);
+                auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
+                return result.matched;
+            }
+            else
+            {
+                // Inside another lookbehind, looking behind in the reversed input means matching the original one forwards
+                using iterator = typename Context::iterator;
+
+                auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+                return result.matched;
+            }
         }
 
         template<std::bidirectional_iterator Iter, typename Context>
-- 
2.43.0


From 17b52b07562e3f7b407d2380079bad843b74386c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:08 +0000
Subject: [PATCH 07/17] fix: discard captures made by lookarounds and atomic
 nodes on backtracking

x(?>(a))b|xac on "xac" reported "a" as group 1, although the alternative with
the group did not match. The same happened for lookarounds and possessive
quantifiers, which also kept the captures of a discarded empty iteration.
---
 include/mregex/ast/capture_snapshot.hpp       | 40 +++++++++++++++++++
 include/mregex/ast/nodes/assertion.hpp        |  8 +++-
 .../nodes/quantifiers/fixed_repetition.hpp    | 15 ++++++-
 .../ast/nodes/quantifiers/repetition.hpp      | 11 ++++-
 .../ast/predicates/lookaround_predicate.hpp   |  7 ++++
 5 files changed, 77 insertions(+), 4 deletions(-)
 create mode 100644 include/mregex/ast/capture_snapshot.hpp

diff --git a/include/mregex/ast/capture_snapshot.hpp b/include/mregex/ast/capture_snapshot.hpp
new file mode 100644
index 0000000..5b15626
--- /dev/null
+++ b/include/mregex/ast/capture_snapshot.hpp
@@ -0,0 +1,40 @@
+#ifndef MREGEX_AST_CAPTURE_SNAPSHOT_HPP
+#define MREGEX_AST_CAPTURE_SNAPSHOT_HPP
+
+#include <mregex/ast/traits.hpp>
+
+namespace meta::ast
+{
+    /**
+     * Stores the captures of a match context, so that they can be restored on backtracking.
+     * This is required by nodes which match their inner node without passing on the continuation:
+     * content captured by the inner node is not valid if the rest of the regex fails to match.
+     *
+     * @tparam Inner    The inner node, nothing is stored if it has no capturing groups
+     * @tparam Context  The match context that holds the captures
+     */
+    template<typename Inner, typename Context>
+    struct capture_snapshot
+    {
+        constexpr explicit capture_snapshot(Context &) noexcept {}
+
+        constexpr void restore() const noexcept {}
+    };
+
+    template<typename Inner, typename Context>
+    requires (capture_count<Inner> > 0)
+    struct capture_snapshot<Inner, Context>
+    {
+        constexpr explicit capture_snapshot(Context &ctx) noexcept : _ctx{ctx}, _captures{ctx.captures} {}
+
+        constexpr void restore() const noexcept
+        {
+            _ctx.captures = _captures;
+        }
+
+    private:
+        Context &_ctx;
+        decltype(Context::captures) _captures;
+    };
+}
+#endif //MREGEX_AST_CAPTURE_SNAPSHOT_HPP
diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..c99fc98 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -1,6 +1,7 @@
 #ifndef MREGEX_NODES_ASSERTION_HPP
 #define MREGEX_NODES_ASSERTION_HPP
 
+#include <mregex/ast/capture_snapshot.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -23,8 +24,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Predicate, Context> snapshot{ctx};
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+            }
+            snapshot.restore();
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..d4f6df7 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_NODES_FIXED_REPETITION_HPP
 
 #include <mregex/ast/nodes/terminals/empty.hpp>
+#include <mregex/ast/capture_snapshot.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -29,8 +30,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> snapshot{ctx};
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+                snapshot.restore();
+            }
             return non_match(current);
         }
 
@@ -142,8 +148,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> snapshot{ctx};
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+                snapshot.restore();
+            }
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..66bf7d6 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_NODES_REPETITION_HPP
 
 #include <mregex/ast/astfwd.hpp>
+#include <mregex/ast/capture_snapshot.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -51,14 +52,22 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_snapshot<Inner, Context> snapshot{ctx};
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
+                capture_snapshot<Inner, Context> iteration_snapshot{ctx};
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
                 if (!inner_match || will_loop_forever(current, inner_match.end))
+                {
+                    iteration_snapshot.restore();
                     break;
+                }
                 current = inner_match.end;
             }
-            return cont(current);
+            auto rest_match = cont(current);
+            if (!rest_match)
+                snapshot.restore();
+            return rest_match;
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index e70beea..a7fc99d 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -75,4 +75,11 @@ namespace meta::ast::predicates
     template<typename Inner>
     struct lookaround_predicate<lookaround_direction::behind, Inner> : lookbehind_predicate<Inner> {};
 }
+
+namespace meta::ast
+{
+    // Lookarounds may store captures
+    template<lookaround_direction Direction, typename Inner>
+    inline constexpr std::size_t capture_count<predicates::lookaround_predicate<Direction, Inner>> = capture_count<Inner>;
+}
 #endif //MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
\ No newline at end of file
-- 
2.43.0


From 3c2407b8a6e483249ea50a35cb12a7b9709f78f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:47 +0000
Subject: [PATCH 08/17] fix: do not treat \R as the start of a character range

[\R-z] matched every character between a line feed and 'z', because \R was
expanded into literals that make_range took for the start of the range.
---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..e19f89a 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // Line breaks are not expanded into literals, which could be mistaken for the start of a range
+    template<typename Token, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<linebreak, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<linebreak, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From eff770d8021ae9356510ec04644bccf663989d56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:33 +0000
Subject: [PATCH 09/17] fix: reject numbers that do not fit in std::size_t

a{18446744073709551617} was accepted as a{1}: quantifier bounds and
backreference IDs wrapped around silently.
---
 include/mregex/grammar/backrefs.hpp    | 10 +++++++++-
 include/mregex/grammar/numbers.hpp     | 19 +++++++++++++++++++
 include/mregex/grammar/quantifiers.hpp |  5 +++--
 3 files changed, 31 insertions(+), 3 deletions(-)
 create mode 100644 include/mregex/grammar/numbers.hpp

diff --git a/include/mregex/grammar/backrefs.hpp b/include/mregex/grammar/backrefs.hpp
index d27c534..6047a72 100644
--- a/include/mregex/grammar/backrefs.hpp
+++ b/include/mregex/grammar/backrefs.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_GRAMMAR_BACKREFS_HPP
 
 #include <mregex/grammar/actions.hpp>
+#include <mregex/grammar/numbers.hpp>
 #include <mregex/utility/char_traits.hpp>
 #include <mregex/utility/type_sequence.hpp>
 
@@ -50,7 +51,7 @@ namespace meta::grammar
     };
 
     template<std::size_t ID, char C>
-    requires (is_digit(C))
+    requires (can_append_digit<ID, C>)
     struct continue_backref_id<ID, C>
     {
         using type =
@@ -61,6 +62,13 @@ namespace meta::grammar
                 >;
     };
 
+    template<std::size_t ID, char C>
+    requires (is_digit(C) && !can_append_digit<ID, C>)
+    struct continue_backref_id<ID, C>
+    {
+        using type = reject;
+    };
+
     template<std::size_t ID, char C>
     using continue_backref_id_t = typename continue_backref_id<ID, C>::type;
 }
diff --git a/include/mregex/grammar/numbers.hpp b/include/mregex/grammar/numbers.hpp
new file mode 100644
index 0000000..44c7396
--- /dev/null
+++ b/include/mregex/grammar/numbers.hpp
@@ -0,0 +1,19 @@
+#ifndef MREGEX_GRAMMAR_NUMBERS_HPP
+#define MREGEX_GRAMMAR_NUMBERS_HPP
+
+#include <cstddef>
+#include <limits>
+#include <mregex/utility/char_traits.hpp>
+
+namespace meta::grammar
+{
+    /**
+     * Checks if a character is a decimal digit that can be appended to a number without overflow.
+     *
+     * @tparam N    The number being parsed
+     * @tparam C    The current character being parsed
+     */
+    template<std::size_t N, char C>
+    inline constexpr bool can_append_digit = is_digit(C) && N <= (std::numeric_limits<std::size_t>::max() - (C - '0')) / 10;
+}
+#endif //MREGEX_GRAMMAR_NUMBERS_HPP
diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 07076ba..238d46c 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -2,6 +2,7 @@
 #define MREGEX_GRAMMAR_QUANTIFIERS_HPP
 
 #include <mregex/grammar/actions.hpp>
+#include <mregex/grammar/numbers.hpp>
 #include <mregex/utility/char_traits.hpp>
 #include <mregex/utility/type_sequence.hpp>
 
@@ -69,7 +70,7 @@ namespace meta::grammar
     };
 
     template<std::size_t N, char C>
-    requires (is_digit(C))
+    requires (can_append_digit<N, C>)
     struct continue_quantifier_value<symbol::quantifier_value<N>, C>
     {
         using type =
@@ -81,7 +82,7 @@ namespace meta::grammar
     };
 
     template<symbol::quantifier A, std::size_t N, char C>
-    requires (is_digit(C))
+    requires (can_append_digit<N, C>)
     struct continue_quantifier_value<symbol::quantifier_range<A, symbol::quantifier_value<N>>, C>
     {
         using type =
-- 
2.43.0


From aa6a58478f4e9973989bd6df245269c07edf4d93 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 10/17] fix: make post-increment of the match range iterator
 compile

it++ on an iterator of find_all/tokenize failed to compile because the copy
was constructed from a pointer instead of a reference.
---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..acdcf00 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*_target};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0


From 4818d4b8ffbbb29f2fc65decdaa64c7278a3faf5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:55 +0000
Subject: [PATCH 11/17] fix: support forward iterators in the multiline
 beginning anchor

^ with the multiline flag decremented the iterators of a std::forward_list,
which is undefined behavior.
---
 .../ast/predicates/anchor_predicates.hpp       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..161f86a 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,27 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::bidirectional_iterator Iter>
+        static constexpr auto previous(Iter /*begin*/, Iter current) noexcept
+        {
+            return std::prev(current);
+        }
+
+        // Iterators which cannot be decremented have to be searched from the beginning
+        template<std::forward_iterator Iter>
+        static constexpr auto previous(Iter begin, Iter current) noexcept
+        {
+            while (std::next(begin) != current)
+                ++begin;
+            return begin;
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From 35e85d0d2dca27366db479a59a827dc60248b431 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:49 +0000
Subject: [PATCH 12/17] fix: report a syntax error when a pattern ends right
 after a group prefix

---
 include/mregex/grammar/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..0aaba67 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From dc4b39684784bc6540bfdf4b3192d4ef8cfd486d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:09 +0000
Subject: [PATCH 13/17] fix: return rvalue references from the rvalue overloads
 of regex_capture::content

---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..c386333 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -172,12 +172,12 @@ namespace meta
 
         auto &&content() && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0


From d34def46ecb8d625a723632e3a0f07d2b39e7978 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:25 +0000
Subject: [PATCH 14/17] fix: accept the empty string in xpr::str

---
 include/mregex/xpr/adapters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mregex/xpr/adapters.hpp b/include/mregex/xpr/adapters.hpp
index 30e3108..af60e07 100644
--- a/include/mregex/xpr/adapters.hpp
+++ b/include/mregex/xpr/adapters.hpp
@@ -36,7 +36,10 @@ namespace meta::xpr
     template<static_string String>
     constexpr auto to_sequence() noexcept
     {
-        return detail::to_sequence<String>(std::make_index_sequence<String.length()>{});
+        if constexpr (String.length() == 0)
+            return ast::empty{};
+        else
+            return detail::to_sequence<String>(std::make_index_sequence<String.length()>{});
     }
 
     /**
-- 
2.43.0


From 15270d5ca25781d7c841ff78be0475bb2310b744 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:05 +0000
Subject: [PATCH 15/17] fix: keep one element per group when a transformation
 returns a tuple

---
 include/mregex/utility/tuple.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mregex/utility/tuple.hpp b/include/mregex/utility/tuple.hpp
index 4d2f241..275e4a5 100644
--- a/include/mregex/utility/tuple.hpp
+++ b/include/mregex/utility/tuple.hpp
@@ -11,7 +11,9 @@ namespace meta
         template<typename Tuple, typename Func, std::size_t... Indices>
         constexpr auto transform_tuple(Tuple const &tuple, Func &&func, std::index_sequence<Indices ...>)
         {
-            return std::tuple{std::invoke(func, std::get<Indices>(tuple)) ...};
+            // Name the element types: deduction would unpack the only element if it is a pair or a tuple
+            using result_type = std::tuple<std::decay_t<decltype(std::invoke(func, std::get<Indices>(tuple)))> ...>;
+            return result_type{std::invoke(func, std::get<Indices>(tuple)) ...};
         }
 
         template<typename Tuple, typename Func, std::size_t... Indices>
-- 
2.43.0


From 934f422739f0ce3a3e6be01bb59a804efdbb8690 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:08:39 +0000
Subject: [PATCH 16/17] fix: accept forward iterators in backreferences outside
 of lookbehinds

---
 include/mregex/ast/nodes/terminals/backref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..685a929 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,7 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From 717b6e032ccbc8b427a0ac97656a5451d61f460b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:09:01 +0000
Subject: [PATCH 17/17] fix: accept forward iterators in word boundaries

---
 .../ast/predicates/anchor_predicates.hpp      | 40 ++++++++++---------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 161f86a..61da711 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -6,6 +6,24 @@
 
 namespace meta::ast::predicates
 {
+    namespace detail
+    {
+        template<std::bidirectional_iterator Iter>
+        constexpr auto previous(Iter /*begin*/, Iter current) noexcept
+        {
+            return std::prev(current);
+        }
+
+        // Iterators which cannot be decremented have to be searched from the beginning
+        template<std::forward_iterator Iter>
+        constexpr auto previous(Iter begin, Iter current) noexcept
+        {
+            while (std::next(begin) != current)
+                ++begin;
+            return begin;
+        }
+    }
+
     template<line_mode Mode>
     struct beginning_predicate
     {
@@ -16,27 +34,11 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*previous(begin, current), ctx))
+                if (linebreak::match_one(*detail::previous(begin, current), ctx))
                     return true;
             }
             return false;
         }
-
-    private:
-        template<std::bidirectional_iterator Iter>
-        static constexpr auto previous(Iter /*begin*/, Iter current) noexcept
-        {
-            return std::prev(current);
-        }
-
-        // Iterators which cannot be decremented have to be searched from the beginning
-        template<std::forward_iterator Iter>
-        static constexpr auto previous(Iter begin, Iter current) noexcept
-        {
-            while (std::next(begin) != current)
-                ++begin;
-            return begin;
-        }
     };
 
     template<line_mode Mode>
@@ -58,10 +60,10 @@ namespace meta::ast::predicates
 
     struct word_boundary_predicate
     {
-        template<std::bidirectional_iterator Iter, typename Context>
+        template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            bool is_word_behind = current != begin && word::match_one(*std::prev(current), ctx);
+            bool is_word_behind = current != begin && word::match_one(*detail::previous(begin, current), ctx);
             bool is_word_ahead = current != end && word::match_one(*current, ctx);
             return is_word_behind ^ is_word_ahead;
         }
-- 
2.43.0

