From 205d30682644292c1b0998b302a9f4373b0b3db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 01/36] fix: a greedy repeat which consumed nothing must not
 unblock an empty cycle

(?:a*(?:ab)?)* looped forever on a subject without 'a': evaluate_recursive cleared
block_empty_match even when no cycle was taken.
---
 include/ctre/evaluation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..8ed71eb 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -360,21 +360,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -394,6 +394,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 #endif
 	else {
+		const Iterator backup_current = current;
+
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
@@ -409,10 +411,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
-- 
2.43.0


From 5986f1bca14c5918f88b1712768283e0e668bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 02/36] fix: mandatory cycles of a repeat and atomic groups can
 match nothing

(?:a?){2}, (?:a?)+ and (?>a*)b did not match an empty (part of the) subject.
---
 include/ctre/evaluation.hpp      | 12 +++++++-----
 include/ctre/flags_and_modes.hpp |  5 +++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 8ed71eb..1beabb2 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -278,7 +278,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		size_t i{0};
 	
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// mandatory cycles can match nothing
+			auto outer_result = evaluate(begin, current, last, can_be_empty(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -310,7 +311,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
@@ -324,8 +325,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		const auto backup_current = current;
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
-			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// try as many of inner as possible and then try outer once (only mandatory cycles can match nothing)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? can_be_empty(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -399,7 +400,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// mandatory cycles can match nothing
+			auto inner_result = evaluate(begin, current, last, can_be_empty(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
diff --git a/include/ctre/flags_and_modes.hpp b/include/ctre/flags_and_modes.hpp
index 19c848d..40e6472 100644
--- a/include/ctre/flags_and_modes.hpp
+++ b/include/ctre/flags_and_modes.hpp
@@ -75,6 +75,11 @@ constexpr CTRE_FORCE_INLINE auto not_empty_match(flags f) {
 	return f;
 }
 
+constexpr CTRE_FORCE_INLINE auto can_be_empty(flags f) {
+	f.block_empty_match = false;
+	return f;
+}
+
 constexpr CTRE_FORCE_INLINE auto consumed_something(flags f, bool condition = true) {
 	if (condition) f.block_empty_match = false;
 	return f;
-- 
2.43.0


From 6ec5cd092efd6552cff49218baf8174c5259103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 03/36] fix: \e is the escape character U+001B

---
 include/ctre/actions/characters.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/characters.inc.hpp b/include/ctre/actions/characters.inc.hpp
index 4aa7ffd..9835837 100644
--- a/include/ctre/actions/characters.inc.hpp
+++ b/include/ctre/actions/characters.inc.hpp
@@ -15,7 +15,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-- 
2.43.0


From 7d60326f6ca69ed94f960f466a81946b4030d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 04/36] fix: \B is the negation of \b

---
 include/ctre/actions/boundaries.inc.hpp | 2 +-
 include/ctre/first.hpp                  | 6 ++++++
 include/ctre/starts_with_anchor.hpp     | 5 +++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..fea9163 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..8f561c0 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -28,6 +28,11 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-- 
2.43.0


From 20bc9a4172812e02f631fd41a764c18d87253433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 05/36] fix: first character of assertions for the greedy
 optimization

A boundary or begin assertion can be satisfied only at a position the
greedy repeat in front of it has to give back, and the end of line
assertions hold in front of a newline in multiline mode. Neither was
visible to the check which turns greedy repeats into possessive ones.
---
 include/ctre/first.hpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index fea9163..e712b35 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -47,20 +47,23 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	// it can hold only at some of the positions a repeat in front of it can give back
+	return ctll::list<can_be_anything>{};
 }
 
 // not boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	// it can hold only at some of the positions a repeat in front of it can give back
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	// it can hold only at some of the positions a repeat in front of it can give back
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -69,21 +72,21 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	// in multiline mode it holds also in front of a line end
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	// it can hold only at some of the positions a repeat in front of it can give back
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	// in multiline mode it holds also in front of a line end
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 // sequence
-- 
2.43.0


From 5b4c4b5c534eb544ebf0604a6f39e1cc7925cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 06/36] fix: greedy optimization with nested negated classes
 and mode switches

The calculation of the first characters did not compile for a repeat next
to a set which contains a negated class, or in front of a mode switch.
---
 include/ctre/first.hpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index e712b35..a68b818 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -34,6 +34,16 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -379,13 +389,26 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// a nested negative set excludes nothing here (so everything it contains stays in the result, which is always safe)
+template <typename Item, typename CB> constexpr int64_t negative_helper_item(Item item, CB & cb, int64_t start) {
+	return negative_helper(item, cb, start);
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
 template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
@@ -512,6 +535,9 @@ public:
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
-- 
2.43.0


From 563a35320663a45dc2f2192c1dcaa427da423025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 07/36] fix: order of fused possessive repeats in a sequence

---
 include/ctre/actions/fusion.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..bd77e16 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -62,7 +62,7 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From e460af91f85335d47e65dee987f328d01d9df84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 08/36] fix: greedy optimization of case-insensitive patterns

(?i)a*A never matched: the check for mutual exclusivity of the repeated
content and the rest of the pattern ignored the other case.
---
 include/ctre/first.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index a68b818..2a61435 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -510,11 +510,20 @@ public:
 	}
 	
 	
+	// letters match both cases, because the case-insensitive mode is not known here
 	template <auto V> constexpr bool check(ctre::character<V>) {
-		return check(V,V);
+		if constexpr (is_ascii_alpha(V)) {
+			return check(V,V) || check(V ^ 0x20, V ^ 0x20);
+		} else {
+			return check(V,V);
+		}
 	}
 	template <auto A, auto B> constexpr bool check(ctre::char_range<A,B>) {
-		return check(A,B);
+		if constexpr ((is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) || (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B))) {
+			return check(A,B) || check(A ^ 0x20, B ^ 0x20);
+		} else {
+			return check(A,B);
+		}
 	}
 	constexpr bool check(can_be_anything) {
 		return used > 0;
@@ -539,8 +548,7 @@ public:
 		return check(ctre::negative_set<Content...>{});
 	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
-		
-		return (check(V,V) || ... || false);
+		return (check(ctre::character<V>{}) || ... || false);
 	}
 	template <typename... Content> constexpr bool check(ctll::list<Content...>) {
 		return (check(Content{}) || ... || false);
@@ -552,9 +560,15 @@ public:
 	
 	template <auto V> constexpr void populate(ctre::character<V>) {
 		insert(V,V);
+		if constexpr (is_ascii_alpha(V)) {
+			insert(V ^ 0x20, V ^ 0x20);
+		}
 	}
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
+		if constexpr ((is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) || (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B))) {
+			insert(A ^ 0x20, B ^ 0x20);
+		}
 	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
@@ -575,7 +589,8 @@ public:
 };
 
 template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
-	constexpr size_t capacity = calculate_size_of_first(rhs);
+	// letters are stored in both cases
+	constexpr size_t capacity = 2 * calculate_size_of_first(rhs);
 	
 	point_set<capacity> set;
 	set.populate(rhs);
-- 
2.43.0


From 859b7f37f0dd3170fc412ff8334743ecd76b506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 09/36] fix: a repeat which can be skipped does not anchor the
 pattern

---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 8f561c0..6b57f01 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -60,19 +60,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From a50e596166954f001ce5d2133f20031cc59370ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 10/36] fix: split with an anchored pattern lost the rest of
 the input

An anchored search which did not match reported its first position as the
end of the input, and split never ended.
---
 include/ctre/wrapper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..eb07673 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -96,7 +96,11 @@ struct search_method {
 
 		// ALERT: ugly hack
 		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		if (!out) {
+			// an anchored regex is tried only at the first position
+			while (end != it) ++it;
+			out.set_end_mark(it);
+		}
 		return out;
 	}
 
-- 
2.43.0


From 5e661abafb5240f0253e53b3da18821dc488c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 11/36] fix: ranges did not end when the pattern matched
 nothing

---
 include/ctre/iterators.hpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..336054e 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -11,6 +11,13 @@ namespace ctre {
 
 // TODO make proper iterator traits here
 
+template <typename RE, typename Method, typename Modifier> struct regular_expression;
+struct starts_with_method;
+
+// each match must start where the previous one ended (tokenize)
+template <typename> constexpr bool is_consecutive = false;
+template <typename RE, typename Modifier> constexpr bool is_consecutive<regular_expression<RE, starts_with_method, Modifier>> = true;
+
 struct regex_end_iterator {
 	constexpr regex_end_iterator() noexcept { }
 };
@@ -49,7 +56,17 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		// an empty match would be found again and again at the same position
+		auto from = current;
+		if (current_match.template get<0>().begin() == current_match.template get<0>().end()) {
+			if constexpr (is_consecutive<RE>) {
+				current_match = decltype(current_match){};
+				return *this;
+			}
+			++from;
+		}
+		
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, from, end);
 		
 		if (current_match) {
 			current = current_match.template get<0>().end();
@@ -105,9 +122,11 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	EndIterator end{};
 	value_type current_match{};
 	bool last_match{false};
+	bool empty_match{false};
 
 	constexpr CTRE_FORCE_INLINE void modify_match() {
 		auto tmp = current_match.template get<0>().end();
+		empty_match = (current_match.template get<0>().begin() == tmp);
 		current_match.set_end_mark(current_match.template get<0>().begin());
 		current_match.set_start_mark(current);
 		current = tmp;
@@ -145,7 +164,19 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 	
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		// an empty match would be found again and again at the same position
+		auto from = current;
+		if (empty_match) {
+			if (from == end) {
+				current_match = decltype(current_match){};
+				current_match.set_end_mark(from);
+				match_rest();
+				return *this;
+			}
+			++from;
+		}
+	
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, from, end);
 	
 		if (current_match) {
 			modify_match();
-- 
2.43.0


From 82e818e5705f301099a4d6b1a80c7e61bba45e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 12/36] fix: narrow characters outside of ASCII never matched

---
 include/ctre/atoms_characters.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..1e1a617 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -6,6 +6,7 @@
 
 #ifndef CTRE_IN_A_MODULE
 #include <cstdint>
+#include <type_traits>
 #endif
 
 namespace ctre {
@@ -31,8 +32,18 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+// a narrow character in the subject is a code unit, its value must not depend on signedness of `char`
+template <typename CharT> constexpr CTRE_FORCE_INLINE auto code_unit(CharT value) noexcept {
+	if constexpr (std::is_same_v<std::remove_cv_t<CharT>, char>) {
+		return static_cast<unsigned char>(value);
+	} else {
+		return value;
+	}
+}
+
 template <auto V> struct character {
-	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
+	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT input, const flags & f) noexcept {
+		const auto value = code_unit(input);
 		if constexpr (is_ascii_alpha(V)) {
 			if (is_case_insensitive(f)) {
 				if (value == (V ^ static_cast<decltype(V)>(0x20))) {
@@ -65,7 +76,8 @@ template <typename... Content> struct negate {
 };
 
 template <auto A, auto B> struct char_range {
-	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
+	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT input, const flags & f) noexcept {
+		const auto value = code_unit(input);
 		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
 			if (is_case_insensitive(f)) {
 				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-- 
2.43.0


From bbf1266ed83d137c0ae03db20ee90fd1a9a8304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 13/36] fix: back-reference ignored the case-insensitive mode

---
 include/ctre/evaluation.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 1beabb2..f784c45 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -446,9 +446,16 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename CharT> constexpr CTRE_FORCE_INLINE bool is_equal_character(CharT lhs, CharT rhs, const flags & f) noexcept {
+	if (lhs == rhs) {
+		return true;
+	}
+	return is_case_insensitive(f) && is_ascii_alpha(lhs) && (lhs ^ static_cast<CharT>(0x20)) == rhs;
+}
+
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_equal_character(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From 5471b9d4fe1ce10e7f3b7fefb8007bf1c08890ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 14/36] fix: comparison of the end of a multi-subject range

---
 include/ctre/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..b75227f 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From 9e6ca0f2a82f86d843dde71f6952b237ba24e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 15/36] fix: an unmatched capture is not equal to any string

---
 include/ctre/return_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index e37e400..bf89dc0 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -207,13 +207,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
-- 
2.43.0


From 9faa62c7bae715c48182d0ad04ae6f04925ae3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 16/36] fix: comparison of a pointer with utf8_iterator

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..90d0080 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -91,7 +91,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
-- 
2.43.0


From f37dd1701197660dfb13a7dd0f5ce211ce3f6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 17/36] fix: truncated UTF-8 sequence moved behind the end of
 the subject

---
 include/ctre/utf8.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 90d0080..ef50f6b 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -121,7 +121,10 @@ struct utf8_iterator {
 		// & 0b11u  selects only needed two bits
 		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		const auto length = static_cast<difference_type>((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		
+		// truncated sequence must not move behind the end of the subject
+		ptr = (length < end - ptr) ? ptr + length : end;
 		return *this;
 	}
 	
-- 
2.43.0


From 003c3db2e7dd1707377eaf25d247abd8d63bf1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 18/36] fix: case-insensitive ranges with letters of both cases

---
 include/ctre/atoms_characters.hpp | 17 ++++++-----------
 include/ctre/first.hpp            | 31 +++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index 1e1a617..978761d 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -76,20 +76,15 @@ template <typename... Content> struct negate {
 };
 
 template <auto A, auto B> struct char_range {
-	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT input, const flags & f) noexcept {
+	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT input, [[maybe_unused]] const flags & f) noexcept {
 		const auto value = code_unit(input);
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
+		if constexpr (A <= 'z' && B >= 'A') {
+			if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+				const auto other_case = static_cast<decltype(code_unit(input))>(value ^ 0x20);
+				if (other_case >= A && other_case <= B) {
 					return true;//
 				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 2a61435..a2e0873 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -510,6 +510,17 @@ public:
 	}
 	
 	
+	template <typename CB> static constexpr void letters_in_other_case(int64_t low, int64_t high, CB && cb) {
+		for (const int64_t first: {int64_t{'a'}, int64_t{'A'}}) {
+			const int64_t last = first + ('z' - 'a');
+			const int64_t l = low > first ? low : first;
+			const int64_t h = high < last ? high : last;
+			if (l <= h) {
+				cb(l ^ 0x20, h ^ 0x20);
+			}
+		}
+	}
+	
 	// letters match both cases, because the case-insensitive mode is not known here
 	template <auto V> constexpr bool check(ctre::character<V>) {
 		if constexpr (is_ascii_alpha(V)) {
@@ -519,11 +530,11 @@ public:
 		}
 	}
 	template <auto A, auto B> constexpr bool check(ctre::char_range<A,B>) {
-		if constexpr ((is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) || (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B))) {
-			return check(A,B) || check(A ^ 0x20, B ^ 0x20);
-		} else {
-			return check(A,B);
-		}
+		bool collision = check(A,B);
+		letters_in_other_case(A, B, [&](int64_t low, int64_t high){
+			collision |= this->check(low, high);
+		});
+		return collision;
 	}
 	constexpr bool check(can_be_anything) {
 		return used > 0;
@@ -566,9 +577,9 @@ public:
 	}
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
-		if constexpr ((is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) || (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B))) {
-			insert(A ^ 0x20, B ^ 0x20);
-		}
+		letters_in_other_case(A, B, [&](int64_t low, int64_t high){
+			this->insert(low, high);
+		});
 	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
@@ -589,8 +600,8 @@ public:
 };
 
 template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
-	// letters are stored in both cases
-	constexpr size_t capacity = 2 * calculate_size_of_first(rhs);
+	// letters are stored in both cases (a range can contain letters of both)
+	constexpr size_t capacity = 3 * calculate_size_of_first(rhs);
 	
 	point_set<capacity> set;
 	set.populate(rhs);
-- 
2.43.0


From 91c633d4574b12839e9918cd4564772261ec936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 19/36] fix: lazy repeat lost the UTF-8 iterator of the subject

---
 include/ctre/evaluation.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index f784c45..e4be793 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -298,15 +298,16 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			captures = inner_result.unmatch();
+			// type of a position in captures can differ from the type of current
+			current = inner_result.get_end_position();
+		
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
-- 
2.43.0


From 600fb71ead18d27648afd3ce3c692048257934f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 20/36] fix: captures inside of an atomic group

---
 include/ctre/find_captures.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index 43a8f77..39857b5 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -99,6 +99,11 @@ CTRE_EXPORT template <size_t A, size_t B, typename... Content, typename... Tail,
 
 
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
 CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookahead_positive<Content...>, Tail...>, Output output) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
-- 
2.43.0


From 1c3c443e78e2c5081b72398a4a4e43dcd3353577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 21/36] fix: only the last of modes in one group was used

---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..50c4e43 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -6,6 +6,15 @@ template <typename Mode, typename... Ts, typename Parameters> static constexpr a
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, Parameters>{};
 }
 
+// next modes in same group
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<mode_switch<Previous>...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 template <typename Mode, typename... Ts, size_t Id, size_t Counter> static constexpr auto apply_mode(Mode, ctll::list<capture_id<Id>, Ts...>, pcre_parameters<Counter>) {
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
-- 
2.43.0


From f57e2f7a904aea3a1e2164777f27f614f61698d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 22/36] fix: utf8_iterator moved before the begin of malformed
 text

---
 include/ctre/utf8.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index ef50f6b..f90dc54 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -60,6 +60,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -135,7 +136,8 @@ struct utf8_iterator {
 			--ptr;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
+		// malformed text can start with a continuation unit
+		while (ptr != begin && (*ptr & 0b11000000u) == 0b10'000000) {
 			--ptr;
 		}
 		
@@ -239,7 +241,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From 490dd78d45d2e5a75ef6d1eaa6683424a1444694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 23/36] fix: dereference of a truncated UTF-8 sequence formed a
 pointer behind the end of the subject

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index f90dc54..c2eae96 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -193,7 +193,7 @@ struct utf8_iterator {
 		}
 
 		// if part of the utf-8 sequence is past the end
-		if (((ptr + length) >= end)) CTRE_UNLIKELY {
+		if (end - ptr <= static_cast<difference_type>(length)) CTRE_UNLIKELY {
 			return mojibake;
 		}
 		
-- 
2.43.0


From 954ec7dd8cb13872ed1db7067e320ec66c6fd55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 24/36] fix: a truncated code point at the end of a pattern was
 accepted or dropped

---
 include/ctll/fixed_string.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ctll/fixed_string.hpp b/include/ctll/fixed_string.hpp
index 148f377..ff7cc4c 100644
--- a/include/ctll/fixed_string.hpp
+++ b/include/ctll/fixed_string.hpp
@@ -56,6 +56,10 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 				size_t out{0};
 				for (size_t i{0}; i < N; ++i) {
 					length_value_t info = length_and_value_of_utf8_code_point(input[i]);
+					if (info.length > N - i) { // truncated code point at the end
+						correct_flag = false;
+						return;
+					}
 					switch (info.length) {
 						case 6:
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
@@ -92,6 +96,10 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 			size_t out{0};
 			for (size_t i{0}; i < N; ++i) {
 				length_value_t info = length_and_value_of_utf8_code_point(input[i]);
+				if (info.length > N - i) { // truncated code point at the end
+					correct_flag = false;
+					return;
+				}
 				switch (info.length) {
 					case 6:
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
@@ -130,6 +138,8 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							correct_flag = false;
 							break;
 						}
+					} else {
+						correct_flag = false; // truncated code point at the end
 					}
 				} else {
 					content[out++] = info.value;
-- 
2.43.0


From 5427df3cb242a1b8b8739a22513e08afddd4c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 25/36] fix: an ill-formed pattern was accepted

---
 include/ctll/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctll/parser.hpp b/include/ctll/parser.hpp
index d3751f9..2f4208e 100644
--- a/include/ctll/parser.hpp
+++ b/include/ctll/parser.hpp
@@ -44,7 +44,7 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	
 	template <size_t Pos, typename Stack, typename Subject, decision Decision> struct results {
 	
-		static constexpr bool is_correct = Decision == decision::accept;
+		static constexpr bool is_correct = Decision == decision::accept && parser::_input.correct();
 	
 		constexpr inline CTLL_FORCE_INLINE operator bool() const noexcept {
 			return is_correct;
-- 
2.43.0


From 92db977292f24dc8e8768aba043f63bd97389d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 26/36] fix: lookup in a Unicode table which is not sorted

flat_array searched tables of 20 and more entries by bisection, but the
data are not sorted: \p{Pd}, \p{Dash}, \p{Ext}, \p{SD} and \p{P} missed
listed code points (U+002D is no \p{Pd}).
---
 include/unicode-db/unicode-db.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 385576b..b43eaac 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -282,17 +282,12 @@ template<std::size_t size>
 struct flat_array {
     char32_t data[size];
     constexpr bool lookup(char32_t u) const {
-        if constexpr(size < 20) {
-            for(auto it = std::begin(data); it != std::end(data); ++it) {
-                if(*it == u)
-                    return true;
-                if(it == std::end(data))
-                    return false;
-            }
-            return false;
-        } else {
-            return detail::binary_search(std::begin(data), std::end(data), u);
+        // the data are not sorted
+        for(auto it = std::begin(data); it != std::end(data); ++it) {
+            if(*it == u)
+                return true;
         }
+        return false;
     }
 };
 
-- 
2.43.0


From db3f7cb778cbc156c55962860a595434577e6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 27/36] fix: \p{C} is the union of its subcategories

Unassigned code points (\p{Cn}) did not match \p{C}.
---
 include/unicode-db/unicode-db.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index b43eaac..59402d9 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -3190,7 +3190,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
-- 
2.43.0


From 43660a9bd2bcde770114f1fa5116221d789af8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 28/36] fix: \p{Case_Ignorable} never matched

Follow the definition D136 of the Unicode standard.
---
 include/unicode-db/unicode-db.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 59402d9..ca473f8 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7417,8 +7417,18 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    // Word_Break is MidLetter, MidNumLet or Single_Quote
+    constexpr char32_t word_break[] = {0x0027u, 0x002Eu, 0x003Au, 0x00B7u, 0x0387u, 0x055Fu, 0x05F4u, 0x2018u,
+                                        0x2019u, 0x2024u, 0x2027u, 0xFE13u, 0xFE52u, 0xFE55u, 0xFF07u, 0xFF0Eu,
+                                        0xFF1Au};
+    for(const char32_t c : word_break) {
+        if(c == cp)
+            return true;
+    }
+    return detail::tables::cat_mn.lookup(cp) || detail::tables::cat_me.lookup(cp) ||
+           detail::tables::cat_cf.lookup(cp) || detail::tables::cat_lm.lookup(cp) ||
+           detail::tables::cat_sk.lookup(cp);
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
-- 
2.43.0


From 35e34eaf0a2f3cd9a5ce5e9cf0711138e30e9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 29/36] fix: \p{age=...} matched unassigned code points

The age of an unassigned code point compares less than every version.
---
 include/ctre/atoms_unicode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ctre/atoms_unicode.hpp b/include/ctre/atoms_unicode.hpp
index 7e6ec8b..cfeab41 100644
--- a/include/ctre/atoms_unicode.hpp
+++ b/include/ctre/atoms_unicode.hpp
@@ -57,7 +57,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const uni::version age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
-- 
2.43.0


From 0118315416ef8029f4c77cf798b62fc25dbae1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:09 +0000
Subject: [PATCH 30/36] fix: a property with an unknown value was not rejected
 by the parser

The result of the lookup is a constant, its type is never ctll::reject.
---
 include/ctre/actions/properties.inc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/properties.inc.hpp b/include/ctre/actions/properties.inc.hpp
index 05f7e80..4acf507 100644
--- a/include/ctre/actions/properties.inc.hpp
+++ b/include/ctre/actions/properties.inc.hpp
@@ -37,7 +37,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<decltype(prop), const ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -63,7 +63,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<decltype(prop), const ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From dcd929c44fabe8ddc0acb894aa303122ea36b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 31/36] fix: a number which overflows is not taken for a
 different one

---
 include/ctre/actions/repeat.inc.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 98c2e0b..3245363 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -24,9 +24,14 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 	return pcre_context{ctll::push_front(number<static_cast<size_t>(V - '0')>(), subject.stack), subject.parameters};
 }
 // push_number
-template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_number, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
-	constexpr size_t previous = N * 10ull;	
-	return pcre_context{ctll::push_front(number<(previous + (V - '0'))>(), ctll::list<Ts...>()), subject.parameters};
+template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_number, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
+	constexpr size_t digit = static_cast<size_t>(V - '0');
+	// a number which can't be represented must not be taken for a different one ... reject input during parsing
+	if constexpr (N > ((std::numeric_limits<size_t>::max)() - digit) / 10u) {
+		return ctll::reject{};
+	} else {
+		return pcre_context{ctll::push_front(number<(N * 10u + digit)>(), ctll::list<Ts...>()), subject.parameters};
+	}
 }
 
 // repeat A..B
-- 
2.43.0


From 458c837a820133da49fa8730aab71d809de2454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:51 +0000
Subject: [PATCH 32/36] fix: a hexadecimal escape which overflows is not taken
 for a different character

---
 include/ctre/actions/hexdec.inc.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/hexdec.inc.hpp b/include/ctre/actions/hexdec.inc.hpp
index ae30b6e..0c7c621 100644
--- a/include/ctre/actions/hexdec.inc.hpp
+++ b/include/ctre/actions/hexdec.inc.hpp
@@ -6,9 +6,12 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 	return pcre_context{ctll::push_front(number<0ull>(), subject.stack), subject.parameters};
 }
 // hexdec character support (push value)
-template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_hexdec, ctll::term<V>, pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
-	constexpr auto previous = N << 4ull;	
-	if constexpr (V >= 'a' && V <= 'f') {
+template <auto V, size_t N, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_hexdec, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<N>, Ts...>, Parameters> subject) {
+	[[maybe_unused]] constexpr auto previous = N << 4ull;	
+	if constexpr (N > ((std::numeric_limits<char32_t>::max)() >> 4u)) {
+		// there is no such character ... reject input during parsing
+		return ctll::reject{};
+	} else if constexpr (V >= 'a' && V <= 'f') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'a' + 10))>(), ctll::list<Ts...>()), subject.parameters};
 	} else if constexpr (V >= 'A' && V <= 'F') {
 		return pcre_context{ctll::push_front(number<(previous + (V - 'A' + 10))>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From 0fc4837c805f6ed958decab896b0f2f53088494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 33/36] fix: a possessive optional around a lazy optional
 compiles

---
 include/ctre/actions/options.inc.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/actions/options.inc.hpp b/include/ctre/actions/options.inc.hpp
index 93ef48a..1931454 100644
--- a/include/ctre/actions/options.inc.hpp
+++ b/include/ctre/actions/options.inc.hpp
@@ -50,6 +50,11 @@ template <auto V, typename... Subject, typename... Ts, typename Parameters> stat
 	return pcre_context{ctll::push_front(lazy_optional<Subject...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// possessive optional around a lazy optional
+template <auto V, typename... Subject, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_possessive, ctll::term<V>, pcre_context<ctll::list<lazy_optional<Subject...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(possessive_optional<lazy_optional<Subject...>>(), ctll::list<Ts...>()), subject.parameters};
+}
+
 
 
 #endif
-- 
2.43.0


From 4162d5e6c0d705dd0bf00e6f1dc01f3ffcfe132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 34/36] fix: a possessive repeat whose cycle can be empty can
 be repeated again

---
 include/ctre/actions/fusion.inc.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bd77e16..a87528b 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -14,12 +14,19 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
 }
 
+// content which always consumes something, other content can match an empty string (or we don't know)
+template <typename T> struct is_always_consuming { static constexpr bool value = MatchesCharacter<T>::template value<char32_t>; };
+template <auto... Str> struct is_always_consuming<string<Str...>> { static constexpr bool value = sizeof...(Str) > 0; };
+
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>) {
 	[[maybe_unused]] constexpr bool first_is_unbounded = (MaxA == 0);
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (first_is_unbounded && second_is_nonempty && !(is_always_consuming<Content>::value || ... || false)) {
+		// a cycle of the second repeat can be empty
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
-- 
2.43.0


From e0a62ce18e3bd846420f4579515539c6c54c1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 35/36] fix: a back-reference to group zero is rejected

---
 include/ctre/actions/backreference.inc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/backreference.inc.hpp b/include/ctre/actions/backreference.inc.hpp
index 2a7de4d..0bb7cbb 100644
--- a/include/ctre/actions/backreference.inc.hpp
+++ b/include/ctre/actions/backreference.inc.hpp
@@ -9,7 +9,7 @@ template <auto... Str, auto V, typename... Ts, size_t Counter> static constexpr
 // with just a number
 template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_back_reference, ctll::term<V>, pcre_context<ctll::list<number<Id>, Ts...>, pcre_parameters<Counter>>) {
 	// if we are looking outside of existing list of Ids ... reject input during parsing
-	if constexpr (Counter < Id) {
+	if constexpr (Id == 0 || Counter < Id) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(back_reference<Id>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
@@ -19,7 +19,7 @@ template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr au
 // relative backreference
 template <auto V, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_relative_back_reference, ctll::term<V>, [[maybe_unused]] pcre_context<ctll::list<number<Id>, Ts...>, pcre_parameters<Counter>>) {	
 	// if we are looking outside of existing list of Ids ... reject input during parsing
-	if constexpr (Counter < Id) {
+	if constexpr (Id == 0 || Counter < Id) {
 		return ctll::reject{};
 	} else {
 		constexpr size_t absolute_id = (Counter + 1) - Id;
-- 
2.43.0


From 21fe2f46037d763a64c054c124142c597aea1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 36/36] fix: a repeat with its numbers out of order is not
 combined with another one

---
 include/ctre/actions/fusion.inc.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index a87528b..6f44e6d 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -6,12 +6,25 @@ static constexpr size_t combine_max_repeat_length(size_t A, size_t B) {
 	else return 0;
 }
 
+// a repeat with its numbers out of order never matches, there is nothing to combine it with
+static constexpr bool is_repeat_ordered(size_t Min, size_t Max) {
+	return Max == 0 || Min <= Max;
+}
+
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>) {
-	return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (is_repeat_ordered(MinA, MaxA) && is_repeat_ordered(MinB, MaxB)) {
+		return repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	} else {
+		return sequence<repeat<MinA, MaxA, Content...>, repeat<MinB, MaxB, Content...>>();
+	}
 }
 
 template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content> static constexpr auto combine_repeat(lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>) {
-	return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	if constexpr (is_repeat_ordered(MinA, MaxA) && is_repeat_ordered(MinB, MaxB)) {
+		return lazy_repeat<MinA + MinB, combine_max_repeat_length(MaxA, MaxB), Content...>();
+	} else {
+		return sequence<lazy_repeat<MinA, MaxA, Content...>, lazy_repeat<MinB, MaxB, Content...>>();
+	}
 }
 
 // content which always consumes something, other content can match an empty string (or we don't know)
@@ -23,7 +36,9 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
 
-	if constexpr (first_is_unbounded && second_is_nonempty && !(is_always_consuming<Content>::value || ... || false)) {
+	if constexpr (!is_repeat_ordered(MinA, MaxA) || !is_repeat_ordered(MinB, MaxB)) {
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty && !(is_always_consuming<Content>::value || ... || false)) {
 		// a cycle of the second repeat can be empty
 		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
 	} else if constexpr (first_is_unbounded && second_is_nonempty) {
-- 
2.43.0

