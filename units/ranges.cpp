// Ranges under contract: regex_iterator, regex_split_iterator (through the public wrappers, for an arbitrary pattern) and
// multi_subject_range (for an arbitrary per-subject operation).
#include "prelude.hpp"
namespace ctre {
template <int... N, typename... T, typename... Output> constexpr auto find_captures(ctll::list<opq<N...>, T...>, ctll::list<Output...>) noexcept { return ctll::list<Output..., captured_content<1>, captured_content<2, ctv_name2>>{}; }
}
using RE = ctre::opq<5>;
using namespace ctre;
using S1 = ctll::list<singleline>;
using S2 = ctll::list<multiline, ctre::case_insensitive>;
struct FlatIt { It orig, cur, end; FlatR r; bool last, empty; };
template <typename I> constexpr bool is_split = false;
template <typename... Ts> constexpr bool is_split<regex_split_iterator<Ts...>> = true;
template <typename I> inline void put(FlatIt & o, const I & i) {
	#ifdef CTV_UTF8
	const bool ok = ctv_same(i.orig_begin, i.current) && i.orig_begin.begin == i.orig_begin.ptr;
	o.orig = ok ? i.orig_begin.ptr : nullptr; o.cur = i.current.ptr; o.end = i.current.end;
#else
	o.orig = i.orig_begin; o.cur = i.current; o.end = i.end;
#endif
	ctv_flat(o.r, i.current_match);
	if constexpr (is_split<I>) { o.last = i.last_match; o.empty = i.empty_match; } else { o.last = false; o.empty = false; }
}
template <typename I> inline I get(const FlatIt & o) {
	I i;
#ifdef CTV_UTF8
	i.orig_begin = SI{o.orig, o.end, o.orig}; i.current = SI{o.cur, o.end, o.orig};
#else
	i.orig_begin = o.orig; i.current = o.cur; i.end = o.end;
#endif
	i.current_match = ctv_mk(o.r);
	if constexpr (is_split<I>) { i.last_match = o.last; i.empty_match = o.empty; }
	return i;
}
#ifdef CTV_UTF8
#define BE(b, e) std::u8string_view(b, size_t(e - b))
#else
#define BE(b, e) b, e
#endif
template <typename method, typename mod> using iter_of = decltype(regular_expression<RE, method, mod>::exec(BE(std::declval<It>(), std::declval<It>())).begin());
#define FAMILY(n, method, mod) \
	extern "C" void begin_##n(It b, It e, FlatIt * o) { put(*o, regular_expression<RE, method, mod>::exec(BE(b, e)).begin()); } \
	extern "C" void view_##n(It b, size_t l, FlatIt * o) { put(*o, regular_expression<RE, method, mod>{}(std::basic_string_view<std::iterator_traits<It>::value_type>(b, l)).begin()); } \
	extern "C" void pipe_##n(It b, size_t l, FlatIt * o) { put(*o, (std::basic_string_view<std::iterator_traits<It>::value_type>(b, l) | regular_expression<RE, method, mod>{}).begin()); } \
	extern "C" void next_##n(const FlatIt * i, FlatIt * o) { auto x = get<iter_of<method, mod>>(*i); put(*o, ++x); } \
	extern "C" void post_##n(const FlatIt * i, FlatIt * o, FlatIt * old) { auto x = get<iter_of<method, mod>>(*i); auto y = x++; put(*o, x); put(*old, y); } \
	extern "C" void deref_##n(const FlatIt * i, FlatR * o) { auto x = get<iter_of<method, mod>>(*i); ctv_flat(*o, *x); } \
	extern "C" bool endeq_##n(const FlatIt * i) { return get<iter_of<method, mod>>(*i) == regex_end_iterator{}; } \
	extern "C" bool endne_##n(const FlatIt * i) { return get<iter_of<method, mod>>(*i) != regex_end_iterator{}; } \
	extern "C" bool eqend_##n(const FlatIt * i) { return regex_end_iterator{} == get<iter_of<method, mod>>(*i); } \
	extern "C" bool neend_##n(const FlatIt * i) { return regex_end_iterator{} != get<iter_of<method, mod>>(*i); } \
	extern "C" bool eq_##n(const FlatIt * i, const FlatIt * j) { return get<iter_of<method, mod>>(*i) == get<iter_of<method, mod>>(*j); } \
	extern "C" bool ne_##n(const FlatIt * i, const FlatIt * j) { return get<iter_of<method, mod>>(*i) != get<iter_of<method, mod>>(*j); } \
	extern "C" bool lt_##n(const FlatIt * i, const FlatIt * j) { return get<iter_of<method, mod>>(*i) < get<iter_of<method, mod>>(*j); } \
	extern "C" bool gt_##n(const FlatIt * i, const FlatIt * j) { return get<iter_of<method, mod>>(*i) > get<iter_of<method, mod>>(*j); } \
	extern "C" bool le_##n(const FlatIt * i, const FlatIt * j) { return get<iter_of<method, mod>>(*i) <= get<iter_of<method, mod>>(*j); } \
	extern "C" bool ge_##n(const FlatIt * i, const FlatIt * j) { return get<iter_of<method, mod>>(*i) >= get<iter_of<method, mod>>(*j); }
FAMILY(all_1, range_method, S1) FAMILY(all_2, range_method, S2) FAMILY(tok_1, tokenize_method, S1) FAMILY(tok_2, tokenize_method, S2) FAMILY(split_1, split_method, S1) FAMILY(split_2, split_method, S2)
extern "C" void begin_iter_1(It b, It e, FlatIt * o) { put(*o, regular_expression<RE, iterator_method, S1>::exec(BE(b, e))); }
extern "C" void begin_iter_2(It b, It e, FlatIt * o) { put(*o, regular_expression<RE, iterator_method, S2>::exec(BE(b, e))); }
#define MEMB(n, call) extern "C" void memb_##n(It b, It e, FlatIt * o) { put(*o, regular_expression<RE, void, S1>::call(BE(b, e)).begin()); }
MEMB(all_1, range) MEMB(tok_1, tokenize) MEMB(split_1, split) MEMB(all_3, multiline_range) MEMB(tok_3, multiline_tokenize) MEMB(split_3, multiline_split)
extern "C" void memb_iter_1(It b, It e, FlatIt * o) { put(*o, regular_expression<RE, void, S1>::iterator(BE(b, e))); }
extern "C" void memb_iter_3(It b, It e, FlatIt * o) { put(*o, regular_expression<RE, void, S1>::multiline_iterator(BE(b, e))); }

#ifndef CTV_UTF8
// an arbitrary operation on each subject; the subjects are opaque values stored in an array
using Sv = std::iterator_traits<It>::value_type;
bool ctv_sub_ok(Sv);
size_t ctv_sub_val(Sv);
struct SubR { bool ok = false; size_t val = 0; constexpr SubR() noexcept = default; constexpr SubR(bool o, size_t v) noexcept: ok(o), val(v) { } constexpr explicit operator bool() const noexcept { return ok; } };
struct SubRE { static SubR exec(Sv s) noexcept { bool ok = ctv_sub_ok(s); return ok ? SubR{true, ctv_sub_val(s)} : SubR{}; } };
struct Subs { It b, e; It begin() const noexcept { return b; } It end() const noexcept { return e; } };
using MS = multi_subject_range<Subs, SubRE>;
struct FlatM { It first, last; bool ok; size_t val; };
inline void putm(FlatM & o, const MS::iterator & i) { o.first = i.first; o.last = i.last; o.ok = i.current_result.ok; o.val = i.current_result.val; }
inline MS::iterator getm(const FlatM & i) { MS::iterator r; r.first = i.first; r.last = i.last; r.current_result = SubR{i.ok, i.val}; return r; }
extern "C" void m_begin(It b, It e, FlatM * o) { putm(*o, MS{Subs{b, e}}.begin()); }
extern "C" void m_next(const FlatM * i, FlatM * o) { auto x = getm(*i); putm(*o, ++x); }
extern "C" void m_post(const FlatM * i, FlatM * o, FlatM * old) { auto x = getm(*i); auto y = x++; putm(*o, x); putm(*old, y); }
extern "C" size_t m_deref(const FlatM * i) { return (*getm(*i)).val; }
extern "C" size_t m_arrow(const FlatM * i) { auto x = getm(*i); return x->val; }
extern "C" bool m_eq(const FlatM * i, const FlatM * j) { return getm(*i) == getm(*j); }
extern "C" bool m_ne(const FlatM * i, const FlatM * j) { return getm(*i) != getm(*j); }
extern "C" bool m_lt(const FlatM * i, const FlatM * j) { return getm(*i) < getm(*j); }
extern "C" bool m_gt(const FlatM * i, const FlatM * j) { return getm(*i) > getm(*j); }
extern "C" bool m_le(const FlatM * i, const FlatM * j) { return getm(*i) <= getm(*j); }
extern "C" bool m_ge(const FlatM * i, const FlatM * j) { return getm(*i) >= getm(*j); }
extern "C" bool m_endeq(const FlatM * i) { return getm(*i) == MS::end_iterator{}; }
extern "C" bool m_endne(const FlatM * i) { return getm(*i) != MS::end_iterator{}; }
extern "C" bool m_eqend(const FlatM * i) { return MS::end_iterator{} == getm(*i); }
extern "C" bool m_neend(const FlatM * i) { return MS::end_iterator{} != getm(*i); }
#endif
