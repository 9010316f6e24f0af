// Harness prelude: opaque (universally quantified) regex parts for the real engine templates.
//   opq<N...>  : an arbitrary regex fragment / continuation. evaluate(list<opq<N...>, rest...>) is an external function
//                ctv_eval<list<...>> known to the verifier only by its contract (uninterpreted result).
//   opqc<N>    : an arbitrary character matcher (uninterpreted predicate on the character and the flags).
#pragma once
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#ifdef CTV_UTF8
using It = const char8_t *;
#else
using It = CTV_IT;
#endif
namespace ctre {
template <int...> struct opq {};
template <int N> struct opqc {};
struct ctv_name2 { static constexpr ctll::fixed_string<2> name{"nm"}; };
}
#if CTV_EXTERN
template <typename Tag, typename C> bool ctv_match(C c, bool ml, bool ci);
#else
template <typename Tag, typename C> bool ctv_match(C c, bool ml, bool ci);
#endif
namespace ctre {
template <> struct opqc<1> { template <typename C> static inline bool match_char(C v, const flags & f) noexcept { return ctv_match<opqc<1>, C>(v, f.multiline, f.case_insensitive); } };
template <> struct opqc<2> { template <typename C> static inline bool match_char(C v, const flags & f) noexcept { return ctv_match<opqc<2>, C>(v, f.multiline, f.case_insensitive); } };
}
using CtvR = ctre::regex_results<It, ctre::captured_content<1>, ctre::captured_content<2, ctre::ctv_name2>>;
struct FlatR { It b[3]; It e[3]; bool m[3]; };
template <typename L> void ctv_eval(It begin, It cur, It last, bool bl, bool ml, bool ci, It b0, It e0, bool m0, It b1, It e1, bool m1, It b2, It e2, bool m2, FlatR * out);
inline CtvR ctv_mk(const FlatR & o) {
	const It b0 = o.b[0], b1 = o.b[1], b2 = o.b[2], e0 = o.e[0], e1 = o.e[1], e2 = o.e[2];
	const bool m0 = o.m[0], m1 = o.m[1], m2 = o.m[2];
	CtvR r;
	r.set_start_mark(b0); r.set_end_mark(e0); if (m0) r.matched();
	r.template start_capture<1>(b1); if (m1) r.template end_capture<1>(e1);
	r.template start_capture<2>(b2); if (m2) r.template end_capture<2>(e2);
	return r;
}
inline void ctv_flat(FlatR & o, const CtvR & r) {
	auto a = r.template get<0>(); o.b[0] = a.begin(); o.e[0] = a.end(); o.m[0] = bool(a);
	auto b = r.template get<1>(); o.b[1] = b.begin(); o.e[1] = b.end(); o.m[1] = bool(b);
	auto c = r.template get<2>(); o.b[2] = c.begin(); o.e[2] = c.end(); o.m[2] = bool(c);
}
template <typename L> struct ctv_rev {};   // tag: evaluated on reversed iterators
template <typename I, typename L> struct ctv_tag { using type = L; };
#ifdef CTV_UTF8
// the subject is seen through utf8_iterator; positions are reported as pointers, null where the iterators do not describe the same subject
using SI = ctre::utf8_iterator;
using SE = ctre::utf8_iterator::sentinel;
using RI = std::reverse_iterator<SI>;
inline bool ctv_same(const SI & a, const SI & b) { return a.end == b.end && a.begin == b.begin; }
inline It ctv_cur(const SI & i) { return i.ptr; }
inline It ctv_begin(const SI & b, const SI & i, SE) { return ctv_same(b, i) && i.begin == b.ptr ? b.ptr : nullptr; }
inline It ctv_last(const SI &, const SI & i, SE) { return i.end; }
inline It ctv_cur(const RI & i) { return i.base().ptr; }
template <typename B> inline It ctv_begin(const B &, const RI & i, const RI &) { return i.base().end; }
template <typename B> inline It ctv_last(const B &, const RI & i, const RI & l) { return ctv_same(l.base(), i.base()) && i.base().begin == l.base().ptr ? l.base().ptr : nullptr; }
template <typename L> struct ctv_tag<RI, L> { using type = ctv_rev<L>; };
#else
#ifdef CTV_ZERO
// a zero-terminated subject: the end is a sentinel without state, which stands for the position of the terminator
using SE = ctre::zero_terminated_string_end_iterator;
It ctv_terminator(It any);
inline It ctv_base(SE) { return ctv_terminator(It{}); }
inline It ctv_base(std::reverse_iterator<SE>) { return ctv_terminator(It{}); }
#endif
inline It ctv_base(It i) { return i; }
inline It ctv_base(std::reverse_iterator<It> i) { return i.base(); }
template <typename I> inline It ctv_cur(I i) { return ctv_base(i); }
template <typename B, typename I, typename E> inline It ctv_begin(B b, I, E) { return ctv_base(b); }
template <typename B, typename I, typename E> inline It ctv_last(B, I, E e) { return ctv_base(e); }
template <typename L> struct ctv_tag<std::reverse_iterator<It>, L> { using type = ctv_rev<L>; };
#endif
namespace ctre {
template <typename R, typename BI, typename I, typename EI, int... N, typename... Ts>
constexpr inline R evaluate(const BI begin, I cur, const EI last, const flags & f, R cap, ctll::list<opq<N...>, Ts...>) noexcept {
	FlatR in; ctv_flat(in, cap);
	FlatR o;
	using L = typename ctv_tag<I, ctll::list<opq<N...>, Ts...>>::type;
	ctv_eval<L>(ctv_begin(begin, cur, last), ctv_cur(cur), ctv_last(begin, cur, last), f.block_empty_match, f.multiline, f.case_insensitive, in.b[0], in.e[0], in.m[0], in.b[1], in.e[1], in.m[1], in.b[2], in.e[2], in.m[2], &o);
	return ctv_mk(o);
}
template <typename... T, int... N, typename... Ts> constexpr auto first(ctll::list<T...>, ctll::list<opq<N...>, Ts...>) noexcept { return ctll::list<can_be_anything>{}; }
template <typename... T, int N, typename... Ts> constexpr auto first(ctll::list<T...>, ctll::list<opqc<N>, Ts...>) noexcept { return ctll::list<can_be_anything>{}; }
// opq<11> and opq<12> begin with different characters
template <typename... T, typename... Ts> constexpr auto first(ctll::list<T...>, ctll::list<opq<11>, Ts...>) noexcept { return ctll::list<T..., character<'a'>>{}; }
template <typename... T, typename... Ts> constexpr auto first(ctll::list<T...>, ctll::list<opq<12>, Ts...>) noexcept { return ctll::list<T..., character<'b'>>{}; }
}
template <typename L> inline void ctv_go(It begin, It cur, It last, bool bl, bool ml, bool ci, const FlatR & in, FlatR * out) {
	ctre::flags f; f.block_empty_match = bl; f.multiline = ml; f.case_insensitive = ci;
#ifdef CTV_UTF8
	CtvR r = evaluate(SI{begin, last, begin}, SI{cur, last, begin}, SE{}, f, ctv_mk(in), L{});
#elif defined(CTV_ZERO)
	(void)last;
	CtvR r = evaluate(begin, cur, SE{}, f, ctv_mk(in), L{});
#else
	CtvR r = evaluate(begin, cur, last, f, ctv_mk(in), L{});
#endif
	ctv_flat(*out, r);
}
#define ENTRY(name, ...) extern "C" void name(It begin, It cur, It last, bool bl, bool ml, bool ci, const FlatR * in, FlatR * out) { ctv_go<ctll::list<__VA_ARGS__>>(begin, cur, last, bl, ml, ci, *in, out); }
#ifdef CTV_UTF8
#include <cstddef>
extern "C" {
extern const size_t ctv_off_ptr = offsetof(SI, ptr);
extern const size_t ctv_off_end = offsetof(SI, end);
extern const size_t ctv_off_begin = offsetof(SI, begin);
}
#endif
