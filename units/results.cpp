// Results and captures under contract: every conversion and comparison of regex_results and of a capture, on a result in an
// arbitrary state. CTV_C: character type; CTV_K: 0 = pointers, 1 = iterators of std::basic_string, 2 = utf8_iterator.
#include <ctre.hpp>
#include <new>
#include <optional>
#include <string>
#include <sstream>
using C = CTV_C;
using P = const C *;
using SV = std::basic_string_view<C>;
using ST = std::basic_string<C>;
#if CTV_K == 0
using It = P;
inline It mk(P p, P, P) { return p; }
inline P un(It i) { return i; }
#elif CTV_K == 1
using It = ST::const_iterator;
inline It mk(P p, P, P) { return It{p}; }
inline P un(It i) { return i.base(); }
#else
using It = ctre::utf8_iterator;
inline It mk(P p, P b, P e) { return It{p, e, b}; }
inline P un(It i) { return i.ptr; }
#endif
struct nm2 { static constexpr ctll::fixed_string<2> name{"nm"}; };
using R = ctre::regex_results<It, ctre::captured_content<1>, ctre::captured_content<2, nm2>>;
struct In { P b[3]; P e[3]; bool m[3]; P lo, hi; };
inline R make(const In & o) {
	R r;
	r.set_start_mark(mk(o.b[0], o.lo, o.hi)).set_end_mark(mk(o.e[0], o.lo, o.hi)).unmatch();
	if (o.m[0]) r.matched();
	r.template start_capture<1>(mk(o.b[1], o.lo, o.hi)); if (o.m[1]) r.template end_capture<1>(mk(o.e[1], o.lo, o.hi));
	r.template start_capture<2>(mk(o.b[2], o.lo, o.hi)); if (o.m[2]) r.template end_capture<2>(mk(o.e[2], o.lo, o.hi));
	return r;
}
inline auto bind0(const R & r) { auto [a, b, c] = r; return a; }
inline auto bind1(const R & r) { auto [a, b, c] = r; return b; }
inline auto bind2(const R & r) { auto [a, b, c] = r; return c; }
inline R copied(const R & r) { auto q = r; R z; z = q; return z; }
#define EACH(M) M(0r, R, r) M(0g, auto, r.template get<0>()) M(1g, auto, r.template get<1>()) M(2g, auto, r.template get<2>()) M(2s, auto, r.template get<"nm">()) M(2t, auto, r.template get<nm2>()) M(1f, auto, ctre::get<1>(r)) M(0b, auto, bind0(r)) M(1b, auto, bind1(r)) M(2b, auto, bind2(r)) M(1c, auto, copied(r).template get<1>()) M(0c, R, copied(r))
#define CAPS(M) M(0g, auto, r.template get<0>()) M(1g, auto, r.template get<1>()) M(2s, auto, r.template get<"nm">())
#define FN(op, g, ret, params, T, x, body) extern "C" ret op##_##g params { const R r = make(*in); const T v = x; body }
#define SIMPLE(g, T, x) \
	FN(bool, g, bool, (const In * in), T, x, return bool(v);) \
	FN(neg, g, bool, (const In * in), T, x, return !v;) \
	FN(begin, g, P, (const In * in), T, x, return un(v.begin());) \
	FN(end, g, P, (const In * in), T, x, return un(v.end());)
EACH(SIMPLE)
#define VIEWS(g, T, x) \
	FN(strobj, g, void, (const In * in, ST * o), T, x, new (o) ST(v.to_string());) \
	FN(str, g, void, (const In * in, ST * o), T, x, new (o) ST(v.str());) \
	FN(ostr, g, void, (const In * in, ST * o, bool * has), T, x, auto q = v.to_optional_string(); *has = q.has_value(); if (q) new (o) ST(std::move(*q));)
EACH(VIEWS)
#if CTV_K == 2
#define CONTIG(g, T, x)
#define UNITS(g, T, x) FN(unit_size, g, size_t, (const In * in), T, x, return v.unit_size();) FN(dataunsafe, g, P, (const In * in), T, x, return v.data_unsafe();)
CAPS(UNITS)
#else
#define SIZES(g, T, x) FN(size, g, size_t, (const In * in), T, x, return v.size();) FN(data, g, P, (const In * in), T, x, return v.data();)
EACH(SIZES)
#define UNITS(g, T, x) FN(unit_size, g, size_t, (const In * in), T, x, return v.unit_size();) FN(dataunsafe, g, P, (const In * in), T, x, return v.data_unsafe();)
CAPS(UNITS)
#define CONTIG(g, T, x) \
	FN(toview, g, void, (const In * in, SV * o), T, x, *o = v.to_view();) \
	FN(view, g, void, (const In * in, SV * o), T, x, *o = v.view();) \
	FN(asview, g, void, (const In * in, SV * o), T, x, SV q = v; *o = q;) \
	FN(oview, g, void, (const In * in, SV * o, bool * has), T, x, auto q = v.to_optional_view(); *has = q.has_value(); if (q) *o = *q;) \
	FN(asoview, g, void, (const In * in, SV * o, bool * has), T, x, std::optional<SV> q = v; *has = q.has_value(); if (q) *o = *q;) \
	FN(asstr, g, void, (const In * in, ST * o), T, x, new (o) ST(static_cast<ST>(v));) \
	FN(eq, g, bool, (const In * in, P t, size_t n), T, x, return v == SV(t, n);) \
	FN(ne, g, bool, (const In * in, P t, size_t n), T, x, return v != SV(t, n);) \
	FN(eqr, g, bool, (const In * in, P t, size_t n), T, x, return SV(t, n) == v;) \
	FN(ner, g, bool, (const In * in, P t, size_t n), T, x, return SV(t, n) != v;) 
EACH(CONTIG)
#ifdef CTV_NUM
#define NUM(g, T, x) \
	FN(num, g, int, (const In * in), T, x, return v.template to_number<int>();) \
	FN(num16, g, long, (const In * in), T, x, return v.template to_number<long>(16);) \
	FN(onum, g, int, (const In * in, bool * has), T, x, auto q = v.template to_optional_number<int>(); *has = q.has_value(); return q ? *q : 0;) \
	FN(onum16, g, long, (const In * in, bool * has), T, x, auto q = v.template to_optional_number<long>(16); *has = q.has_value(); return q ? *q : 0;) \
	FN(out, g, void, (const In * in, std::ostream & o), T, x, o << v;)
EACH(NUM)
extern "C" size_t count_r() { return R::count(); }
#endif
#endif
extern "C" bool none_1() { return bool(R{}); }
extern "C" bool none_2() { return bool(R{ctre::not_matched}); }
extern "C" bool none_3() { R r{ctre::not_matched}; return bool(r.template get<0>()) || bool(r.template get<1>()) || bool(r.template get<2>()); }
extern "C" bool none_4() { R r; return bool(r.template get<0>()) || bool(r.template get<1>()) || bool(r.template get<2>()); }
