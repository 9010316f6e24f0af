// starts_with_anchor under contract: for every kind of node, content (X, Z) and continuation (Y) out of
//   A: matches at the begin of the subject only   T: zero-width, anywhere   P: anything   L: zero-width, at the begin only unless in multiline mode
#include "prelude.hpp"
namespace ctre {
template <char K, int N> struct opk {};
template <int N, typename... C> constexpr bool starts_with_anchor(const flags &, ctll::list<opk<'A', N>, C...>) noexcept { return true; }
template <int N, typename... C> constexpr bool starts_with_anchor(const flags & f, ctll::list<opk<'T', N>, C...>) noexcept { return starts_with_anchor(f, ctll::list<C...>{}); }
template <int N, typename... C> constexpr bool starts_with_anchor(const flags & f, ctll::list<opk<'L', N>, C...>) noexcept { return !f.multiline || starts_with_anchor(f, ctll::list<C...>{}); }
template <int I, typename X, typename Z> struct node;
#define NODE(i, ...) template <typename X, typename Z> struct node<i, X, Z> { using type = __VA_ARGS__; };
NODE(0, empty) NODE(1, ctre::select<X, Z, Z>) NODE(2, ctre::select<X>) NODE(3, ctre::select<>) NODE(4, sequence<X, Z, Z>) NODE(5, sequence<X>) NODE(6, reject)
NODE(7, opqc<1>) NODE(8, any) NODE(9, string<>) NODE(10, string<'k'>) NODE(11, ctre::set<opqc<1>, opqc<2>>) NODE(12, negative_set<opqc<1>, opqc<2>>)
NODE(13, assert_subject_begin) NODE(14, assert_subject_end) NODE(15, assert_subject_end_line) NODE(16, assert_line_begin) NODE(17, assert_line_end) NODE(18, boundary<opqc<1>>) NODE(19, not_boundary<opqc<1>>)
NODE(20, capture<1, X>) NODE(21, capture<1, X, Z>) NODE(22, capture_with_name<2, ctv_name2, X>) NODE(23, back_reference<1>) NODE(24, back_reference_with_name<ctv_name2>)
NODE(25, lookahead_positive<X>) NODE(26, lookahead_negative<X>) NODE(27, lookbehind_positive<X>) NODE(28, lookbehind_negative<X>) NODE(29, atomic_group<X>)
NODE(30, mode_switch<pcre::mode_case_insensitive>) NODE(31, mode_switch<pcre::mode_case_sensitive>) NODE(32, mode_switch<pcre::mode_singleline>) NODE(33, mode_switch<pcre::mode_multiline>)
#define REPS(b, tag) NODE(b, tag<0, 0, X>) NODE(b + 1, tag<1, 0, X>) NODE(b + 2, tag<2, 0, X>) NODE(b + 3, tag<0, 1, X>) NODE(b + 4, tag<1, 1, X>) NODE(b + 5, tag<0, 3, X>) NODE(b + 6, tag<2, 3, X>) NODE(b + 7, tag<1, 2, X>)
REPS(40, repeat) REPS(50, lazy_repeat) REPS(60, possessive_repeat)
}
template <int I, char X, char Z, char Y> bool sa(bool ml, bool ci) {
	ctre::flags f; f.multiline = ml; f.case_insensitive = ci;
	return starts_with_anchor(f, ctll::list<typename ctre::node<I, ctre::opk<X, 1>, ctre::opk<Z, 2>>::type, ctre::opk<Y, 9>>{});
}
using F = bool (*)(bool, bool);
template <int... I> struct ids {};
using ALLN = ids<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33,
	40, 41, 42, 43, 44, 45, 46, 47, 50, 51, 52, 53, 54, 55, 56, 57, 60, 61, 62, 63, 64, 65, 66, 67>;
template <char X, char Z, char Y, int... I> const F * row(ids<I...>) { static constexpr F t[] = {&sa<I, X, Z, Y>...}; return t; }
template <char X, char Z> const F * col(int y) { return y == 0 ? row<X, Z, 'A'>(ALLN{}) : y == 1 ? row<X, Z, 'T'>(ALLN{}) : y == 2 ? row<X, Z, 'P'>(ALLN{}) : row<X, Z, 'L'>(ALLN{}); }
template <char X> const F * lay(int z, int y) { return z == 0 ? col<X, 'A'>(y) : z == 1 ? col<X, 'T'>(y) : z == 2 ? col<X, 'P'>(y) : col<X, 'L'>(y); }
const F * ctv_keep(int x, int z, int y) { return x == 0 ? lay<'A'>(z, y) : x == 1 ? lay<'T'>(z, y) : x == 2 ? lay<'P'>(z, y) : lay<'L'>(z, y); }
