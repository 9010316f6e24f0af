// Character matchers under contract: for every shorthand/POSIX class, literal, range and set the real match_char of the type the real parser produces.
// CTV_C: character type of the subject
#include "prelude.hpp"
using C = CTV_C;
inline ctre::flags mk(bool ml, bool ci) { ctre::flags f; f.multiline = ml; f.case_insensitive = ci; return f; }
#define CLS(name, pattern) extern "C" bool cls_##name(C c, bool ml, bool ci) { return ctre::regex_builder<ctll::fixed_string{pattern}>::type::match_char(c, mk(ml, ci)); }
#define POSIX(name) CLS(posix_##name, "[[:" #name ":]]") CLS(posix_not_##name, "[[:^" #name ":]]") CLS(posix_neg_##name, "[^[:" #name ":]]")
CLS(d, "\\d") CLS(D, "\\D") CLS(s, "\\s") CLS(S, "\\S") CLS(w, "\\w") CLS(W, "\\W") CLS(h, "\\h") CLS(H, "\\H") CLS(v, "\\v") CLS(V, "\\V") CLS(N, "\\N")
CLS(in_d, "[\\d]") CLS(in_s, "[\\s]") CLS(in_w, "[\\w]") CLS(in_h, "[\\h]") CLS(in_v, "[\\v]") CLS(in_D, "[\\D]") CLS(in_S, "[\\S]") CLS(in_W, "[\\W]") CLS(in_H, "[\\H]") CLS(in_V, "[\\V]") CLS(in_N, "[\\N]")
CLS(neg_d, "[^\\d]") CLS(neg_W, "[^\\W]") CLS(neg_s, "[^\\s]") CLS(neg_dW, "[^\\d\\W]")
POSIX(alnum) POSIX(alpha) POSIX(ascii) POSIX(blank) POSIX(cntrl) POSIX(digit) POSIX(graph) POSIX(lower) POSIX(print) POSIX(punct) POSIX(space) POSIX(upper) POSIX(word) POSIX(xdigit)
// generalised constants: 0x54321 / 0x65432 / 0x3B stand for every value of their class (see ctv/chars.py)
template <typename T> struct ctv_unit { static bool go(C c, bool ml, bool ci) { return T::match_char(c, mk(ml, ci)); } };
extern "C" bool rng_cross(C c, bool ml, bool ci) { return ctv_unit<ctre::char_range<char32_t{0x3B}, char32_t{0x54321}>>::go(c, ml, ci); }
extern "C" bool rng_high(C c, bool ml, bool ci) { return ctv_unit<ctre::char_range<char32_t{0x54321}, char32_t{0x65432}>>::go(c, ml, ci); }
extern "C" bool rng_low(C c, bool ml, bool ci) { return ctv_unit<ctre::char_range<char32_t{0x13}, char32_t{0x3B}>>::go(c, ml, ci); }
extern "C" bool rng_cross_n(C c, bool ml, bool ci) { return ctv_unit<ctre::char_range<char{0x3B}, char{0x73}>>::go(c, ml, ci); }
extern "C" bool rng_low_n(C c, bool ml, bool ci) { return ctv_unit<ctre::char_range<char{0x13}, char{0x3B}>>::go(c, ml, ci); }
extern "C" bool rng_mixed(C c, bool ml, bool ci) { return ctv_unit<ctre::char_range<char{0x3B}, char32_t{0x54321}>>::go(c, ml, ci); }
extern "C" bool lit_high(C c, bool ml, bool ci) { return ctv_unit<ctre::character<char32_t{0x54321}>>::go(c, ml, ci); }
// every ASCII literal, as written in a pattern (char32_t) and as an escape (char)
template <auto V, typename T> bool lit(T c, bool ml, bool ci) { return ctre::character<V>::match_char(c, mk(ml, ci)); }
template <auto A, auto B, typename T> bool rng(T c, bool ml, bool ci) { return ctre::char_range<A, B>::match_char(c, mk(ml, ci)); }
using F = bool (*)(C, bool, bool);
template <size_t... I> struct lits { static constexpr F wide[] = {&lit<static_cast<char32_t>(I), C>...}; static constexpr F narrow[] = {&lit<static_cast<char>(I), C>...}; };
template <size_t... I> const F * pick(std::index_sequence<I...>, int w) { return w ? lits<I...>::wide : lits<I...>::narrow; }
const F * ctv_keep(int w) { return pick(std::make_index_sequence<128>{}, w); }
// sets over arbitrary content
using O1 = ctre::opqc<1>;
using O2 = ctre::opqc<2>;
#define SET(name, ...) extern "C" bool set_##name(C c, bool ml, bool ci) { return __VA_ARGS__::match_char(c, mk(ml, ci)); }
SET(empty, ctre::set<>) SET(one, ctre::set<O1>) SET(two, ctre::set<O1, O2>) SET(neg_empty, ctre::negative_set<>) SET(neg_one, ctre::negative_set<O1>) SET(neg_two, ctre::negative_set<O1, O2>)
SET(not_one, ctre::negate<O1>) SET(not_two, ctre::negate<O1, O2>) SET(nested, ctre::set<ctre::negate<O1>, O2>) SET(neg_nested, ctre::negative_set<ctre::negate<O1>, ctre::set<O2>>)
// concrete corner ranges (the constants at which the compile-time case distinction of char_range can switch)
constexpr int corner[] = {0, 0x2F, 0x30, 0x40, 0x41, 0x42, 0x5A, 0x5B, 0x60, 0x61, 0x62, 0x7A, 0x7B, 0x7F};
template <size_t A, size_t B> constexpr F one_range() { if constexpr (corner[A] <= corner[B]) return &rng<static_cast<char>(corner[A]), static_cast<char>(corner[B]), C>; else return nullptr; }
template <size_t A, size_t B> constexpr F one_wide() { if constexpr (corner[A] <= corner[B]) return &rng<static_cast<char32_t>(corner[A]), static_cast<char32_t>(corner[B]), C>; else return nullptr; }
template <size_t... I> struct rngs { static constexpr F narrow[] = {one_range<I / 14, I % 14>()...}; static constexpr F wide[] = {one_wide<I / 14, I % 14>()...}; };
template <size_t... I> const F * pickr(std::index_sequence<I...>, int w) { return w ? rngs<I...>::wide : rngs<I...>::narrow; }
const F * ctv_keepr(int w) { return pickr(std::make_index_sequence<14 * 14>{}, w); }
