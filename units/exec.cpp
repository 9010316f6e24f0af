// Entry points under contract: exec of match/search/starts_with and the public wrappers that lead to them, for an arbitrary pattern.
#include "prelude.hpp"
namespace ctre {
template <int...> struct opqa {};   // an arbitrary pattern which can match at the begin of the subject only
template <int... N, typename... T, typename... Output> constexpr auto find_captures(ctll::list<opq<N...>, T...>, ctll::list<Output...>) noexcept { return ctll::list<Output..., captured_content<1>, captured_content<2, ctv_name2>>{}; }
template <int... N, typename... T, typename... Output> constexpr auto find_captures(ctll::list<opqa<N...>, T...>, ctll::list<Output...>) noexcept { return ctll::list<Output..., captured_content<1>, captured_content<2, ctv_name2>>{}; }
template <int... N, typename... C> constexpr bool starts_with_anchor(const flags &, ctll::list<opqa<N...>, C...>) noexcept { return true; }
template <typename R, typename BI, typename I, typename EI, int... N, typename... Ts>
constexpr inline R evaluate(const BI begin, I cur, const EI last, const flags & f, R cap, ctll::list<opqa<N...>, Ts...>) noexcept { return evaluate(begin, cur, last, f, cap, ctll::list<opq<100, N...>, Ts...>{}); }
}
using RE = ctre::opq<5>;
using REA = ctre::opqa<5>;
using namespace ctre;
using S1 = ctll::list<singleline>;
using S2 = ctll::list<multiline>;
using S3 = ctll::list<singleline, ctre::case_insensitive>;
using S4 = ctll::list<multiline, ctre::case_insensitive>;
using S5 = ctll::list<singleline, ctre::case_insensitive, multiline, case_sensitive>;
using S6 = ctll::list<multiline, ctre::case_insensitive, singleline>;
#ifdef CTV_UTF8
#define EXEC3(name, method, mod, re) extern "C" void name(It orig, It cur, It last, FlatR * out) { ctv_flat(*out, method::exec<mod, It>(SI{orig, last, orig}, SI{cur, last, orig}, SE{}, re{})); }
#define EXEC2(name, method, mod, re) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, method::exec<mod, It>(SI{cur, last, cur}, SE{}, re{})); }
#define CALL(name, method, mod, re) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>::exec(std::u8string_view(cur, size_t(last - cur)))); }
#define OPER(name, method, mod, re) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>{}(std::u8string_view(cur, size_t(last - cur)))); }
#define VIEW(name, method, mod, re) extern "C" void name(It cur, size_t n, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>{}(std::u8string_view(cur, n))); }
#define MEMB(name, call) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, regular_expression<RE, void, singleline>::call(std::u8string_view(cur, size_t(last - cur)))); }
#elif defined(CTV_ZERO)
#define EXEC3(name, method, mod, re) extern "C" void name(It orig, It cur, It, FlatR * out) { ctv_flat(*out, method::exec<mod, void>(orig, cur, SE{}, re{})); }
#define EXEC2(name, method, mod, re) extern "C" void name(It cur, It, FlatR * out) { ctv_flat(*out, method::exec<mod, void>(cur, SE{}, re{})); }
#define CALL(name, method, mod, re) extern "C" void name(It cur, It, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>::exec(cur)); }
#define OPER(name, method, mod, re) extern "C" void name(It cur, It, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>{}(cur)); }
#define VIEW(name, method, mod, re)
#define MEMB(name, call) extern "C" void name(It cur, It, FlatR * out) { ctv_flat(*out, regular_expression<RE, void, singleline>::call(cur)); }
#else
#define EXEC3(name, method, mod, re) extern "C" void name(It orig, It cur, It last, FlatR * out) { ctv_flat(*out, method::exec<mod, void>(orig, cur, last, re{})); }
#define EXEC2(name, method, mod, re) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, method::exec<mod, void>(cur, last, re{})); }
#define CALL(name, method, mod, re) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>::exec(cur, last)); }
#define OPER(name, method, mod, re) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>{}(cur, last)); }
#define VIEW(name, method, mod, re) extern "C" void name(It cur, size_t n, FlatR * out) { ctv_flat(*out, regular_expression<re, method, mod>{}(std::basic_string_view<std::iterator_traits<It>::value_type>(cur, n))); }
#define MEMB(name, call) extern "C" void name(It cur, It last, FlatR * out) { ctv_flat(*out, regular_expression<RE, void, singleline>::call(cur, last)); }
#endif
#define ALL(m, method) EXEC3(x3_##m##_1, method, S1, RE) EXEC3(x3_##m##_2, method, S2, RE) EXEC3(x3_##m##_3, method, S3, RE) EXEC3(x3_##m##_4, method, S4, RE) \
	EXEC3(x3_##m##_5, method, S5, RE) EXEC3(x3_##m##_6, method, S6, RE) EXEC3(a3_##m##_1, method, S1, REA) EXEC3(a3_##m##_4, method, S4, REA) \
	EXEC2(x2_##m##_1, method, S1, RE) EXEC2(x2_##m##_4, method, S4, RE) EXEC2(a2_##m##_1, method, S1, REA) \
	CALL(c_##m##_1, method, S1, RE) CALL(c_##m##_4, method, S4, RE) OPER(o_##m##_1, method, S1, RE) OPER(o_##m##_2, method, S2, RE) VIEW(v_##m##_1, method, S1, RE) VIEW(v_##m##_3, method, S3, RE)
ALL(match, match_method) ALL(search, search_method) ALL(starts, starts_with_method)
MEMB(m_match_1, match) MEMB(m_search_1, search) MEMB(m_starts_1, starts_with) MEMB(m_match_2, multiline_match) MEMB(m_search_2, multiline_search) MEMB(m_starts_2, multiline_starts_with)
