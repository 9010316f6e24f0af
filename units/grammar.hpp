// prints the parse table as the parser sees it: the type augment_grammar<pcre>::rule answers for a nonterminal and a terminal
#include <ctre.hpp>
#include <cstdio>
#include <string>
#include <typeinfo>
#include <type_traits>
#include <utility>
#include <cxxabi.h>

struct ambiguous {};
template <typename G, typename N, typename T> constexpr auto entry() {
	if constexpr (requires { G::rule(N{}, T{}); }) return std::type_identity<decltype(G::rule(N{}, T{}))>{};
	else return std::type_identity<ambiguous>{};
}
template <typename T> struct show { static std::string name() {
	char * n = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, nullptr);
	std::string r = (std::is_base_of_v<ctll::action, T> ? "!" : "%") + std::string(n);
	free(n);
	return r;
} };
template <auto V> struct show<ctll::term<V>> { static std::string name() { return "=" + std::to_string((long)V); } };
template <auto... V> struct show<ctll::set<V...>> { static std::string name() { std::string r = "+"; ((r += std::to_string((long)V) + ","), ...); return r; } };
template <auto... V> struct show<ctll::neg_set<V...>> { static std::string name() { std::string r = "-"; ((r += std::to_string((long)V) + ","), ...); return r; } };
template <auto A, decltype(A) B> struct show<ctll::range<A, B>> { static std::string name() { return "~" + std::to_string((long)A) + "," + std::to_string((long)B); } };
template <> struct show<ctll::anything> { static std::string name() { return "*"; } };
template <> struct show<ctll::epsilon> { static std::string name() { return "@epsilon"; } };
template <> struct show<ctll::reject> { static std::string name() { return "@reject"; } };
template <> struct show<ctll::accept> { static std::string name() { return "@accept"; } };
template <> struct show<ctll::pop_input> { static std::string name() { return "@pop"; } };
template <> struct show<ambiguous> { static std::string name() { return "@ambiguous"; } };
template <typename... Ts> struct show<ctll::list<Ts...>> { static std::string name() { std::string r = "["; ((r += show<Ts>::name() + " "), ...); return r + "]"; } };

using G = ctll::augment_grammar<ctre::pcre>;
template <typename N, typename T> void row() {
	std::string t = show<T>::name(), e = show<typename decltype(entry<G, N, T>())::type>::name();
	printf("%s\t%s\t%s\n", show<N>::name().c_str(), t.c_str(), e.c_str());
}
template <typename N, int... C> void rows(std::integer_sequence<int, C...>) { (row<N, ctll::term<(char)C>>(), ...); }
template <typename N> void table() {
	rows<N>(std::make_integer_sequence<int, 128>{});
	row<N, ctll::term<char32_t{0x80}>>(); row<N, ctll::term<char32_t{0xff}>>(); row<N, ctll::term<char32_t{0x20ac}>>(); row<N, ctll::term<char32_t{0x10ffff}>>();
	row<N, ctll::epsilon>();
}
