// prints what the parser makes of a text: the context left (read back by ref/nodes.py) or that it rejects it
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
template <typename T> const char * text() { return __PRETTY_FUNCTION__; }
template <ctll::fixed_string L> void parse(int i) {
	using P = ctll::parser<ctre::pcre, L, ctre::pcre_actions>;
	if constexpr (P::template correct_with<ctre::pcre_context<>>) printf("%d\t%s\n", i, text<typename P::template output<ctre::pcre_context<>>::output_type>());
	else printf("%d\treject\n", i);
}
