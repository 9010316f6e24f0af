// prints, for a semantic action, the previous terminal and a context of the parser, the context (or rejection) the action leaves
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
#include <type_traits>
struct opqA {}; struct opqB {}; struct opqC {}; struct opqT {}; struct opqU {};
template <typename T> const char * text() { return __PRETTY_FUNCTION__; }
template <typename A, typename V, typename S, size_t N> void act(int i) {
	using C = ctre::pcre_context<S, ctre::pcre_parameters<N>>;
	if constexpr (requires { ctre::pcre_actions::apply(A{}, V{}, C{}); }) printf("%d\t%s\n", i, text<std::remove_cv_t<decltype(ctre::pcre_actions::apply(A{}, V{}, C{}))>>());
	else printf("%d\tnone\n", i);
}
