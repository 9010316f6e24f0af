// which captures a pattern has: find_captures over every kind of node with opaque content and an opaque rest
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
namespace ctre {
template <int> struct opq {};
template <int> struct held {};      // the captures of an opaque part
struct ctv_name {}; struct ctv_other {};
template <int N, typename... T, typename... O> constexpr auto find_captures(ctll::list<opq<N>, T...>, ctll::list<O...>) noexcept { return find_captures(ctll::list<T...>(), ctll::list<O..., held<N>>()); }
}
template <typename T> const char * text() { return __PRETTY_FUNCTION__; }
template <typename L, typename O> void found(int i) { printf("%d\t%s\n", i, text<std::remove_cv_t<decltype(find_captures(L{}, O{}))>>()); }
template <typename P> void whole(int i) { printf("%d\t%s\n", i, text<std::remove_cv_t<decltype(find_captures(P{}))>>()); }
