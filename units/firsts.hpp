// first(): the set of characters a list of nodes can begin with, on opaque contents and tails. The answer is a type; it is printed here.
//   opq<k>: an arbitrary list of nodes, item<k>: an arbitrary member of the set collected so far, FS<L...>: the first set of an opaque list
#pragma once
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
#include <string>
namespace ctre {
template <int...> struct opq {};
template <int N> struct opqc {};
template <int> struct item {};
template <typename...> struct FS {};
struct ctv_name2 { static constexpr ctll::fixed_string<2> name{"nm"}; };
template <typename... T, int... N, typename... Ts> constexpr auto first(ctll::list<T...>, ctll::list<opq<N...>, Ts...>) noexcept { return ctll::list<T..., FS<opq<N...>, Ts...>>{}; }
template <typename... T, int N, typename... Ts> constexpr auto first(ctll::list<T...>, ctll::list<opqc<N>, Ts...>) noexcept { return ctll::list<T..., opqc<N>>{}; }
}
using namespace ctre;
static std::string num(long long v) { char b[32]; snprintf(b, 32, "%lld", v); return b; }
template <typename T> struct desc { static std::string s() { return "?"; } };
template <typename... T> static std::string many() { std::string r; ((r += (r.empty() ? "" : " ") + desc<T>::s()), ...); return r; }
template <typename... T> struct desc<ctll::list<T...>> { static std::string s() { return "[" + many<T...>() + "]"; } };
template <typename... T> struct desc<set<T...>> { static std::string s() { return "set(" + many<T...>() + ")"; } };
template <typename... T> struct desc<negative_set<T...>> { static std::string s() { return "neg(" + many<T...>() + ")"; } };
template <typename... T> struct desc<negate<T...>> { static std::string s() { return "neg(" + many<T...>() + ")"; } };
template <auto... V> struct desc<enumeration<V...>> { static std::string s() { return "set(" + many<character<V>...>() + ")"; } };
template <auto V> struct desc<character<V>> { static std::string s() { return "c" + num(static_cast<long long>(V)); } };
template <auto A, auto B> struct desc<char_range<A, B>> { static std::string s() { return "r" + num(static_cast<long long>(A)) + ":" + num(static_cast<long long>(B)); } };
template <int N> struct desc<opqc<N>> { static std::string s() { return "x" + num(N); } };
template <int N> struct desc<item<N>> { static std::string s() { return "i" + num(N); } };
template <> struct desc<can_be_anything> { static std::string s() { return "any"; } };
template <typename P, P V> struct desc<binary_property<P, V>> { static std::string s() { return "p1"; } };
template <typename P, P V, auto W> struct desc<property<P, V, W>> { static std::string s() { return "p2"; } };
template <int N, typename... T> struct desc<FS<opq<N>, T...>> { static std::string s() { return "F" + num(N) + desc<decltype(first(ctll::list<>{}, ctll::list<T...>{}))>::s(); } };
template <typename... Node> void show(const char * name) { printf("%s\t%s\n", name, desc<decltype(first(ctll::list<item<0>, item<1>>{}, ctll::list<Node...>{}))>::s().c_str()); }
template <typename... Node> void calc(const char * name) { printf("%s\t%s\n", name, desc<decltype(calculate_first(Node{}...))>::s().c_str()); }
