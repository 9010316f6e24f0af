// the operations of ctll::parser on opaque stacks and subjects, for a grammar whose rules answer with every shape of entry
#include <ctre.hpp>
#include <cstdio>
#include <type_traits>
struct R1 {}; struct R2 {}; struct C1 {}; struct C2 {}; struct opqS {};
struct actA: ctll::action {}; struct actB: ctll::action {}; struct actNo: ctll::action {};
struct toy {
	struct start {};
	using _start = start;
	struct no {}; struct none {}; struct pop {}; struct eps {}; struct lst {}; struct word {}; struct any {}; struct acts {}; struct actany {}; struct nt {}; struct late {};
	template <typename T> static constexpr auto rule(no, T) -> ctll::reject;
	template <typename T> static constexpr auto rule(pop, T) -> ctll::pop_input;
	template <typename T> static constexpr auto rule(eps, T) -> ctll::epsilon;
	template <typename T> static constexpr auto rule(lst, T) -> ctll::push<>;
	template <typename T> static constexpr auto rule(word, T) -> ctll::push<ctll::term<'a'>, C1, C2>;
	template <typename T> static constexpr auto rule(any, T) -> ctll::push<ctll::anything, C1, C2>;
	template <typename T> static constexpr auto rule(acts, T) -> ctll::push<actA, actB, pop, C1>;
	template <typename T> static constexpr auto rule(actany, T) -> ctll::push<actA, ctll::anything, C1>;
	template <typename T> static constexpr auto rule(nt, T) -> ctll::push<eps, lst, pop, C1, C2>;
	template <typename T> static constexpr auto rule(late, T) -> ctll::push<actNo, pop>;
	template <auto V> static constexpr auto rule(start, ctll::term<V>) -> ctll::push<ctll::anything, actA, start>;
	static constexpr auto rule(start, ctll::epsilon) -> ctll::push<actB>;
};
template <typename A, typename V, typename S> struct done {};
struct record {
	template <typename A, typename V, typename S> static constexpr auto apply(A, V, S) {
		if constexpr (std::is_same_v<A, actNo>) return ctll::reject{};
		else return done<A, V, S>{};
	}
};
template <ctll::fixed_string L> using P = ctll::parser<toy, L, record>;
template <ctll::fixed_string L, size_t Pos, typename... S> using step = decltype(P<L>::template decide<Pos>(ctll::list<S...>{}, opqS{}));
template <ctll::fixed_string L, size_t Pos, typename Subject, typename... S> using left = typename P<L>::template results<Pos, ctll::list<S...>, Subject, ctll::decision::undecided>;
template <typename T> constexpr bool rejected(size_t pos) { return !T::is_correct && T::position == pos && !T{} && std::is_same_v<decltype(T{} + ctll::placeholder{}), T>; }
template <typename T> constexpr bool accepted(size_t pos) { return T::is_correct && T::position == pos && T{} && std::is_same_v<decltype(T{} + ctll::placeholder{}), T>; }
template <ctll::fixed_string L, size_t Pos> using term_at = decltype(P<L>::template get_current_term<Pos>());
template <ctll::fixed_string L, size_t Pos> using before = decltype(P<L>::template get_previous_term<Pos>());
