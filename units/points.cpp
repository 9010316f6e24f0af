// point_set under contract: the primitive operations on the array of points (PS: the capacity stands for any capacity), and
// populate / check of every item a first set can hold, with the primitive operations behind their contracts.
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <new>
using namespace ctre;
using PS = point_set<1000003>;
extern "C" {
void p_insert(PS * s, int64_t l, int64_t h) { s->insert(l, h); }
bool p_check(PS * s, int64_t l, int64_t h) { return s->check(l, h); }
}
// 0x54321, 0x65432, 0x35791 stand for every value of their class (ctv/points.py)
using U1 = character<char32_t{0x54321}>;
using U2 = character<char32_t{0x65432}>;
using R1 = char_range<char32_t{0x54321}, char32_t{0x65432}>;
using R2 = char_range<char32_t{0x35791}, char32_t{0x46802}>;
using BP = typename ctre::regex_builder<ctll::fixed_string{"\\p{L}"}>::type;
using PR = ctre::property<property_type, property_type::script_extension, uni::script::latin>;
using Any = can_be_anything;
template <typename T> struct on { static void pop(PS * s) { s->populate(T{}); } static bool chk(PS * s) { return s->check(T{}); } };
#define ITEM(name, ...) extern "C" void pop_##name(PS * s) { on<__VA_ARGS__>::pop(s); } extern "C" bool chk_##name(PS * s) { return on<__VA_ARGS__>::chk(s); } extern "C" size_t cap_##name() { return 3 * calculate_size_of_first(ctll::list<__VA_ARGS__>{}); }
#define POPS(name, ...) extern "C" void pop_##name(PS * s) { on<__VA_ARGS__>::pop(s); } extern "C" size_t cap_##name() { return 3 * calculate_size_of_first(ctll::list<__VA_ARGS__>{}); }
ITEM(char, U1)
ITEM(range, R1)
ITEM(any, Any)
ITEM(prop, PR)
ITEM(bprop, BP)
ITEM(set0, set<>)
ITEM(set1, set<U1>)
ITEM(set2, set<U1, R2>)
ITEM(setn, set<negative_set<U1>, R2>)
ITEM(enum0, enumeration<>)
ITEM(enum1, enumeration<char32_t{0x54321}>)
ITEM(enum3, enumeration<char32_t{0x54321}, char32_t{0x65432}, char32_t{0x35791}>)
ITEM(neg0, negative_set<>)
ITEM(neg1, negative_set<U1>)
ITEM(neg2, negative_set<U1, U2>)
ITEM(negr, negative_set<R1>)
ITEM(negr2, negative_set<R1, R2>)
ITEM(negrc, negative_set<R2, U1>)
ITEM(negenum, negative_set<enumeration<char32_t{0x54321}, char32_t{0x65432}, char32_t{0x35791}>>)
ITEM(negset, negative_set<set<U1, R2>, U2>)
ITEM(negneg, negative_set<negative_set<U1>, R2>)
ITEM(negnot, negative_set<negate<U1>, R2>)
ITEM(negsetneg, negative_set<set<negative_set<U1>>, R2>)
ITEM(negprop, negative_set<PR, U1>)
ITEM(negbprop, negative_set<BP, R1>)
ITEM(not1, negate<U1>)
ITEM(notr, negate<R1>)
ITEM(notset, negate<set<U1, R2>>)
ITEM(l0, ctll::list<>)
ITEM(l1, ctll::list<U1>)
ITEM(l3, ctll::list<U1, R2, negative_set<U2>>)
ITEM(lany, ctll::list<R1, Any, U2>)
ITEM(digits, digit_chars)
ITEM(words, word_chars)
ITEM(spaces, space_chars)
ITEM(vspaces, vertical_space_chars)
ITEM(hspaces, horizontal_space_chars)
ITEM(alnum, alphanum_chars)
ITEM(xdigit, xdigit_chars)
ITEM(punct, punct_chars)
ITEM(nwords, negative_set<word_chars>)
ITEM(nspaces, negative_set<space_chars, digit_chars>)
// every ASCII character, as written in a pattern (char32_t) and as an escape (char)
template <auto V> void popc(PS * s) { on<character<V>>::pop(s); }
template <auto V> bool chkc(PS * s) { return on<character<V>>::chk(s); }
template <auto V> bool chkn(PS * s) { return on<negative_set<character<V>>>::chk(s); }
struct fp { void (*p)(PS *); bool (*c)(PS *); bool (*n)(PS *); };
template <size_t... I> struct lits { static constexpr fp wide[] = {{&popc<static_cast<char32_t>(I)>, &chkc<static_cast<char32_t>(I)>, &chkn<static_cast<char32_t>(I)>}...}; static constexpr fp narrow[] = {{&popc<static_cast<char>(I)>, &chkc<static_cast<char>(I)>, &chkn<static_cast<char>(I)>}...}; };
template <size_t... I> const fp * pick(std::index_sequence<I...>, int w) { return w ? lits<I...>::wide : lits<I...>::narrow; }
const fp * ctv_keep(int w) { return pick(std::make_index_sequence<128>{}, w); }
// collides: false only for disjoint lists
#define COLL(name, a, b) extern "C" bool col_##name() { return collides(a{}, b{}); }
using L0 = ctll::list<>;
using LC = ctll::list<U1>;
using LD = ctll::list<character<char32_t{0x35791}>>;
using LR = ctll::list<R2>;
using LCR = ctll::list<U1, R2>;
using LN = ctll::list<negative_set<U1>>;
using LM = ctll::list<character<char32_t{0x35791}>, negative_set<R1>>;
using LA = ctll::list<Any>;
using LP = ctll::list<PR>;
using LK = ctll::list<character<'k'>>;
using LW = ctll::list<word_chars>;
#define COLLS(x) COLL(x##_0, x, L0) COLL(x##_C, x, LC) COLL(x##_D, x, LD) COLL(x##_R, x, LR) COLL(x##_CR, x, LCR) COLL(x##_N, x, LN) COLL(x##_M, x, LM) COLL(x##_A, x, LA) COLL(x##_P, x, LP) COLL(x##_K, x, LK) COLL(x##_W, x, LW)
COLLS(L0) COLLS(LC) COLLS(LD) COLLS(LR) COLLS(LCR) COLLS(LN) COLLS(LM) COLLS(LA) COLLS(LP) COLLS(LK) COLLS(LW)
