// ctre::utf8_iterator and utf8_range under contract.
#include <ctre.hpp>
#include <cstddef>
using ctre::utf8_iterator;
using P = const char8_t *;
struct FlatU { P ptr, end, begin; };
inline void put(FlatU & o, const utf8_iterator & i) { o.ptr = i.ptr; o.end = i.end; o.begin = i.begin; }
#define IN utf8_iterator i{p, e, b}
extern "C" {
extern const size_t ctv_off_ptr = offsetof(utf8_iterator, ptr);
extern const size_t ctv_off_end = offsetof(utf8_iterator, end);
extern const size_t ctv_off_begin = offsetof(utf8_iterator, begin);
void u_next(P p, P e, P b, FlatU * o) { IN; put(*o, ++i); }
void u_next_self(P p, P e, P b, FlatU * o) { IN; ++i; put(*o, i); }
void u_postnext(P p, P e, P b, FlatU * o, FlatU * old) { IN; auto j = i++; put(*o, i); put(*old, j); }
void u_prev(P p, P e, P b, FlatU * o) { IN; put(*o, --i); }
void u_prev_self(P p, P e, P b, FlatU * o) { IN; --i; put(*o, i); }
void u_postprev(P p, P e, P b, FlatU * o, FlatU * old) { IN; auto j = i--; put(*o, i); put(*old, j); }
void u_stdprev(P p, P e, P b, FlatU * o) { IN; put(*o, std::prev(i)); }
void u_stdnext(P p, P e, P b, FlatU * o) { IN; put(*o, std::next(i)); }
void u_plus(P p, P e, P b, unsigned n, FlatU * o) { IN; put(*o, i + n); }
void u_minus(P p, P e, P b, unsigned n, FlatU * o) { IN; put(*o, i - n); }
char32_t u_deref(P p, P e, P b) { IN; return *i; }
char32_t u_revderef(P p, P e, P b) { IN; return *std::make_reverse_iterator(i); }
void u_assign(P p, P e, P b, P x, FlatU * o) { IN; put(*o, i = x); }
P u_conv(P p, P e, P b) { IN; return i; }
bool u_end(P p, P e, P b) { IN; return i == utf8_iterator::sentinel{}; }
bool u_end_r(P p, P e, P b) { IN; return utf8_iterator::sentinel{} == i; }
bool u_notend(P p, P e, P b) { IN; return i != utf8_iterator::sentinel{}; }
bool u_notend_r(P p, P e, P b) { IN; return utf8_iterator::sentinel{} != i; }
bool u_eq(P p, P e, P b, P x) { IN; return i == utf8_iterator{x, e, b}; }
bool u_ne(P p, P e, P b, P x) { IN; return i != utf8_iterator{x, e, b}; }
bool u_eqp(P p, P e, P b, P x) { IN; return i == x; }
bool u_eqp_r(P p, P e, P b, P x) { IN; return x == i; }
bool u_nep(P p, P e, P b, P x) { IN; return i != x; }
bool u_nep_r(P p, P e, P b, P x) { IN; return x != i; }
bool u_zero(P p, P e, P b) { return p == utf8_iterator::sentinel{}; }
bool u_zero_r(P p, P e, P b) { return utf8_iterator::sentinel{} == p; }
bool u_notzero(P p, P e, P b) { return p != utf8_iterator::sentinel{}; }
void u_range(P p, size_t n, FlatU * o) { put(*o, ctre::utf8_range(std::u8string_view(p, n)).begin()); }
bool u_range_end(P p, P e, P b) { IN; return i == ctre::utf8_range(std::u8string_view(b, size_t(e - b))).end(); }
}
