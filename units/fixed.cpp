// ctll::fixed_string under contract: the constructors for one character type (CTV_C), for every length N (magic 1000003).
#include <ctre.hpp>
#include <array>
#include <new>
using FS = ctll::fixed_string<1000003>;
using FM = ctll::fixed_string<2000003>;
using C = CTV_C;
extern "C" {
void f_pointer(FS * o, const C * in) { new (o) FS(ctll::construct_from_pointer, in); }
void f_literal(FS * o, const C * in) { new (o) FS(*reinterpret_cast<const C (*)[1000004]>(in)); }
void f_array(FS * o, const C * in) { new (o) FS(*reinterpret_cast<const std::array<C, 1000003> *>(in)); }
#ifdef CTV_COMMON
void f_copy(FS * o, const FS * in) { new (o) FS(*in); }
bool f_correct(const FS * i) { return i->correct(); }
size_t f_size(const FS * i) { return i->size(); }
const char32_t * f_begin(const FS * i) { return i->begin(); }
const char32_t * f_end(const FS * i) { return i->end(); }
char32_t f_at(const FS * i, size_t k) { return (*i)[k]; }
bool f_same(const FS * a, const FM * b) { return a->is_same_as(*b); }
bool f_same1(const FS * a, const FS * b) { return a->is_same_as(*b); }
void f_view(const FS * a, const char32_t ** p, size_t * n) { std::basic_string_view<char32_t> v = *a; *p = v.data(); *n = v.size(); }
using F0 = ctll::fixed_string<0>;
size_t z_size(const F0 * i) { return i->size(); }
bool z_empty(const F0 * i) { return i->begin() == i->end() && i->correct(); }
bool z_empty_view(const F0 * i) { std::basic_string_view<char32_t> v = *i; return v.empty(); }
#endif
}
