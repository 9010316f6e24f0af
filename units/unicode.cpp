// Unicode property atoms under contract: match_char of every property value, the tables behind their lookup functions.
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include "unicode_names.hpp"
namespace ud = uni::detail;
template <typename P> [[gnu::always_inline]] static inline bool in(char32_t c) { return P::match_char(c, ctre::flags{}); }
#define BP(X) extern "C" bool bp_##X(char32_t c) { return in<ctre::binary_property<ud::binary_prop, ud::binary_prop::X>>(c); }
#define SC(X) extern "C" bool sc_##X(char32_t c) { return in<ctre::binary_property<uni::script, uni::script::X>>(c); } extern "C" int id_sc_##X() { return int(uni::script::X); }
#define SX(X) extern "C" bool sx_##X(char32_t c) { return in<ctre::property<ctre::property_type, ctre::property_type::script_extension, uni::script::X>>(c); }
#define BK(X) extern "C" bool bk_##X(char32_t c) { return in<ctre::binary_property<uni::block, uni::block::X>>(c); } extern "C" int id_bk_##X() { return int(uni::block::X); }
#define AG(X) extern "C" bool ag_##X(char32_t c) { return in<ctre::binary_property<uni::version, uni::version::X>>(c); } extern "C" int id_ag_##X() { return int(uni::version::X); }
BINARY(BP)
SCRIPTS(SC)
SCRIPTS(SX)
BLOCKS(BK)
VERSIONS(AG)
extern "C" int f_script(char32_t c) { return int(uni::cp_script(c)); }
extern "C" int f_block(char32_t c) { return int(uni::cp_block(c)); }
extern "C" int f_age(char32_t c) { return int(uni::cp_age(c)); }
extern "C" int f_category(char32_t c) { return int(uni::cp_category(c)); }
