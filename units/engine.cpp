#include "prelude.hpp"
using namespace ctre;
#define T opq<9>
// --- structure
ENTRY(n_select, ctre::select<opq<1>, opq<2>, opq<3>>, T)
ENTRY(n_select1, ctre::select<opq<1>>, T)
ENTRY(n_select0, ctre::select<>, T)
ENTRY(n_sequence, sequence<opq<1>, opq<2>, opq<3>>, T)
ENTRY(n_sequence1, sequence<opq<1>>, T)
ENTRY(n_empty, empty, T)
ENTRY(n_reject, reject, T)
ENTRY(n_accept, accept)
ENTRY(n_start_mark, start_mark, T)
ENTRY(n_end_mark, end_mark, T)
ENTRY(n_end_mark_accept, end_mark, accept)
ENTRY(n_end_cycle, end_cycle_mark)
ENTRY(n_end_lookahead, end_lookahead_mark)
ENTRY(n_end_lookbehind, end_lookbehind_mark)
// --- characters
ENTRY(n_char, opqc<1>, T)
ENTRY(n_any, any, T)
ENTRY(n_string0, string<>, T)
ENTRY(n_string1, string<'k'>, T)
ENTRY(n_string3, string<'a', '0', 'Z'>, T)
ENTRY(n_set, set<opqc<1>, opqc<2>>, T)
ENTRY(n_negset, negative_set<opqc<1>, opqc<2>>, T)
ENTRY(n_negate, negate<opqc<1>, opqc<2>>, T)
// --- assertions
ENTRY(n_subj_begin, assert_subject_begin, T)
ENTRY(n_subj_end, assert_subject_end, T)
ENTRY(n_subj_end_line, assert_subject_end_line, T)
ENTRY(n_line_begin, assert_line_begin, T)
ENTRY(n_line_end, assert_line_end, T)
ENTRY(n_boundary, boundary<opqc<1>>, T)
ENTRY(n_not_boundary, not_boundary<opqc<1>>, T)
// --- captures
ENTRY(n_capture, capture<1, opq<1>>, T)
ENTRY(n_capture2, capture<1, opq<1>, opq<2>>, T)
ENTRY(n_capture_name, capture_with_name<2, ctv_name2, opq<1>>, T)
ENTRY(n_mark1, numeric_mark<1>, T)
ENTRY(n_mark2, numeric_mark<2>, T)
#ifndef CTV_UTF8   // known finding F08: does not compile
ENTRY(n_backref, back_reference<1>, T)
ENTRY(n_backref_name, back_reference_with_name<ctv_name2>, T)
#endif
// --- look around, atomic, modes
ENTRY(n_la_pos, lookahead_positive<opq<1>>, T)
ENTRY(n_la_pos2, lookahead_positive<opq<1>, opq<2>>, T)
ENTRY(n_la_neg, lookahead_negative<opq<1>>, T)
ENTRY(n_lb_pos, lookbehind_positive<opq<1>>, T)
ENTRY(n_lb_neg, lookbehind_negative<opq<1>>, T)
ENTRY(n_atomic, atomic_group<opq<1>>, T)
ENTRY(n_mode_i, mode_switch<pcre::mode_case_insensitive>, T)
ENTRY(n_mode_c, mode_switch<pcre::mode_case_sensitive>, T)
ENTRY(n_mode_s, mode_switch<pcre::mode_singleline>, T)
ENTRY(n_mode_m, mode_switch<pcre::mode_multiline>, T)
// --- repeats; A, B concrete or magic (generalised by the verifier to every value of the class)
#define MA 1000003
#define MB 2000003
#define REP(kind, tag) \
 ENTRY(kind##_0_0, tag<0, 0, opq<1>>, T) ENTRY(kind##_A_0, tag<MA, 0, opq<1>>, T) ENTRY(kind##_0_B, tag<0, MB, opq<1>>, T) \
 ENTRY(kind##_A_B, tag<MA, MB, opq<1>>, T) ENTRY(kind##_A_A, tag<MA, MA, opq<1>>, T) ENTRY(kind##_B_A, tag<MB, MA, opq<1>>, T) \
 ENTRY(kind##_1_0, tag<1, 0, opq<1>>, T) ENTRY(kind##_0_1, tag<0, 1, opq<1>>, T) ENTRY(kind##_1_1, tag<1, 1, opq<1>>, T) \
 ENTRY(kind##_2_3, tag<2, 3, opq<1>>, T) ENTRY(kind##_0_2, tag<0, 2, opq<1>>, T) ENTRY(kind##_1_2, tag<1, 2, opq<1>>, T) ENTRY(kind##_2_0, tag<2, 0, opq<1>>, T)\
 ENTRY(kind##_pack, tag<1, 0, opq<1>, opq<2>>, T)
REP(greedy, repeat)
REP(lazy, lazy_repeat)
REP(poss, possessive_repeat)
// --- a greedy repeat the optimisation applies to
#define OPT(x, a, b) ENTRY(gopt_##x, repeat<a, b, opq<11>>, opq<12>)
OPT(0_0, 0, 0) OPT(A_0, MA, 0) OPT(0_B, 0, MB) OPT(A_B, MA, MB) OPT(A_A, MA, MA) OPT(1_0, 1, 0) OPT(0_1, 0, 1) OPT(1_1, 1, 1) OPT(2_3, 2, 3) OPT(B_A, MB, MA)
ENTRY(gopt_pack, repeat<1, 0, opq<11>, opq<2>>, opq<12>)
