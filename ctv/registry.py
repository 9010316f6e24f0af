"""Which functions under contract (and which bounded stand-ins) decide which property."""
import os
from . import build, syntax
from .engine import World, ZWorld
from .jobs import engine_job, ENGINE_PREFIX
from . import chars, execs, anchor, ranges, utf8, fixed, points, unicode, firsts, caplist
from . import results as results_

UNITS = os.path.join(build.VERIF, 'units')
_cache = {}
PREFETCH = []


class Prefetched(Exception):
    """units are compiled in parallel; everything else (z3 terms) happens in one thread"""


def module(src, defs=(), std='c++20', **kw):
    k = (src, tuple(defs), std, repr(kw))
    if k not in _cache:
        _cache[k] = build.compile_ir(os.path.join(UNITS, src), defs, std, **kw)[0]
    if PREFETCH:
        raise Prefetched()
    return _cache[k]


MEMORY = ('null-deref', 'load-initialised', 'frame-write', 'ptr-arith', 'signed-overflow', 'shift-amount', 'div-by-zero', 'unreachable', 'trap',
          'decreases', 'unwinding', 'pre:range', 'pre:recursion', 'post:wellformed', 'post:nonempty', 'load-aligned', 'store-slot')


def memory_kind(k):
    return k in MEMORY or k.endswith('-in-bounds')


ITER = {1: 'const char*', 4: 'const char32_t*'}


def engine(elem, select, kinds=None):
    def jobs():
        m = module('engine.cpp', ('-DCTV_IT=' + ITER[elem],))
        w = World(elem)
        names = [n for n in m.funcs if n.startswith(ENGINE_PREFIX)]
        return [engine_job('evaluation[%s]' % ITER[elem], w, m, n, kinds) for n in names if any(n == s or s.endswith('*') and n.startswith(s[:-1]) for s in select)]
    jobs.name = 'evaluation[%s]' % ITER[elem]
    return jobs


def execution(elem, select=None):
    def jobs():
        m = module('exec.cpp', ('-DCTV_IT=' + ITER[elem],))
        return [j for j in execs.exec_jobs(World(elem), m, 'exec[%s]' % ITER[elem]) if not select or select(j.entry)]
    jobs.name = 'exec[%s]' % ITER[elem]
    return jobs


ZERO = {1: 'const char*', 4: 'const wchar_t*'}


def zero_engine(elem, select, kinds=None):
    """the same overloads with the sentinel of a zero-terminated subject as the end"""
    def jobs():
        m = module('engine.cpp', ('-DCTV_IT=' + ZERO[elem], '-DCTV_ZERO'))
        w = ZWorld(elem)
        names = [n for n in m.funcs if n.startswith(ENGINE_PREFIX)]
        return [engine_job(jobs.name, w, m, n, kinds) for n in names if any(n == s or s.endswith('*') and n.startswith(s[:-1]) for s in select)]
    jobs.name = 'evaluation[%s, zero-terminated]' % ZERO[elem]
    return jobs


def zero_execution(elem):
    def jobs():
        m = module('exec.cpp', ('-DCTV_IT=' + ZERO[elem], '-DCTV_ZERO'))
        return execs.exec_jobs(ZWorld(elem), m, jobs.name)
    jobs.name = 'exec[%s, zero-terminated]' % ZERO[elem]
    return jobs


def characters(ctype):
    def jobs():
        m = module('chars.cpp', ('-DCTV_C=' + ctype, '-DCTV_IT=const char*'), passes=None)
        return chars.chars_jobs(m, ctype)
    jobs.name = 'match_char[%s]' % ctype
    return jobs


def anchors():
    m = module('anchor.cpp', ('-DCTV_IT=const char*',), passes=None)
    return anchor.anchor_jobs(m)


anchors.name = 'starts_with_anchor'


def range_unit(elem):
    def jobs():
        m = module('ranges.cpp', ('-DCTV_IT=' + ITER[elem],))
        return ranges.range_jobs(World(elem), m, 'ranges[%s]' % ITER[elem])
    jobs.name = 'ranges[%s]' % ITER[elem]
    return jobs


# operations of utf8_iterator which are under contract in the unit utf8_iterator (their callers see the contract), and the loop of std::next / std::prev
U8OPS = ('_ZN4ctre13utf8_iteratorppEv', '_ZN4ctre13utf8_iteratormmEv', '_ZNK4ctre13utf8_iteratordeEv') + ('_ZSt9__advanceIN4ctre13utf8_iteratorEiEvRT_T0_St26bidirectional_iterator_tag',)


def utf8_iterator():
    return utf8.utf8_jobs(module('utf8.cpp', passes=None), 'utf8_iterator')


utf8_iterator.name = 'utf8_iterator'


def utf8_engine(select, kinds=None):
    def jobs():
        m = module('engine.cpp', ('-DCTV_UTF8',), noinline=U8OPS)
        names = [n for n in m.funcs if n.startswith(ENGINE_PREFIX)]
        return [utf8.uengine_job('evaluation[utf8]', m, n, kinds) for n in names if any(n == s or s.endswith('*') and n.startswith(s[:-1]) for s in select)]
    jobs.name = 'evaluation[utf8]'
    return jobs


def utf8_execution():
    m = module('exec.cpp', ('-DCTV_UTF8',), noinline=U8OPS)
    return execs.exec_jobs(utf8.UWorld(), m, 'exec[utf8]')


def utf8_ranges():
    m = module('ranges.cpp', ('-DCTV_UTF8',), noinline=U8OPS)
    return ranges.range_jobs(utf8.UWorld(), m, 'ranges[utf8]')


utf8_execution.name, utf8_ranges.name = 'exec[utf8]', 'ranges[utf8]'


def fixed_string(ctype, utf8=False):
    def jobs():
        m = module('fixed.cpp', ('-DCTV_C=' + ctype,) + (('-DCTRE_STRING_IS_UTF8',) if utf8 else ()) + (('-DCTV_COMMON',) if ctype == 'char32_t' else ()))
        mode = 'utf16' if ctype == 'char16_t' else 'utf8' if utf8 or ctype == 'char8_t' else 'plain'
        return fixed.fixed_jobs(m, ctype, mode, jobs.name)
    jobs.name = 'fixed_string[%s%s]' % (ctype, ', string is utf8' if utf8 else '')
    return jobs


def results(ctype, kind):
    def jobs():
        m = module('results.cpp', ('-DCTV_C=' + ctype, '-DCTV_K=%d' % kind) + (('-DCTV_NUM',) if ctype == 'char' and kind < 2 else ()), passes='always-inline,function(sroa,early-cse,simplifycfg),globaldce')
        return results_.result_jobs(m, ctype, jobs.name)
    jobs.name = 'results[%s]' % ['const %s*' % ctype, 'basic_string<%s>::const_iterator' % ctype, 'utf8_iterator'][kind]
    return jobs


def point_set():
    return points.points_jobs(module('points.cpp', passes='always-inline,cgscc(inline),function(sroa,early-cse),globaldce'), 'point_set')


def collides():
    return points.client_jobs(module('points.cpp', passes=None), 'collides')


def unicode_properties():
    return unicode.unicode_jobs(module('unicode.cpp', passes='always-inline,function(sroa,early-cse,simplifycfg),globaldce'), 'unicode')


def syntax_units():
    return syntax.syntax_jobs()


def parsing_of(*names):
    def jobs():
        return syntax.action_jobs(*names)
    jobs.name = 'actions'
    return jobs


def first_sets():
    return firsts.firsts_jobs()


def capture_list():
    return caplist.capture_list()


first_sets.name, capture_list.name = 'first', 'groups'
unicode_properties.name, syntax_units.name = 'unicode', 'syntax'
point_set.name, collides.name = 'point_set', 'collides'
REPEATS = ['greedy_*', 'lazy_*', 'poss_*']
TRUST = ['clang 18 front end and the inliner/sroa/early-cse/simplifycfg passes that lower the instantiated functions to IR',
         'ctv verification condition generator (IR semantics, memory model of disjoint objects)', 'z3',
         'structural induction over the pattern: the contract assumed for the abstract continuation is the contract proved for every node']
NODES = ['n_select', 'n_select1', 'n_select0', 'n_sequence', 'n_sequence1', 'n_empty', 'n_reject', 'n_accept', 'n_start_mark', 'n_end_mark', 'n_end_mark_accept',
         'n_char', 'n_any', 'n_string*', 'n_set', 'n_negset', 'n_negate', 'n_subj_*', 'n_line_*', 'n_boundary', 'n_not_boundary']
# with the sentinel of a zero-terminated subject
ZREPEATS = ['greedy_0_0', 'greedy_1_1', 'greedy_A_B', 'lazy_0_0', 'lazy_0_B', 'lazy_2_3', 'poss_0_0', 'poss_A_A', 'poss_0_1', 'gopt_0_0']
ZNODES = NODES + ['n_capture*', 'n_mark*', 'n_la_*', 'n_lb_*', 'n_mode_*', 'n_end_*']

PROPS = {
    'C01': dict(units=[engine(1, NODES), engine(4, NODES), parsing_of('push_(character|assert|word|not_word|empty).*', 'make_alternate')], native=['C01'], also=['C05', 'C06']),
    'C02': dict(units=[engine(1, REPEATS + ['n_end_cycle']), engine(4, ['n_end_cycle', 'greedy_A_B', 'lazy_A_B', 'poss_A_B', 'greedy_A_0', 'lazy_A_0', 'poss_A_0']), parsing_of('repeat_.*', 'make_lazy', 'make_possessive', 'make_optional', '.*_number'), parsing_of('make_sequence')], native=['C02'], also=['C03', 'C04', 'C05']),
    'C03': dict(units=[point_set, collides, first_sets, engine(1, ['gopt_*'])], native=['C03'], also=['C02', 'C05']),
    'C04': dict(units=[engine(1, ['n_*'] + REPEATS, memory_kind), zero_engine(1, ['n_*'] + ZREPEATS, memory_kind), zero_engine(4, ZNODES, memory_kind), zero_execution(1), zero_execution(4)],
                units_thorough=[zero_engine(1, REPEATS + ['gopt_*'], memory_kind)], native=['C04'], also=['C02', 'C14', 'C13']),
    'C05': dict(units=[engine(1, ['n_capture*', 'n_mark*', 'n_start_mark', 'n_end_mark', 'n_end_mark_accept', 'n_accept', 'n_la_pos*', 'n_la_neg', 'n_atomic', 'lazy_0_0', 'greedy_0_0', 'poss_0_0']), capture_list, parsing_of('make_capture.*', 'prepare_capture', 'reset_capture')], native=['C05'], also=['C02', 'C14']),
    'C06': dict(units=[execution(1), execution(4), zero_execution(1), zero_execution(4), anchors], native=['C06'], also=['C01', 'C07'],
                assume=['a pattern for which starts_with_anchor answers true matches at the begin of the subject only: proved node by node in the unit starts_with_anchor, assumed in the unit exec']),
    'C07': dict(units=[range_unit(1), range_unit(4)], native=['C07'], also=['C06'],
                assume=['the iterators are used as documented: not incremented behind the end', 'subjects of a multi-subject range are opaque values, the operation on one subject is arbitrary']),
    'C08': dict(units=[utf8_iterator, utf8_engine(['n_*', 'greedy_A_0', 'greedy_0_1', 'lazy_A_0', 'lazy_0_1', 'poss_A_0', 'poss_0_1']), utf8_execution, utf8_ranges], native=['C08'], also=['C01', 'C06', 'C07', 'C09'],
                assume=['the meaning of a node on the code point level is the specification proved for it with NEXT / PREVIOUS / DECODE in place of the character steps; these three are given by the contracts of operator++, operator-- and operator*',
                        'std::next and std::prev of one step are executed, not assumed', 'back-references do not compile on UTF-8 subjects (known finding F08), so they have no obligations here']),
    'C09': dict(units=[fixed_string('char'), fixed_string('char', True), fixed_string('char8_t'), fixed_string('char16_t'), fixed_string('char32_t'), fixed_string('wchar_t')], native=['C09'], also=['C12'],
                assume=['literals are shorter than 2^30 units', '5 and 6 unit sequences and overlong sequences of UTF-8 are decoded as written, an unpaired low surrogate stands for itself (a recorded reading of the property)']),
    'C10': dict(units=[characters(c) for c in ('char', 'char8_t', 'char16_t', 'char32_t', 'wchar_t')] + [parsing_of('class_.*', 'set_.*', 'make_range', 'negate_class_named', '.*_hexdec')], native=['C10'], also=['C16', 'C01']),
    'C11': dict(units=[unicode_properties, parsing_of('push_property_.*')], native=['C11'], also=['C10'],
                assume=['the data of the tables are right when they list the code points of ref/ucd14.json, which was cross-checked with the Unicode 15 database of perl (tools/mkucd.py)',
                        'above U+10FFFF only memory safety is claimed, there are no code points']),
    'C12': dict(units=[syntax_units], native=['C12'], texts=True, also=['C02', 'C10', 'C14'],
                back_end='clang 18 evaluates the instantiated templates; ctv/grammar.py decides the obligations of the table',
                trust=['clang 18 front end: overload resolution, template instantiation and the printed type names', 'ref/pcre.gram (a copy of the documented grammar) and ref/nodes.py (the meaning of nodes and actions)', 'ctv/grammar.py (the proof that table and grammar are the same translation)'],
                assume=['a template of the parser treats every type it has no overload for alike (opaque types and each kind of node stand for the rest of the stack)',
                        'characters above 127 are represented by U+0080, U+00FF, U+20AC and U+10FFFF: the table names none of them',
                        'numbers are sampled in the contracts of the actions (all digits at the values around every overflow)'],
                bounded_for='the composition of table, parser and actions on whole texts, including texts longer than 12 characters in the driver'),
    'C13': dict(units=[engine(1, ['n_la_*', 'n_lb_*', 'n_atomic', 'n_end_lookahead', 'n_end_lookbehind']), engine(4, ['n_la_*', 'n_lb_*', 'n_atomic']), parsing_of('look_.*', 'start_.*', 'make_atomic')], native=['C13'], also=['C05', 'C01']),
    'C14': dict(units=[engine(1, ['n_backref*']), engine(4, ['n_backref*']), parsing_of('make_back_reference', 'make_relative_back_reference', 'push_name')], native=['C14'], also=['C05']),
    'C15': dict(units=[results('char', 0), results('char', 1), results('char32_t', 0), results('wchar_t', 0), results('char16_t', 0), results('char8_t', 0), results('char8_t', 2)], native=['C15'], also=['C05', 'C06'],
                assume=['contracts of the standard library: char_traits::compare, the string constructors from a character range, from_chars and inserting a character range into a stream',
                        'std::optional<string_view>(capture) in direct initialisation is the converting constructor of std::optional, not a conversion of the library (DESIGN.md)']),
    'C16': dict(units=[engine(1, ['n_mode_*', 'n_string*', 'n_any', 'n_line_*', 'n_subj_end_line']), engine(4, ['n_mode_*', 'n_string*', 'n_any', 'n_line_*', 'n_subj_end_line']), execution(1), parsing_of('mode_.*')], native=['C16'], also=['C01']),
}

_N = 'Deductive: every listed function of the current tree is lowered to IR and proved against its contract for all inputs, all iterations and (for repeats) all bounds. '
_B = ' The composition through the public interface and the compile-time parts outside the contracts are covered by a bounded stand-in (enumerated subjects against a reference matcher), labelled bounded.'
PROPS['C01']['note'] = _N + 'Covers all non-repeat overloads of evaluate and the actions that push elements. Trusts clang lowering, the condition generator and z3.' + _B
PROPS['C02']['note'] = _N + 'Covers evaluate for greedy, lazy and possessive repeats incl. the recursion, for symbolic bounds. Assumes that lower bounds stay below 2^60.' + _B
PROPS['C04']['note'] = _N + 'Covers memory safety, absence of undefined arithmetic and the termination measure of every evaluate overload, for subjects with an end and (all nodes, the main repeats; all in the thorough tier) for zero-terminated ones.' + _B
PROPS['C05']['note'] = _N + 'Covers the capture nodes and marks and the capture state carried through repeats, lookaround and atomic groups; the groups a result has room for (find_captures over every kind of node, decided by evaluating the instantiated templates) and the actions that number the groups.' + _B
PROPS['C13']['note'] = _N + 'Covers the lookaround and atomic group overloads; lookbehind content is evaluated through reverse iterators whose contract is assumed from the reversal of the list; that the parser reverses it is the contract of the action look_finish, instantiated with every kind of node.' + _B
PROPS['C14']['note'] = _N + 'Covers both back reference overloads and the comparison loop. Assumes begin <= end of a matched capture.' + _B
PROPS['C16']['note'] = _N + 'Covers the mode switches and every node whose meaning depends on a mode.' + _B
PROPS['C06']['note'] = _N + 'Covers exec of match, search and starts_with, the wrappers of regular_expression leading to them, the search loop and the anchor shortcut (starts_with_anchor, node by node), for subjects with an end and zero-terminated ones.' + _B
PROPS['C07']['note'] = _N + 'Covers construction, increment, end test and comparison of the iterators of search_all, tokenize, split and of multi-subject ranges, incl. the search they run, for an arbitrary pattern.' + _B
PROPS['C08']['note'] = _N + 'Covers every operation of utf8_iterator and utf8_range for all byte sequences, and evaluate, exec and the ranges instantiated with it.' + _B
PROPS['C09']['note'] = _N + 'Covers every constructor of ctll::fixed_string for every literal of every length and each of the five character types, and the accessors the parser uses.' + ' A bounded stand-in runs enumerated literals through the public interface, labelled bounded.'
PROPS['C15']['note'] = _N + 'Covers every conversion, accessor and comparison of regex_results and of a capture in an arbitrary state (also by number, by name, by structured binding and after copying), for pointers, string iterators and utf8_iterator.' + ' The number of code points of a UTF-8 capture and the composition with matching are covered by a bounded stand-in (programs against their expected output), labelled bounded.'
PROPS['C03']['note'] = _N + "Covers the evaluate overloads of repeats whose content and tail cannot begin alike (they follow the greedy specification, whichever way they take); first(), the set of characters a rest of a pattern can begin with, for every kind of node with opaque content and rest and for every repeat (a match begins with a character of the set: the lemma that makes the greedy and the possessive specification the same function); point_set::insert and ::check for every content of the set and every capacity; the population and test of a point set from every kind of item; and collides for every pair of lists of item kinds in the harness." + _B
PROPS['C11']['note'] = _N + 'Covers match_char of every property value (binary properties, categories, scripts, script extensions, blocks, ages) over the contracts of the lookups; every lookup function of every table (in bounds for all 32-bit values, answers what the format of the table defines; ordering facts of the data are evaluated on the data); and every table, decoded by the definition of its format, against the Unicode 14 reference, which is an evaluation and not a proof over inputs.' + ' A bounded stand-in runs every accepted property name through the public interface on all code points, labelled bounded.'
PROPS['C12']['note'] = 'Deductive on the level of types: the parse table, read out of the compiled program, is proved to be the documented grammar as a translation (a contract per nonterminal, an obligation per terminal, coinductively, so for texts of every length and nesting); every semantic action and every step of the parser is instantiated with opaque and with every kind of operands and must leave what its contract says. A bounded stand-in runs texts that walk all forms of the grammar through the real parser and compares what they mean.'
PROPS['C10']['note'] = _N + 'Covers match_char of every character-like node for all values of five character types, with and without case folding.' + _B
NOT_APPLICABLE = {}
