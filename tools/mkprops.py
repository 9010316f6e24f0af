"""writes properties.jsonl (run by hand after editing)"""
import json
E = 'include/ctre/evaluation.hpp'
P = []


def prop(id, title, statement, qtext, why, files, mech, state=(), observe=('include/ctre/wrapper.hpp: match / search / starts_with',), over=('inputs', 'programs')):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Every pattern element matches exactly the text its PCRE meaning describes',
     'For every pattern and every subject, alternation tries its options left to right and takes the first that lets the rest match, concatenation matches its parts one after another, and literals, sets, negated sets, the dot, anchors and word boundaries succeed exactly at the positions PCRE says (the dot excludes the newline only in multiline mode, ^ and $ see lines only in multiline mode). An element that does not match makes the match fail and has no effect on the rest.',
     'all patterns built from the elements, all subjects of any length, all positions, all continuations', 'the tests assert a few hundred fixed pattern/subject pairs; nothing covers arbitrary compositions or positions',
     [E, 'include/ctre/atoms.hpp', 'include/ctre/atoms_characters.hpp'], [('evaluate overloads for select, sequence, string, character like, any, anchors, boundaries, marks', E), ('match_string', E)],
     [('current', 'position in the subject', E), ('flags', 'modes and the block on empty matches', 'include/ctre/flags_and_modes.hpp')])
prop('C02', 'Repeats: bounds, priority, backtracking and empty iterations are right',
     'For every content and bounds, a greedy repeat prefers more iterations and gives them back one by one, a lazy one prefers fewer, a possessive one never gives back, and all iterate at least the minimum and at most the maximum number of times. Each iteration takes the first way its content matches; an iteration beyond the minimum must consume something, mandatory ones may match nothing.',
     'all bounds, contents, continuations, subjects; any number of iterations', 'iteration counts and interactions of empty iterations with what follows are unbounded; tests fix a handful of them',
     [E], [('evaluate(repeat), evaluate_recursive', E), ('evaluate(lazy_repeat)', E), ('evaluate(possessive_repeat)', E), ('less_than, less_than_or_infinite', 'include/ctre/utility.hpp')],
     [('block_empty_match', 'iteration must consume', 'include/ctre/flags_and_modes.hpp'), ('i', 'completed iterations', E)])
prop('C03', 'Removing backtracking from greedy repeats never changes an outcome',
     'When the library decides at compile time that a greedy repeat needs no backtracking (because what follows cannot start with a character of the repeat), the match result and all captures are the same as with full backtracking. This holds in every mode, including case-insensitive matching and multiline.',
     'all patterns with a repeat and anything behind it, all subjects, all modes', 'the optimisation is chosen per pattern at compile time; a wrong overlap answer shows only for a subject that needs the backtracking',
     ['include/ctre/first.hpp', E], [('calculate_first, can_be_anything', 'include/ctre/first.hpp'), ('point_set', 'include/ctre/first.hpp'), ('collides', 'include/ctre/first.hpp')],
     [('point_set', 'sorted set of code point ranges', 'include/ctre/first.hpp')])
prop('C04', 'Matching terminates and touches only the subject',
     'For every pattern and every subject, matching, searching and iterating end, and no character outside of the given subject is read: not before its begin, not at or behind its end, not behind the terminator of a zero-terminated string.',
     'all patterns, all subjects including empty ones, all positions', 'termination and absence of stray reads are statements about every subject; constant evaluation in the tests checks only the sampled ones',
     [E, 'include/ctre/wrapper.hpp', 'include/ctre/utf8.hpp'], [('bounds checks before every dereference', E), ('block_empty_match: iterations that consume nothing are refused', E), ('zero_terminated_string_end_iterator', 'include/ctre/wrapper.hpp')])
prop('C05', 'Captures report exactly the text their group matched last',
     'After a successful match capture 0 spans the whole match, every group that took part has the begin and end of its last participation on the successful path, and a group that did not take part is reported as unmatched. Attempts that failed leave no trace in the captures; captures made inside a successful positive lookaround or atomic group are kept.',
     'all patterns with groups, all subjects, all backtracking histories', 'captures depend on the backtracking history; tests check only final texts of chosen examples',
     [E, 'include/ctre/return_type.hpp', 'include/ctre/find_captures.hpp'], [('evaluate(capture), numeric_mark, start_mark, end_mark', E), ('regex_results', 'include/ctre/return_type.hpp'), ('find_captures', 'include/ctre/find_captures.hpp')],
     [('captures', 'begin, end, matched per group', 'include/ctre/return_type.hpp')])
prop('C06', 'match, starts_with and search mean whole, prefix and leftmost match',
     'match succeeds exactly when the pattern matches the whole subject, starts_with when it matches at the begin, and search returns the match at the leftmost position where the pattern matches, or none if there is no such position. The shortcut taken for anchored patterns never changes the result.',
     'all patterns, all subjects, all modes', 'leftmost is a statement about all earlier positions; the anchor shortcut is decided per pattern',
     ['include/ctre/wrapper.hpp', 'include/ctre/starts_with_anchor.hpp'], [('match_method, search_method, starts_with_method', 'include/ctre/wrapper.hpp'), ('starts_with_anchor', 'include/ctre/starts_with_anchor.hpp')])
prop('C07', 'Ranges visit every match once, in order, and end',
     'search_all yields the successive leftmost matches, each starting at or behind the end of the previous one and never twice the same empty match; tokenize yields consecutive matches from the begin; split yields the pieces between the matches so that pieces and matches together rebuild the subject. Every iteration ends, also for patterns that match nothing, and anchors and lookbehind see the whole subject.',
     'all patterns, all subjects, all iteration histories', 'the sequence of matches depends on the whole history; empty matches and ends of the subject combine in many ways',
     ['include/ctre/iterators.hpp', 'include/ctre/range.hpp'], [('regex_iterator::operator++', 'include/ctre/iterators.hpp'), ('regex_split_iterator::operator++', 'include/ctre/iterators.hpp'), ('multi_subject_range::iterator', 'include/ctre/range.hpp')],
     [('current, current_match', 'position behind the last match', 'include/ctre/iterators.hpp')], observe=('include/ctre/range.hpp: begin/end',), over=('inputs', 'programs', 'histories'))
prop('C08', 'UTF-8 subjects are matched by code point',
     'Iterating a UTF-8 subject yields exactly the code points it encodes, forward and backward; matching such a subject gives the same result as matching the decoded code points, with captures in code units. A bad lead unit, a truncated sequence or a missing continuation unit yields a replacement character, and neither iterating nor matching any byte sequence moves or reads outside of the subject.',
     'all byte sequences, all patterns', 'there are 1.1 million code points and unboundedly many malformed sequences; the tests use a few strings',
     ['include/ctre/utf8.hpp', E], [('utf8_iterator::operator++, operator--, operator*', 'include/ctre/utf8.hpp')], [('ptr, end', 'position and end of the subject', 'include/ctre/utf8.hpp')])
prop('C09', 'Pattern text is decoded without loss',
     'A pattern given as any kind of string literal is turned into the same sequence of code points that the literal spells: UTF-8 and UTF-16 are decoded, other characters are taken one by one, and the length is the number of code points. A bad lead or continuation unit, a truncated sequence or a high surrogate without its low surrogate makes the pattern invalid; nothing beyond the literal is read.',
     'all literals of every character type', 'decoding has a case per length and unit; tests contain a few literals',
     ['include/ctll/fixed_string.hpp'], [('fixed_string constructors, length_value_t', 'include/ctll/fixed_string.hpp')])
prop('C10', 'Character classes contain exactly the documented characters',
     'Every shorthand class, POSIX class, range, set and negation accepts exactly the characters PCRE documents, for every code unit value and character type, independent of the signedness of char. In case-insensitive mode ASCII letters match in both cases and nothing else changes.',
     'all characters of every character type, all ranges and sets, both case modes', 'each class is a predicate over 2^8 to 2^32 values; tests sample a few characters',
     ['include/ctre/atoms_characters.hpp', 'include/ctre/actions/class.inc.hpp', 'include/ctre/actions/named_class.inc.hpp'], [('match_char of character, char_range, set, negative_set, negate, enumeration', 'include/ctre/atoms_characters.hpp')],
     over=('inputs', 'configurations'))
prop('C11', 'Unicode properties answer membership correctly for every code point',
     'A property such as a general category, script or binary property accepts a code point exactly when the bundled Unicode table lists it, every lookup stays inside its table, and a negated property is the exact complement. Compound categories are the union of their parts.',
     'all code points, all properties', 'tables have hundreds of ranges and are searched by hand written code; tests look up a few code points',
     ['include/ctre/atoms_unicode.hpp', 'include/unicode-db/unicode-db.hpp'], [('lookup functions of the tables', 'include/unicode-db/unicode-db.hpp'), ('binary_property, property', 'include/ctre/atoms_unicode.hpp')])
prop('C12', 'Patterns parse as the documented grammar says',
     'Every pattern of the documented grammar is accepted and means what its syntax says (escapes, quantifiers, groups, sets, ranges, names, numbers), and every other text is rejected at compile time. Parsing is deterministic: no input is accepted with two meanings.',
     'all pattern texts', 'the parse table has thousands of entries; tests parse some dozens of patterns',
     ['include/ctre/pcre.gram', 'include/ctre/pcre.hpp', 'include/ctre/pcre_actions.hpp', 'include/ctll/parser.hpp'], [('LL1 table', 'include/ctre/pcre.hpp'), ('parser', 'include/ctll/parser.hpp'), ('semantic actions', 'include/ctre/actions')], over=('programs',))
prop('C13', 'Lookaround and atomic groups are transparent and independent',
     'A lookahead or lookbehind succeeds exactly when its content matches (or, negated, does not match) ahead of or up to the current position, consumes nothing, and leaves position and modes unchanged. An atomic group matches the first way its content matches and is never re-entered when the rest fails.',
     'all contents, positions, continuations', 'the outcome depends on the interplay with arbitrary following patterns',
     [E, 'include/ctre/rotate.hpp'], [('evaluate(lookahead_positive/negative), evaluate(lookbehind_positive/negative)', E), ('evaluate(atomic_group)', E), ('rotate', 'include/ctre/rotate.hpp')])
prop('C14', 'Back-references match exactly the captured text',
     'A back-reference matches at a position exactly when the text there equals what its group captured last (ASCII letters in either case when case-insensitive), consumes that text, and fails when the group is unmatched or the subject ends first. It never reads outside of the subject.',
     'all captured texts and positions', 'captured text and remaining subject are arbitrary; tests use a few',
     [E], [('evaluate(back_reference), evaluate(back_reference_with_name), match_against_range', E)])
prop('C15', 'Results convert and compare consistently',
     'A result or capture converts to true exactly when it matched; its view, string, begin, end, size and number conversions all describe the same characters of the subject, and optional conversions are empty exactly when unmatched. It equals a text exactly when matched with that text, and != is always the opposite of ==.',
     'all subjects, matched and unmatched captures, all texts compared with', 'tests compare a few fixed results',
     ['include/ctre/return_type.hpp'], [('captured_content::storage', 'include/ctre/return_type.hpp'), ('regex_results', 'include/ctre/return_type.hpp')], observe=('include/ctre/return_type.hpp',))
prop('C16', 'Modes and flags apply to exactly what follows them',
     'Function-level flags and inline mode switches turn case-insensitivity and multiline on or off for everything that follows in the same group, the last one set wins, each flag leaves the others alone, and every letter of a combined switch takes effect. Case-insensitive literals fold ASCII letters only.',
     'all combinations of flags, switches and patterns', 'combinations of flags with every element are not sampled by the tests',
     ['include/ctre/flags_and_modes.hpp', E, 'include/ctre/actions/mode.inc.hpp'], [('flags', 'include/ctre/flags_and_modes.hpp'), ('evaluate(mode_switch)', E), ('apply_mode', 'include/ctre/actions/mode.inc.hpp')])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
