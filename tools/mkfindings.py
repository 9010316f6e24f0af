"""writes KNOWN_FINDINGS.json (run by hand after editing): genuine deviations that are recorded, not repaired"""
import json
H = '#include <ctre.hpp>\n#include <string_view>\nusing namespace std::string_view_literals;\n'
F = []


def f(id, prop, what, body, pre='', kind='misbehaves'):
    F.append({'id': id, 'property': prop, 'what': what, 'kind': kind, 'program': H + pre + 'int main() { return %s; }\n' % body})


f('F01', 'C02', 'a{0} and a{0,0} repeat without upper bound instead of matching nothing (the AST is pinned by tests/generating.cpp): a{0} matches "aaa"', 'bool(ctre::match<"a{0}">("aaa"sv))')
f('F02', 'C02', 'iterations of a greedy or lazy repeat are committed: the alternatives inside an iteration are not revisited, (?:a|ab)*c does not match "abc"', '!bool(ctre::match<"(?:a|ab)*c">("abc"sv))')
f('F03', 'C02', 'the same inside mandatory iterations: (?:a|ab){2}c does not match "abac"', '!bool(ctre::match<"(?:a|ab){2}c">("abac"sv))')
f('F04', 'C16', 'a mode switch inside a group stays active behind the group: (?:(?i)a)b matches "AB"', 'bool(ctre::match<"(?:(?i)a)b">("AB"sv))')
f('F05', 'C13', 'a line or subject anchor inside a lookbehind is evaluated against the reversed subject: (?<=^a)b does not match behind "a"', '!bool(ctre::search<"(?<=^a)b">("ab"sv))')
f('F06', 'C13', 'a repeat inside a lookbehind does not compile: (?<=a{2})b', '!bool(ctre::search<"(?<=a{2})b">("aab"sv))', kind='does-not-compile')
f('F07', 'C13', 'a capture inside a lookbehind does not compile: (?<=(a))b', '!bool(ctre::search<"(?<=(a))b">("ab"sv))', kind='does-not-compile')
f('F08', 'C08', 'a back-reference does not compile with a UTF-8 subject', '!bool(ctre::match<"(a)\\\\1">(u8"aa"sv))', kind='does-not-compile')
f('F09', 'C07', 'search_all does not try an empty match at the end of the subject after a non-empty match that ends there: a* on "a" yields one match', '(n != 2)', pre='').__class__
F[-1]['program'] = H + 'int main() { int n = 0; for (auto m : ctre::search_all<"a*">("a"sv)) ++n; return n != 2; }\n'
f('F10', 'C07', 'two iterators of one range compare equal when only their positions agree (an end iterator by ++ equals the one before)', '')
F[-1]['program'] = H + 'int main() { auto r = ctre::search_all<"a">("a"sv); auto i = r.begin(); auto j = i; ++j; return i == j; }\n'
f('F11', 'C12', 'a reference by name inside a named group does not compile, the names are run together: (?<y>a)(?<x>\\g{y})', '!bool(ctre::match<"(?<y>a)(?<x>\\\\g{y})">("aa"sv))', kind='does-not-compile')
f('F12', 'C13', 'a mode switch inside a lookbehind does not compile: (?<=(?i)a)b', '!bool(ctre::search<"(?<=(?i)a)b">("Ab"sv))', kind='does-not-compile')
json.dump({'findings': F, 'fixed': [
    'fixed: property=%s %s %s' % tuple(x) for x in [l.strip().split(' ', 2) for l in open('/verif/tools/fixed.txt') if l.strip()]]}, open('/verif/KNOWN_FINDINGS.json', 'w'), indent=1)
