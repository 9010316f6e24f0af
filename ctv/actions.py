"""C12: the semantic actions of the parser. Every action is a template over the rest of the stack; the contract says what it makes of the
top. It is instantiated with opaque operands and with every kind of node in their place (an overload that treats some kind specially is
thereby covered), on several kinds of rest, and the resulting type, read back, must denote what the contract says (ref/nodes.py)."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build
from ref import nodes

NODES = ['opqA', 'ctre::opq<1>'][:1] + [
    "ctre::character<'x'>", "ctre::character<'Y'>", "ctre::character<char32_t{0x20ac}>", "ctre::string<'x','y'>", "ctre::string<'x',char32_t{0x20ac},'z'>", 'ctre::any', 'ctre::empty',
    "ctre::set<ctre::character<'x'>>", 'ctre::set<ctre::digit_chars>', "ctre::set<ctre::char_range<'a','f'>,opqC>", 'ctre::negative_set<ctre::word_chars>', 'ctre::negative_set<opqC>', 'ctre::set<>', 'ctre::negative_set<>',
    'ctre::negate<opqC>', "ctre::char_range<'a','c'>", 'ctre::space_chars', 'ctre::punct_chars', 'ctre::alpha_chars',
    'ctre::sequence<opqA,opqB>', "ctre::sequence<ctre::character<'v'>,opqA>", "ctre::sequence<ctre::string<'v','w'>,opqA>", "ctre::sequence<opqA,ctre::character<'v'>>",
    'ctre::sequence<ctre::repeat<1,2,opqA>,opqB>', 'ctre::sequence<ctre::lazy_repeat<1,2,opqA>,opqB>', 'ctre::sequence<ctre::possessive_repeat<1,2,opqA>,opqB>', "ctre::sequence<ctre::possessive_repeat<0,0,ctre::character<'x'>>,opqB>", "ctre::sequence<ctre::repeat<0,0,ctre::character<'x'>>,opqB>",
    'ctre::sequence<ctre::mode_switch<ctre::pcre::mode_multiline>,ctre::mode_switch<ctre::pcre::mode_singleline>>',
    'ctre::select<opqA,opqB>', "ctre::select<ctre::empty,opqB,ctre::character<'v'>>", 'ctre::capture<1,opqA>', "ctre::capture_with_name<1,ctre::id<'n'>,opqA>", 'ctre::back_reference<1>', "ctre::back_reference_with_name<ctre::id<'n'>>",
    'ctre::lookahead_positive<opqA>', 'ctre::lookahead_negative<opqA,opqB>', 'ctre::lookbehind_positive<opqA>', 'ctre::lookbehind_negative<opqA>', 'ctre::atomic_group<opqA>', 'ctre::atomic_group<opqA,opqB>',
    'ctre::word_boundary', 'ctre::not_word_boundary', 'ctre::assert_subject_begin', 'ctre::assert_subject_end', 'ctre::assert_subject_end_line', 'ctre::assert_line_begin', 'ctre::assert_line_end',
    "ctre::sequence<ctre::character<'v'>,ctre::any,ctre::set<ctre::digit_chars>>", "ctre::sequence<ctre::string<'v','w'>,ctre::assert_line_end>", "ctre::select<ctre::sequence<ctre::any,ctre::character<'v'>>,ctre::string<'v','w'>,ctre::empty>",
    "ctre::atomic_group<ctre::any,ctre::character<'v'>>", "ctre::sequence<ctre::sequence<ctre::any,ctre::character<'v'>>,ctre::assert_line_begin>", "ctre::lookahead_positive<ctre::string<'v','w'>>",
    'ctre::mode_switch<ctre::pcre::mode_case_insensitive>', 'ctre::binary_property<uni::detail::binary_prop, uni::detail::binary_prop::alpha>',
]
BOUNDS = [(0, 0), (1, 0), (0, 1), (2, 3), (2, 2), (2, 0), (0, 4), (3, 2)]
REPEATS = ['ctre::%s<%d,%d,%s>' % (k, a, b, c) for k in ('repeat', 'lazy_repeat', 'possessive_repeat') for a, b in BOUNDS for c in ('opqA', 'opqA,opqB', "ctre::character<'x'>", 'ctre::repeat<0,1,opqA>', 'ctre::lazy_repeat<0,1,opqA>') if (a, b) != (0, 1) or 'repeat' not in c]
# a repeat as the parser can have it in front of a mark for laziness
FRESH = [r for r in REPEATS if r.startswith('ctre::repeat')] + ['ctre::lazy_repeat<0,1,opqA>', 'ctre::lazy_repeat<0,1,opqA,opqB>']
REST = ['', 'opqT', "ctre::character<'t'>,opqT", 'ctre::capture_id<1>,opqT', "ctre::id<'i','j'>,ctre::capture_id<1>", 'ctre::look_start<ctre::lookahead_positive<>>', 'ctre::atomic_start,opqT', 'ctre::sequence<opqT,opqU>', 'ctre::select<opqT,opqU>', 'ctre::mode_switch<ctre::pcre::mode_multiline>', 'ctre::number<3>', 'ctre::set<opqC>,opqT', 'ctre::repeat<1,0,opqT>']
TERMS = {'x': "'x'", 'euro': 'char32_t{0x20ac}', ')': "')'"}
SIMPLE2 = ['make_sequence', 'make_alternate']
CLASSES = [n for n in NODES if re.match(r'ctre::(character|set|negative_set|negate|char_range|space_chars|punct_chars|alpha_chars|binary_property)', n)]


def lst(*xs):
    out = []
    for x in xs:
        out += split(x)
    return tuple(out)


def split(s):
    """at the commas outside brackets"""
    out, depth, at = [], 0, 0
    for i, c in enumerate(s):
        depth += (c == '<') - (c == '>')
        if c == ',' and not depth:
            out.append(s[at:i])
            at = i + 1
    return [x for x in out + [s[at:]] if x]


def jobs():
    """(action, terminal as C++, its value, stack, groups so far)"""
    P = ("')'", 41)
    for a in sorted(nodes.SIMPLE):
        for r in REST:
            yield (a,) + P + (lst(r), 2)
    for c in list(range(128)) + [0x80, 0xff, 0x20ac, 0x1f600, 0x10ffff]:
        yield ('push_character', 'char{%d}' % c if c < 128 else 'char32_t{%d}' % c, c, lst('opqT'), 0)
    for r in REST:
        yield ('push_character', "'x'", 120, lst(r), 2)
        yield ('create_number', "'7'", 55, lst(r), 2)
        yield ('prepare_capture', "'('", 40, lst(r), 2)
    yield ('prepare_capture', "'('", 40, lst(), 0)
    every = NODES + REPEATS
    for k, r in enumerate(REST):
        some = every if k == 1 else [x for i, x in enumerate(NODES) if (i + k) % 4 == 0 or i < 4]
        for x in some:
            for a in ('make_optional', 'repeat_plus', 'repeat_star'):
                yield (a,) + P + (lst(x, r), 2)
            for v, w in (('0', '0'), ('2', '5'), ('3', '0'), ('4', '4'), ('5', '2')) if k == 1 else (('2', '5'),):
                if not x.startswith('ctre::mode'):
                    yield ('repeat_ab',) + P + (lst('ctre::number<%s>' % w, 'ctre::number<%s>' % v, x, r), 2)
                    yield ('repeat_exactly',) + P + (lst('ctre::number<%s>' % w, x, r), 2)
                    yield ('repeat_at_least',) + P + (lst('ctre::number<%s>' % w, x, r), 2)
            yield ('make_capture',) + P + (lst(x, 'ctre::capture_id<2>', r), 3)
            yield ('make_capture_with_name',) + P + (lst(x, "ctre::id<'q','r'>", 'ctre::capture_id<2>', r), 3)
            yield ('make_atomic',) + P + (lst(x, 'ctre::atomic_start', r), 3)
            for l in ('lookahead_positive', 'lookahead_negative', 'lookbehind_positive', 'lookbehind_negative'):
                if 'behind' not in l or not re.search('capture|repeat|opq|mode_switch', x):     # KNOWN_FINDINGS F06, F07, F12: no lookbehind over these
                    yield ('look_finish',) + P + (lst(x, 'ctre::look_start<ctre::%s<>>' % l, r), 3)
            yield ('make_sequence',) + P + (lst(x, 'opqB', r), 3)
            yield ('make_alternate',) + P + (lst(x, 'opqB', r), 3)
    for x in every:
        for y in every:
            rx, ry = x in REPEATS, y in REPEATS
            if rx and ry and x.split(',', 2)[2] != y.split(',', 2)[2] and not (x.split('<')[1] == y.split('<')[1] and '(0,' in x.replace('<', '(')):
                continue
            if rx and ry and (x.split('<')[0] != y.split('<')[0] and not ('0,1,opqA>' in x and '0,1,opqA>' in y)):
                continue
            if rx != ry and not re.search(r'<(2,3|0,0),(opqA|ctre::character)', x if rx else y):
                continue
            yield ('make_sequence',) + P + (lst(x, y, 'opqT'), 3)
            if x not in REPEATS and y not in REPEATS and ('select' in x + y or x == 'opqA' or y == 'opqA' or 'empty' in x + y or x == y):
                yield ('make_alternate',) + P + (lst(x, y, 'opqT'), 3)
    for r in REST[:4]:
        for x in FRESH:
            for a in ('make_lazy', 'make_possessive'):
                yield (a,) + P + (lst(x, r), 1)
        for d in range(10):
            yield ('create_number', "'%d'" % d, 48 + d, lst(r), 1)
        for v in (0, 1, 9, 10, 17, 255, 99999, 1844674407370955160, 1844674407370955161, 1844674407370955162, 18446744073709551615):
            for d in range(10):
                yield ('push_number', "'%d'" % d, 48 + d, lst('ctre::number<%dull>' % v, r), 1)
        for v in (0, 1, 15, 16, 0x20a, 0x10fff, 0x110000, 0xfffffff, 0x10000000, 0xffffffff, 0x100000000, 0xfffffffffffffff, 0x1000000000000000):
            for d in '0123456789abcdefABCDEF':
                yield ('push_hexdec', "'%s'" % d, ord(d), lst('ctre::number<%dull>' % v, r), 1)
        for v in (0, 1, 0x41, 0x7f, 0x80, 0xff, 0x20ac, 0x10ffff):
            yield ('finish_hexdec',) + P + (lst('ctre::number<%dull>' % v, r), 1)
        for g in (1, 2, 5):
            yield ('reset_capture',) + P + (lst('ctre::capture_id<%d>' % g, r), g)
            for m in ('case_insensitive', 'case_sensitive', 'singleline', 'multiline'):
                yield ('mode_' + m,) + P + (lst('ctre::capture_id<%d>' % g, r), g)
        for m in ('case_insensitive', 'case_sensitive', 'singleline', 'multiline'):
            for p in (['case_insensitive'], ['multiline'], ['multiline', 'case_sensitive'], ['singleline', 'multiline', 'case_sensitive']):
                ms = ['ctre::mode_switch<ctre::pcre::mode_%s>' % q for q in p]
                yield ('mode_' + m,) + P + (lst(ms[0] if len(ms) == 1 else 'ctre::sequence<%s>' % ','.join(ms), r), 2)
    for r in ('', 'opqT', 'ctre::capture_id<1>,opqT', "ctre::character<'t'>"):
        for a, m in (('push_name', 'id'), ('push_property_name', 'property_name'), ('push_property_value', 'property_value')):
            for c in 'aZ_5':
                for top in ([''] if a != 'push_property_value' else ["ctre::property_name<'s','c'>"]) + ["ctre::%s<'p'>" % m, "ctre::%s<'p','Q','_'>" % m]:
                    yield (a, "'%s'" % c, ord(c), lst(top, r), 2)
        for n in (0, 1, 2, 9, 10):
            for k in (0, 1, 2, 9, 10, 11, 18446744073709551615):
                yield ('make_back_reference',) + P + (lst('ctre::number<%dull>' % k, r), n)
                yield ('make_relative_back_reference',) + P + (lst('ctre::number<%dull>' % k, r), n)
        for s in ("'a'", "'a','b','1'"):
            yield ('make_back_reference',) + P + (lst('ctre::id<%s>' % s, r), 2)
        for x in CLASSES:
            yield ('set_start',) + P + (lst(x, r), 1)
            yield ('negate_class_named',) + P + (lst(x, r), 1)
            for s in ('ctre::set<opqC>', "ctre::set<ctre::character<'x'>,ctre::digit_chars>", 'ctre::set<ctre::negative_set<ctre::digit_chars>>', 'ctre::set<%s>' % x):
                yield ('set_combine',) + P + (lst(x, s, r), 1)
            for s in ('ctre::set<%s>' % x, 'ctre::set<%s,opqC>' % x, "ctre::set<ctre::character<'k'>,%s>" % x):
                yield ('set_make',) + P + (lst(s, r), 1)
                yield ('set_make_negative',) + P + (lst(s, r), 1)
        yield ('set_empty',) + P + (lst(r), 1)
        for s in ('ctre::set<>',):
            yield ('set_make_negative',) + P + (lst(s, r), 1)
        for x in ("'a'", "'z'", 'char32_t{0x20ac}', "'\\0'"):
            for y in ("'a'", "'Z'", 'char32_t{0x20ad}', 'char32_t{0x10ffff}'):
                yield ('make_range',) + P + (lst('ctre::character<%s>' % y, 'ctre::character<%s>' % x, r), 1)
    yield ('push_empty', None, None, lst(), 0)


def source(part, at):
    out = ['#include "actions.hpp"']
    for k in range(0, len(part), 100):
        out.append('static void f%d() {' % k)
        for i, (a, v, V, s, n) in enumerate(part[k:k + 100]):
            out.append('act<ctre::pcre::%s, %s, %s, %d>(%d);' % (a, 'ctll::epsilon' if v is None else 'ctll::term<%s>' % v, 'ctll::list<%s>' % ','.join(s), n, at + k + i))
        out.append('}')
    out.append('int main() {' + ' '.join('f%d();' % k for k in range(0, len(part), 100)) + '}')
    return '\n'.join(out) + '\n'


def run_part(part, at, depth=0):
    """{index: printed}; a part that does not compile is split until the culprits stand alone"""
    d = tempfile.mkdtemp(prefix='ctvact')
    f, exe = os.path.join(d, 'a.cpp'), os.path.join(d, 'a')
    open(f, 'w').write(source(part, at))
    p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-ferror-limit=1', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
    res = {}
    if p.returncode == 0:
        for ln in subprocess.run([exe], capture_output=True, text=True).stdout.splitlines():
            i, _, t = ln.partition('\t')
            res[int(i)] = t
    for x in (f, exe):
        if os.path.exists(x):
            os.unlink(x)
    os.rmdir(d)
    if p.returncode:
        err = next((l for l in p.stderr.splitlines() if 'error' in l), 'does not compile')
        if len(part) == 1:
            return {at: 'error ' + err[:300]}
        if depth > 14:
            return {at + i: 'error ' + err[:300] for i in range(len(part))}
        h = len(part) // 2
        res = run_part(part[:h], at, depth + 1)
        res.update(run_part(part[h:], at + h, depth + 1))
    return res


def result(t):
    """(stack, groups), 'reject' or an error from what was printed"""
    if t == 'none' or t.startswith('error'):
        return t
    t = t[t.index('[T = ') + 5:-1]
    x = nodes.parse(t)
    if x[0] == 'reject' and len(x) == 1:
        return 'reject'
    if x[0] != 'pcre_context':
        return 'error ' + t[:200]
    # arguments equal to their defaults are not printed
    return [nodes.denote(y) for y in (x[1][1:] if len(x) > 1 else ())], x[2][1] if len(x) > 2 and len(x[2]) > 1 else 0


def operands(names):
    """what the operands denote, read back from what the compiler prints for them"""
    names = sorted(names)
    d = tempfile.mkdtemp(prefix='ctvact')
    f, exe = os.path.join(d, 'o.cpp'), os.path.join(d, 'o')
    open(f, 'w').write('#include "actions.hpp"\nint main() {\n' + '\n'.join('puts(text<%s>());' % n for n in names) + '}\n')
    p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('operands do not compile: ' + p.stderr[:1000])
    lines = subprocess.run([exe], capture_output=True, text=True).stdout.splitlines()
    for x in (f, exe):
        os.unlink(x)
    os.rmdir(d)
    return {n: nodes.denote(nodes.parse(t[t.index('[T = ') + 5:-1])) for n, t in zip(names, lines)}


def obligations(workers=8, only=None):
    js = sorted(set(jobs()), key=lambda j: (j[0], j[3], str(j[2]), j[4]))
    if only:
        js = [j for j in js if j[0] in only]
    size = max(1, (len(js) + 4 * workers - 1) // (4 * workers))
    parts = [(js[i:i + size], i) for i in range(0, len(js), size)]
    printed = {}
    with ThreadPoolExecutor(workers) as pool:
        for r in pool.map(lambda p: run_part(*p), parts):
            printed.update(r)
    den = operands({x for j in js for x in j[3]})
    out = []
    for i, (a, v, V, s, n) in enumerate(js):
        name = '%s after %s on %s with %d groups' % (a, 'nothing' if V is None else '%s' % v, ', '.join(s) or 'nothing', n)
        try:
            want = nodes.act(a, V, [den[x] for x in s], n)
        except nodes.Reject:
            want = 'reject'
        except nodes.Undefined:
            continue
        got = printed.get(i, 'error no output')
        try:
            r = result(got)
        except (ValueError, IndexError, KeyError) as e:
            r = 'error %r %s' % (e, got[:200])
        if V is not None and a == 'push_hexdec' and want != 'reject' and want[0][0][1] > nodes.TOP and r == 'reject':
            r = want        # finish_hexdec rejects it anyway
        ok = r == want if want == 'reject' or isinstance(r, str) else (list(r[0]), r[1]) == (list(want[0]), want[1])
        out.append((name, ok, '' if ok else 'left %s, contract %s' % (r, want), (a, v, s, n)))
    return out
