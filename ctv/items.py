"""Bounded stand-ins which are programs: every item prints a line that is compared with the line its oracle expects."""
from itertools import product
from .native import Item


# ------------------------------------------------------------------------------------------------ C09: pattern literals
PRE = {'char': '', 'char8_t': 'u8', 'char16_t': 'u', 'char32_t': 'U', 'wchar_t': 'L'}
BITS = {'char': 8, 'char8_t': 8, 'char16_t': 16, 'char32_t': 32, 'wchar_t': 32}


def literal(ctype, units):
    """a literal of exactly these units (octal / hex escapes, cut so that no escape runs into the next character)"""
    w = BITS[ctype] // 4
    return ' '.join('%s"\\x%0*x"' % (PRE[ctype], w, u) for u in units) or PRE[ctype] + '""'


def utf8_units(c):
    return list(chr(c).encode('utf-8', 'surrogatepass'))


def utf16_units(c):
    return [c] if c < 0x10000 else [0xD800 | (c - 0x10000) >> 10, 0xDC00 | (c - 0x10000) & 0x3FF]


def utf8_decode(b):
    out, i = [], 0
    while i < len(b):
        x = b[i]
        n = 1 if x < 0x80 else 2 if 0xC0 <= x < 0xE0 else 3 if 0xE0 <= x < 0xF0 else 4 if 0xF0 <= x < 0xF8 else 5 if 0xF8 <= x < 0xFC else 6 if x >= 0xFC else 0
        if not n or i + n > len(b) or any(y & 0xC0 != 0x80 for y in b[i + 1:i + n]):
            return None
        v = x & (0x7F if n == 1 else 0xFF >> (n + 1))
        for y in b[i + 1:i + n]:
            v = v << 6 | y & 0x3F
        out.append(v)
        i += n
    return out


def utf16_decode(u):
    out, i = [], 0
    while i < len(u):
        if u[i] & 0xFC00 == 0xD800:
            if i + 1 >= len(u) or u[i + 1] & 0xFC00 != 0xDC00:
                return None
            out.append(((u[i] & 0x3FF) << 10 | u[i + 1] & 0x3FF) + 0x10000)
            i += 2
        else:
            out.append(u[i])
            i += 1
    return out


def c09(thorough):
    cps = [0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]
    words = [[c] for c in cps] + [[a, b] for a in cps for b in ((0x62, 0x7FF, 0xFFFF, 0x10FFFF) if not thorough else cps)] + [[a, b, c] for a in (0x61, 0xE9, 0x1F600) for b in (0x62, 0x20AC) for c in (0x63, 0x10000)]
    items = []

    def add(ctype, units, want, defs=()):
        lit = literal(ctype, units)
        code = 'constexpr auto s = ctll::fixed_string{%s}; num(s.correct()); if (s.correct()) { num(s.size()); for (auto c : s) num((long long)c); }' % lit
        w = '0' if want is None else '1 %d %s' % (len(want), ' '.join(map(str, want)))
        items.append(Item('literal %s%s' % (lit, ' '.join(defs)), code, w, defs=defs))
        if units:
            items.append(Item('pattern %s%s is accepted' % (lit, ' '.join(defs)), 'num(ctll::parser<ctre::pcre, %s, ctre::pcre_actions>::template correct_with<ctre::pcre_context<>>);' % lit,
                              '0' if want is None else '1', defs=defs))
    U8 = ('-DCTRE_STRING_IS_UTF8',)
    for w in words:
        u8, u16 = [x for c in w for x in utf8_units(c)], [x for c in w for x in utf16_units(c)]
        add('char8_t', u8, w)
        add('char', u8, w, U8)
        add('char16_t', u16, w)
        add('char32_t', w, w)
        add('wchar_t', w, w)
        if len(w) == 1:
            for cut in range(1, len(u8)):
                for tail in ([], [0x61]):
                    add('char8_t', [0x61] + u8[:cut] + tail, utf8_decode([0x61] + u8[:cut] + tail))
                    add('char', u8[:cut] + tail, utf8_decode(u8[:cut] + tail), U8)
    for b in [0x80, 0xBF, 0xC2, 0xE1, 0xF1, 0xF8, 0xFC, 0xFE]:
        add('char8_t', [b], utf8_decode([b]))
        for tail in ([0x80], [0x61], [0x80, 0x80], [0x80, 0xC0], [0x80, 0x80, 0x80], [0x80, 0x80, 0x80, 0x80, 0x80], [0x80, 0x80, 0x61, 0x80, 0x80]):
            add('char8_t', [b] + tail, utf8_decode([b] + tail))
    for u in [[0xD800], [0xDBFF], [0x61, 0xD83D], [0xD83D, 0x61], [0xD83D, 0xD83D], [0xD83D, 0xDE00, 0xD83D], [0xDC00], [0xDFFF, 0x61], [0xD83D, 0xDBFF], [0xD83D, 0xE000], [0xD83D, 0xDFFF]]:
        add('char16_t', u, utf16_decode(u))
    for c in range(256):
        add('char', [c], [c]) if c >= 0x80 or chr(c).isalnum() else items.append(Item('literal of char %d' % c, 'constexpr auto s = ctll::fixed_string{%s}; num(s.size()); num(s[0]);' % literal('char', [c]), '1 %d' % c))
    for ctype in PRE:
        items.append(Item('empty %s literal' % ctype, 'constexpr auto s = ctll::fixed_string{%s}; num(s.size()); num(s.correct()); num(s.begin() == s.end());' % literal(ctype, []), '0 1 1'))
    for lit, sub, want in (('u8"\\u00e9+"', 'U"\\u00e9\\u00e9"', 1), ('u"\\U0001F600{2}"', 'U"\\U0001F600\\U0001F600"', 1), ('u"\\U0001F600{2}"', 'U"\\U0001F600"', 0), ('U"[\\u4e00-\\u9fff]"', 'U"\\u5000"', 1),
                           ('L"a\\u00e9"', 'U"a\\u00e9"', 1), ('u8"[\\u0800-\\uffff]"', 'U"\\u07ff"', 0), ('u8"[\\u0800-\\uffff]"', 'U"\\u0800"', 1)):
        items.append(Item('match<%s>(%s)' % (lit, sub), 'num(bool(ctre::match<%s>(std::u32string_view(%s))));' % (lit, sub), str(want)))
    for a, b, w in (('"abc"', 'U"abc"', 1), ('"abc"', '"abd"', 0), ('"abc"', '"ab"', 0), ('u8"\\u00e9"', 'u"\\u00e9"', 1), ('"abc"', '"xbc"', 0), ('""', '""', 1) if 0 else ('"a"', '"a"', 1)):
        items.append(Item('is_same_as(%s, %s)' % (a, b), 'constexpr auto a = ctll::fixed_string{%s}; constexpr auto b = ctll::fixed_string{%s}; num(a.is_same_as(b)); num(b.is_same_as(a));' % (a, b), '%d %d' % (w, w)))
    return items


# ------------------------------------------------------------------------------------------------ C15: results
C15_DECL = r"""
#ifndef C15_ONCE
#define C15_ONCE
#include <sstream>
#include <optional>
template <typename SV> static void show(SV v) { out += '<'; for (auto c : v) { num((long long)(unsigned)c); out += '.'; } out += "> "; }
template <typename CT, typename M> static void caps(const M & m, std::basic_string_view<CT> subject, std::basic_string_view<CT> want) {
	using ST = std::basic_string<CT>;
	using SV = std::basic_string_view<CT>;
	num(bool(m)); num(bool(m.to_optional_view())); num(bool(m.to_optional_string())); std::optional<SV> ov = m; num(bool(ov));
	num(m == want); num(m != want); num(want == m); num(want != m);
	ST longer(want); longer += CT('x');
	num(m == SV(longer)); num(m != SV(longer)); num(SV(longer) == m); num(SV(longer) != m);
	if (!want.empty()) { ST other(want); other.back() ^= 1; num(m == SV(other)); num(m != SV(other)); ST shorter(want.substr(1)); num(m == SV(shorter)); num(SV(shorter) != m); }
	if (m) {
		num(std::to_address(m.begin()) - subject.data()); num(std::to_address(m.end()) - subject.data()); num((long long)m.size()); num(m.data() - subject.data());
		show(m.view()); show(m.to_view()); show(m.str()); show(m.to_string()); show(SV(m)); show(static_cast<ST>(m)); show(*m.to_optional_view()); show(*m.to_optional_string()); show(*ov);
		if constexpr (std::is_same_v<CT, char>) { std::ostringstream o; o << m; show(o.str()); }
	}
}
#endif
"""


def _flat(s):
    return '<' + ''.join('%d .' % ord(c) for c in s) + '> '


def _caps_want(ctype, m, pos, end, want):
    b = lambda x: '%d ' % x
    o = b(m) * 4 + (b(m) + b(not m)) * 2 + '0 1 0 1 ' + ('0 1 0 1 ' if want else '')
    if m:
        o += '%d %d %d %d ' % (pos, end, end - pos, pos) + _flat(want) * (10 if ctype == 'char' else 9)
    return o


def c15(thorough):
    items = []
    # (pattern, subject, groups: (begin, end) or None); group 0 first. named: group written with its name
    cases = [('(a+)|(b+)', 'aaa', [(0, 3), (0, 3), None]), ('(a+)|(b+)', 'bb', [(0, 2), None, (0, 2)]), ('(a)?(b)?c', 'bc', [(0, 2), None, (0, 1)]), ('(a*)(b*)', 'bb', [(0, 2), (0, 0), (0, 2)]), ('(a*)(b*)', '', [(0, 0), (0, 0), (0, 0)]),
             ('(a)(b)', 'ac', [None, None, None]), ('(x)(.+)', 'x1y', [(0, 3), (0, 1), (1, 3)]), ('()(z*)', 'zz', [(0, 2), (0, 0), (0, 2)]), ('(..)(.)', 'ba0', [(0, 3), (0, 2), (2, 3)]), ('(.)(?:b(.))?', 'a', [(0, 1), (0, 1), None])]
    for ctype in PRE:
        q = PRE[ctype]
        for pat, sub, g in cases:
            for how in ('get<%d>()', 'ctre::get', 'bind', 'named', 'whole'):
                if how != 'get<%d>()' and ctype not in ('char', 'char32_t') and not thorough:
                    continue
                for i, x in enumerate(g):
                    if how in ('named', 'whole') and i != (how == 'named'):
                        continue
                    p = pat
                    if how == 'named':
                        p = pat.replace('(', '(?<nm>', 1)
                    get = {'get<%d>()': 'm.get<%d>()' % i, 'ctre::get': 'ctre::get<%d>(m)' % i, 'bind': 'g%d' % i, 'named': 'm.get<"nm">()', 'whole': 'm'}[how]
                    t = sub[x[0]:x[1]] if x else 'a'
                    code = 'std::basic_string_view<%s> s{%s"%s"}; auto m = ctre::match<"%s">(s); auto [g0, g1, g2] = m; caps<%s>(%s, s, std::basic_string_view<%s>{%s"%s"});' % (ctype, q, sub, p, ctype, get, ctype, q, t)
                    items.append(Item('%s of match<%s>(%s"%s") against "%s"' % (get, p, q, sub, t), code, _caps_want(ctype, bool(x), *(x or (0, 0)), t), decl=C15_DECL))
    # an unmatched group equals no text, not even the empty one
    for ctype in PRE:
        q = PRE[ctype]
        for pat, sub in (('(a)|(b)', 'b'), ('(a)?b', 'b'), ('(a)', 'x')):
            items.append(Item('unmatched group 1 of match<%s>(%s"%s") against ""' % (pat, q, sub), 'auto m = ctre::match<"%s">(std::basic_string_view<%s>{%s"%s"}); std::basic_string_view<%s> e; num(m.get<1>() == e); num(m.get<1>() != e); num(e == m.get<1>()); num(e != m.get<1>()); num(bool(m.get<1>()));' % (pat, ctype, q, sub, ctype), '0 1 0 1 0', decl=C15_DECL))
    for sub, ty, args, want in [('12', 'int', '', '12'), ('-7', 'int', '', '-7'), ('ff', 'int', '16', '255'), ('0x', 'int', '', '0'), ('z', 'int', '', '0'), ('9999999999', 'int', '', '0'), ('9999999999', 'long', '', '9999999999'), ('101', 'unsigned', '2', '5'), ('255', 'unsigned char', '', '255'), ('256', 'unsigned char', '', '0'), ('', 'int', '', '0')]:
        for tail in ('', '7'):
            code = 'std::string s = "%s"; std::string t = s + ",%s"; auto m = ctre::match<"(.*),(7)?">(std::string_view(t)); num((long long)m.get<1>().to_number<%s>(%s)); auto o = m.get<1>().to_optional_number<%s>(%s); num(bool(o)); num(o ? (long long)*o : 0); num(bool(m.get<2>().to_optional_number<int>())); auto w = ctre::match<".*">(s); num((long long)w.to_number<%s>(%s)); num((long long)*w.to_optional_number<%s>(%s)); num(bool(ctre::match<"b">(s).to_optional_number<int>()));' % (sub, tail, ty, args, ty, args, ty, args, ty, args)
            items.append(Item('to_number<%s>(%s) of "%s"' % (ty, args, sub), code, '%s 1 %s %d %s %s 0' % (want, want, bool(tail), want, want), decl=C15_DECL))
    # captures of UTF-8: those of a u8string_view count units, those of a utf8_range count code points
    for pat, sub in (('a(\\\\u{20ac}*)b', 'a\u20ac\u20acb'), ('a(.*)b', 'ab'), ('a(.*)b', 'a\u00e9\U0001F600zb'), ('a(.+)b', 'a\u20acb')):
        g, u8 = sub[1:-1], list(sub.encode())
        u = u8[1:-1]
        code = 'const std::u8string_view s = u8"%s"; auto m = ctre::match<"%s">(%s); auto c = m.get<1>(); num(bool(c)); num((long long)c.size()); num((long long)c.unit_size()); num(c.data_unsafe() - s.data()); show(c.to_string()); show(c.str()); show(*c.to_optional_string()); num((long long)m.size()); num((long long)m.get<0>().unit_size()); show(m.str());'
        f = lambda x: '<' + ''.join('%d .' % y for y in x) + '> '
        items.append(Item('match<%s>(utf8_range(u8"%s")) capture 1' % (pat, sub), code % (sub, pat, 'ctre::utf8_range(s)'), '1 %d %d 1 ' % (len(g), len(u)) + f(u) * 3 + '%d %d ' % (len(sub), len(u8)) + f(u8), decl=C15_DECL))
        items.append(Item('match<%s>(u8"%s") capture 1' % (pat, sub), code % (sub, pat, 's'), '1 %d %d 1 ' % (len(u), len(u)) + f(u) * 3 + '%d %d ' % (len(u8), len(u8)) + f(u8), decl=C15_DECL))
    return items


# ------------------------------------------------------------------------------------------------ C11: Unicode properties
C11_DECL = r"""
#ifndef C11_ONCE
#define C11_ONCE
#include <ctre-unicode.hpp>
template <ctll::fixed_string P> static void members() {
	bool prev = false;
	for (uint32_t x = 0; x <= 0x10FFFF; ++x) {
		const char32_t c = x;
		const bool v = bool(ctre::match<P>(std::u32string_view(&c, 1)));
		if (v != prev) { prev = v; num(x); }
	}
}
template <ctll::fixed_string A, ctll::fixed_string B> static void same() {
	constexpr bool a = ctll::parser<ctre::pcre, A, ctre::pcre_actions>::template correct_with<ctre::pcre_context<>>;
	constexpr bool b = ctll::parser<ctre::pcre, B, ctre::pcre_actions>::template correct_with<ctre::pcre_context<>>;
	num(a);
	if constexpr (a && b) { // the same code points, or at least at the edges of the Unicode planes and all of the BMP
		bool r = std::is_same_v<typename ctre::regex_builder<A>::type, typename ctre::regex_builder<B>::type>;
		if (!r) { r = true; for (char32_t c = 0; r && c <= 0x10FFFF; ++c) r = bool(ctre::match<A>(std::u32string_view(&c, 1))) == bool(ctre::match<B>(std::u32string_view(&c, 1))); }
		num(r);
	}
}
#endif
"""


def c11(thorough):
    import numpy
    from . import unicode
    T = unicode.reference_sets()
    R = unicode.ref()
    D = unicode.Defs(unicode.Sets(T), R['scripts'])
    items, FAST = [], ('-O2', '-fno-sanitize=all')

    def edges(a):
        a = numpy.concatenate([[False], numpy.asarray(a, bool)])
        return [int(x) for x in (a[1:] != a[:-1]).nonzero()[0]]

    def differ(want):
        def f(got):
            try:
                g = [int(x) for x in got.split()]
            except ValueError:
                return {}
            w, a, b = want, set(g), set(want)
            first = min(a ^ b)
            return {'code point': 'U+%04X' % first, 'accepted': sum(x <= first for x in g) % 2 == 1, 'should be accepted': sum(x <= first for x in w) % 2 == 1}
        return f

    def member(pat, a):
        e = edges(a)
        x = Item('code points of %s' % pat, 'members<R"(%s)">();' % pat, ' '.join(map(str, e)), decl=C11_DECL, defs=FAST)
        x.explain = differ(e)
        items.append(x)
    ages = {n: i for i, n in enumerate(R['names']['ag'].values())}
    age = numpy.full(unicode.MAXCP + 1, 99)
    for a, i in ages.items():
        age[T['age_data'] == a] = i
    of = {
        'bp': lambda p: D.get(p),
        'sc': lambda p: T['script_data0'] == p,
        'bk': lambda p: T['block_data'] == p,
        'ag': lambda p: age <= ages[p],
    }
    key = {'bp': '', 'sc': 'sc=', 'bk': 'block=', 'ag': 'age='}
    ext = []
    for n in range(1, 22):
        ext.append(T['script_data%d' % n])
    known = lambda a: ~((a == '') | (a == 'zzzz'))
    kn = [known(a) for a in ext]
    kn0 = known(T['script_data0'])

    def scx(p):
        r = numpy.zeros(unicode.MAXCP + 1, bool)
        for a, k in reversed(list(zip(ext, kn))[1:]):
            r = k & ((a == p) | r)
        return numpy.where(kn[0], (ext[0] == p) | r, kn0 & ((T['script_data0'] == p) | r))
    first = {}
    for f, names in R['names'].items():
        for n, p in names.items():
            if p == 'zzzz' and f == 'sc' or p.startswith('?'):
                continue
            if (f, p) not in first:
                first[f, p] = n
                member('\\p{%s%s}' % (key[f], n), of[f](p))
                if f == 'sc':
                    member('\\p{scx=%s}' % n, scx(p))
    for p in ('lu', 'pd', 'c', 'latn', 'dash'):
        member('\\P{%s}' % p, ~numpy.asarray(D.get(p), bool))
        member('[^\\p{%s}]' % p, ~numpy.asarray(D.get(p), bool))
    member('[\\p{lu}\\p{sc=greek}]', of['bp']('lu') | of['sc']('grek'))
    member('\\P{sc=greek}', ~of['sc']('grek'))
    member('[\\P{block=basic_latin}a]', ~of['bk']('basic_latin') | D.A.eq(0x61))

    def same(a, b, want):
        items.append(Item('%s is %s' % (a, 'the same as ' + b if want else 'rejected'), 'same<R"(%s)", R"(%s)">();' % (a, b), '1 1' if want else '0', decl=C11_DECL, defs=FAST))
    for f, names in R['names'].items():
        for k, (n, p) in enumerate(names.items()):
            if p == 'zzzz' and f == 'sc':
                same('\\p{sc=%s}' % n, 'a', False)
            elif (f, p) in first:
                b = '\\p{%s%s}' % (key[f], first[f, p])
                if first[f, p] != n:
                    same('\\p{%s%s}' % (key[f], n), b, True)
                if f != 'ag' and (thorough or k % 8 == 0):
                    same('\\p{%s%s}' % (key[f], n.title()), b, True)
                if thorough or k % 8 == 3:
                    for bad in (n[:-1], n + '0', n + n[-1]):
                        if bad and bad not in names:
                            same('\\p{%s%s}' % (key[f], bad), b, False)
    for a, b in (('script=latin', 'sc=latn'), ('Script=Latin', 'sc=latn'), ('script_extension=latn', 'scx=latn'), ('AGE=10.0', 'age=10.0')):
        same('\\p{%s}' % a, '\\p{%s}' % b, True)
    for a in ('', 'nosuch', 'x=latn', 'sc=', 'age=1', 'age=99.0', 'block=nosuch', 'scx=nosuch', '=lu', 'lu=', 'age=14', 'sc=lu'):
        same('\\p{%s}' % a, 'a', False)
        same('\\P{%s}' % a, 'a', False)
    return items


# ------------------------------------------------------------------------------------------------ C04, C06: zero-terminated subjects
ZERO_DECL = """
template <typename C> static void every(const std::basic_string<C> & alphabet, size_t n, std::basic_string<C> & s, auto && f) { f(s); if (s.size() != n) for (C c : alphabet) { s.push_back(c); every(alphabet, n, s, f); s.pop_back(); } }
template <typename C> static std::string hex(const std::basic_string<C> & s) { std::string r; char t[16]; for (C c : s) { snprintf(t, 16, "%x.", (unsigned)c); r += t; } return r.empty() ? "-" : r; }
template <typename R, typename C> static std::string span(const R & r, const C * b) {
	if (!r) return "no";
	char t[64]; snprintf(t, 64, "%d-%d", (int)(r.begin() - b), (int)(r.end() - b)); return t;
}
// the results on a zero-terminated subject (in a block of exactly that size) and on the same subject with its length are the same
template <typename Z, typename V> static void same(const char * what, auto && s, Z z, V v) { if (z == v) return; if (out.size() < 200) out += what + (" " + hex(s)) + " is " + z + " should be " + v + "; "; }
template <typename RE, typename C> static void zero(const std::basic_string<C> & alphabet, size_t n) {
	std::basic_string<C> word;
	every(alphabet, n, word, [&](const std::basic_string<C> & s) {
		C * z = new C[s.size() + 1]; for (size_t i = 0; i != s.size(); ++i) z[i] = s[i]; z[s.size()] = 0;
		C * v = new C[s.size()]; for (size_t i = 0; i != s.size(); ++i) v[i] = s[i];
		const C * zp = z, * vp = v;
		{ auto a = RE::match(zp); auto b = RE::match(vp, vp + s.size()); same("match", s, span(a, zp), span(b, vp)); if (a && b) same("group of match", s, span(a.template get<1>(), zp), span(b.template get<1>(), vp)); }
		{ auto a = RE::search(zp); auto b = RE::search(vp, vp + s.size()); same("search", s, span(a, zp), span(b, vp)); if (a && b) same("group of search", s, span(a.template get<1>(), zp), span(b.template get<1>(), vp)); }
		{ auto a = RE::starts_with(zp); auto b = RE::starts_with(vp, vp + s.size()); same("starts_with", s, span(a, zp), span(b, vp)); }
		{ auto a = RE::multiline_search(zp); auto b = RE::multiline_search(vp, vp + s.size()); same("multiline_search", s, span(a, zp), span(b, vp)); }
		{ std::string a, b; int k = 0; for (auto r : RE::range(zp)) { a += span(r, zp) + ","; if (++k == 20) break; } k = 0; for (auto r : RE::range(vp, vp + s.size())) { b += span(r, vp) + ","; if (++k == 20) break; } same("range", s, a, b); }
		{ std::string a, b; int k = 0; for (auto r : RE::split(zp)) { a += span(r, zp) + ","; if (++k == 20) break; } k = 0; for (auto r : RE::split(vp, vp + s.size())) { b += span(r, vp) + ","; if (++k == 20) break; } same("split", s, a, b); }
		delete[] z; delete[] v;
	});
	if (out.empty()) out = "same";
}
"""
ZERO_PATTERNS = ['(a)', '(a)b', '(a|ab)$', '(a*)b?', '(a*?)b', '([^a])', '(.)\\\\1', 'a\\\\b(b?)', '(?=(a))[a-z]', '(?!b)(.+)', '(?<=a)(b)', '^(a*)$', '(a{1,2}+)(?:b|$)', '(\\\\w+)\\\\B', '(b)\\\\Z', '(?i)(A)\\\\1*', '(?>a*)(b)', '(a|)+b']


def c06(thorough):
    out = []
    for ct, pre, alpha, n in (('char', '', 'a b \\n \\x80 \\xff', 4), ('wchar_t', 'L', 'a b \\x100 \\x10000 \\x61000000', 4)):
        for p in ZERO_PATTERNS:
            al = ' '.join('%s"%s"' % (pre, c) for c in alpha.split(' '))
            out.append(Item('%s on zero-terminated %s subjects' % (p.replace('\\\\', '\\'), ct), 'zero<std::remove_cvref_t<decltype(ctre::match<"%s">)>, %s>(%s, %d);' % (p, ct, al, n), 'same', decl='#ifndef ZERO\n#define ZERO\n%s\n#endif' % ZERO_DECL))
    return out


c04 = c06


# ------------------------------------------------------------------------------------------------ C07: comparison of iterators
C07_DECL = """
template <typename R> static void compare(R r, int parts) {
	std::vector<decltype(r.begin())> v;
	for (auto i = r.begin(); i != r.end() && v.size() < 40; ++i) v.push_back(i);
	num(v.size());
	for (size_t a = 0; a != v.size(); ++a) for (size_t b = 0; b != v.size(); ++b) {
		const auto & x = v[a]; const auto & y = v[b];
		out += (char)('0' + (x == y)); out += (char)('0' + (x != y)); out += (char)('0' + (x < y)); out += (char)('0' + (x > y)); out += (char)('0' + (x <= y)); out += (char)('0' + (x >= y)); out += ' ';
	}
	auto i = r.begin();
	for (size_t a = 0; a <= v.size(); ++a) {
		auto e = r.end();
		out += (char)('0' + (i == e)); out += (char)('0' + (e == i)); out += (char)('0' + (i != e)); out += (char)('0' + (e != i)); out += ' ';
		if (a != v.size()) { auto old = i++; out += (old == v[a] && (*old).to_view() == (*v[a]).to_view()) ? "old " : "new "; }
	}
	(void)parts;
}
"""


def c07(thorough):
    # (iterators compare by position: a trailing empty part has the position of the part before it, so no such subject is here; F10)
    out = []
    for fn, pat, s, parts in (('search_all', 'a', 'abaca', 3), ('search_all', 'a+', 'aaba', 2), ('search_all', '[0-9]+', '1,22,333,4', 4), ('search_all', 'x', 'abc', 0), ('search_all', '$|a', 'ab', 2), ('tokenize', 'a|b', 'abac', 3), ('tokenize', 'a.', 'abacad', 3),
                              ('split', ',', 'a,b,c', 3), ('split', ',', 'a,bb,ccc', 3), ('split', ',', 'abc', 1), ('split', 'x+', 'axxbxc', 3)):
        pair = lambda a, b: '%d%d%d%d%d%d' % (a == b, a != b, a < b, a > b, a <= b, a >= b)
        want = '%d ' % parts + ''.join(pair(a, b) + ' ' for a in range(parts) for b in range(parts)) + ''.join('0011 old ' for a in range(parts)) + '1100'
        out.append(Item('comparison of the iterators of %s<"%s"> over "%s"' % (fn, pat, s), 'compare(ctre::%s<"%s">(std::string_view("%s")), %d);' % (fn, pat, s, parts), want, decl='#ifndef COMPARE\n#define COMPARE\n%s\n#endif' % C07_DECL))
    return out


# ------------------------------------------------------------------------------------------------ C08: decoding of every kind of sequence
C08_DECL = """
static const unsigned char alphabet[] = {%s};
static void decoded(const std::vector<unsigned char> & s) {
	std::vector<char8_t> b(s.begin(), s.end());
	auto r = ctre::utf8_range(std::u8string_view(b.data(), b.size()));
	auto i = r.begin();
	for (int k = 0; i != r.end() && k < 9; ++i, ++k) { char t[24]; snprintf(t, 24, "%%x@%%d,", (unsigned)*i, (int)(i.ptr - b.data())); out += t; }
	out += '<';
	for (int k = 0; i.ptr != b.data() && k < 9; ++k) { --i; char t[24]; snprintf(t, 24, "%%d,", (int)(i.ptr - b.data())); out += t; }
	out += ' ';
}
static void all(std::vector<unsigned char> & s, size_t n) {
	if (s.size() == n) { decoded(s); return; }
	for (auto c : alphabet) { s.push_back(c); all(s, n); s.pop_back(); }
}
"""
C08_UNITS = [0x41, 0x7F, 0x80, 0xBF, 0xC3, 0xDF, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFF]


def utf8_lenient(b):
    """what a subject is made of: (code point or U+FFFD, position) and the positions on the way back"""
    out, i = [], 0
    while i < len(b):
        x = b[i]
        n = 2 if 0xC0 <= x <= 0xDF else 3 if 0xE0 <= x <= 0xEF else 4 if 0xF0 <= x <= 0xF7 else 1
        good = i + n <= len(b) and all(y & 0xC0 == 0x80 for y in b[i + 1:i + n]) and (n > 1 or x < 0x80)
        v = 0xFFFD
        if good:
            v = x & (0x7F if n == 1 else 0xFF >> (n + 1))
            for y in b[i + 1:i + n]:
                v = v << 6 | y & 0x3F
        out.append('%x@%d,' % (v, i))
        i += n
    back, i = [], len(b)
    while i > 0:
        i -= 1
        while i > 0 and b[i] & 0xC0 == 0x80:
            i -= 1
        back.append('%d,' % i)
    return ''.join(out) + '<' + ''.join(back)


def c08(thorough):
    out = []

    def explain(seqs):
        def f(line):
            for s, g in zip(seqs, line.split()):
                if g != utf8_lenient(s):
                    return {'subject_units': ['0x%02x' % x for x in s], 'decoded': g, 'should_be': utf8_lenient(s)}
            return {}
        return f
    for n in range(5):
        for first in [None] if n < 3 else C08_UNITS:
            seqs = [((first,) if first is not None else ()) + r for r in product(C08_UNITS, repeat=n - (first is not None))]
            x = Item('all sequences of %d units%s' % (n, '' if first is None else ' that begin with 0x%02x' % first), 'std::vector<unsigned char> s{%s}; all(s, %d);' % ('' if first is None else str(first), n), ' '.join(utf8_lenient(s) for s in seqs),
                     decl='#ifndef DECODED\n#define DECODED\n%s\n#endif' % (C08_DECL % ', '.join(map(str, C08_UNITS))), defs=('-DCTRE_ENABLE_UTF8_RANGE',))
            x.explain = explain(seqs)
            out.append(x)
    return out


def items(prop, thorough=False):
    f = globals().get(prop.lower())
    return f(thorough) if f else []
