"""Bounded stand-in: the compiled library (real headers, run time evaluation) against the reference semantics on enumerated
subjects. Labelled bounded wherever it is reported; never counted as proved."""
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from itertools import product
from multiprocessing import get_context
from . import build

sys.path.insert(0, build.VERIF)
from ref import pcre  # noqa: E402

PRELUDE = r'''
#define CTRE_ENABLE_UTF8_RANGE
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
static std::string out;
static const void * base;
static size_t unit;
static void num(long v) { char b[24]; snprintf(b, 24, "%ld", v); out += b; }
template <typename It> static long off(It it) {
	if constexpr (std::is_pointer_v<It>) return (long)(((const char *)it - (const char *)base) / (long)unit);
	else if constexpr (requires { it.ptr; }) return (long)(((const char *)it.ptr - (const char *)base) / (long)unit);
	else return (long)(((const char *)std::to_address(it) - (const char *)base) / (long)unit);
}
template <size_t... I, typename M> static void groups(const M & m, std::index_sequence<I...>) {
	((m.template get<I>() ? (num(off(m.template get<I>().begin())), out += ',', num(off(m.template get<I>().end())), out += ' ') : out += ". "), ...);
}
template <typename M> static void put(const M & m) {
	if (!m) { out += "- "; return; }
	groups(m, std::make_index_sequence<M::count()>{});
}
template <typename Range> static void put_range(Range r) {
	int guard = 0;
	for (auto && m : r) { put(m); out += "; "; if (++guard > 64) { out += "ENDLESS"; break; } }
}
template <typename I> static void put_iter(I it) {
	int guard = 0;
	for (; it != ctre::sentinel; ++it) { put(*it); out += "; "; if (++guard > 64) { out += "ENDLESS"; break; } }
}
struct Entry { void (*fn)(const void *, size_t); size_t unit; };
static char * page_end; static char * page_begin; static long page = 65536;
static int line_no = -1;
static void on_signal(int s) {
	char b[64]; int n = snprintf(b, 64, "\nSIGNAL %d %d\n", s, line_no);
	if (write(1, b, n)) {}
	_exit(3);
}
int drive(const Entry * t);
'''
DRIVER = r'''
int drive(const Entry * t) {
	char * m = (char *)mmap(nullptr, 3 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m + page, page, PROT_READ | PROT_WRITE);
	page_begin = m + page; page_end = m + 2 * page;
	static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGALRM, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
	static char buf[1 << 16];
	while (fgets(buf, sizeof buf, stdin)) {
		++line_no;
		int k; int zt = 0; static char hex[1 << 16]; hex[0] = 0;
		sscanf(buf, "%d %d %s", &k, &zt, hex);
		if (!strcmp(hex, "-")) hex[0] = 0;
		size_t n = strlen(hex) / 2;
		std::string a;
		for (size_t i = 0; i != n; ++i) { unsigned v; sscanf(hex + 2 * i, "%2x", &v); a += (char)v; }
		if (zt) a += std::string(t[k].unit, '\0');
		alarm(10);
		std::string first;
		for (int side = 0; side != 2; ++side) {
			memset(page_begin, 'a', page);
			char * p = side ? page_begin : page_end - a.size();
			memcpy(p, a.data(), a.size());
			out.clear(); base = p; unit = t[k].unit;
			t[k].fn(p, n / t[k].unit);
			if (!side) first = out; else if (out != first) first += " != " + out;
		}
		alarm(0);
		puts(first.c_str());
	}
	return 0;
}
'''

CT = {'c': ('char', 1, ''), 'U': ('char32_t', 4, 'U'), '8': ('char8_t', 1, 'u8'), 'z': ('char', 1, ''), 'w': ('wchar_t', 4, 'L')}


class Case:
    """pattern, operations, subjects; ml/ci: flags of the call; ct: character type of the subject"""

    def __init__(self, tags, pattern, ops=('match', 'search'), subjects=(), ml=False, ci=False, ct='c', defs=(), ref=None):
        self.tags = set(tags.split())
        self.pattern, self.ops, self.subjects, self.ml, self.ci, self.ct, self.ref = pattern, ops, subjects, ml, ci, ct, ref

    def describe(self):
        return '%s%s%s' % (self.pattern, ' multiline' if self.ml else '', ' case_insensitive' if self.ci else '')


def cstr(p):
    s = ''
    for ch in p:
        o = ord(ch)
        if ch in '\\"':
            s += '\\' + ch
        elif 32 <= o < 127:
            s += ch
        elif o < 32 or o == 127:
            s += '\\%03o' % o
        else:
            s += '\\U%08x' % o
    lit = '"%s"' % s.replace('??', '?\\?')
    return ('U' if any(ord(c) > 126 or ord(c) < 32 for c in p) else '') + lit


def units(ct, cps):
    """code points -> (bytes, unit offsets of every code point position)"""
    if ct in ('c', 'z'):
        return bytes(cps), list(range(len(cps) + 1))
    if ct in ('U', 'w'):
        return b''.join(c.to_bytes(4, 'little') for c in cps), list(range(len(cps) + 1))
    b, o = b'', [0]
    for c in cps:
        b += chr(c).encode('utf-8', 'surrogatepass')
        o.append(len(b))
    return b, o


def source(cases):
    s = [PRELUDE]
    tab = []
    for i, c in enumerate(cases):
        cty, u, _ = CT[c.ct]
        for op in c.ops:
            name = 'f%d_%s' % (i, op)
            fn = ('multiline_' if c.ml else '') + op
            re = 'ctre::%s<%s%s>' % (fn, cstr(c.pattern), ', ctre::case_insensitive' if c.ci else '')
            if c.ct == 'z' or c.ct == 'w' and op == 'zsearch':
                arg = '(const %s *)p' % cty
            elif op == 'iterator':
                arg = '(const %s *)p, (const %s *)p + n' % (cty, cty)
            else:
                arg = 'std::basic_string_view<%s>((const %s *)p, n)' % (cty, cty)
            put = {'match': 'put', 'search': 'put', 'starts_with': 'put', 'iterator': 'put_iter'}.get(op, 'put_range')
            s.append('static void %s(const void * p, size_t n) { (void)n; %s(%s(%s)); }' % (name, put, re, arg))
            tab.append('{%s, %d}' % (name, u))
    s.append(DRIVER)
    s.append('static const Entry table[] = {%s};\nint main() { return drive(table); }' % ', '.join(tab))
    return '\n'.join(s)


def fmt(offs, r):
    if r is None:
        return '- '
    return ''.join('. ' if x is None else '%d,%d ' % (offs[x[0]], offs[x[1]]) for x in r)


def expect(mt, c, op, cps, offs):
    kw = {'ml': c.ml, 'ci': c.ci}
    if op in ('match', 'search', 'starts_with'):
        return fmt(offs, getattr(mt, op)(cps, **kw))
    f = {'search_all': mt.search_all, 'split': mt.split, 'tokenize': mt.tokenize, 'iterator': mt.search_all}[op]
    return ''.join(fmt(offs, r) + '; ' for r in f(cps, **kw))


def _chunk(args):
    cases, defs, wd, k = args
    src = os.path.join(wd, 'n%d.cpp' % k)
    exe = os.path.join(wd, 'n%d' % k)
    with open(src, 'w') as f:
        f.write(source(cases))
    cmd = ['clang++', '-std=c++20', '-O1', '-w', '-fconstexpr-steps=100000000', '-I' + os.path.join(build.REPO, 'include')] + list(defs) + [src, '-o', exe]
    rc, o, e = build.run(cmd)
    if rc:
        if len(cases) == 1:
            return [{'pattern': cases[0].describe(), 'compile_error': e[:1500], 'case': cases[0]}], 0, 0
        h = len(cases) // 2
        a, n1, t1 = _chunk((cases[:h], defs, wd, k * 2 + 1000))
        b, n2, t2 = _chunk((cases[h:], defs, wd, k * 2 + 1001))
        return a + b, n1 + n2, t1 + t2
    lines, exp = [], []
    t = 0
    nontrivial = 0
    for c in cases:
        mt = c.ref or pcre.Matcher(c.pattern)
        for op in c.ops:
            for cps in c.subjects:
                b, offs = units(c.ct, cps)
                lines.append('%d %d %s' % (t, 1 if c.ct == 'z' else 0, b.hex() or '-'))
                x = expect(mt, c, op, cps, offs)
                if x.strip(' ;-'):
                    nontrivial += 1
                exp.append((c, op, cps, x))
            t += 1
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, text=True)
    got = p.stdout.split('\n')
    bad = []
    for j, (c, op, cps, x) in enumerate(exp):
        g = got[j] if j < len(got) else 'no output'
        if g.strip() != x.strip():
            if j + 1 < len(got) and got[j + 1].startswith('SIGNAL'):
                g = got[j + 1] + ' (14 = no answer within 10 s, 11 = access outside of the subject)'
            elif not g and p.returncode:
                g = 'exit %d' % p.returncode
            bad.append({'pattern': c.describe(), 'operation': op, 'subject': list(cps), 'ct': c.ct, 'expected': x.strip(), 'got': g.strip(), 'case': c})
            if p.returncode and j >= len(got) - 3:
                break
            if len(bad) > 40:
                break
    for f in (src, exe):
        os.unlink(f)
    return bad, len(exp), nontrivial


def run_cases(cases, defs=(), per=12, procs=8):
    wd = tempfile.mkdtemp(prefix='ctvn.')
    # balance: spread heavy cases
    chunks = [cases[i:i + per] for i in range(0, len(cases), per)]
    try:
        with get_context('fork').Pool(procs) as p:
            rs = p.map(_chunk, [(c, tuple(defs), wd, k) for k, c in enumerate(chunks)], chunksize=1) if chunks else []
    finally:
        subprocess.run(['rm', '-rf', wd])
    bad = [b for r in rs for b in r[0]]
    return bad, sum(r[1] for r in rs), sum(r[2] for r in rs)


def words(alphabet, n):
    out = []
    a = [ord(c) if isinstance(c, str) else c for c in alphabet]
    for k in range(n + 1):
        out += list(product(a, repeat=k))
    return out


# ------------------------------------------------------------------------------------------------ programs printing one line per item
PROGRAM = r'''
#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
#include <string>
#include <sstream>
#include <vector>
#include <optional>
#include <unordered_map>
static std::string out;
static void num(long long v) { out += std::to_string(v) + ' '; }
template <typename T> static void text(const T & t) { for (auto c : t) { char b[12]; snprintf(b, 12, "%lx.", (unsigned long)(std::make_unsigned_t<std::conditional_t<std::is_same_v<decltype(c), char32_t> || std::is_same_v<decltype(c), char16_t> || std::is_same_v<decltype(c), char8_t>, unsigned, decltype(c)>>)c); out += b; } out += ' '; }
template <typename C> static std::basic_string_view<C> sv(const C * p, size_t n) { return {p, n}; }
'''


class Item:
    """code: statements appending to `out`; want: the line expected; explain: what differs, from the line printed"""
    explain = None

    def __init__(self, what, code, want, decl='', defs=()):
        self.what, self.code, self.want, self.decl, self.defs = what, code, want, decl, tuple(defs)


def _program(args):
    items, wd, k = args
    src, exe = os.path.join(wd, 'p%d.cpp' % k), os.path.join(wd, 'p%d' % k)
    with open(src, 'w') as f:
        f.write(PROGRAM + '\n'.join('%s\nstatic void i%d() { %s }' % (x.decl, j, x.code) for j, x in enumerate(items)))
        f.write('\nint main() { %s }\n' % ' '.join('out.clear(); i%d(); puts(out.c_str());' % j for j in range(len(items))))
    rc, o, e = build.run(['clang++', '-std=c++20', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fconstexpr-steps=100000000', '-fbracket-depth=2048', '-I' + os.path.join(build.REPO, 'include')] + list(items[0].defs) + [src, '-o', exe])
    if rc:
        if len(items) == 1:
            return [{'input': items[0].what, 'compile_error': e[:1500], 'expected': items[0].want}], 1
        h = len(items) // 2
        a, n = _program((items[:h], wd, 2 * k + 1000))
        b, m = _program((items[h:], wd, 2 * k + 1001))
        return a + b, n + m
    p = subprocess.run(['timeout', '60', exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    got = p.stdout.split('\n')
    bad = []
    for j, x in enumerate(items):
        g = got[j] if j < len(got) else 'no output'
        if g.split() != x.want.split():
            bad.append({'input': x.what, 'expected': x.want, 'got': g.strip() + (' ' + p.stderr[-600:] if p.returncode else ''), 'code': x.code})
            if p.returncode and j >= len(got) - 1:
                break
    for f in (src, exe):
        os.unlink(f)
    return bad, len(items)


def run_items(items, per=40, procs=8):
    wd = tempfile.mkdtemp(prefix='ctvp.')
    groups = {}
    for x in items:
        groups.setdefault(x.defs, []).append(x)
    # (the items are sent without their explain functions)
    plain = lambda x: Item(x.what, x.code, x.want, x.decl, x.defs)
    size = lambda g: max(1, min(per, -(-len(g) // procs)))
    chunks = [[plain(x) for x in g[i:i + size(g)]] for g in groups.values() for i in range(0, len(g), size(g))]
    try:
        with get_context('fork').Pool(procs) as p:
            rs = p.map(_program, [(c, wd, k) for k, c in enumerate(chunks)], chunksize=1) if chunks else []
    finally:
        subprocess.run(['rm', '-rf', wd])
    how = {x.what: x.explain for x in items if x.explain}
    bad = [b for r in rs for b in r[0]]
    return [{'input': b['input'], **how[b['input']](b['got']), **b} if b['input'] in how and 'got' in b else b for b in bad], sum(r[1] for r in rs)
