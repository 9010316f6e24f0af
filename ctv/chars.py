"""Contracts of the character matchers (units/chars.cpp): match_char of every class, literal, range and set."""
import re
import time
import z3
from .sym import *
from . import ir
from .engine import Result
from .jobs import Job

SIZES = {'char': 8, 'char8_t': 8, 'char16_t': 16, 'char32_t': 32, 'wchar_t': 32}

# tables of the PCRE documentation (ASCII for the POSIX classes)
DIGIT = [(0x30, 0x39)]
UPPER, LOWER = [(0x41, 0x5A)], [(0x61, 0x7A)]
WORD = DIGIT + UPPER + LOWER + [(0x5F, 0x5F)]
SPACE = [(9, 13), (0x20, 0x20)]
HSPACE = [(9, 9), (0x20, 0x20), (0xA0, 0xA0), (0x1680, 0x1680), (0x180E, 0x180E), (0x2000, 0x200A), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
VSPACE = [(10, 13), (0x85, 0x85), (0x2028, 0x2029)]
PUNCT = [(0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E)]
POSIX = {'alnum': DIGIT + UPPER + LOWER, 'alpha': UPPER + LOWER, 'ascii': [(0, 0x7F)], 'blank': [(9, 9), (0x20, 0x20)], 'cntrl': [(0, 0x1F), (0x7F, 0x7F)],
         'digit': DIGIT, 'graph': [(0x21, 0x7E)], 'lower': LOWER, 'print': [(0x20, 0x7E)], 'punct': PUNCT, 'space': SPACE, 'upper': UPPER, 'word': WORD,
         'xdigit': DIGIT + [(0x41, 0x46), (0x61, 0x66)]}
ESC = {'d': DIGIT, 's': SPACE, 'w': WORD, 'h': HSPACE, 'v': VSPACE, 'n': [(10, 10)]}


def rng(tab):
    return lambda c: z3.Or(*[z3.And(z3.UGE(c, bv(a, 64)), z3.ULE(c, bv(b, 64))) for a, b in tab])


def folded(p):
    """caseless: a letter matches when it or its other case is in the set"""
    def q(c, ci):
        up, lo = z3.And(z3.UGE(c, bv(65, 64)), z3.ULE(c, bv(90, 64))), z3.And(z3.UGE(c, bv(97, 64)), z3.ULE(c, bv(122, 64)))
        return z3.Or(p(c), z3.And(ci, up, p(c + 32)), z3.And(ci, lo, p(c - 32)))
    return q


def neg(q):
    return lambda c, ci: z3.Not(q(c, ci))


def class_spec(n):
    """spec of entry cls_<n>: predicate(code point, caseless)"""
    if n.startswith('posix_'):
        n = n[6:]
        if n.startswith('not_') or n.startswith('neg_'):
            return neg(folded(rng(POSIX[n[4:]])))
        return folded(rng(POSIX[n]))
    if n == 'neg_dW':
        a, b = class_spec('d'), class_spec('W')
        return lambda c, ci: z3.Not(z3.Or(a(c, ci), b(c, ci)))
    if n.startswith('in_'):
        return class_spec(n[3:])
    if n.startswith('neg_'):
        return neg(class_spec(n[4:]))
    if n == 'N':
        return neg(folded(rng(ESC['n'])))
    q = folded(rng(ESC[n.lower()]))
    return neg(q) if n.isupper() else q


def prove(m, entry, ctype, spec, generalize=None, pre=(), opq=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    bits = SIZES[ctype]
    c, ml, ci = z3.BitVec('c', bits), z3.Bool('ml'), z3.Bool('ci')
    handlers = []
    if opq:
        def h(ex, st, name, a, where):
            k = re.search(r'opqcILi(\d)E', name).group(1)
            yield st, opq(k, a[0], a[1], a[2])
        handlers = [(lambda n: 'ctv_match' in n, h)]
    ex = Exec(m, handlers=handlers, generalize=generalize or {}, timeout_ms=timeout_ms, name=entry, max_time=60, loops=300)
    st = State()
    for p in pre:
        st.assume(p)
    n = 0
    try:
        if ex.sol.check(st.pc) != z3.sat:
            res.error = 'precondition is not satisfiable'
            return res
        exp = spec(z3.ZeroExt(64 - bits, c), ci) if not opq else spec(lambda k: opq(k, c, ml, ci))
        for s2, rv in ex.run(st, entry, [c, ml, ci]):
            n += 1
            rv = rv if z3.is_bool(rv) else rv != 0
            ex.oblige(s2, rv == exp, 'post:membership', entry)
        if n == 0:
            res.error = 'no path returns'
    except ToolError as e:
        res.error = str(e)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts = n, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut
    return res


SETS = {'empty': lambda o: z3.BoolVal(False), 'one': lambda o: o('1'), 'two': lambda o: z3.Or(o('1'), o('2')), 'neg_empty': lambda o: z3.BoolVal(True),
        'neg_one': lambda o: z3.Not(o('1')), 'neg_two': lambda o: z3.Not(z3.Or(o('1'), o('2'))), 'not_one': lambda o: z3.Not(o('1')), 'not_two': lambda o: z3.Not(z3.Or(o('1'), o('2'))),
        'nested': lambda o: z3.Or(z3.Not(o('1')), o('2')), 'neg_nested': lambda o: z3.Not(z3.Or(z3.Not(o('1')), o('2')))}
A, B = z3.BitVec('A', 64), z3.BitVec('B', 64)
U = lambda v: bv(v, 64)
MAXCP = 0x10FFFF
RANGES = {  # entry: (generalisation, class of the pair of constants)
    'rng_cross': ({0x3B: A, 0x54321: B}, [z3.ULE(A, U(0x7A)), z3.UGE(B, U(0x41)), z3.ULE(B, U(MAXCP)), z3.ULE(A, B)]),
    'rng_high': ({0x54321: A, 0x65432: B}, [z3.UGT(A, U(0x7A)), z3.ULE(A, B), z3.ULE(B, U(MAXCP))]),
    'rng_low': ({0x13: A, 0x3B: B}, [z3.ULE(A, B), z3.ULT(B, U(0x41))]),
    'rng_cross_n': ({0x3B: A, 0x73: B}, [z3.ULE(A, U(0x7A)), z3.UGE(B, U(0x41)), z3.ULE(B, U(0x7F)), z3.ULE(A, B)]),
    'rng_low_n': ({0x13: A, 0x3B: B}, [z3.ULE(A, B), z3.ULT(B, U(0x41))]),
    'rng_mixed': ({0x3B: A, 0x54321: B}, [z3.ULE(A, U(0x7A)), z3.UGT(B, U(0x7F)), z3.ULE(B, U(MAXCP)), z3.ULE(A, B)]),
}


def between(a, b):
    return folded(lambda c: z3.And(z3.UGE(c, a), z3.ULE(c, b)))


def chars_jobs(m, ctype):
    unit = 'characters[%s]' % ctype
    jobs = []

    def add(entry, spec, what=None, **kw):
        jobs.append(Job(unit, what or entry, lambda refute=0, rich=False, max_time=None, kinds=None: prove(m, entry, ctype, spec, **kw), entry))
    P = lambda k, c, ml, ci: z3.Function('match_%s_%d' % (k, SIZES[ctype]), z3.BitVecSort(SIZES[ctype]), z3.BoolSort(), z3.BoolSort(), z3.BoolSort())(c, ml, ci)
    for n in m.funcs:
        if n.startswith('cls_'):
            add(n, class_spec(n[4:]))
        elif n.startswith('set_'):
            add(n, SETS[n[4:]], opq=P)
        elif n in RANGES:
            g, pre = RANGES[n]
            lo, hi = list(g.values())
            add(n, between(lo, hi), generalize=g, pre=pre)
        elif n == 'lit_high':
            add(n, lambda c, ci: c == A, generalize={0x54321: A}, pre=[z3.UGE(A, U(128)), z3.ULE(A, U(MAXCP))])
        elif n.startswith('_Z3lit'):
            x = re.match(r'_Z3litITnDaL(Di|c)(\d+)E', n)
            v = int(x.group(2))
            add(n, folded(lambda c, v=v: c == U(v)), 'character<%s{%d}>' % ('char32_t' if x.group(1) == 'Di' else 'char', v))
        elif n.startswith('_Z3rng'):
            x = re.match(r'_Z3rngITnDaL(Di|c)(\d+)ETnDaL(Di|c)(\d+)E', n)
            a, b = int(x.group(2)), int(x.group(4))
            add(n, between(U(a), U(b)), 'char_range<%s{%d},%s{%d}>' % ('char32_t' if x.group(1) == 'Di' else 'char', a, 'char32_t' if x.group(3) == 'Di' else 'char', b))
    return jobs
