"""Contracts of first(), the set of characters a list of nodes can begin with (units/firsts.hpp), and the lemma that makes the
greedy optimisation right.

Contract of first, for every list L (a rest of a pattern) and every two states s, p of one match, p not before s and not blocked
where s is not:
  C1  L matches at s  =>  s is at the end, or the character at s is in F(L), or L matches at p
  D2  L ends in a cycle mark and its match at s consumes  =>  the character at s is in F(L)
  D3  L ends in a cycle mark and its match at s consumes nothing  =>  L is nullable, or s is at the end, or its character is in F(L)
where F(opaque content ++ rest) = G(content) + (nullable(content) ? F(rest) : nothing). Proved for every node over the specification
that evaluate is proved to follow (engine.py); assumed for the opaque contents and tails: structural induction. For repeats the three
are lemmas over the recursive specification, by induction over its calls.

Lemma OPT: if F(content) and F(tail) have no character in common, the greedy and the possessive specification are the same function.
evaluate(repeat) may take the possessive overload only when collides is false, and collides is false only then (points.py)."""
import os
import re
import subprocess
import tempfile
import time
import z3
from . import build
from .engine import World, S, Result, RepSpec, spec_table, start_state, CAPS, SCOMPS, sort_of, letter, bv
from .jobs import Job, BIG
from .sym import Ptr
from .syntax import Fact

T = 'T'
REPS = [(kind, a, b) for kind in ('repeat', 'lazy_repeat', 'possessive_repeat')
        for a, b in [(0, 0), (0, 1), (0, 2), (0, 'B'), (1, 0), (1, 1), (1, 2), (1, 'B'), (2, 0), (2, 2), (2, 3), ('A', 0), ('A', 'A'), ('A', 'B')]]
VAL = {'A': 1000003, 'B': 2000003}
# node -> (C++ type, specification: key of engine.spec_table, or a character predicate, or a repeat)
NODES = {
    'select<1,2,3>': ('ctre::select<opq<1>, opq<2>, opq<3>>', 'n_select'), 'select<1>': ('ctre::select<opq<1>>', 'n_select1'), 'select<>': ('ctre::select<>', 'n_select0'),
    'sequence<1,2,3>': ('sequence<opq<1>, opq<2>, opq<3>>', 'n_sequence'), 'sequence<1>': ('sequence<opq<1>>', 'n_sequence1'),
    'empty': ('ctre::empty', 'n_empty'), 'reject': ('ctre::reject', 'n_reject'), 'numeric_mark': ('numeric_mark<1>', 'n_mark1'),
    'any': ('any', 'n_any'), 'string<>': ('string<>', 'n_string0'), 'string<k>': ("string<'k'>", 'n_string1'), 'string<a0Z>': ("string<'a', '0', 'Z'>", 'n_string3'),
    'set<x,y>': ('set<opqc<1>, opqc<2>>', 'n_set'), 'negative_set<x,y>': ('negative_set<opqc<1>, opqc<2>>', 'n_negset'), 'negate<x,y>': ('negate<opqc<1>, opqc<2>>', 'n_negate'),
    'assert_subject_begin': ('assert_subject_begin', 'n_subj_begin'), 'assert_subject_end': ('assert_subject_end', 'n_subj_end'), 'assert_subject_end_line': ('assert_subject_end_line', 'n_subj_end_line'),
    'assert_line_begin': ('assert_line_begin', 'n_line_begin'), 'assert_line_end': ('assert_line_end', 'n_line_end'),
    'boundary': ('boundary<opqc<1>>', 'n_boundary'), 'not_boundary': ('not_boundary<opqc<1>>', 'n_not_boundary'),
    'word_boundary': ('word_boundary', 'n_boundary'), 'not_word_boundary': ('not_word_boundary', 'n_not_boundary'),
    'capture<1>': ('capture<1, opq<1>>', 'n_capture'), 'capture<1,2>': ('capture<1, opq<1>, opq<2>>', 'n_capture2'), 'capture_with_name': ('capture_with_name<2, ctv_name2, opq<1>>', 'n_capture_name'),
    'lookahead_positive<1>': ('lookahead_positive<opq<1>>', 'n_la_pos'), 'lookahead_positive<1,2>': ('lookahead_positive<opq<1>, opq<2>>', 'n_la_pos2'), 'lookahead_negative': ('lookahead_negative<opq<1>>', 'n_la_neg'),
    'lookbehind_positive': ('lookbehind_positive<opq<1>>', 'n_lb_pos'), 'lookbehind_negative': ('lookbehind_negative<opq<1>>', 'n_lb_neg'),
    'mode i': ('mode_switch<pcre::mode_case_insensitive>', 'n_mode_i'), 'mode c': ('mode_switch<pcre::mode_case_sensitive>', 'n_mode_c'),
    'mode s': ('mode_switch<pcre::mode_singleline>', 'n_mode_s'), 'mode m': ('mode_switch<pcre::mode_multiline>', 'n_mode_m'),
    'character': ("character<'k'>", 'c107'), 'character (wide)': ("character<U'\\u0416'>", 'c1046'), 'character (digit)': ("character<'7'>", 'c55'), 'char_range': ("char_range<'0', 'f'>", 'r48:102'), 'char_range (wide)': ("char_range<U'\\u0410', U'\\U00012345'>", 'r1040:74565'),
    'enumeration': ("enumeration<'a', '9', '\\t'>", 'set(c97 c57 c9)'), 'enumeration<>': ('enumeration<>', 'set()'), 'set<>': ('set<>', 'set()'),
    'set of items': ("set<character<'a'>, char_range<'0', '9'>, negative_set<character<'b'>, character<'a'>>>", 'set(c97 r48:57 neg(c98 c97))'),
    'negative set of items': ("negative_set<character<'a'>, char_range<'0', '9'>, set<character<'z'>>>", 'neg(c97 r48:57 set(c122))'), 'negate of items': ("negate<character<'a'>, char_range<'0', '9'>>", 'neg(c97 r48:57)'), 'negative_set<>': ('negative_set<>', 'neg()'),
    'digit_chars': ('digit_chars', 'r48:57'), 'word_chars': ('word_chars', 'set(r65:90 r97:122 r48:57 c95)'), 'space_chars': ('space_chars', 'set(c32 r9:13)'), 'not word': ('negate<word_chars>', 'neg(r65:90 r97:122 r48:57 c95)'),
    'binary_property': ('typename ctre::regex_builder<ctll::fixed_string{"\\\\p{L}"}>::type', 'p1'), 'property': ('ctre::property<property_type, property_type::script_extension, uni::script::latin>', 'p2'),
    'back_reference': ('back_reference<1>', 'backref'), 'back_reference_with_name': ('back_reference_with_name<ctv_name2>', 'backref'),
    'atomic_group<1>': ('atomic_group<opq<1>>', ('possessive_repeat', 1, 1, 1)), 'atomic_group<1,2>': ('atomic_group<opq<1>, opq<2>>', ('possessive_repeat', 1, 1, 2)),
}
for _k, _a, _b in REPS:
    NODES['%s<%s,%s,1>' % (_k, _a, _b)] = ('%s<%d, %d, opq<1>>' % (_k, VAL.get(_a, _a), VAL.get(_b, _b)), (_k, _a, _b, 1))
for _k in ('repeat', 'lazy_repeat', 'possessive_repeat'):
    for _a in (0, 1):
        NODES['%s<%s,0,1,2>' % (_k, _a)] = ('%s<%d, 0, opq<1>, opq<2>>' % (_k, _a), (_k, _a, 0, 2))
        NODES['%s<%s,1,1,2>' % (_k, _a)] = ('%s<%d, 1, opq<1>, opq<2>>' % (_k, _a), (_k, _a, 1, 2))
TERMINATORS = {'accept': ('accept', 'n_accept'), 'end_mark, accept': ('end_mark, accept', 'n_end_mark_accept'), 'end_cycle_mark': ('end_cycle_mark', 'n_end_cycle'), 'end_lookahead_mark': ('end_lookahead_mark', 'n_end_lookahead')}
CALC = {'calculate_first(1)': 'opq<1>', 'calculate_first(1,2)': 'opq<1>, opq<2>', 'calculate_first(x,1)': 'opqc<1>, opq<1>', 'calculate_first()': ''}


def read(only=None):
    """what the code answers: name -> description, or 'error ...'"""
    wd = tempfile.mkdtemp(prefix='ctvf.')
    lines = [(n, 'show<%s, opq<9>>("%s");' % (t, n)) for n, (t, s) in NODES.items()] + [(n, 'show<%s>("%s");' % (t, n)) for n, (t, s) in TERMINATORS.items()] + [(n, 'calc<%s>("%s");' % (a, n)) for n, a in CALC.items()]
    lines = [x for x in lines if not only or x[0] in only]

    def go(part, k):
        f, exe = os.path.join(wd, 'f%d.cpp' % k), os.path.join(wd, 'f%d' % k)
        open(f, 'w').write('#include "firsts.hpp"\nint main() {\n' + '\n'.join(c for n, c in part) + '\n}\n')
        p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-ferror-limit=1', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
        if p.returncode:
            if len(part) == 1:
                return {part[0][0]: 'error ' + next((x for x in p.stderr.splitlines() if 'error' in x), '')[:300]}
            h = len(part) // 2
            r = go(part[:h], 2 * k + 1)
            if all(v.startswith('error') for v in r.values()) and len(r) > 8:
                return {n: next(iter(r.values())) for n, c in part}
            r.update(go(part[h:], 2 * k + 2))
            return r
        o = subprocess.run([exe], capture_output=True, text=True).stdout
        return dict(x.split('\t') for x in o.splitlines())
    try:
        return go(lines, 0)
    finally:
        subprocess.run(['rm', '-rf', wd])


# ------------------------------------------------------------------------------------------------ first sets
def parse(text):
    """[i0 F1[F9[]] set(c97 r1:2)] -> tree"""
    toks = re.findall(r'[\[\]()]|[^\s\[\]()]+', text)
    pos = [0]

    def many(end):
        out = []
        while toks[pos[0]] != end:
            out.append(one())
        pos[0] += 1
        return out

    def one():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '[':
            return ('list', many(']'))
        if t in ('set', 'neg'):
            pos[0] += 1
            return (t, many(')'))
        if re.match(r'F\d+$', t):
            pos[0] += 1
            return ('F', int(t[1:]), many(']'))
        if t == '?':
            raise ValueError('an unknown member')
        return ('item', t)
    r = one()
    if pos[0] != len(toks):
        raise ValueError(text)
    return r


class Sets:
    """membership of one character c, and nullability, over the unknown sets of the opaque lists"""

    def __init__(self, w):
        self.w = w
        self.B = z3.BoolSort()

    def G(self, k, c):
        return z3.Function('F' if k == 9 else 'G%d' % k, c.sort(), self.B)(c)

    def nu(self, k):
        return z3.Bool('nullable%d' % k)

    def chm(self, k, c, ml, ci):
        return z3.Function('match[%s]' % k, c.sort(), self.B, self.B, self.B)(c, ml, ci)

    def item(self, t, c, ml, ci):
        """the characters an item matches in a mode"""
        n = c.size()

        def fold(p):
            return z3.Or(p(c), z3.And(ci, letter(c), p(c ^ z3.BitVecVal(32, n))))
        if t[0] == 'set':
            return z3.Or(*[self.item(x, c, ml, ci) for x in t[1]])
        if t[0] == 'neg':
            return z3.Not(z3.Or(*[self.item(x, c, ml, ci) for x in t[1]]))
        v = t[1]
        if v[0] == 'c':
            return fold(lambda x: x == z3.BitVecVal(int(v[1:]), n))
        if v[0] == 'r':
            a, b = map(int, v[1:].split(':'))
            return fold(lambda x: z3.And(z3.UGE(x, z3.BitVecVal(a, n)), z3.ULE(x, z3.BitVecVal(b, n))))
        if v[0] == 'x':
            return self.chm(v[1:], c, ml, ci)
        if v[0] == 'p':
            return z3.BoolVal(True)      # a property is entered as everything
        raise ValueError(v)

    def member(self, t, c):
        if t[0] == 'list':
            return z3.Or(*[self.member(x, c) for x in t[1]])
        if t[0] == 'F':
            return z3.Or(self.G(t[1], c), z3.And(self.nu(t[1]), z3.Or(*[self.member(x, c) for x in t[2]])))
        if t == ('item', 'any'):
            return z3.BoolVal(True)
        if t[0] == 'item' and t[1][0] == 'i':
            return z3.BoolVal(False)
        return z3.Or(*[self.item(t, c, z3.BoolVal(a), z3.BoolVal(b)) for a in (False, True) for b in (False, True)])

    def nullable(self, t):
        if t[0] == 'list':
            return z3.Or(*[self.nullable(x) for x in t[1]])
        if t[0] == 'F':
            return self.nu(t[1]) if t[1] == 9 else z3.And(self.nu(t[1]), self.nullable(('list', t[2])))
        return z3.BoolVal(t == ('item', 'any'))

    # the set of a list of the specification (its key), by definition
    def of(self, key):
        ks = key.split(',')
        if ks[0].startswith('numeric_mark'):
            return self.of(','.join(ks[1:]))
        if ks[0] in ('end_cycle_mark', 'end_lookahead_mark'):
            return (lambda c: z3.BoolVal(False)), z3.BoolVal(True)
        k = int(ks[0])
        if len(ks) == 1:
            return (lambda c: self.G(k, c)), self.nu(k)
        f, n = self.of(','.join(ks[1:]))
        return (lambda c: z3.Or(self.G(k, c), z3.And(self.nu(k), f(c)))), z3.And(self.nu(k), n)


class Rec(World):
    """records every use of the meaning of an opaque list"""

    def __init__(self):
        super().__init__(4)
        self.log = []

    def E(self, key, s):
        r = super().E(key, s)
        self.log.append((key, s, r))
        return r


def decided(g, hyp, timeout=20000):
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*hyp)
    s.add(z3.Not(g))
    r = s.check()
    return {'unsat': 'proved', 'sat': 'failed'}.get(str(r), 'unknown'), s


class Proof:
    def __init__(self, name, text):
        self.name, self.facts, self.queries = name, [], 0
        self.w = Rec()
        self.sets = Sets(self.w)
        self.tree = parse(text) if text else None
        self.text = text

    def F(self, c):
        return self.sets.member(self.tree, c)

    def state(self, tag):
        return S({c: z3.Const('%s.%s' % (tag, c), sort_of(c)) for c in SCOMPS})

    def wf(self, s):
        w = self.w
        return z3.And(*w.pre(), s['begin'] == w.lo, s['last'] == w.len, w.inr(s['cur']), w.capok(s), w.cap0ok(s))

    def hd(self, s):
        return self.w.ch(s['cur'])

    def end(self, s):
        return s['cur'] == s['last']

    def world(self, s, p):
        """p is a later state of the same match"""
        return z3.And(p['begin'] == s['begin'], p['last'] == s['last'], p['ml'] == s['ml'], p['ci'] == s['ci'], z3.UGE(p['cur'], s['cur']), z3.Implies(p['bl'], s['bl']))

    # the contracts, assumed for opaque lists
    def c1(self, key, s, r, p, q):
        f, n = self.sets.of(key)
        return z3.Implies(z3.And(self.world(s, p), r['m0']), z3.Or(self.end(s), f(self.hd(s)), q['m0']))

    def d(self, key, s, r):
        f, n = self.sets.of(key)
        return z3.Implies(r['m0'], z3.And(z3.Implies(r['e0'] != s['cur'], f(self.hd(s))), z3.Implies(r['e0'] == s['cur'], z3.Or(n, self.end(s), f(self.hd(s))))))

    def contracts(self, pairs=True):
        w, out = self.w, []
        for i, (k, s, r) in enumerate(w.log):
            if k.startswith('~'):
                continue
            if not k.endswith('end_lookahead_mark'):
                out += [z3.Implies(r['m0'], z3.And(w.inr(r['e0']), z3.ULE(s['cur'], r['e0']))), self.d(k, s, r)]
                out.append(z3.Implies(z3.And(s['bl'], r['m0']), z3.ULT(s['cur'], r['e0'])) if k.endswith('end_cycle_mark') else z3.BoolVal(True))
            if pairs:
                out += [self.c1(k, s, r, p, q) for k2, p, q in w.log if k2 == k and p is not s]
        return out

    def prove(self, what, goal, hyp):
        st, s = decided(goal, hyp)
        self.queries += 1
        d = ''
        if st == 'failed':
            m = s.model()
            d = 'first(%s, opq<9>) = %s does not fulfil it; %s' % (self.name, self.text, ', '.join('%s = %s' % (x, m[x]) for x in m.decls() if x.arity() == 0)[:600])
        self.facts.append(Fact('%s: %s' % (self.name, what), 'first:' + what, st, d))

    def vacuous(self, hyp):
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*hyp)
        return s.check() == z3.unsat

    def three(self, ms, mp, s, p, rs, hyp, cyclic=True):
        """C1, D2 and D3 from the results rs at s and mp (does it match) at p"""
        self.prove('C1', z3.Implies(z3.And(ms, z3.Not(self.end(s)), z3.Not(self.F(self.hd(s)))), mp), hyp + [self.world(s, p)])
        if cyclic:
            self.prove('D2', z3.Implies(z3.And(ms, rs['e0'] != s['cur']), self.F(self.hd(s))), hyp)
            self.prove('D3', z3.Implies(z3.And(ms, rs['e0'] == s['cur']), z3.Or(self.sets.nullable(self.tree), self.end(s), self.F(self.hd(s)))), hyp)

    def collected(self):
        """what was collected before stays, unless everything can come"""
        have = {t[1] for t in self.tree[1] if t[0] == 'item'}
        ok = 'any' in have or {'i0', 'i1'} <= have
        self.facts.append(Fact('%s: keeps what was collected' % self.name, 'first:collected', 'proved' if ok else 'failed', self.text))


def node(name, text):
    p = Proof(name, text)
    p.collected()
    typ, spec = dict(NODES, **TERMINATORS)[name]
    if isinstance(spec, tuple):
        return repeat(p, *spec)
    w, tab = p.w, None
    s, q = p.state('s'), p.state('p')
    hyp = [p.wf(s), p.wf(q)]
    if spec in spec_table(w):
        w.log.clear()
        f = spec_table(w)[spec]
        a, b = f(s), f(q)
    elif spec == 'backref':      # any outcome
        ok, pos = z3.Function('BACKREF.ok', z3.BitVecSort(64), z3.BoolSort()), z3.Function('BACKREF.pos', z3.BitVecSort(64), z3.BitVecSort(64))
        hyp += [z3.And(w.inr(pos(x['cur'])), z3.UGE(pos(x['cur']), x['cur'])) for x in (s, q)]

        def f(x):
            r = w.E('9', x.up(cur=pos(x['cur']), bl=z3.And(x['bl'], pos(x['cur']) == x['cur'])))
            return {c: z3.If(ok(x['cur']), r[c], z3.BoolVal(False) if c == 'm0' else x[c]) for c in CAPS}
        a, b = f(s), f(q)
    else:
        t = parse('[%s]' % spec)[1][0]

        def f(x):
            r = w.E('9', x.up(cur=w.nxt(x['cur']), bl=z3.BoolVal(False)))
            c = w.ch(x['cur'])
            ok = z3.And(w.avail(x['cur'], x['last'], 1), z3.Function('property', c.sort(), z3.BoolSort())(c) if spec[0] == 'p' else p.sets.item(t, c, x['ml'], x['ci']))
            return {k: z3.If(ok, r[k], z3.BoolVal(False) if k == 'm0' else x[k]) for k in CAPS}
        a, b = f(s), f(q)
    hyp += p.contracts()
    if name in TERMINATORS:
        cyc = name == 'end_cycle_mark'
        p.prove('C1', z3.Implies(z3.And(a['m0'], z3.Not(p.end(s)), z3.Not(p.F(p.hd(s)))), b['m0']), hyp + [p.world(s, q)])
        if cyc:
            p.prove('D2', z3.Implies(z3.And(a['m0'], a['e0'] != s['cur']), p.F(p.hd(s))), hyp)
        return p
    if p.vacuous(hyp):
        p.facts.append(Fact(name + ': contracts', 'first:vacuous', 'unknown'))
    p.three(a['m0'], b['m0'], s, q, a, hyp)
    return p


KINDS = {'repeat': 'greedy', 'lazy_repeat': 'lazy', 'possessive_repeat': 'poss'}


def bounds(A, B, a, b):
    e = [z3.ULT(A, BIG), z3.Or(B == 0, z3.ULE(A, B))]
    e += [A == a] if isinstance(a, int) else [z3.UGE(A, 1)]
    e += [B == b] if isinstance(b, int) else [B == A] if a == b else [z3.UGE(B, 1)]
    return e


def ghost(p, spec, tag, at=None):
    g = {'i': z3.BitVec(tag + '.i', 64)}
    g['cur'] = Ptr(p.w.subj, z3.BitVec(tag + '.cur', 64) if at is None else at)
    for c in CAPS:
        x = z3.Const('%s.%s' % (tag, c), sort_of(c))
        g[c] = Ptr(p.w.subj, x) if c[0] in 'be' else x
    return g


def repeat(p, kind, a, b, n):
    w = p.w
    ckey = ','.join(str(k + 1) for k in range(n)) + ',end_cycle_mark'
    A, B = z3.BitVec('A', 64), z3.BitVec('B', 64)
    base = bounds(A, B, a, b)
    inner, tail = (lambda x: w.E(ckey, x)), (lambda x: w.E('9', x))
    mk = lambda s0: RepSpec(w, KINDS[kind], A, B, s0, inner, tail)
    G, nu = p.sets.of(ckey)
    s, q = p.state('s'), p.state('p')
    w9, w1 = z3.Bool('tail matches here'), z3.Bool('content matches here')     # with some captures
    H9, H1 = z3.Bool('tail matches at all later'), z3.Bool('content matches at all later')
    base += [p.wf(s), p.wf(q)]
    # ---- lemma A: what a match of the repeat at s is made of, by induction over the calls of its specification
    sp = mk(s)
    g = ghost(p, sp, 'g', s['cur'])
    w.log.clear()
    ax = sp.axiom(g)
    n1 = sp.nxt(g)
    hd, end = p.hd(s), p.end(s)

    def K(x):
        r = sp.app(x)
        f9 = p.sets.G(9, hd)
        return z3.Implies(r['m0'], z3.Or(end, G(hd), z3.And(z3.Or(z3.UGE(x['i'], A), z3.And(nu, w1)), w9, z3.UGE(r['e0'], s['cur']), z3.ULE(r['e0'], s['last']),
                                                        z3.Implies(r['e0'] != s['cur'], f9), z3.Implies(r['e0'] == s['cur'], z3.Or(p.sets.nu(9), f9)))))
    hyp = base + [ax] + p.contracts(pairs=False)
    for k, x, r in w.log:       # the existential witnesses
        if k == '9':
            hyp.append(z3.Implies(z3.And(r['m0'], x['cur'] == s['cur'], x['bl'] == s['bl']), w9))
        else:
            hyp.append(z3.Implies(z3.And(r['m0'], x['cur'] == s['cur'], z3.Not(x['bl'])), w1))
    same = n1['cur'].off == s['cur']
    hyp += [z3.Implies(same, K(n1)), z3.ULT(g['i'], bv(1 << 62))]
    if p.vacuous(hyp):
        p.facts.append(Fact(p.name + ': contracts', 'first:vacuous', 'unknown'))
    p.prove('lemma A', K(g), hyp)
    # ---- lemma B: the repeat matches where its parts match at all later positions
    sq = mk(q)
    h = ghost(p, sq, 'h')
    w.log.clear()
    ax = sq.axiom(h)
    n2 = sq.nxt(h)
    hyp = base + [ax, z3.UGE(h['cur'].off, q['cur']), w.inr(h['cur'].off), z3.UGE(q['cur'], s['cur']), z3.Implies(q['bl'], s['bl']), H9, z3.Or(A == 0, H1), z3.ULT(h['i'], bv(1 << 62))]
    for k, x, r in w.log:
        hyp.append(z3.Implies(r['m0'], z3.And(w.inr(r['e0']), z3.ULE(x['cur'], r['e0']))))
        later = z3.And(z3.UGE(x['cur'], s['cur']), z3.Implies(x['bl'], s['bl']))
        hyp.append(z3.Implies(z3.And(H9, later), r['m0']) if k == '9' else z3.Implies(z3.And(H1, z3.UGE(x['cur'], s['cur']), z3.Not(x['bl'])), r['m0']))
    hyp.append(z3.Implies(z3.UGE(n2['cur'].off, q['cur']), sq.app(n2)['m0']))
    p.prove('lemma B', sq.app(h)['m0'], hyp)
    # ---- the contracts, from A at the first call, C1 of the parts, and B at the first call
    g0, h0 = sp.init(), sq.init()
    r0, m1 = sp.app(g0), sq.app(h0)['m0']
    hyp = base + [K(g0), z3.Implies(z3.And(H9, z3.Or(A == 0, H1)), m1), z3.Implies(w9, z3.Or(end, p.sets.G(9, hd), H9)), z3.Implies(w1, z3.Or(end, G(hd), H1)),
                  z3.Implies(r0['m0'], z3.And(w.inr(r0['e0']), z3.ULE(s['cur'], r0['e0'])))]      # well-formed: proved of every repeat (post:wellformed)
    p.three(r0['m0'], m1, s, q, r0, hyp)
    return p


def opt_lemma():
    """greedy and possessive specifications agree when content and tail begin with different characters"""
    p = Proof('OPT', '')
    w = p.w
    A, B = z3.BitVec('A', 64), z3.BitVec('B', 64)
    s = p.state('s')
    inner, tail = (lambda x: w.E('1,end_cycle_mark', x)), (lambda x: w.E('9', x))
    gr, po = [RepSpec(w, k, A, B, s, inner, tail) for k in ('greedy', 'poss')]
    g = ghost(p, gr, 'g')
    base = [p.wf(s), z3.ULT(A, BIG), w.inr(g['cur'].off), z3.UGE(g['cur'].off, s['cur']), z3.ULT(g['i'], bv(1 << 62))]
    G1, F9 = p.sets.G(1, w.ch(g['cur'].off)), p.sets.G(9, w.ch(g['cur'].off))
    disjoint = z3.Not(z3.And(G1, F9))
    H = z3.Bool('tail matches at all later')
    # lemma D: once the mandatory iterations are done, the possessive repeat matches where the tail matches at all later positions
    h = ghost(p, po, 'h')
    w.log.clear()
    ax = po.axiom(h)
    n = po.nxt(h)
    hyp = base + [ax, H, w.inr(h['cur'].off), z3.UGE(h['cur'].off, g['cur'].off), z3.UGE(h['i'], A), z3.ULT(h['i'], bv(1 << 62))]
    for k, x, r in w.log:
        hyp.append(z3.Implies(r['m0'], z3.And(w.inr(r['e0']), z3.ULE(x['cur'], r['e0']))))
        if k == '9':
            hyp.append(z3.Implies(z3.And(H, z3.UGE(x['cur'], g['cur'].off), z3.Implies(x['bl'], z3.And(s['bl'], g['cur'].off == s['cur']))), r['m0']))
    hyp.append(z3.Implies(z3.And(z3.UGE(n['cur'].off, g['cur'].off), z3.UGE(n['i'], A)), po.app(n)['m0']))
    p.prove('lemma D', po.app(h)['m0'], hyp)
    # the step
    w.log.clear()
    ax = [gr.axiom(g), po.axiom(g)]
    n = gr.nxt(g)
    a, b = gr.app(n), po.app(n)
    eq = lambda x, y: z3.And(x['m0'] == y['m0'], z3.Implies(x['m0'], z3.And(*[x[c] == y[c] for c in CAPS])))
    t = gr.rest(g)
    hyp = base + ax + [disjoint, eq(a, b)] + p.contracts(pairs=False)
    hyp.append(z3.Implies(t['m0'], z3.Or(g['cur'].off == s['last'], F9, H)))      # C1 of the tail
    hyp.append(z3.Implies(z3.And(H, z3.UGE(n['cur'].off, g['cur'].off), z3.UGE(n['i'], A)), b['m0']))    # lemma D
    if p.vacuous(hyp):
        p.facts.append(Fact('OPT: contracts', 'first:vacuous', 'unknown'))
    p.prove('step', eq(gr.app(g), po.app(g)), hyp)
    return p


def calc(name, text):
    p = Proof(name, text)
    want = {'calculate_first(1)': ['G1'], 'calculate_first(1,2)': ['G1', 'G2'], 'calculate_first(x,1)': ['x1'], 'calculate_first()': []}[name]
    w = p.w
    c = z3.BitVec('c', 32)
    m = {'G1': p.sets.G(1, c), 'G2': z3.And(p.sets.nu(1), p.sets.G(2, c)), 'x1': z3.Or(*[p.sets.chm('1', c, z3.BoolVal(x), z3.BoolVal(y)) for x in (False, True) for y in (False, True)])}
    p.prove('covers', z3.Implies(z3.Or(*[m[x] for x in want]), p.F(c)), [])
    return p


def check_firsts(names, **kw):
    t0 = time.time()
    got = read(names)
    res = Result(', '.join(names[:3]))
    res.paths, res.cuts, res.inv, res.obls, res.queries = 1, 0, {}, [], 0
    res.functions = ['ctre::first(_, list<%s, Tail...>)' % n if n in NODES else 'ctre::first(_, list<%s>)' % n if n in TERMINATORS else 'ctre::' + n for n in names]
    for n in names:
        v = got.get(n, 'error no output')
        try:
            if v.startswith('error'):
                raise ValueError(v)
            p = calc(n, v) if n in CALC else node(n, v)
            res.obls += p.facts
            res.queries += p.queries
        except ValueError as e:
            res.obls.append(Fact(n, 'first:answer', 'unknown', str(e)))
    res.time = time.time() - t0
    return res


def check_opt(**kw):
    t0 = time.time()
    p = opt_lemma()
    res = Result('optimisation')
    res.paths, res.cuts, res.inv, res.obls, res.queries, res.functions = 1, 0, {}, p.facts, p.queries, []
    res.time = time.time() - t0
    return res


def firsts_jobs():
    reps = [n for n in NODES if isinstance(NODES[n][1], tuple)]
    groups = [[n for n in reps if n.split('<')[0] == k] for k in ('repeat', 'lazy_repeat', 'possessive_repeat', 'atomic_group')]
    groups += [[n for n in NODES if n not in reps], list(TERMINATORS) + list(CALC)]
    js = [Job('first', '%s and %d more' % (g[0], len(g) - 1), lambda g=g, **kw: check_firsts(g), 'the characters a list of nodes can begin with', refutable=False) for g in groups]
    js.append(Job('first', 'optimisation', check_opt, 'greedy and possessive are the same when these are disjoint', refutable=False))
    for j in js:
        j.cost = 60
    return js
