"""Contracts of the matching engine: every `evaluate` overload against its specification function.

State S of the specification: begin, cur, last (offsets in the subject), bl (block_empty_match), ml (multiline),
ci (case-insensitive) and the capture state caps = {b0,e0,m0,...,b2,e2,m2}.
E(key, S) is the (uninterpreted) meaning of the abstract continuation list<opq<..>,...>; the contract assumed for it is the
contract proved for every node (structural induction over the regex).
"""
import re
import z3
from . import ir
from .sym import *

CAPS = [c + str(k) for k in range(3) for c in 'bem']
FLAGS = ['bl', 'ml', 'ci']
SCOMPS = ['begin', 'cur', 'last'] + FLAGS + CAPS


def sort_of(c):
    return z3.BoolSort() if c in FLAGS or c[0] == 'm' and c[1:].isdigit() else BV64


class S(dict):
    def up(self, **kw):
        n = S(self)
        n.update(kw)
        return n

    def caps(self):
        return {c: self[c] for c in CAPS}


def ite(c, a, b):
    return {k: z3.If(c, a[k], b[k]) for k in CAPS}


def fail(s):
    r = s.caps()
    r['m0'] = z3.BoolVal(False)
    return r


class World:
    """subject, uninterpreted meanings and the contracts assumed for them"""

    def __init__(self, elem=1):
        self.elem = elem
        self.len = z3.BitVec('LAST', 64)
        self.lo = z3.BitVec('BEGIN', 64)
        self.subj = Obj('array', 'subject', self.len, lo=self.lo, elem=elem, nullable=True)
        self.arr = z3.Array('subject', BV64, z3.BitVecSort(elem * 8))
        self.fun = {}
        self.ne_axioms = []
        self.names = {}

    def pre(self):
        e = [z3.ULT(self.len, bv(1 << 60)), z3.ULE(self.lo, self.len)]
        if self.elem > 1:
            e += [self.lo & (self.elem - 1) == 0, self.len & (self.elem - 1) == 0]
        return e

    def f(self, key, comp):
        k = (key, comp)
        if k not in self.fun:
            self.fun[k] = z3.Function('E[%s].%s' % (key, comp), *([sort_of(c) for c in SCOMPS] + [sort_of(comp)]))
        return self.fun[k]

    def E(self, key, s):
        args = [s[c] for c in SCOMPS]
        return {c: self.f(key, c)(*args) for c in CAPS}

    def chr(self, key, c, s):
        k = ('chr', key, c.size())
        if k not in self.fun:
            self.fun[k] = z3.Function('match[%s]' % key, c.sort(), z3.BoolSort(), z3.BoolSort(), z3.BoolSort())
        return self.fun[k](c, s['ml'], s['ci'])

    def at(self, off):
        return z3.Select(self.arr, off)

    # characters and elementary steps (overridden for encoded subjects)
    def ch(self, off):
        return self.at(off)

    def nxt(self, off, n=1):
        return off + bv(n * self.elem)

    def prv(self, off):
        return off - bv(self.elem)

    def avail(self, cur, last, n):
        return z3.UGE(last - cur, bv(n * self.elem))

    span = property(lambda self: self.elem)   # units of subject per character when searching for counterexamples

    def handlers(self):
        return []

    def instance(self, refute):
        return self

    def loop_mode(self, refute):
        return 2 * refute + 2 if refute else 'inv'

    def inr(self, x):
        e = z3.And(z3.ULE(self.lo, x), z3.ULE(x, self.len))
        if self.elem > 1:
            e = z3.And(e, x & (self.elem - 1) == 0)
        return e

    def capok(self, r, ks=(1, 2)):
        """capture state invariant: every capture position is null or a position of the subject; matched ones are not null;
        an unmatched capture has no end position"""
        es = []
        for k in ks:
            b, e, m = r['b%d' % k], r['e%d' % k], r['m%d' % k]
            nb = b == bv(NULLOFF)
            ne = e == bv(NULLOFF)
            es += [z3.Or(nb, self.inr(b)), z3.Or(ne, self.inr(e)), z3.Implies(m, z3.And(z3.Not(nb), z3.Not(ne))),
                   z3.Implies(z3.Not(m), ne)]
        return z3.And(*es)

    def mono(self, s, r):
        """a capture start, once set, is never cleared"""
        return z3.And(*[z3.Implies(r['b%d' % k] == bv(NULLOFF), s['b%d' % k] == bv(NULLOFF)) for k in (1, 2)])

    def cap0ok(self, r):
        return z3.And(z3.Or(r['b0'] == bv(NULLOFF), self.inr(r['b0'])), z3.Or(r['e0'] == bv(NULLOFF), self.inr(r['e0'])))

    def clean(self, r):
        """a failed match reports no capture"""
        return z3.Implies(z3.Not(r['m0']), z3.Not(z3.Or(r['m1'], r['m2'])))

    def wf_state(self, s):
        return z3.And(s['begin'] == self.lo, s['last'] == self.len, self.inr(s['cur']), self.capok(s), self.cap0ok(s))

    def wf_result(self, key, s, r):
        """postcondition of every continuation (assumed for abstract ones, proved for the real nodes)"""
        es = [z3.Implies(r['m0'], z3.And(self.capok(r), self.cap0ok(r))), self.clean(r)]
        es.append(z3.Implies(r['m0'], z3.And(self.mono(s, r), r['b0'] == s['b0'])))
        if not key.endswith(('end_lookahead_mark', 'end_lookbehind_mark')):
            es.append(z3.Implies(r['m0'], z3.And(self.inr(r['e0']), z3.ULE(s['cur'], r['e0']))))
        return z3.And(*es)

    def ne(self, s, r):
        """non-emptiness contract of everything that ends in a cycle mark: with block_empty_match set, a match consumes"""
        return z3.Implies(z3.And(s['bl'], r['m0']), z3.ULT(s['cur'], r['e0']))


class ZWorld(World):
    """a zero-terminated subject: LAST is the position of its terminator, which can be read and is the only zero"""

    def __init__(self, elem=1):
        super().__init__(elem)
        self.subj.size = self.len + bv(elem)
        self.subj.fact = lambda off, v: (v == 0) == (off == self.len)

    def handlers(self):
        def h_end(ex, st, name, a, where):
            yield st, Ptr(self.subj, self.len)
        return [(lambda n: 'ctv_terminator' in n, h_end)]


def split_args(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def flatten_seq(items):
    """sequence<X...> followed by Y... means X..., Y... (this is the contract of the sequence node itself)"""
    out = []
    for x in items:
        if x.startswith('sequence<') and x.endswith('>'):
            out += flatten_seq(split_args(x[len('sequence<'):-1]))
        else:
            out.append(x)
    return out


def key_of(dem):
    """'void ctv_eval<ctll::list<ctre::opq<1>, ctre::end_cycle_mark> >(...)' -> '1,end_cycle_mark' (prefix ~ when reversed)"""
    i = dem.index('ctv_eval<') + len('ctv_eval<')
    d, j = 1, i
    while d:
        d += {'<': 1, '>': -1}.get(dem[j], 0)
        j += 1
    t = dem[i:j - 1].strip()
    rev = ''
    if t.startswith('ctv_rev<'):
        rev = '~'
        t = t[len('ctv_rev<'):t.rindex('>')].strip()
    assert t.startswith('ctll::list<'), dem
    t = t[len('ctll::list<'):t.rindex('>')]
    t = t.replace('ctre::', '').replace(' ', '')
    t = re.sub(r'(\d)ul\b', r'\1', t)
    items = [re.sub(r'^opq<([\d,]*)>$', r'\1', x) for x in flatten_seq(split_args(t))]
    return rev + ','.join(items)


def off_of(p, subj=None):
    if p.obj.kind == 'null':
        c = z3.simplify(p.off)
        if z3.is_bv_value(c) and c.as_long() == 0:
            return bv(NULLOFF)
        raise ToolError('non-zero null pointer')
    if subj is not None and p.obj is not subj:
        raise ToolError('pointer into %s passed as a subject position' % p.obj.name)
    return p.off


class Engine:
    """handlers for the abstract continuations"""

    def __init__(self, world, module):
        self.w, self.m = world, module
        self.cache = {}

    def handlers(self):
        dm = self.m.demangled
        return [(lambda n: 'ctv_eval' in n and 'ctv_eval<' in dm.get(n, ''), self.h_eval),
                (lambda n: 'ctv_match' in n and 'ctv_match<' in dm.get(n, ''), self.h_match)]

    def h_eval(self, ex, st, name, a, where):
        key = key_of(self.m.demangled[name])
        w = self.w
        s = S()
        for c, v in zip(SCOMPS, a[:15]):
            s[c] = off_of(v, w.subj) if isinstance(v, Ptr) else v
        # precondition of a continuation
        if key.startswith('~'):
            s = S(s)
            ex.oblige(st, z3.And(s['begin'] == w.len, s['last'] == w.lo, w.inr(s['cur'])), 'pre:range', where, key)
        else:
            ex.oblige(st, z3.And(s['begin'] == w.lo, s['last'] == w.len, w.inr(s['cur'])), 'pre:range', where, key)
        ex.oblige(st, z3.And(w.capok(s), w.cap0ok(s)), 'pre:captures', where, key)
        s0 = st.flags['s0']
        ex.oblige(st, w.mono(s0, s), 'pre:captures-kept', where, key)
        for k in (1, 2):
            if 'numeric_mark<%d>' % k in key:
                ex.oblige(st, s['b%d' % k] != bv(NULLOFF), 'pre:capture-started', where, key)
        r = w.E(key, s)
        st.calls = st.calls + [(key, s, r)]
        if key.startswith('~'):
            st.assume(z3.And(w.clean(r), z3.Implies(r['m0'], z3.And(w.capok(r), w.cap0ok(r), w.mono(s, r), r['b0'] == s['b0']))))
        else:
            st.assume(w.wf_result(key, s, r))
            if key.endswith('end_cycle_mark'):
                st.assume(w.ne(s, r))
            else:
                st.flags['ne'] = st.flags.get('ne', []) + [w.ne(s, r)]
        out = a[15]
        cells = {}
        for k in range(3):
            cells[k * 8] = (8, Ptr(w.subj, r['b%d' % k]))
            cells[24 + k * 8] = (8, Ptr(w.subj, r['e%d' % k]))
            cells[48 + k] = (1, z3.If(r['m%d' % k], bv(1, 8), bv(0, 8)))
        if not (out.obj.kind == 'stack' and is_true(out.off == 0)):
            raise ToolError('result buffer')
        st.mem[out.obj.id] = cells
        yield st, None

    def h_match(self, ex, st, name, a, where):
        m = re.search(r'ctv_match<ctre::opqc<(\d+)>', self.m.demangled[name])
        c, ml, ci = a
        yield st, self.w.chr(m.group(1), c, {'ml': ml, 'ci': ci})


# ------------------------------------------------------------------ specification of the repeats
class RepSpec:
    """Ghost state: i (completed iterations), cur, caps. One unified tail-recursive specification per kind.
    A, B are BV64 terms (or ints); B==0 is 'no upper bound'."""

    def __init__(self, w, kind, A, B, s0, inner, tail):
        self.w, self.kind, self.s0, self.inner, self.tail = w, kind, s0, inner, tail
        self.A = A if not isinstance(A, int) else bv(A)
        self.B = B if not isinstance(B, int) else bv(B)
        self.name = 'SPEC_%s' % kind
        self.fun = {c: z3.Function('%s.%s' % (self.name, c), *([BV64, BV64] + [sort_of(x) for x in CAPS] + [sort_of(c)])) for c in CAPS}

    def init(self):
        g = {'i': bv(0), 'cur': Ptr(self.w.subj, self.s0['cur'])}
        for c in CAPS:
            g[c] = Ptr(self.w.subj, self.s0[c]) if c[0] in 'be' else self.s0[c]
        return g

    components = ['i', 'cur'] + CAPS
    exact = CAPS

    def S(self, g):
        s = S(self.s0)
        s['cur'] = g['cur'].off
        for c in CAPS:
            s[c] = off_of(g[c]) if isinstance(g[c], Ptr) else (g[c] if z3.is_bool(g[c]) else g[c] == 1)
        return s

    def app(self, g):
        s = self.S(g)
        a = [g['i'], s['cur']] + [s[c] for c in CAPS]
        return {c: self.fun[c](*a) for c in CAPS}

    def can_more(self, g):
        return z3.Or(self.B == 0, z3.ULT(g['i'], self.B))

    def must_more(self, g):
        return z3.ULT(g['i'], self.A)

    def it(self, g):
        """result of one more iteration: optional iterations must consume something, mandatory ones need not"""
        return self.inner(self.S(g).up(bl=z3.Not(self.must_more(g))))

    def nxt(self, g):
        r = self.it(g)
        n = {'i': g['i'] + 1, 'cur': Ptr(self.w.subj, r['e0'])}
        for c in CAPS:
            n[c] = Ptr(self.w.subj, r[c]) if c[0] in 'be' else r[c]
        n['m0'] = z3.BoolVal(False)
        return n

    def rest(self, g):
        s = self.S(g)
        s = s.up(bl=z3.And(self.s0['bl'], s['cur'] == self.s0['cur']))
        return self.tail(s)

    def step(self, g):
        r = self.it(g)
        if self.kind == 'greedy':
            # only the mandatory part is tail recursive
            return z3.And(self.must_more(g), self.can_more(g), r['m0']), self.nxt(g)
        if self.kind == 'poss':
            return z3.And(self.can_more(g), r['m0']), self.nxt(g)
        if self.kind == 'lazy':
            t = self.rest(g)
            return z3.Or(z3.And(self.must_more(g), self.can_more(g), r['m0']),
                         z3.And(z3.Not(self.must_more(g)), z3.Not(t['m0']), self.can_more(g), r['m0'])), self.nxt(g)

    def body(self, g):
        r = self.it(g)
        t = self.rest(g)
        rec = self.app(self.nxt(g))
        F = fail(self.S(g))
        must, can = self.must_more(g), self.can_more(g)
        if self.kind == 'greedy':
            opt = ite(z3.And(can, r['m0']), ite(rec['m0'], rec, t), t)
        elif self.kind == 'poss':
            opt = ite(z3.And(can, r['m0']), rec, t)
        else:
            opt = ite(t['m0'], t, ite(z3.And(can, r['m0']), rec, F))
        return ite(must, ite(z3.And(can, r['m0']), rec, F), opt)

    def axiom(self, g):
        a, b = self.app(g), self.body(g)
        return z3.And(*[a[c] == b[c] for c in CAPS])

    def derived(self, g):
        return {'bl-rest': z3.And(self.s0['bl'], g['cur'].off == self.s0['cur'])}

    def consumed(self, g):
        return g['cur'].off - self.s0['cur']

    def inv(self):
        s0 = self.s0
        w = self.w
        return [
            ('cur in range', lambda g: w.inr(g['cur'].off)),
            ('cur>=start', lambda g: z3.UGE(g['cur'].off, s0['cur'])),
            ('i>A => cur>start', lambda g: z3.Implies(z3.UGT(g['i'], self.A), z3.UGT(g['cur'].off, s0['cur']))),
            ('i=0 => cur==start', lambda g: z3.Implies(g['i'] == 0, g['cur'].off == s0['cur'])),
            ('i<=A+consumed', lambda g: z3.ULE(g['i'], self.A + self.consumed(g))),
            ('i<=A', lambda g: z3.ULE(g['i'], self.A)),
            ('i>=A', lambda g: z3.UGE(g['i'], self.A)),
            ('i<=B', lambda g: z3.Or(self.B == 0, z3.ULE(g['i'], self.B))),
            ('captures ok', lambda g: z3.And(w.capok(self.S(g)), w.cap0ok(self.S(g)))),
            ('captures kept', lambda g: w.mono(s0, self.S(g))),
            ('start kept', lambda g: self.S(g)['b0'] == s0['b0']),
            ('m0 clear', lambda g: z3.Not(self.S(g)['m0'])),
            ('tail tried', lambda g: z3.Not(self.rest(g)['m0'])),
        ]

    def pre(self, g):
        """precondition under which the recursive contract is stated"""
        w, s0 = self.w, self.s0
        return z3.And(w.inr(g['cur'].off), z3.UGE(g['cur'].off, s0['cur']),
                      z3.UGE(g['i'], self.A),
                      z3.Implies(z3.UGT(g['i'], self.A), z3.UGT(g['cur'].off, s0['cur'])),
                      z3.Implies(g['i'] == 0, g['cur'].off == s0['cur']),
                      z3.ULE(g['i'], self.A + self.consumed(g)),
                      z3.Or(self.B == 0, z3.ULE(g['i'], self.B)), w.capok(self.S(g)), w.cap0ok(self.S(g)), w.mono(s0, self.S(g)), self.S(g)['b0'] == s0['b0'], z3.Not(self.S(g)['m0']))

    def variant(self, gh, gb):
        if gb is gh:
            return z3.BoolVal(False)
        # lexicographic (A -. i, last - cur)
        return z3.Or(z3.And(z3.ULT(gh['i'], self.A), z3.ULT(gh['i'], gb['i'])),
                     z3.And(z3.UGE(gb['i'], self.A), z3.ULT(gh['cur'].off, gb['cur'].off)))


# ------------------------------------------------------------------ specification of the nodes (state -> result)
def spec_table(w):
    E = w.E
    N = bv(NULLOFF)

    def T(s):
        return E('9', s)

    def consumed(s, c=z3.BoolVal(True)):
        return z3.And(s['bl'], z3.Not(c))

    def adv(s, n=1):
        return s.up(cur=w.nxt(s['cur'], n), bl=consumed(s))

    def avail(s, n=1):
        return w.avail(s['cur'], s['last'], n)

    def cond(c, s, r):
        return ite(c, r, fail(s))

    def ch(s, k=0):
        return w.ch(w.nxt(s['cur'], k))

    def chm(i, c, s):
        return w.chr(str(i), c, s)

    def ascii_eq(c, lit, ci):
        """documented equality of a pattern character and a subject character; ASCII letters fold when case-insensitive"""
        n = c.size()
        e = c == bv(lit, n)
        if chr(lit).isalpha():
            e = z3.Or(e, z3.And(ci, c == bv(lit ^ 0x20, n)))
        return e

    def string(lits):
        def f(s):
            ok = [avail(s, len(lits))] + [ascii_eq(ch(s, k), ord(x), s['ci']) for k, x in enumerate(lits)]
            r = T(s.up(cur=w.nxt(s['cur'], len(lits)), bl=consumed(s, z3.BoolVal(len(lits) > 0))))
            return cond(z3.And(*ok), s, r)
        return f

    def onechar(pred):
        return lambda s: cond(z3.And(avail(s), pred(s)), s, T(adv(s)))

    def nl(x):
        return x == bv(10, x.size())

    def select(*alts):
        def f(s):
            r = fail(s)
            for a in alts[::-1]:
                x = E(a + ',9', s)
                r = ite(x['m0'], x, r)
            return r
        return f

    def assertion(pred):
        return lambda s: cond(pred(s), s, T(s))

    at_end = lambda s: s['cur'] == s['last']
    at_begin = lambda s: s['cur'] == s['begin']
    prev = lambda s: w.ch(w.prv(s['cur']))

    def word(s):
        before = z3.And(z3.Not(at_begin(s)), chm(1, prev(s), s))
        after = z3.And(z3.Not(at_end(s)), chm(1, ch(s), s))
        return z3.Xor(before, after)

    def carry(s, r, **kw):
        """continue at s with the captures of r"""
        n = s.up(**{c: r[c] for c in CAPS})
        n['m0'] = z3.BoolVal(False)
        n.update(kw)
        return n

    def look(key, positive, behind=False):
        def f(s):
            q = s.up(begin=s['last'], last=s['begin']) if behind else s
            r = E(key, q)
            if positive:
                return cond(r['m0'], s, T(carry(s, r)))
            return cond(z3.Not(r['m0']), s, T(s))
        return f

    def atomic(s):
        r = E('1,end_cycle_mark', s.up(bl=z3.BoolVal(False)))
        return cond(r['m0'], s, T(carry(s, r, cur=r['e0'], bl=z3.And(s['bl'], r['e0'] == s['cur']))))

    def mode(**kw):
        return lambda s: T(s.up(**{k: z3.BoolVal(v) for k, v in kw.items()}))

    def acc(s):
        r = s.caps()
        r['m0'] = z3.BoolVal(True)
        return r

    def cyc(s):
        r = acc(s.up(e0=s['cur']))
        r['m0'] = z3.Not(s['bl'])
        return r

    t = {
        'n_select': select('1', '2', '3'), 'n_select1': select('1'), 'n_select0': fail,
        'n_sequence': lambda s: E('1,2,3,9', s), 'n_sequence1': lambda s: E('1,9', s),
        'n_empty': T, 'n_reject': fail, 'n_accept': acc,
        'n_start_mark': lambda s: T(s.up(b0=s['cur'])), 'n_end_mark': lambda s: T(s.up(e0=s['cur'])),
        'n_end_mark_accept': lambda s: acc(s.up(e0=s['cur'])),
        'n_end_cycle': cyc, 'n_end_lookahead': acc, 'n_end_lookbehind': acc,
        'n_char': onechar(lambda s: chm(1, ch(s), s)),
        'n_any': onechar(lambda s: z3.Not(z3.And(s['ml'], nl(ch(s))))),
        'n_string0': string(''), 'n_string1': string('k'), 'n_string3': string('a0Z'),
        'n_set': onechar(lambda s: z3.Or(chm(1, ch(s), s), chm(2, ch(s), s))),
        'n_negset': onechar(lambda s: z3.Not(z3.Or(chm(1, ch(s), s), chm(2, ch(s), s)))),
        'n_negate': onechar(lambda s: z3.Not(z3.Or(chm(1, ch(s), s), chm(2, ch(s), s)))),
        'n_subj_begin': assertion(at_begin), 'n_subj_end': assertion(at_end),
        'n_subj_end_line': assertion(lambda s: z3.Or(at_end(s), z3.And(s['ml'], nl(ch(s)), w.nxt(s['cur']) == s['last']))),
        'n_line_begin': assertion(lambda s: z3.Or(at_begin(s), z3.And(s['ml'], nl(prev(s))))),
        'n_line_end': assertion(lambda s: z3.Or(at_end(s), z3.And(s['ml'], nl(ch(s))))),
        'n_boundary': assertion(word), 'n_not_boundary': assertion(lambda s: z3.Not(word(s))),
        'n_capture': lambda s: E('1,numeric_mark<1>,9', s.up(b1=s['cur'])),
        'n_capture2': lambda s: E('1,2,numeric_mark<1>,9', s.up(b1=s['cur'])),
        'n_capture_name': lambda s: E('1,numeric_mark<2>,9', s.up(b2=s['cur'])),
        'n_mark1': lambda s: T(s.up(e1=s['cur'], m1=z3.BoolVal(True))),
        'n_mark2': lambda s: T(s.up(e2=s['cur'], m2=z3.BoolVal(True))),
        'n_la_pos': look('1,end_lookahead_mark', True), 'n_la_pos2': look('1,2,end_lookahead_mark', True),
        'n_la_neg': look('1,end_lookahead_mark', False),
        'n_lb_pos': look('~1,end_lookbehind_mark', True, True), 'n_lb_neg': look('~1,end_lookbehind_mark', False, True),
        'n_atomic': atomic,
        'n_mode_i': mode(ci=True), 'n_mode_c': mode(ci=False), 'n_mode_s': mode(ml=False), 'n_mode_m': mode(ml=True),
    }
    return t


def letter(c):
    n = c.size()
    rng = lambda a, b: z3.And(z3.UGE(c, bv(ord(a), n)), z3.ULE(c, bv(ord(b), n)))
    return z3.Or(rng('a', 'z'), rng('A', 'Z'))


class BackSpec:
    """back reference: compares the subject at cur with the captured text [b, e), position by position"""
    components = ['cur', 'ref']

    def __init__(self, w, s0, k):
        self.w, self.s0 = w, s0
        self.b, self.e, self.m = s0['b%d' % k], s0['e%d' % k], s0['m%d' % k]
        self.ok = z3.Function('BACKREF.ok', BV64, BV64, z3.BoolSort())
        self.pos = z3.Function('BACKREF.pos', BV64, BV64, BV64)

    def init(self):
        return {'cur': Ptr(self.w.subj, self.s0['cur']), 'ref': Ptr(self.w.subj, self.b)}

    def app(self, g):
        a = (g['cur'].off, g['ref'].off)
        return {'ok': self.ok(*a), 'pos': self.pos(*a)}

    def nxt(self, g):
        n = bv(self.w.elem)
        return {'cur': Ptr(self.w.subj, g['cur'].off + n), 'ref': Ptr(self.w.subj, g['ref'].off + n)}

    def same(self, g):
        a, b = self.w.at(g['cur'].off), self.w.at(g['ref'].off)
        n = a.size()
        return z3.Or(a == b, z3.And(self.s0['ci'], letter(a), (a ^ bv(0x20, n)) == b))

    def step(self, g):
        return z3.And(g['ref'].off != self.e, g['cur'].off != self.s0['last'], self.same(g)), self.nxt(g)

    def axiom(self, g):
        a, n = self.app(g), self.app(self.nxt(g))
        done, out = g['ref'].off == self.e, g['cur'].off == self.s0['last']
        return z3.And(a['ok'] == z3.Or(done, z3.And(z3.Not(out), self.same(g), n['ok'])),
                      a['pos'] == z3.If(z3.Or(done, out, z3.Not(self.same(g))), g['cur'].off, n['pos']))

    def lemma(self, g):
        c, n = self.step(g)
        a, b = self.app(g), self.app(n)
        return z3.Implies(c, z3.And(a['ok'] == b['ok'], a['pos'] == b['pos']))

    def inv(self):
        w, s0 = self.w, self.s0
        return [('cur in range', lambda g: z3.And(w.inr(g['cur'].off), z3.UGE(g['cur'].off, s0['cur']))),
                ('ref in capture', lambda g: z3.And(w.inr(g['ref'].off), z3.ULE(self.b, g['ref'].off), z3.ULE(g['ref'].off, self.e))),
                ('offsets', lambda g: g['cur'].off - s0['cur'] == g['ref'].off - self.b)]

    def variant(self, gh, gb):
        return z3.And(z3.ULT(gh['ref'].off, gb['ref'].off), z3.ULE(gb['ref'].off, self.e))

    def result(self, g):
        a = self.app(g)
        s = self.s0
        ok = z3.And(self.m, a['ok'])
        return ite(ok, self.w.E('9', s.up(cur=a['pos'], bl=z3.And(s['bl'], self.b == self.e))), fail(s))

    def pre0(self):
        return z3.Implies(self.m, z3.ULE(self.b, self.e))


def rep_lemma(self, g):
    c, n = self.step(g)
    a, b = self.app(g), self.app(n)
    return z3.Implies(z3.And(c, self.axiom(g)), z3.And(*[a[k] == b[k] for k in CAPS]))


RepSpec.lemma = rep_lemma
RepSpec.result = lambda self, g: self.app(g)


class Result:
    """outcome of verifying one function"""

    def __init__(self, name):
        self.name = name
        self.obls = []
        self.functions = set()
        self.time = 0.0
        self.queries = 0
        self.error = None
        self.inv = []
        self.paths = 0
        self.cuts = 0
        self.world = None

    @property
    def failed(self):
        return [o for o in self.obls if o.status in ('failed', 'unknown')]


def start_state(w, nullable_caps=True):
    s = S()
    for c in SCOMPS:
        s[c] = z3.Const(c, sort_of(c))
    s['begin'], s['last'] = w.lo, w.len
    s['m0'] = z3.BoolVal(False)
    return s


def flat_cells(w, s):
    cells = {}
    for k in range(3):
        cells[k * 8] = (8, Ptr(w.subj, s['b%d' % k]))
        cells[24 + k * 8] = (8, Ptr(w.subj, s['e%d' % k]))
        cells[48 + k] = (1, z3.If(s['m%d' % k], bv(1, 8), bv(0, 8)))
    return cells


def read_flat(ex, st, o):
    r = {}
    for k in range(3):
        r['b%d' % k] = off_of(ex.load(st, Ptr(o, bv(k * 8)), ir.PTR, 'result'))
        r['e%d' % k] = off_of(ex.load(st, Ptr(o, bv(24 + k * 8)), ir.PTR, 'result'))
        r['m%d' % k] = ex.load(st, Ptr(o, bv(48 + k)), ir.IntTy(8), 'result') != 0
    return r


class Recursion:
    """contract of a self-recursive function used by a repeat: its result is the specification function applied to the ghost
    state that its arguments encode. The encoding (which argument / field carries which ghost component) is discovered at the
    first call and checked at every call."""

    def __init__(self, w, spec, res):
        self.w, self.spec, self.res = w, spec, res
        self.layout = None
        self.body_done = False

    def locs(self, ex, st, name, vals):
        out = {}
        fn = ex.m.funcs[name]
        for k, ((ty, nm, at), v) in enumerate(zip(fn.params, vals)):
            if 'sret' in at:
                continue
            if isinstance(v, Ptr) and v.obj.kind == 'stack':
                sz = at['byval'].size() if 'byval' in at else None
                for off, (n, x) in st.mem[v.obj.id].items():
                    if isinstance(x, Undef):
                        continue
                    if not isinstance(x, Ptr) and n not in (1, 4, 8):
                        for b in range(n):
                            out[('mem', k, off + b, 1)] = z3.simplify(ex.byte_at(st.mem[v.obj.id], off + b))
                        continue
                    out[('mem', k, off, n)] = x
            else:
                out[('arg', k)] = v
        return out

    def __call__(self, ex, st, fr, name, vals, where):
        spec, w = self.spec, self.w
        fn = ex.m.funcs[name]
        lp = Loop(ex, fn, fn.entry)
        locs = self.locs(ex, st, name, vals)
        sret = [k for k, (t, n, at) in enumerate(fn.params) if 'sret' in at]
        if len(sret) != 1:
            raise ToolError('recursive function without a result object: %s' % name[:60])
        if self.layout is None:
            # first call: from the function under contract
            g = st.ghost
            coup = {}
            const = {}
            for l, v in locs.items():
                for c in list(spec.components) + list(spec.derived(g)):
                    e = lp.eqv(v, self.comp(g, c))
                    if e is not None and ex.valid(st, e):
                        coup.setdefault(l, []).append(c)
                const[l] = v
            self.fname = name
            self.coup0, self.const0 = coup, const
            self.prove_body(ex, st, fr, name, vals, sret[0], lp)
            self.first = True
        if name != self.fname:
            raise ToolError('mutual recursion')
        g2 = {}
        for c in spec.components:
            ls = [l for l, c2 in self.layout.items() if c2 == c]
            if not ls:
                raise ToolError('the recursive call does not carry %s' % c)
            v = locs.get(ls[0])
            if v is None:
                raise ToolError('recursive call: argument layout differs')
            if c[0] == 'm' and not z3.is_bool(v):
                v = v != 0
            if c[0] in 'be' or c == 'cur':
                v = Ptr(w.subj, off_of(v))
            g2[c] = v
            for l in ls[1:]:
                ex.oblige(st, lp.eqv(locs[l], v), 'rec-consistent(%s)' % c, where)
        for l, c in self.layout.items():
            if c not in spec.components:
                ex.oblige(st, lp.eqv(locs[l], self.comp(g2, c)), 'rec-flags', where, c)
        for l, v in self.const.items():
            ex.oblige(st, lp.eqv(locs[l], v), 'rec-frame', where)
        ex.oblige(st, spec.pre(g2), 'pre:recursion', where)
        if self.proving is not None:
            gp = self.proving
            ex.oblige(st, spec.variant(gp, g2), 'decreases', where)
        r = spec.app(g2)
        st.calls = st.calls + [('rec', None, r)]
        st.ghost_rec = None
        # postcondition
        S2 = spec.S(g2)
        st.assume(z3.Implies(r['m0'], z3.And(w.capok(r), w.cap0ok(r), w.inr(r['e0']), z3.ULE(S2['cur'], r['e0']), w.mono(S2, r), r['b0'] == S2['b0'])))
        st.assume(w.clean(r))
        st.flags['ne'] = st.flags.get('ne', []) + [z3.Implies(z3.And(spec.s0['bl'], r['m0']), z3.ULT(spec.s0['cur'], r['e0']))]
        out = vals[sret[0]]
        cells = dict(st.mem[out.obj.id])
        ob = self.const_base(ex, out)
        ex.clear_cells(cells, ob, self.rsize)
        for off, (n, c) in self.rlayout.items():
            v = r[c]
            cells[ob + off] = (n, Ptr(w.subj, v) if c[0] in 'be' else z3.If(v, bv(1, 8 * n), bv(0, 8 * n)))
        st.mem[out.obj.id] = cells

        def gen():
            yield st, None
        return gen()

    def comp(self, g, c):
        return g[c] if c in g else self.spec.derived(g)[c]

    def cell(self, g, c, n):
        """component c of g as the content of an n-byte field"""
        v = self.comp(g, c)
        if not isinstance(v, Ptr) and z3.is_bool(v):
            return z3.If(v, bv(1, 8 * n), bv(0, 8 * n))
        return v

    def const_base(self, ex, p):
        c = ex.const_off(p.off)
        if c is None:
            raise ToolError('result buffer')
        return c

    def prove_body(self, ex, st, fr, name, vals, sret, lp):
        spec, w = self.spec, self.w
        fn = ex.m.funcs[name]
        # assignment of locations to components: a location coupled with several components is resolved by consistency
        # over the recursive calls (houdini): start from all possibilities
        cands = {l: list(cs) for l, cs in self.coup0.items()}
        const = dict(self.const0)
        rec0 = ex.recording
        for rnd in range(12):
            lay = {}
            # choose: prefer unique
            used = {}
            for l, cs in cands.items():
                if len(cs) == 1:
                    lay[l] = cs[0]
            for l, cs in cands.items():
                if len(cs) > 1:
                    free = [c for c in cs if c not in lay.values()]
                    lay[l] = (free or cs)[0]
            # cells that are unchanged rather than coupled
            cst = {l: v for l, v in const.items() if l not in lay}
            self.layout, self.const = lay, cst
            self.obj_layout(fn, lay, sret)
            ex.recording = False
            changed = self.body(ex, st, fr, name, vals, sret, lp, cands, const, dry=True)
            ex.recording = rec0
            if not changed:
                break
        else:
            raise ToolError('no consistent encoding for the recursion in %s' % name[:60])
        ex.recording = rec0
        self.body(ex, st, fr, name, vals, sret, lp, cands, const, dry=False)

    def obj_layout(self, fn, lay, sret):
        """fields of the result object: same record type as the captures argument"""
        rty = fn.params[sret][2]['sret']
        best = {}
        for k, (t, n, at) in enumerate(fn.params):
            m = {l[2]: (l[3], c) for l, c in lay.items() if l[0] == 'mem' and l[1] == k and c in CAPS}
            if len(m) > len(best):
                best = m
        self.rlayout = best
        self.rsize = rty.size()
        missing = [c for c in CAPS if c not in [x for _, x in best.values()]]
        if missing:
            raise ToolError('result layout unknown for %s' % missing)

    def body(self, ex, st, fr, name, vals, sret, lp, cands, const, dry):
        spec, w = self.spec, self.w
        fn = ex.m.funcs[name]
        g = {c: lp.val_fresh(v, 'r_' + c) for c, v in spec.init().items()}
        g['m0'] = z3.BoolVal(False)
        st1 = st.fork()
        # forget everything about the caller except the constants: keep the path condition of the entry only
        st1.pc = list(st.flags.get('pc0', []))
        st1.calls = []
        st1.flags = {'pc0': list(st1.pc), 'ne': [], 's0': spec.s0}
        st1.ghost = None
        args = []
        objs = {}
        for k, ((ty, nm, at), v) in enumerate(zip(fn.params, vals)):
            if k == sret:
                o = ex.new_obj(st1, 'result', self.rsize)
                args.append(Ptr(o, bv(0)))
                resobj = o
                continue
            if isinstance(v, Ptr) and v.obj.kind == 'stack':
                size = at['byval'].size() if 'byval' in at else ex.const_off(v.obj.size)
                o = ex.new_obj(st1, 'arg%d' % k, size)
                cells = {}
                base = ex.const_off(v.off)
                for off, (n, x) in st.mem[v.obj.id].items():
                    if not isinstance(x, (Ptr, Undef)) and n not in (1, 4, 8):
                        parts = [(off + b, 1) for b in range(n)]
                    else:
                        parts = [(off, n)]
                    for o2, n2 in parts:
                        l = ('mem', k, o2, n2)
                        if l in self.layout:
                            cells[o2] = (n2, self.cell(g, self.layout[l], n2))
                        elif l in self.const:
                            cells[o2] = (n2, self.const[l])
                st1.mem[o.id] = cells
                args.append(Ptr(o, bv(base)))
            else:
                l = ('arg', k)
                args.append(self.comp(g, self.layout[l]) if l in self.layout else v)
        st1.assume(spec.pre(g))
        ax = [g, spec.nxt(g)]
        saved_rc = ex.rec_contract
        changed = [False]
        me = self
        me.proving = g

        def dry_call(ex_, st_, fr_, nm_, vals_, where):
            locs = me.locs(ex_, st_, nm_, vals_)
            # drop couplings / constants that do not hold for any ghost successor
            n = spec.nxt(g)
            for l in list(me.layout):
                v = locs.get(l)
                c = me.layout[l]
                ok = v is not None
                if ok:
                    e = lp.eqv(v, self.comp(n, c))
                    ok = e is not None and ex_.valid(st_, e)
                if not ok:
                    alt = [x for x in cands[l] if x != c]
                    changed[0] = True
                    if alt:
                        cands[l] = alt
                    else:
                        del cands[l]
            for l in list(me.const):
                v = locs.get(l)
                e = lp.eqv(v, me.const[l]) if v is not None else None
                if e is None or not ex_.valid(st_, e):
                    changed[0] = True
                    const.pop(l, None)
            if changed[0]:
                return iter(())
            return me.apply(ex_, st_, fr_, nm_, vals_, where)
        ex.rec_contract = dry_call if dry else self.__call__
        me.apply = lambda *a: Recursion.__call__(me, *a)
        n0 = ex.rec_contract
        spec_saved = ex.spec
        npaths = 0
        for s2, rv in ex.run(st1, name, args, fr.depth + 1):
            npaths += 1
            if dry:
                continue
            r = {}
            for off, (n, c) in self.rlayout.items():
                v = ex.load(s2, Ptr(resobj, bv(off)), ir.PTR if c[0] in 'be' else ir.IntTy(8), 'result')
                r[c] = off_of(v) if c[0] in 'be' else v != 0
            for x in ax:
                s2.assume(spec.axiom(x))
            exp = spec.app(g)
            wh = 'evaluate_recursive'
            ex.oblige(s2, r['m0'] == exp['m0'], 'post:outcome', wh)
            ex.oblige(s2, z3.Implies(r['m0'], z3.And(*[r[c] == exp[c] for c in CAPS])), 'post:result', wh)
            ex.oblige(s2, z3.Implies(r['m0'], z3.And(w.capok(r), w.cap0ok(r), w.inr(r['e0']), z3.ULE(g['cur'].off, r['e0']), w.mono(spec.S(g), r), r['b0'] == g['b0'].off)), 'post:wellformed', wh)
            ex.oblige(s2, w.clean(r), 'post:clean-failure', wh)
            for f in s2.flags.get('ne', []):
                s2.assume(f)
            ex.oblige(s2, z3.Implies(z3.And(spec.s0['bl'], r['m0']), z3.ULT(spec.s0['cur'], r['e0'])), 'post:nonempty', wh)
        ex.rec_contract = saved_rc
        self.proving = None
        if not dry and npaths == 0:
            raise ToolError('no path returns from %s' % name[:60])
        return changed[0]


def prove_node(w, module, entry, specfn=None, mkspec=None, generalize=None, pre=None, timeout_ms=20000, tail_wf='9',
               max_time=120, check_wf=True, rich=False, refute=0, kinds=None):
    """verify one instantiated overload against its specification; returns Result.
    refute=k: instead of cutting loops, execute them (at most k iterations, subjects of at most 3 characters): every failed
    obligation is then a genuine counterexample path of the function; says nothing about longer runs."""
    import time as _t
    t0 = _t.time()
    res = Result(entry)
    res.world = w
    eng = Engine(w, module)
    s = start_state(w)
    extra = w.handlers()
    st = State()
    spec = mkspec(w, s) if mkspec else None
    ex = Exec(module, subject=w.subj, handlers=eng.handlers() + extra, specs=spec, generalize=generalize or {}, timeout_ms=timeout_ms,
              name=entry, max_time=max_time, loops=w.loop_mode(refute), search=bool(refute))
    ex.rich = rich
    ex.stop_on_fail = (kinds or True) if refute else False
    for e in w.pre():
        st.assume(e)
    st.assume(w.wf_state(s))
    if spec is not None and hasattr(spec, 'pre0'):
        st.assume(spec.pre0())
    for e in (pre(s) if pre else []):
        st.assume(e)
    if refute:
        st.assume(z3.ULE(w.len - w.lo, bv(refute * w.span)))
        for v in (generalize or {}).values():
            st.assume(z3.ULE(v, bv(refute)))
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    st.flags['pc0'] = list(st.pc)
    st.flags['s0'] = s
    st.mem[w.subj.id] = w.arr
    inp = Obj('stack', 'in', bv(56))
    outp = Obj('stack', 'out', bv(56))
    st.mem[inp.id] = flat_cells(w, s)
    st.mem[outp.id] = {}
    if spec is not None:
        st.ghost = spec.init()
        g = {}
        for c, v in spec.init().items():
            g[c] = Ptr(v.obj, fresh('l_' + c, BV64)) if isinstance(v, Ptr) else fresh('l_' + c, v.sort())
        l = State()
        l.pc = list(st.pc)
        l.assume(spec.axiom(g))
        ex.oblige(l, spec.lemma(g), 'lemma:tail-step', 'spec')
        if isinstance(spec, RepSpec) and not refute:
            ex.rec_contract = Recursion(w, spec, res)
            ex.rec_contract.proving = None
    P = lambda off: Ptr(w.subj, off)
    args = [P(s['begin']), P(s['cur']), P(s['last']), s['bl'], s['ml'], s['ci'], Ptr(inp, bv(0)), Ptr(outp, bv(0))]
    n = 0
    try:
        for s2, rv in ex.run(st, entry, args):
            n += 1
            r = read_flat(ex, s2, outp)
            if spec is not None:
                gs = [s2.ghost]
                for _ in range(2 * refute + 2 if refute else 2):
                    gs.append(spec.nxt(gs[-1]))
                for x in gs[:-1]:
                    s2.assume(spec.axiom(x))
                exp = spec.result(s2.ghost)
            else:
                exp = specfn(s)
            s2.flags['out'] = r
            s2.flags['exp'] = exp
            ex.oblige(s2, r['m0'] == exp['m0'], 'post:outcome', entry)
            ex.oblige(s2, z3.Implies(r['m0'], z3.And(*[r[c] == exp[c] for c in CAPS])), 'post:result', entry)
            if not check_wf:
                ex.oblige(s2, z3.And(w.clean(r), z3.Implies(r['m0'], r['b0'] == s['b0'])), 'post:start-kept', entry)
            if check_wf:
                ex.oblige(s2, w.wf_result('9', s.up(b0=s['cur']) if entry == 'n_start_mark' else s, r), 'post:wellformed', entry)
                for f in s2.flags.get('ne', []):
                    s2.assume(f)
                ex.oblige(s2, w.ne(s, r), 'post:nonempty', entry)
        if n == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    res.paths = n
    res.obls = ex.obls
    res.functions = ex.functions
    res.time = _t.time() - t0
    res.queries = ex.sol.queries
    res.inv = ex.inv_stats
    res.cuts = ex.loops_cut + (1 if getattr(ex.rec_contract, 'layout', None) else 0)
    return res
