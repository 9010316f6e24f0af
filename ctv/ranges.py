"""Contracts of the ranges (units/ranges.cpp): the iterators of search_all, tokenize and split as functions of the search
(or starts_with) result at a position, and the iterator over several subjects."""
import re
import time
import z3
from .engine import *
from .jobs import Job
from .execs import SearchSpec

ML = {'1': (False, False), '2': (True, True), '3': (True, False)}
KEY = '5,end_mark,accept'
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': z3.ULT, 'gt': z3.UGT, 'le': z3.ULE, 'ge': z3.UGE}


class From(SearchSpec):
    """the search started at `base0`, a term of the input state"""

    def lemma_ok(self):
        return True


def flat_it(w, s):
    """cells of FlatIt for a state s"""
    d = {0: (8, Ptr(w.subj, s['orig'])), 8: (8, Ptr(w.subj, s['cur'])), 16: (8, Ptr(w.subj, s['end']))}
    for k in range(3):
        d[24 + k * 8] = (8, Ptr(w.subj, s['b%d' % k]))
        d[48 + k * 8] = (8, Ptr(w.subj, s['e%d' % k]))
        d[72 + k] = (1, z3.If(s['m%d' % k], bv(1, 8), bv(0, 8)))
    d[80] = (1, z3.If(s['last'], bv(1, 8), bv(0, 8)))
    d[81] = (1, z3.If(s['empty'], bv(1, 8), bv(0, 8)))
    return d


def read_it(ex, st, o, flat=False):
    r = {}
    base = 0
    if not flat:
        for i, c in enumerate(('orig', 'cur', 'end')):
            r[c] = off_of(ex.load(st, Ptr(o, bv(8 * i)), ir.PTR, 'result'))
        base = 24
    for k in range(3):
        r['b%d' % k] = off_of(ex.load(st, Ptr(o, bv(base + k * 8)), ir.PTR, 'result'))
        r['e%d' % k] = off_of(ex.load(st, Ptr(o, bv(base + 24 + k * 8)), ir.PTR, 'result'))
        r['m%d' % k] = ex.load(st, Ptr(o, bv(base + 48 + k)), ir.IntTy(8), 'result') != 0
    if not flat:
        r['last'] = ex.load(st, Ptr(o, bv(80)), ir.IntTy(8), 'result') != 0
        r['empty'] = ex.load(st, Ptr(o, bv(81)), ir.IntTy(8), 'result') != 0
    return r


def in_state(w, tag=''):
    s = {c: z3.BitVec(c + tag, 64) for c in ('orig', 'cur', 'end', 'b0', 'e0', 'b1', 'e1', 'b2', 'e2')}
    s.update({c: z3.Bool(c + tag) for c in ('m0', 'm1', 'm2', 'last', 'empty')})
    return s


def wf_it(w, s, split):
    """invariant of the iterators that are not at the end"""
    es = [s['orig'] == w.lo, s['end'] == w.len, w.inr(s['cur']), s['m0'], w.inr(s['b0']), w.inr(s['e0']), z3.ULE(s['b0'], s['e0'])]
    if split:
        es += [z3.ULE(s['e0'], s['cur']), z3.Implies(s['last'], z3.And(s['cur'] == w.len, z3.Not(s['m1']), z3.Not(s['m2']))), z3.Or(s['last'], w.capok(s))]
    else:
        es += [s['e0'] == s['cur'], w.capok(s)]
    return z3.And(*es)


def prove_range(w, m, entry, op, fam, mods, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    w = w.instance(refute)
    ml, ci = ML[mods]
    split, tok = fam == 'split', fam == 'tok'
    null = bv(NULLOFF)
    i, j = in_state(w), in_state(w, "'")
    st = State()
    for e in w.pre():
        st.assume(e)
    fresh_it = op in ('begin', 'view', 'pipe', 'memb')
    if op in ('next', 'post'):
        st.assume(wf_it(w, i, split))
        frm = z3.If(i['empty'] if split else i['b0'] == i['e0'], w.nxt(i['cur']), i['cur'])
    elif fresh_it:
        frm = w.lo
    else:
        for s in (i, j):
            st.assume(z3.And(w.inr(s['cur']), w.capok(s), w.cap0ok(s), w.inr(s['orig']), w.inr(s['end'])))
        frm = w.lo
    searches = op in ('next', 'post') or fresh_it

    def base(o):
        s = S()
        for c in SCOMPS:
            s[c] = z3.BoolVal(False) if sort_of(c) == z3.BoolSort() else null
        s['begin'], s['last'], s['cur'], s['b0'], s['ml'], s['ci'] = w.lo, w.len, o, o, z3.BoolVal(ml), z3.BoolVal(ci)
        return s
    spec = None
    if searches and not tok:
        spec = From(w, base, KEY, False)
        spec.base0 = frm
    eng = Engine(w, m)
    ex = Exec(m, subject=w.subj, handlers=eng.handlers() + w.handlers(), specs=spec, timeout_ms=timeout_ms, name=entry, max_time=max_time or 120,
              loops=w.loop_mode(refute), search=bool(refute))
    ex.rich = rich
    ex.stop_on_fail = (kinds or True) if refute else False
    if refute:
        st.assume(z3.ULE(w.len - w.lo, bv(refute * w.span)))
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    st.flags['pc0'] = list(st.pc)
    st.flags['s0'] = base(w.lo)
    st.mem[w.subj.id] = w.arr
    outp, oldp, ip, jp = [Obj('stack', n, bv(88)) for n in ('out', 'old', 'i', 'j')]
    st.mem[outp.id], st.mem[oldp.id], st.mem[ip.id], st.mem[jp.id] = {}, {}, flat_it(w, i), flat_it(w, j)
    P = lambda o: Ptr(w.subj, o)
    if spec:
        st.ghost = spec.init()
        l = State()
        l.pc = list(st.pc)
        ex.oblige(l, spec.lemma({'cur': P(fresh('l', BV64))}), 'lemma:tail-step', 'spec')
    A = lambda o: Ptr(o, bv(0))
    if op in ('begin', 'memb'):
        args = [P(w.lo), P(w.len), A(outp)]
    elif op in ('view', 'pipe'):
        args = [P(w.lo), z3.LShR(w.len - w.lo, bv({1: 0, 2: 1, 4: 2}[w.elem])), A(outp)]
    elif op == 'next' or op == 'deref':
        args = [A(ip), A(outp)]
    elif op == 'post':
        args = [A(ip), A(outp), A(oldp)]
    elif op in CMP:
        args = [A(ip), A(jp)]
    else:
        args = [A(ip)]
    n = 0
    O = lambda s2, g, k: ex.oblige(s2, g, k, entry)
    same = lambda a, b, cs: z3.And(*[z3.Or(a[c] == b[c], z3.Not(b['m' + c[1]])) if c in ('e1', 'e2') else a[c] == b[c] for c in cs])
    IT = ['orig', 'cur', 'end'] + CAPS + (['last', 'empty'] if split else [])
    try:
        for s2, rv in ex.run(st, entry, args):
            n += 1
            if op in CMP:
                O(s2, (rv if z3.is_bool(rv) else rv != 0) == CMP[op](i['cur'], j['cur']), 'post:comparison')
                continue
            if op in ('endeq', 'eqend', 'endne', 'neend'):
                O(s2, (rv if z3.is_bool(rv) else rv != 0) == (z3.Not(i['m0']) if 'eq' in op else i['m0']), 'post:end')
                continue
            if op == 'deref':
                O(s2, same(read_it(ex, s2, outp, True), i, CAPS), 'post:value')
                continue
            o = read_it(ex, s2, outp)
            s2.flags['out'] = o
            if spec:
                g = s2.ghost
                for _ in range(2 * refute + 3 if refute else 3):
                    s2.assume(spec.axiom(g))
                    g = spec.nxt(g)
                r = spec.result(s2.ghost)
            else:
                r = w.E(KEY, base(frm))
            if op == 'post':
                O(s2, same(read_it(ex, s2, oldp), i, IT), 'post:old-value')
            O(s2, same(o, {'orig': w.lo, 'end': w.len}, ['orig', 'end']), 'frame:bounds')
            if not split:
                ended = z3.BoolVal(False)
                if op in ('next', 'post'):
                    ended = z3.Or(i['cur'] == w.len, z3.And(i['b0'] == i['e0'])) if tok else i['cur'] == w.len
                O(s2, o['m0'] == z3.And(z3.Not(ended), r['m0']), 'post:ends')
                O(s2, z3.Implies(o['m0'], z3.And(same(o, r, CAPS), o['cur'] == r['e0'])), 'post:match')
                O(s2, z3.Implies(o['m0'], wf_it(w, o, split)), 'inv:iterator')
                if op in ('next', 'post'):
                    O(s2, z3.Implies(o['m0'], z3.And(z3.UGE(o['b0'], i['e0']), z3.UGT(o['b0'], i['b0']))), 'decreases')
            else:
                piece = lambda e, cur, last: {'b0': e[0], 'e0': e[1], 'cur': cur, 'last': z3.BoolVal(last), 'm0': z3.BoolVal(True)}
                a = i['cur'] if op in ('next', 'post') else w.lo
                L, E0 = (i['last'], i['empty']) if op in ('next', 'post') else (z3.BoolVal(False), z3.BoolVal(False))
                over = z3.And(a == w.len, L)
                tail = z3.And(E0, a == w.len)
                O(s2, o['m0'] == z3.Not(over), 'post:ends')
                go = z3.Not(over)
                O(s2, z3.Implies(go, o['b0'] == a), 'post:piece-begin')
                found = z3.And(go, z3.Not(tail), r['m0'])
                rest = z3.And(go, z3.Not(found))
                O(s2, z3.Implies(found, z3.And(o['e0'] == r['b0'], o['cur'] == r['e0'], o['empty'] == (r['b0'] == r['e0']), o['last'] == L,
                                               *[o[c] == r[c] for c in CAPS[3:]])), 'post:piece')
                O(s2, z3.Implies(rest, z3.And(o['e0'] == w.len, o['cur'] == w.len, o['last'], z3.Not(o['m1']), z3.Not(o['m2']))), 'post:last-piece')
                O(s2, z3.Implies(go, wf_it(w, o, split)), 'inv:iterator')
                if op in ('next', 'post'):
                    meas = lambda x: z3.If(x['empty'], bv(0), bv(2)) + z3.If(x['last'], bv(0), bv(1)) + bv(4) * (w.len - x['cur'])
                    O(s2, z3.Implies(go, z3.ULT(meas(o), meas(i))), 'decreases')
        if n == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = n, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


class FirstSpec:
    """the first position at or behind cur whose subject matches, or the end"""
    components = ['cur']

    def __init__(self, w, ok, start):
        self.w, self.ok, self.start = w, ok, start
        self.f = z3.Function('FIRST', BV64, BV64)

    def init(self):
        return {'cur': Ptr(self.w.subj, self.start)}

    def hit(self, g):
        return self.ok(self.w.at(g['cur'].off))

    def nxt(self, g):
        return {'cur': Ptr(self.w.subj, g['cur'].off + bv(self.w.elem))}

    def step(self, g):
        return z3.And(g['cur'].off != self.w.len, z3.Not(self.hit(g))), self.nxt(g)

    def app(self, g):
        return {'cur': self.f(g['cur'].off)}

    def axiom(self, g):
        end = g['cur'].off == self.w.len
        return self.f(g['cur'].off) == z3.If(z3.Or(end, self.hit(g)), g['cur'].off, self.f(self.nxt(g)['cur'].off))

    def lemma(self, g):
        c, n = self.step(g)
        return z3.Implies(z3.And(c, self.axiom(g)), self.app(g)['cur'] == self.app(n)['cur'])

    def inv(self):
        return [('cur in range', lambda g: z3.And(self.w.inr(g['cur'].off), z3.UGE(g['cur'].off, self.start)))]

    def variant(self, gh, gb):
        return z3.And(z3.ULT(gh['cur'].off, gb['cur'].off), z3.ULE(gb['cur'].off, self.w.len))

    def result(self, g):
        return self.app(g)


def prove_multi(w, m, entry, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    bits = w.elem * 8
    okf = z3.Function('subject_matches', z3.BitVecSort(bits), z3.BoolSort())
    valf = z3.Function('subject_result', z3.BitVecSort(bits), BV64)
    op = entry[2:]
    names = ('first', 'last', 'val')
    i = {c: z3.BitVec(c, 64) for c in names}
    j = {c: z3.BitVec(c + "'", 64) for c in names}
    i['ok'], j['ok'] = z3.Bool('ok'), z3.Bool("ok'")
    st = State()
    for e in w.pre():
        st.assume(e)
    for s in (i, j):
        st.assume(z3.And(w.inr(s['first']), s['last'] == w.len))
    if op in ('next', 'post'):
        st.assume(z3.ULT(i['first'], w.len))
    start = w.lo if op == 'begin' else i['first'] + bv(w.elem)
    spec = FirstSpec(w, okf, start) if op in ('begin', 'next', 'post') else None

    def h_ok(ex, s, name, a, where):
        yield s, okf(a[0])

    def h_val(ex, s, name, a, where):
        yield s, valf(a[0])
    ex = Exec(m, subject=w.subj, handlers=[(lambda n: 'ctv_sub_ok' in n, h_ok), (lambda n: 'ctv_sub_val' in n, h_val)], specs=spec, timeout_ms=timeout_ms, name=entry,
              max_time=max_time or 120, loops=(2 * refute + 2 if refute else 'inv'), search=bool(refute))
    ex.rich = rich
    ex.stop_on_fail = (kinds or True) if refute else False
    if refute:
        st.assume(z3.ULE(w.len - w.lo, bv(refute * w.elem)))
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    st.flags['pc0'] = list(st.pc)
    st.mem[w.subj.id] = w.arr
    P = lambda o: Ptr(w.subj, o)
    cells = lambda s: {0: (8, P(s['first'])), 8: (8, P(s['last'])), 16: (1, z3.If(s['ok'], bv(1, 8), bv(0, 8))), 24: (8, s['val'])}
    outp, oldp, ip, jp = [Obj('stack', n, bv(32)) for n in ('out', 'old', 'i', 'j')]
    st.mem[outp.id], st.mem[oldp.id], st.mem[ip.id], st.mem[jp.id] = {}, {}, cells(i), cells(j)
    if spec:
        st.ghost = spec.init()
        l = State()
        l.pc = list(st.pc)
        ex.oblige(l, spec.lemma({'cur': P(fresh('l', BV64))}), 'lemma:tail-step', 'spec')
    A = lambda o: Ptr(o, bv(0))
    args = {'begin': [P(w.lo), P(w.len), A(outp)], 'next': [A(ip), A(outp)], 'post': [A(ip), A(outp), A(oldp)]}.get(op) or ([A(ip), A(jp)] if op in CMP else [A(ip)])

    def read(s2, o):
        return {'first': off_of(ex.load(s2, Ptr(o, bv(0)), ir.PTR, 'result')), 'last': off_of(ex.load(s2, Ptr(o, bv(8)), ir.PTR, 'result')),
                'ok': ex.load(s2, Ptr(o, bv(16)), ir.IntTy(8), 'result') != 0, 'val': ex.load(s2, Ptr(o, bv(24)), ir.IntTy(64), 'result')}
    O = lambda s2, g, k: ex.oblige(s2, g, k, entry)
    n = 0
    try:
        for s2, rv in ex.run(st, entry, args):
            n += 1
            if op in CMP:
                O(s2, (rv if z3.is_bool(rv) else rv != 0) == CMP[op](i['first'], j['first']), 'post:comparison')
            elif op in ('endeq', 'eqend', 'endne', 'neend'):
                O(s2, (rv if z3.is_bool(rv) else rv != 0) == ((i['first'] == w.len) if 'eq' in op else (i['first'] != w.len)), 'post:end')
            elif op in ('deref', 'arrow'):
                O(s2, rv == i['val'], 'post:value')
            else:
                g = s2.ghost
                for _ in range(2 * refute + 3 if refute else 3):
                    s2.assume(spec.axiom(g))
                    g = spec.nxt(g)
                f = spec.result(s2.ghost)['cur']
                o = read(s2, outp)
                s2.flags['out'] = o
                if op == 'post':
                    p = read(s2, oldp)
                    O(s2, z3.And(*[p[c] == i[c] for c in ('first', 'last', 'ok', 'val')]), 'post:old-value')
                O(s2, z3.And(o['first'] == f, o['last'] == w.len), 'post:first-matching-subject')
                O(s2, o['ok'] == (o['first'] != w.len), 'post:outcome')
                O(s2, z3.Implies(o['first'] != w.len, z3.And(okf(w.at(o['first'])), o['val'] == valf(w.at(o['first'])))), 'post:value')
                O(s2, z3.And(w.inr(o['first']), z3.UGE(o['first'], start)), 'decreases')
        if n == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = n, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


def range_jobs(w, m, unit, kinds=None):
    jobs = []
    for n in m.funcs:
        x = re.match(r'([a-z]+)_(all|tok|split|iter)_(\d)$', n)
        if x:
            op, fam, mods = x.groups()
            jobs.append(Job(unit, n, lambda n=n, op=op, fam=fam, mods=mods, **kw: prove_range(w, m, n, op, fam, mods, **kw), n, kinds=kinds))
        elif n.startswith('m_'):
            jobs.append(Job(unit, n, lambda n=n, **kw: prove_multi(w, m, n, **kw), n, kinds=kinds))
    return jobs
