"""Contracts of the entry points (units/exec.cpp): match, search and starts_with for an arbitrary pattern, and the wrappers leading to them."""
import re
import time
import z3
from .engine import *
from .jobs import Job

ML = {'1': (False, False), '2': (True, False), '3': (False, True), '4': (True, True), '5': (True, False), '6': (False, True)}


class SearchSpec:
    """search(cur) = the match of the pattern at cur if there is one, else search(cur + 1), else no match (with the end of the subject as its end)"""
    components = ['cur']

    def __init__(self, w, base, key, anchored):
        self.w, self.base, self.key, self.anchored = w, base, key, anchored
        self.fs = {c: z3.Function('SEARCH.' + c, BV64, sort_of(c)) for c in CAPS}

    def at(self, off):
        return self.base(off)

    def E(self, off):
        return self.w.E(self.key, self.at(off))

    def init(self):
        return {'cur': Ptr(self.w.subj, self.base0)}

    def app(self, g):
        return {c: self.fs[c](g['cur'].off) for c in CAPS}

    def nxt(self, g):
        return {'cur': Ptr(self.w.subj, self.w.nxt(g['cur'].off))}

    def anchor_fact(self, off):
        return z3.Implies(self.E(off)['m0'], off == self.w.lo) if self.anchored else z3.BoolVal(True)

    def step(self, g):
        more = g['cur'].off != self.w.len
        miss = z3.Not(self.E(g['cur'].off)['m0'])
        if self.anchored:
            miss = z3.Or(miss, g['cur'].off != self.w.lo)
        return z3.And(more, miss), self.nxt(g)

    def axiom(self, g):
        a, n, e = self.app(g), self.app(self.nxt(g)), self.E(g['cur'].off)
        end = g['cur'].off == self.w.len
        return z3.And(self.anchor_fact(g['cur'].off), *[a[c] == z3.If(e['m0'], e[c], z3.If(end, {'m0': z3.BoolVal(False)}.get(c, self.w.len) if sort_of(c) != z3.BoolSort() else z3.BoolVal(False), n[c])) for c in CAPS])

    def lemma(self, g):
        c, n = self.step(g)
        a, b = self.app(g), self.app(n)
        return z3.Implies(z3.And(c, self.axiom(g)), z3.And(*[a[k] == b[k] for k in CAPS]))

    def inv(self):
        return [('cur in range', lambda g: z3.And(self.w.inr(g['cur'].off), z3.UGE(g['cur'].off, self.base0)))]

    def variant(self, gh, gb):
        return z3.And(z3.ULT(gh['cur'].off, gb['cur'].off), z3.ULE(gb['cur'].off, self.w.len))

    def result(self, g):
        return self.app(g)


def prove_exec(w, m, entry, method, mods, anchored, three, view, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    w = w.instance(refute)
    ml, ci = ML[mods]
    off = z3.BitVec('cur', 64)
    cur = off if three else w.lo
    null = bv(NULLOFF)

    def base(o):
        s = S()
        for c in SCOMPS:
            s[c] = z3.BoolVal(False) if sort_of(c) == z3.BoolSort() else null
        s['begin'], s['last'], s['cur'], s['b0'], s['ml'], s['ci'] = w.lo, w.len, o, o, z3.BoolVal(ml), z3.BoolVal(ci)
        return s
    fn = m.funcs[entry]
    pat = '100,5' if anchored else '5'
    key = pat + (',assert_subject_end' if method == 'match' else '') + ',end_mark,accept'
    spec = None
    if method == 'search':
        spec = SearchSpec(w, base, key, anchored)
        spec.base0 = cur
    eng = Engine(w, m)
    st = State()
    ex = Exec(m, subject=w.subj, handlers=eng.handlers() + w.handlers(), specs=spec, timeout_ms=timeout_ms, name=entry, max_time=max_time or 120,
              loops=w.loop_mode(refute), search=bool(refute))
    ex.rich = rich
    ex.stop_on_fail = (kinds or True) if refute else False
    for e in w.pre():
        st.assume(e)
    st.assume(w.inr(cur))
    if refute:
        st.assume(z3.ULE(w.len - w.lo, bv(refute * w.span)))
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    st.flags['pc0'] = list(st.pc)
    st.flags['s0'] = base(cur)
    st.mem[w.subj.id] = w.arr
    outp = Obj('stack', 'out', bv(56))
    st.mem[outp.id] = {}
    P = lambda o: Ptr(w.subj, o)
    if spec:
        st.ghost = spec.init()
        l = State()
        l.pc = list(st.pc)
        ex.oblige(l, spec.lemma({'cur': P(fresh('l', BV64))}), 'lemma:tail-step', 'spec')
    if view:
        args = [P(cur), z3.LShR(w.len - w.lo, bv({1: 0, 2: 1, 4: 2}[w.elem])), Ptr(outp, bv(0))]
    else:
        args = ([P(w.lo)] if three else []) + [P(cur), P(w.len), Ptr(outp, bv(0))]
    n = 0
    try:
        for s2, rv in ex.run(st, entry, args):
            n += 1
            r = read_flat(ex, s2, outp)
            if spec:
                g = s2.ghost
                for _ in range(2 * refute + 3 if refute else 3):
                    s2.assume(spec.axiom(g))
                    g = spec.nxt(g)
                exp = spec.result(s2.ghost)
            else:
                exp = w.E(key, base(cur))
                if anchored:
                    s2.assume(z3.Implies(exp['m0'], cur == w.lo))
            s2.flags['out'], s2.flags['exp'] = r, exp
            ex.oblige(s2, r['m0'] == exp['m0'], 'post:outcome', entry)
            ex.oblige(s2, z3.Implies(r['m0'], z3.And(*[r[c] == exp[c] for c in CAPS])), 'post:result', entry)
            if method == 'search':
                ex.oblige(s2, z3.Implies(z3.Not(r['m0']), r['e0'] == w.len), 'post:end-of-a-failed-search', entry)
        if n == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = n, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


def exec_jobs(w, m, unit, kinds=None):
    jobs = []
    for n in m.funcs:
        x = re.match(r'(x3|x2|a3|a2|c|o|v|m)_(match|search|starts)_(\d)$', n)
        if not x:
            continue
        k, method, mods = x.groups()
        jobs.append(Job(unit, n, lambda n=n, method=method, mods=mods, k=k, **kw: prove_exec(w, m, n, method, mods, k[0] == 'a', k.endswith('3'), k == 'v', **kw), n, kinds=kinds))
    return jobs
