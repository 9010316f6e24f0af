"""Contracts of utf8_iterator and utf8_range (units/utf8.cpp), and the world in which the engine runs on UTF-8 subjects."""
import time
import z3
from .engine import *
from .jobs import Job

B8 = z3.BitVecSort(8)


def b8(v):
    return bv(v, 8)


def lead(b):
    """units of the sequence introduced by the lead unit b (1 for everything that is not a lead unit)"""
    return z3.If(z3.And(z3.UGE(b, b8(0xC0)), z3.ULE(b, b8(0xDF))), bv(2), z3.If(z3.And(z3.UGE(b, b8(0xE0)), z3.ULE(b, b8(0xEF))), bv(3),
                 z3.If(z3.And(z3.UGE(b, b8(0xF0)), z3.ULE(b, b8(0xF7))), bv(4), bv(1))))


def cont(b):
    return (b & b8(0xC0)) == b8(0x80)


def nxt_of(w, p):
    n = lead(w.at(p))
    return z3.If(z3.ULT(n, w.len - p), p + n, w.len)


def dec_of(w, p):
    b = [w.at(p + bv(k)) for k in range(4)]
    z = lambda x, m: z3.ZeroExt(24, x & b8(m))
    n = lead(b[0])
    bad = bv(0xFFFD, 32)
    full = z3.ULE(n, w.len - p)
    two = (z(b[0], 0x1F) << 6) | z(b[1], 0x3F)
    three = (z(b[0], 0x0F) << 12) | (z(b[1], 0x3F) << 6) | z(b[2], 0x3F)
    four = (z(b[0], 0x07) << 18) | (z(b[1], 0x3F) << 12) | (z(b[2], 0x3F) << 6) | z(b[3], 0x3F)
    ok = lambda k: z3.And(full, *[cont(b[i]) for i in range(1, k)])
    return z3.If(z3.ULT(b[0], b8(0x80)), z(b[0], 0x7F), z3.If(z3.And(n == 2, ok(2)), two, z3.If(z3.And(n == 3, ok(3)), three, z3.If(z3.And(n == 4, ok(4)), four, bad))))


def encoded(w, p, c):
    """the well-formed encoding of the code point c is at p; returns (predicate, length)"""
    b = [w.at(p + bv(k)) for k in range(4)]
    x = lambda hi, lo, m: z3.Extract(7, 0, z3.LShR(c, lo) & bv(m, 32)) | b8(hi)
    u = lambda v: bv(v, 32)
    n = z3.If(z3.ULT(c, u(0x80)), bv(1), z3.If(z3.ULT(c, u(0x800)), bv(2), z3.If(z3.ULT(c, u(0x10000)), bv(3), bv(4))))
    eq = lambda *bs: z3.And(*[b[k] == v for k, v in enumerate(bs)])
    e = z3.If(n == 1, eq(x(0, 0, 0x7F)), z3.If(n == 2, eq(x(0xC0, 6, 0x1F), x(0x80, 0, 0x3F)),
              z3.If(n == 3, eq(x(0xE0, 12, 0x0F), x(0x80, 6, 0x3F), x(0x80, 0, 0x3F)), eq(x(0xF0, 18, 7), x(0x80, 12, 0x3F), x(0x80, 6, 0x3F), x(0x80, 0, 0x3F)))))
    cp = z3.And(z3.ULE(c, u(0x10FFFF)), z3.Not(z3.And(z3.UGE(c, u(0xD800)), z3.ULE(c, u(0xDFFF)))))
    return z3.And(cp, e, z3.ULE(n, w.len - p)), n


class PrevSpec:
    """the position before p: the nearest unit before p that is not a continuation, or the begin"""
    components = ['q']

    def __init__(self, w, p):
        self.w, self.p = w, p
        self.f = z3.Function('PREV', BV64, BV64)

    def init(self):
        return {'q': Ptr(self.w.subj, self.p - 1)}

    def nxt(self, g):
        return {'q': Ptr(self.w.subj, g['q'].off - 1)}

    def more(self, g):
        return z3.And(g['q'].off != self.w.lo, cont(self.w.at(g['q'].off)))

    def step(self, g):
        return self.more(g), self.nxt(g)

    def app(self, g):
        return {'q': self.f(g['q'].off)}

    def axiom(self, g):
        return self.f(g['q'].off) == z3.If(self.more(g), self.f(self.nxt(g)['q'].off), g['q'].off)

    def lemma(self, g):
        c, n = self.step(g)
        return z3.Implies(z3.And(c, self.axiom(g)), self.app(g)['q'] == self.app(n)['q'])

    def inv(self):
        return [('q in range', lambda g: z3.And(z3.ULE(self.w.lo, g['q'].off), z3.ULT(g['q'].off, self.p)))]

    def variant(self, gh, gb):
        return z3.And(z3.ULT(gb['q'].off, gh['q'].off), z3.UGE(gb['q'].off, self.w.lo))

    def result(self, g):
        return self.app(g)


class StepSpec:
    """n steps from p in one direction (the elementary step is under contract: nxt / prv)"""
    components = ['n', 'p']

    def __init__(self, w, p, n, fwd):
        self.w, self.p0, self.n0, self.fwd = w, p, n, fwd
        self.f = z3.Function('STEPS', z3.BitVecSort(32), BV64, BV64)
        self.room = z3.Function('ROOM', z3.BitVecSort(32), BV64, z3.BoolSort())   # n steps stay in the subject

    def init(self):
        return {'n': self.n0, 'p': Ptr(self.w.subj, self.p0)}

    def nxt(self, g):
        p = g['p'].off
        return {'n': g['n'] - 1, 'p': Ptr(self.w.subj, self.w.nxt(p) if self.fwd else self.w.prv(p))}

    def step(self, g):
        return g['n'] != 0, self.nxt(g)

    def app(self, g):
        return {'p': self.f(g['n'], g['p'].off)}

    def axiom(self, g):
        n = self.nxt(g)
        here = g['p'].off != (self.w.len if self.fwd else self.w.lo)
        return z3.And(self.f(g['n'], g['p'].off) == z3.If(g['n'] == 0, g['p'].off, self.f(n['n'], n['p'].off)),
                      self.room(g['n'], g['p'].off) == z3.Or(g['n'] == 0, z3.And(here, self.room(n['n'], n['p'].off))))

    def lemma(self, g):
        c, n = self.step(g)
        return z3.Implies(z3.And(c, self.axiom(g)), self.app(g)['p'] == self.app(n)['p'])

    def inv(self):
        return [('p in range', lambda g: self.w.inr(g['p'].off)), ('room', lambda g: self.room(g['n'], g['p'].off))]

    def facts(self, g):
        return self.axiom(g)

    def variant(self, gh, gb):
        return z3.ULT(gb['n'], gh['n'])

    def result(self, g):
        return self.app(g)


class UWorld(World):
    """a subject seen through utf8_iterator: elementary steps and decoding by the contracts proved in units/utf8.cpp"""
    utf8 = True


    def __init__(self, concrete=0):
        """concrete: NEXT, PREVIOUS and DECODE are expanded (for subjects of at most that many units): used to search for counterexamples"""
        super().__init__(1)
        self.fn = z3.Function('NEXT', BV64, BV64)
        self.fp = z3.Function('PREVIOUS', BV64, BV64)
        self.fd = z3.Function('DECODE', BV64, z3.BitVecSort(32))
        self.off = None
        self.concrete = concrete

    def instance(self, refute):
        return UWorld(refute) if refute else self

    def loop_mode(self, refute):
        k = 2 * refute + 2 if refute else 'inv'
        return lambda fn, bb: 4 if re.match(r'_ZSt9__advance', fn.name) else k   # loops of one iteration

    def ch(self, p):
        return dec_of(self, p) if self.concrete else self.fd(p)

    def nxt(self, p, n=1):
        for _ in range(n):
            p = nxt_of(self, p) if self.concrete else self.fn(p)
        return p

    def prv(self, p):
        if not self.concrete:
            return self.fp(p)
        q = p - 1
        for k in range(self.concrete):
            q = z3.If(z3.And(q != self.lo, cont(self.at(q))), q - 1, q)
        return q

    def avail(self, cur, last, n):
        return z3.And(*[self.nxt(cur, k) != last for k in range(n)]) if n else z3.BoolVal(True)

    def fields(self, ex, st, p):
        m = ex.m
        if self.off is None:
            self.off = {}
            for f in ('ptr', 'end', 'begin'):
                t = str(m.globals['ctv_off_' + f].init if hasattr(m.globals['ctv_off_' + f], 'init') else m.globals['ctv_off_' + f])
                self.off[f] = int(re.search(r'i64 (\d+)', t).group(1))
        rd = lambda f: ex.load(st, Ptr(p.obj, p.off + bv(self.off[f])), ir.PTR, 'utf8_iterator')
        return rd

    def handlers(self):
        def guard(ex, st, a, where, what):
            rd = self.fields(ex, st, a[0])
            p = off_of(rd('ptr'), self.subj)
            lo, hi = z3.ULE(self.lo, p), z3.ULE(p, self.len)
            ends = off_of(rd('end'), self.subj) == self.len
            if what == 'prev':
                ex.oblige(st, z3.And(ends, off_of(rd('begin'), self.subj) == self.lo, z3.ULT(self.lo, p), hi), 'pre:utf8-decrement', where)
            else:
                ex.oblige(st, z3.And(ends, lo, z3.ULT(p, self.len)), 'pre:utf8-' + what, where)
            return p

        def put(ex, st, a, off):
            ex.store(st, Ptr(a[0].obj, a[0].off + bv(self.off['ptr'])), ir.PTR, Ptr(self.subj, off), 'utf8_iterator')

        def h_next(ex, st, name, a, where):
            p = guard(ex, st, a, where, 'increment')
            n = self.nxt(p)
            st.assume(z3.And(z3.ULT(p, n), z3.ULE(n, self.len)))
            put(ex, st, a, n)
            yield st, a[0]

        def h_prev(ex, st, name, a, where):
            p = guard(ex, st, a, where, 'prev')
            n = self.prv(p)
            st.assume(z3.And(z3.ULE(self.lo, n), z3.ULT(n, p)))
            put(ex, st, a, n)
            yield st, a[0]

        def h_deref(ex, st, name, a, where):
            p = guard(ex, st, a, where, 'dereference')
            yield st, self.ch(p)
        return [(lambda n: n == '_ZN4ctre13utf8_iteratorppEv', h_next), (lambda n: n == '_ZN4ctre13utf8_iteratormmEv', h_prev), (lambda n: n == '_ZNK4ctre13utf8_iteratordeEv', h_deref)]


def prove_u(m, entry, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    w = UWorld()
    op = entry[2:]
    p, x = z3.BitVec('p', 64), z3.BitVec('x', 64)
    n = z3.BitVec('n', 32)
    st = State()
    for e in w.pre():
        st.assume(e)
    st.assume(z3.And(w.inr(p), w.inr(x)))
    fwd = op in ('next', 'next_self', 'postnext', 'stdnext', 'deref')
    back = op in ('prev', 'prev_self', 'postprev', 'stdprev', 'revderef')
    if fwd:
        st.assume(z3.ULT(p, w.len))
    if back:
        st.assume(z3.ULT(w.lo, p))
    if 'zero' in op:
        st.assume(z3.ULT(p, w.len))
    spec = None
    handlers = []
    if back:
        spec = PrevSpec(w, p)
    if op in ('plus', 'minus'):
        spec = StepSpec(w, p, n, op == 'plus')
        st.assume(spec.room(n, p))
        handlers = w.handlers()
    ex = Exec(m, subject=w.subj, handlers=handlers, specs=spec, timeout_ms=timeout_ms, name=entry, max_time=max_time or 120, loops=w.loop_mode(refute), search=bool(refute))
    ex.rich = rich
    ex.stop_on_fail = (kinds or True) if refute else False
    if refute:
        st.assume(z3.ULE(w.len - w.lo, bv(2 * refute)))
        st.assume(z3.ULE(n, bv(refute, 32)))
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    st.flags['pc0'] = list(st.pc)
    st.mem[w.subj.id] = w.arr
    P = lambda o: Ptr(w.subj, o)
    outp, oldp = Obj('stack', 'out', bv(24)), Obj('stack', 'old', bv(24))
    st.mem[outp.id], st.mem[oldp.id] = {}, {}
    A = lambda o: Ptr(o, bv(0))
    if spec:
        st.ghost = spec.init()
        l = State()
        l.pc = list(st.pc)
        g = {c: Ptr(w.subj, fresh('l', BV64)) if isinstance(v, Ptr) else fresh('l', v.sort()) for c, v in spec.init().items()}
        ex.oblige(l, spec.lemma(g), 'lemma:tail-step', 'spec')
        g = st.ghost
        for _ in range(2 * refute + 2 if refute else 1):
            st.assume(spec.axiom(g))
            g = spec.nxt(g)
    base = [P(p), P(w.len), P(w.lo)]
    two = op in ('postnext', 'postprev')
    if op == 'range':
        args = [P(w.lo), w.len - w.lo, A(outp)]
    elif op in ('plus', 'minus'):
        args = base + [n, A(outp)]
    elif two:
        args = base + [A(outp), A(oldp)]
    elif op == 'assign':
        args = base + [P(x), A(outp)]
    elif op in ('eq', 'ne', 'eqp', 'eqp_r', 'nep', 'nep_r'):
        args = base + [P(x)]
    elif op in ('next', 'next_self', 'prev', 'prev_self', 'stdnext', 'stdprev'):
        args = base + [A(outp)]
    else:
        args = base
    O = lambda s2, g, k: ex.oblige(s2, g, k, entry)

    def read(s2, o):
        return [off_of(ex.load(s2, Ptr(o, bv(8 * k)), ir.PTR, 'result')) for k in range(3)]
    c = z3.BitVec('c', 32)
    cnt = 0
    try:
        for s2, rv in ex.run(st, entry, args):
            cnt += 1
            B = lambda e: O(s2, (rv if z3.is_bool(rv) else rv != 0) == e, 'post:comparison')
            if spec:
                g = s2.ghost
                for _ in range(2 * refute + 3 if refute else 3):
                    s2.assume(spec.axiom(g))
                    g = spec.nxt(g)
                cc = list(spec.result(s2.ghost))[0]   # by lemma:tail-step along the path
                s2.assume(spec.app(spec.init())[cc] == spec.app(s2.ghost)[cc])
            if fwd and op != 'deref':
                o = read(s2, outp)
                O(s2, o[0] == nxt_of(w, p), 'post:position')
                O(s2, z3.And(o[1] == w.len, o[2] == w.lo), 'frame:bounds')
                O(s2, z3.And(z3.ULT(p, o[0]), z3.ULE(o[0], w.len)), 'post:in-subject')
                e, k = encoded(w, p, c)
                O(s2, z3.Implies(e, o[0] == p + k), 'post:well-formed')
            elif back and op != 'revderef':
                o = read(s2, outp)
                O(s2, o[0] == spec.result(s2.ghost)['q'], 'post:position')
                O(s2, z3.And(o[1] == w.len, o[2] == w.lo), 'frame:bounds')
                O(s2, z3.And(z3.ULE(w.lo, o[0]), z3.ULT(o[0], p)), 'post:in-subject')
                for k in range(1, 5):
                    e, kk = encoded(w, p - bv(k), c)
                    s3 = s2.fork()
                    q = Ptr(w.subj, p - 1)
                    for i in range(4):
                        s3.assume(spec.axiom({'q': Ptr(w.subj, p - bv(i + 1))}))
                    O(s3, z3.Implies(z3.And(z3.ULE(bv(k), p - w.lo), e, kk == k), o[0] == p - bv(k)), 'post:well-formed')
            elif op in ('deref', 'revderef'):
                at = p if op == 'deref' else spec.result(s2.ghost)['q']
                O(s2, rv == dec_of(w, at), 'post:code-point')
                e, k = encoded(w, at, c)
                O(s2, z3.Implies(e, rv == c), 'post:well-formed')
            elif op in ('plus', 'minus'):
                o = read(s2, outp)
                O(s2, o[0] == spec.result(s2.ghost)['p'], 'post:position')
                O(s2, z3.And(o[1] == w.len, o[2] == w.lo), 'frame:bounds')
            elif op == 'assign':
                o = read(s2, outp)
                O(s2, z3.And(o[0] == x, o[1] == w.len, o[2] == w.lo), 'post:position')
            elif op == 'range':
                o = read(s2, outp)
                O(s2, z3.And(o[0] == w.lo, o[1] == w.len, o[2] == w.lo), 'post:position')
            elif op == 'conv':
                O(s2, off_of(rv) == p, 'post:position')
            elif op in ('end', 'end_r', 'range_end'):
                B(p == w.len)
            elif op in ('notend', 'notend_r'):
                B(p != w.len)
            elif op in ('eq', 'eqp', 'eqp_r'):
                B(p == x)
            elif op in ('ne', 'nep', 'nep_r'):
                B(p != x)
            elif op in ('zero', 'zero_r'):
                B(w.at(p) == 0)
            elif op == 'notzero':
                B(w.at(p) != 0)
            else:
                raise ToolError('no contract for ' + entry)
            if two:
                o = read(s2, oldp)
                O(s2, z3.And(o[0] == p, o[1] == w.len, o[2] == w.lo), 'post:old-value')
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = cnt, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


def uengine_job(unit, m, n, kinds=None):
    """an overload of evaluate on utf8_iterator"""
    from .jobs import engine_job

    def run(**kw):
        w = UWorld(kw.get('refute', 0))
        return engine_job(unit, w, m, n, kinds).run(**kw)
    return Job(unit, n, run, n, kinds=kinds)


def utf8_jobs(m, unit):
    return [Job(unit, n, lambda n=n, **kw: prove_u(m, n, **kw), n) for n in m.funcs if n.startswith('u_')]
