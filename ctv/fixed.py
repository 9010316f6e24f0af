"""Contracts of ctll::fixed_string (units/fixed.cpp): a pattern literal of any character type and any length N becomes its
sequence of code points. Decoding is specified as a fold over the units of the literal."""
import time
import z3
from .sym import *
from . import ir
from .engine import Result, off_of
from .jobs import Job

MAGIC, MAGIC2 = 1000003, 2000003
NOMINAL = (4 * MAGIC + 7) // 8 * 8          # where the members behind content[N] are in the nominal instantiation
NOMINAL2 = (4 * MAGIC2 + 7) // 8 * 8
SIZE = {'char': 1, 'char8_t': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4}
N, K, M = z3.BitVec('N', 64), z3.BitVec('K', 64), z3.BitVec('M', 64)
B32 = z3.BitVecSort(32)
v32 = lambda x: bv(x, 32)


class DecodeSpec:
    """(i, out, ok, vk): next unit, code points so far, no error so far, the code point number K (0 while it is not reached)"""
    components = ['i', 'out', 'ok', 'vk']
    stays = True
    max_steps = 1

    def __init__(self, mode, arr, size, n):
        self.mode, self.arr, self.size, self.n = mode, arr, size, n
        so = [BV64, BV64, z3.BoolSort(), B32]
        self.f = {c: z3.Function('DEC_' + c, *so, s) for c, s in (('ok', z3.BoolSort()), ('out', BV64), ('vk', B32))}

    def u(self, i):
        x = z3.Select(self.arr, i * self.size)
        return x if self.size == 4 else z3.ZeroExt(32 - 8 * self.size, x)

    def decode(self, i):
        """(units, well formed, code point) at unit i"""
        u, room = self.u, self.n - i
        if self.mode == 'plain':
            return bv(1), z3.BoolVal(True), u(i)
        if self.mode == 'utf16':
            hi = (u(i) & v32(0xFC00)) == v32(0xD800)
            ok = z3.Or(z3.Not(hi), z3.And(z3.UGE(room, bv(2)), (u(i + 1) & v32(0xFC00)) == v32(0xDC00)))
            return z3.If(hi, bv(2), bv(1)), ok, z3.If(hi, (((u(i) & v32(0x3FF)) << 10) | (u(i + 1) & v32(0x3FF))) + v32(0x10000), u(i))
        n, val, good = bv(1), u(i), self.here(i, 1)
        for k in range(2, 7):
            g, v = self.good(i, k), self.val(i, k)
            n, val, good = z3.If(self.here(i, k), bv(k), n), z3.If(self.here(i, k), v, val), z3.If(self.here(i, k), g, good)
        return n, good, val

    LEAD = {1: (0, 0x7F, 0x7F), 2: (0xC0, 0xDF, 0x1F), 3: (0xE0, 0xEF, 0x0F), 4: (0xF0, 0xF7, 0x07), 5: (0xF8, 0xFB, 0x03), 6: (0xFC, 0xFF, 0x01)}

    def here(self, i, k):
        return z3.And(z3.UGE(self.u(i), v32(self.LEAD[k][0])), z3.ULE(self.u(i), v32(self.LEAD[k][1])))

    def val(self, i, k):
        v = self.u(i) & v32(self.LEAD[k][2])
        for j in range(1, k):
            v = (v << 6) | (self.u(i + j) & v32(0x3F))
        return v

    def good(self, i, k):
        return z3.And(z3.UGE(self.n - i, bv(k)), *[(self.u(i + j) & v32(0xC0)) == v32(0x80) for j in range(1, k)])

    def step_at(self, ex, st, g):
        """the step, simplified by what the path already decided (equal to step in st)"""
        if self.mode != 'utf8':
            return self.step(g)
        st = st.fork()
        st.assume(g['ok'])      # without it the step changes nothing
        if not ex.valid(st, z3.ULT(g['i'], self.n)):
            return self.step(g)
        i = g['i']
        for k in range(1, 7):
            if ex.valid(st, self.here(i, k)):
                good = self.good(i, k)
                good = z3.BoolVal(True) if ex.valid(st, good) else z3.BoolVal(False) if ex.valid(st, z3.Not(good)) else good
                n = {'i': z3.If(good, i + k, i), 'out': z3.If(good, g['out'] + 1, g['out']), 'ok': good,
                     'vk': z3.If(z3.And(good, g['out'] == K), self.val(i, k), g['vk'])}
                n = {c: z3.simplify(v) for c, v in n.items()}
                return z3.BoolVal(True), {c: z3.If(g['ok'], n[c], g[c]) for c in n}
        return self.step(g)

    def cases(self, g):
        return [({'ok': z3.BoolVal(True)}, 'while ok'), ({'ok': z3.BoolVal(False)}, None)]

    def init(self):
        return {'i': bv(0), 'out': bv(0), 'ok': z3.BoolVal(True), 'vk': v32(0)}

    def more(self, g):
        return z3.And(g['ok'], z3.ULT(g['i'], self.n))

    def nxt(self, g):
        n, good, val = self.decode(g['i'])
        return {'i': z3.If(good, g['i'] + n, g['i']), 'out': z3.If(good, g['out'] + 1, g['out']), 'ok': good,
                'vk': z3.If(z3.And(good, g['out'] == K), val, g['vk'])}

    def step(self, g):
        n, c = self.nxt(g), self.more(g)
        return z3.BoolVal(True), {k: z3.If(c, n[k], g[k]) for k in n}

    def args(self, g):
        return [g[c] for c in self.components]

    def app(self, g):
        return {c: f(*self.args(g)) for c, f in self.f.items()}

    def axiom(self, g):
        a, b = self.app(g), self.app(self.nxt(g))
        return z3.And(*[a[c] == z3.If(self.more(g), b[c], g[c]) for c in self.f])

    def lemma(self, g):
        c, n = self.step(g)
        a, b = self.app(g), self.app(n)
        return z3.Implies(z3.And(c, self.axiom(g)), z3.And(*[a[x] == b[x] for x in self.f]))

    def inv(self):
        return [('i in range', lambda g: z3.ULE(g['i'], self.n)), ('out behind i', lambda g: z3.ULE(g['out'], g['i'])),
                ('K not reached', lambda g: z3.Implies(z3.ULE(g['out'], K), g['vk'] == 0))] + ([
                    ('one by one', lambda g: z3.And(g['i'] == g['out'], g['ok'], z3.Implies(z3.ULT(K, g['out']), g['vk'] == self.u(K))))] if self.mode == 'plain' else [])

    def result(self, g):
        return self.app(g)


def encoding(spec, i, c):
    """the literal has the well-formed encoding of code point c at unit i: (predicate, units)"""
    u = spec.u
    cp = z3.And(z3.ULE(c, v32(0x10FFFF)), z3.Not(z3.And(z3.UGE(c, v32(0xD800)), z3.ULE(c, v32(0xDFFF)))))
    if spec.mode == 'plain':
        return u(i) == c, bv(1)
    if spec.mode == 'utf16':
        big = z3.UGE(c, v32(0x10000))
        d = c - v32(0x10000)
        e = z3.If(big, z3.And(u(i) == (v32(0xD800) | z3.LShR(d, 10)), u(i + 1) == (v32(0xDC00) | (d & v32(0x3FF)))), u(i) == c)
        return z3.And(cp, e, z3.ULE(z3.If(big, bv(2), bv(1)), spec.n - i)), z3.If(big, bv(2), bv(1))
    x = lambda hi, sh, m: (z3.LShR(c, sh) & v32(m)) | v32(hi)
    n = z3.If(z3.ULT(c, v32(0x80)), bv(1), z3.If(z3.ULT(c, v32(0x800)), bv(2), z3.If(z3.ULT(c, v32(0x10000)), bv(3), bv(4))))
    eq = lambda *bs: z3.And(*[u(i + k) == b for k, b in enumerate(bs)])
    e = z3.If(n == 1, eq(c), z3.If(n == 2, eq(x(0xC0, 6, 0x1F), x(0x80, 0, 0x3F)),
              z3.If(n == 3, eq(x(0xE0, 12, 0xF), x(0x80, 6, 0x3F), x(0x80, 0, 0x3F)), eq(x(0xF0, 18, 7), x(0x80, 12, 0x3F), x(0x80, 6, 0x3F), x(0x80, 0, 0x3F)))))
    return z3.And(cp, e, z3.ULE(n, spec.n - i)), n


class SameSpec:
    """is_same_as: first index from i at which two texts of length n differ"""
    components = ['i']
    stays = True

    def __init__(self, a, b, n):
        self.a, self.b, self.n = a, b, n
        self.f = z3.Function('SAME', BV64, z3.BoolSort())

    def init(self):
        return {'i': bv(0)}

    def eq(self, i):
        return z3.Select(self.a, i * 4) == z3.Select(self.b, i * 4)

    def step(self, g):
        return z3.And(g['i'] != self.n, self.eq(g['i'])), {'i': g['i'] + 1}

    nxt = lambda self, g: {'i': g['i'] + 1}

    def app(self, g):
        return {'same': self.f(g['i'])}

    def axiom(self, g):
        return self.f(g['i']) == z3.Or(g['i'] == self.n, z3.And(self.eq(g['i']), self.f(g['i'] + 1)))

    def lemma(self, g):
        c, n = self.step(g)
        return z3.Implies(z3.And(c, self.axiom(g)), self.f(g['i']) == self.f(n['i']))

    def inv(self):
        return [('i in range', lambda g: z3.ULE(g['i'], self.n))]

    def variant(self, gh, gb):
        return z3.ULT(gh['i'], gb['i'])

    def result(self, g):
        return self.app(g)


def fs_obj(st, name, n, nominal, writable, init):
    """a fixed_string of length n: content array, and the members behind it"""
    o = Obj('array', name, n * 4, elem=4, writable=writable)
    t = Obj('stack', name + '.tail', bv(16))
    o.tail = (nominal, t)
    arr = z3.Array('content_' + name, BV64, B32)
    st.mem[o.id] = arr
    size, ok = z3.BitVec('size_' + name, 64), z3.Bool('ok_' + name)
    st.mem[t.id] = {0: (8, size), 8: (1, z3.If(ok, bv(1, 8), bv(0, 8)))} if init else {}
    return o, t, arr, size, ok


def prove_fixed(m, entry, ctype, mode, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    st = State()
    st.assume(z3.And(z3.UGE(N, bv(1)), z3.ULT(N, bv(1 << 30))))
    st.assume(z3.And(z3.UGE(M, bv(1)), z3.ULT(M, bv(1 << 30))))
    st.assume(z3.ULT(K, bv(1 << 31)))
    if refute:
        st.assume(z3.And(z3.ULE(N, bv(2 * refute)), z3.ULE(M, bv(2 * refute))))
    es = SIZE[ctype]
    op = entry[2:]
    spec = None
    ctor = op in ('pointer', 'literal', 'array')
    inarr = z3.Array('literal', BV64, z3.BitVecSort(8 * es))
    if ctor:
        spec = DecodeSpec(mode, inarr, es, N)
    ocell, otail, oarr, osize, ook = fs_obj(st, 'o', N, NOMINAL, True, False)
    acell, atail, aarr, asize, aok = fs_obj(st, 'a', N, NOMINAL, False, True)
    st.assume(z3.ULE(asize, N))
    same_m = op == 'same'
    bcell, btail, barr, bsize, bok = fs_obj(st, 'b', M if same_m else N, NOMINAL2 if same_m else NOMINAL, False, True)
    st.assume(z3.ULE(bsize, M if same_m else N))
    if op in ('same', 'same1'):
        spec = SameSpec(aarr, barr, asize)
    if op == 'copy':
        spec = DecodeSpec('plain', aarr, 4, N)
    ex = Exec(m, subject=None, specs=spec, timeout_ms=timeout_ms, name=entry, max_time=max_time or 300, generalize={MAGIC: N, MAGIC2: M},
              loops=8 * refute + 4 if refute else 'inv', search=bool(refute))
    ex.rich = rich
    ex.single = mode == 'utf8'
    ex.stop_on_fail = (kinds or True) if refute else False

    def more_cands(locs, g0):
        out = []
        nums = [l for l, v in locs.items() if v is not None and not isinstance(v, (Ptr, list, Undef)) and z3.is_bv(v) and v.size() == 64]
        for l, v in locs.items():
            if isinstance(v, Ptr) and v.obj is ocell:
                out.append(('aligned %s' % l[1], lambda L, G, l=l: z3.And(z3.URem(L[l].off, bv(4)) == 0, z3.ULE(L[l].off, N * 4)) if isinstance(L[l], Ptr) else None))
                out.append(('below %s' % l[1], lambda L, G, l=l: z3.And(z3.URem(L[l].off, bv(4)) == 0, z3.ULT(L[l].off, N * 4)) if isinstance(L[l], Ptr) else None))
            if l == ('arr', ocell.id):
                for p, pv in locs.items():
                    if isinstance(pv, Ptr) and pv.obj is ocell:
                        out.append(('zero below %s' % p[1], lambda L, G, l=l, p=p: z3.Or(z3.ULE(L[p].off, K * 4), z3.UGE(K, N), z3.Select(L[l], K * 4) == 0)))
                if ctor or op == 'copy':
                    out.append(('content[K]', lambda L, G, l=l: z3.Implies(z3.And(G['ok'], z3.ULT(K, N)), z3.Select(L[l], K * 4) == G['vk'])))
                out.append(('zero', lambda L, G, l=l: z3.Or(z3.UGE(K, N), z3.Select(L[l], K * 4) == 0)))
        if ctor:
            for l, v in locs.items():
                if v is not None and not isinstance(v, (Ptr, list, Undef)) and z3.is_bv(v) and v.size() == 8:
                    out.append(('flag %s' % (l[1],), lambda L, G, l=l: L[l] == z3.If(G['ok'], bv(1, 8), bv(0, 8)) if L[l] is not None else None))
        if ctor or op == 'copy':
            for l in nums:
                for c in ('i', 'out'):
                    out.append(('while ok %s==%s' % (l[1], c), lambda L, G, l=l, c=c: z3.Implies(G['ok'], L[l] == G[c]) if L[l] is not None else None, (l, c, 'while ok')))
                out.append(('small %s' % (l[1],), lambda L, G, l=l: z3.ULE(L[l], N + 8) if L[l] is not None else None))
                for k in nums:
                    if k != l:
                        out.append(('%s<=%s' % (k[1], l[1]), lambda L, G, l=l, k=k: z3.ULE(L[k], L[l]) if L[k] is not None and L[l] is not None else None))
        return out
    ex.more_cands = more_cands
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    inp = Obj('array', 'in', N * es, elem=es)
    st.mem[inp.id] = inarr
    A = lambda o: Ptr(o, bv(0))
    O = lambda s2, g, k: ex.oblige(s2, g, k, entry)
    if spec:
        st.ghost = spec.init()
        l = State()
        l.pc = list(st.pc)
        g = {c: fresh('l', v.sort()) for c, v in spec.init().items()}
        O(l, spec.lemma(g), 'lemma:tail-step')
        if ctor:
            l = State()
            l.pc = list(st.pc)
            i, c = fresh('i', BV64), fresh('c', B32)
            l.assume(z3.ULT(i, N))
            e, n = encoding(spec, i, c)
            d = spec.decode(i)
            l.assume(e)
            O(l, z3.And(d[1], d[0] == n, d[2] == c), 'lemma:well-formed')
    outp, lenp = Obj('stack', 'out', bv(8)), Obj('stack', 'len', bv(8))
    st.mem[outp.id], st.mem[lenp.id] = {}, {}
    ix = z3.BitVec('ix', 64)
    if ctor:
        args = [A(ocell), A(inp)]
    elif op == 'copy':
        args = [A(ocell), A(acell)]
    elif op in ('same', 'same1'):
        args = [A(acell), A(bcell)]
    elif op == 'at':
        st.assume(z3.ULT(ix, asize))
        args = [A(acell), ix]
    elif op == 'view':
        args = [A(acell), A(outp), A(lenp)]
    elif entry.startswith('z_'):
        args = [A(Obj('stack', 'z', bv(1)))]
        st.mem[args[0].obj.id] = {}
    else:
        args = [A(acell)]
    B = lambda v: v if z3.is_bool(v) else v != 0
    cnt = 0
    try:
        for s2, rv in ex.run(st, entry, args):
            cnt += 1
            if spec:
                g = s2.ghost
                for _ in range(2 * refute + 3 if refute else 3):
                    s2.assume(spec.axiom(g))
                    g = spec.nxt(g)
                if refute:
                    g = spec.init()
                    for _ in range(2 * refute + 2):
                        s2.assume(spec.axiom(g))
                        g = spec.nxt(g)
                else:
                    a, b = spec.app(spec.init()), spec.app(s2.ghost)
                    s2.assume(z3.And(*[a[c] == b[c] for c in a]))   # by lemma:tail-step along the path
                want = spec.app(spec.init())
            if ctor or op == 'copy':
                size = ex.load(s2, Ptr(otail, bv(0)), ir.I64, 'result')
                ok = ex.load(s2, Ptr(otail, bv(8)), ir.IntTy(8), 'result') != 0
                at = z3.Select(s2.mem[ocell.id], K * 4)
                if ctor:
                    O(s2, ok == want['ok'], 'post:well-formed-flag')
                    O(s2, z3.Implies(want['ok'], size == want['out']), 'post:size')
                    O(s2, z3.Implies(z3.And(want['ok'], z3.ULT(K, N)), at == want['vk']), 'post:code-points')
                    O(s2, z3.ULE(size, N), 'post:size-bound')
                else:
                    O(s2, z3.And(ok == aok, size == asize), 'post:size')
                    O(s2, z3.Implies(z3.ULT(K, asize), at == z3.Select(aarr, K * 4)), 'post:code-points')
            elif op in ('same', 'same1'):
                O(s2, B(rv) == z3.And(asize == bsize, want['same']), 'post:equality')
            elif entry == 'z_size':
                O(s2, rv == 0, 'post:size')
            elif entry.startswith('z_'):
                O(s2, B(rv), 'post:empty')
            elif op == 'size':
                O(s2, rv == asize, 'post:size')
            elif op == 'correct':
                O(s2, B(rv) == aok, 'post:correct')
            elif op == 'begin':
                O(s2, z3.And(z3.BoolVal(rv.obj is acell), rv.off == 0), 'post:begin')
            elif op == 'end':
                O(s2, z3.And(z3.BoolVal(rv.obj is acell), rv.off == asize * 4), 'post:end')
            elif op == 'at':
                O(s2, rv == z3.Select(aarr, ix * 4), 'post:code-point')
            elif op == 'view':
                p = ex.load(s2, A(outp), ir.PTR, 'result')
                O(s2, z3.And(z3.BoolVal(p.obj is acell), p.off == 0, ex.load(s2, A(lenp), ir.I64, 'result') == asize), 'post:view')
            else:
                raise ToolError('no contract for ' + entry)
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = cnt, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


def fixed_jobs(m, ctype, mode, unit):
    return [Job(unit, n, lambda n=n, **kw: prove_fixed(m, n, ctype, mode, **kw), n) for n in m.funcs if n.startswith(('f_', 'z_'))]
