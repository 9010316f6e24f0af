"""Contracts of regex_results and its captures (units/results.cpp): every conversion and comparison describes the same characters
of the subject. The standard library is behind assumed contracts: char_traits::compare, the constructors of basic_string from a
range of characters, from_chars and the output of a character range into a stream."""
import time
import z3
from .sym import *
from . import ir
from .engine import Result
from .jobs import Job

SIZE = {'char': 1, 'char8_t': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4}
EQ = z3.Function('EQ', BV64, BV64, BV64, z3.BoolSort())
NUM = {32: z3.Function('NUM32', BV64, BV64, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32)), 64: z3.Function('NUM64', BV64, BV64, z3.BitVecSort(32), BV64, BV64)}


def prove_result(m, entry, ctype, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    es = SIZE[ctype]
    op, g = entry.split('_')[0] if not entry.startswith(('unit_size', 'count', 'none')) else entry[:entry.index('_', 5)] if entry.startswith('unit') else entry[:5].strip('_'), entry.split('_')[-1]
    st = State()
    L, n, k = z3.BitVec('len', 64), z3.BitVec('n', 64), None
    st.assume(z3.ULT(L, bv(1 << 40)))
    st.assume(z3.ULT(n, bv(1 << 40)))
    al = lambda x: z3.And(z3.ULE(x, L), (x & bv(es - 1)) == 0)
    st.assume(al(L))
    b = [z3.BitVec('b%d' % i, 64) for i in range(3)]
    e = [z3.BitVec('e%d' % i, 64) for i in range(3)]
    mt = [z3.Bool('m%d' % i) for i in range(3)]
    for i in range(3):
        st.assume(z3.And(al(b[i]), al(e[i]), z3.Implies(mt[i], z3.ULE(b[i], e[i]))))
    subj, text = Obj('array', 'subject', L, elem=es), Obj('array', 'text', n * es, elem=es)
    for o in (subj, text):
        st.mem[o.id] = z3.Array('chars_' + o.name, BV64, z3.BitVecSort(8 * es))
    inp = Obj('stack', 'in', bv(72))
    cells = {}
    for i in range(3):
        cells[8 * i] = (8, Ptr(subj, b[i]))
        cells[24 + 8 * i] = (8, Ptr(subj, e[i]))
        cells[48 + i] = (1, z3.If(mt[i], bv(1, 8), bv(0, 8)))
    cells[56], cells[64] = (8, Ptr(subj, bv(0))), (8, Ptr(subj, L))
    st.mem[inp.id] = cells
    outp, hasp, stream = Obj('stack', 'out', bv(64)), Obj('stack', 'has', bv(1)), Obj('stack', 'stream', bv(512))
    for o in (outp, hasp, stream):
        st.mem[o.id] = {}
    dem = lambda x: m.demangled.get(x, x)
    heap = {}

    def compare(ex, s, name, a, where):
        x, y, c = a
        if name in ('memcmp', 'bcmp') and es > 1:
            ex.oblige(s, c & bv(es - 1) == 0, 'compare-whole-characters', where)
            c = z3.LShR(c, bv(es.bit_length() - 1))
        if x.obj is text and y.obj is subj:
            x, y = y, x
        r = fresh('cmp', z3.BitVecSort(32))
        if x.obj is subj and y.obj is text:
            ex.oblige(s, z3.And(z3.ULE(c, n), z3.ULE(x.off, L), z3.ULE(c * es, L - x.off), z3.ULE(c, bv(1 << 41))), 'compare-in-bounds', where)
            s.assume((r == 0) == z3.Or(c == 0, EQ(x.off, y.off, c)))
        elif x.obj.kind != 'null' and y.obj.kind != 'null':
            raise ToolError('comparison of other texts')
        else:
            ex.oblige(s, c == 0, 'compare-in-bounds', where)
            s.assume(r == 0)
        yield s, r

    def make_string(ex, s, this, p, cnt, where):
        if p.obj.kind == 'null':
            p = Ptr(subj, p.off)
        if p.obj is not subj:
            raise ToolError('string of another text')
        ex.oblige(s, z3.And(z3.ULE(p.off, L), z3.ULE(cnt, bv(1 << 41)), z3.ULE(cnt * es, L - p.off)), 'string-in-bounds', where)
        o = Obj('array', 'heap', cnt * es, elem=es, writable=True)
        s.mem[o.id] = fresh('heap', z3.ArraySort(BV64, z3.BitVecSort(8 * es)))
        heap[o.id] = (p.off, cnt)
        ex.store(s, this, ir.PTR, Ptr(o, bv(0)), where)
        ex.store(s, Ptr(this.obj, this.off + 8), ir.I64, cnt, where)
        yield s, None

    def string_n(ex, s, name, a, where):
        yield from make_string(ex, s, a[0], a[1], a[2], where)

    def string_it(ex, s, name, a, where):
        x, y = a[1], a[2]
        if isinstance(x, list):
            x, y = x[0], y[0]
        if y.obj.kind == 'null' or x.obj.kind == 'null':
            raise ToolError('string of a null range')
        ex.oblige(s, z3.And(z3.ULE(x.off, y.off)), 'string-in-bounds', where)
        yield from make_string(ex, s, a[0], x, (y.off - x.off) / bv(es) if es > 1 else y.off - x.off, where)

    def nothing(ex, s, name, a, where):
        yield s, None

    def from_chars(ex, s, name, a, where):
        p, q, r, base = a
        w = 64 if dem(name).split('std::from_chars<')[1].startswith('long') else 32
        ty = ir.IntTy(w)
        if p.obj is not subj or q.obj is not subj:
            raise ToolError('number of another text')
        ex.oblige(s, z3.And(z3.ULE(p.off, q.off), z3.ULE(q.off, L)), 'number-in-bounds', where)
        old = ex.load(s, r, ty, where)
        ex.store(s, r, ty, NUM[w](p.off, q.off, base, old), where)
        yield s, [p, fresh('ec', z3.BitVecSort(32))]

    def insert(ex, s, name, a, where):
        s.flags['out'] = s.flags.get('out', ()) + ((a[0], a[1], a[2]),)
        yield s, a[0]
    STR = 'std::__cxx11::basic_string<'
    is_ctor = lambda d: d.startswith(STR) and '>::basic_string' in d
    tail = lambda d: d[d.index('>::basic_string') + 15:] if '>::basic_string' in d else ''

    def p_it(x):
        d = dem(x)
        return is_ctor(d) and tail(d).startswith('<') and not any(w in tail(d) for w in ('string_view', 'ctre::captured', 'ctre::regex_results')) and tail(d).count(',') >= 3
    handlers = [
        (lambda x: dem(x).startswith('std::char_traits<') and '::compare(' in dem(x) or x in ('memcmp', 'bcmp', 'wmemcmp'), compare),
        (lambda x: is_ctor(dem(x)) and '*, unsigned long, std::allocator' in dem(x), string_n),
        (p_it, string_it),
        (lambda x: dem(x).startswith(STR) and '::~basic_string' in dem(x) or 'std::allocator<' in dem(x).split('(')[0] and '::allocator(' in dem(x) or '::~allocator()' in dem(x) or dem(x).startswith('std::__new_allocator'), nothing),
        (lambda x: 'std::from_chars<' in dem(x), from_chars),
        (lambda x: '__ostream_insert' in dem(x), insert),
    ]
    ex = Exec(m, subject=None, handlers=handlers, timeout_ms=timeout_ms, name=entry, max_time=max_time or 60, loops=40, search=bool(refute))
    ex.stop_on_fail = (kinds or True) if refute else False
    A = lambda o: Ptr(o, bv(0))
    i = int(g[0]) if g[0].isdigit() and op not in ('none', 'count') else 0
    needs_match = op in ('begin', 'end', 'size', 'unit_size', 'data', 'dataunsafe', 'toview', 'view', 'asview', 'strobj', 'str', 'asstr', 'num', 'num16', 'out')
    if needs_match:
        st.assume(mt[i])
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    args = [A(inp)]
    if op in ('toview', 'view', 'asview', 'strobj', 'str', 'asstr'):
        args += [A(outp)]
    elif op in ('oview', 'asoview', 'ostr'):
        args += [A(outp), A(hasp)]
    elif op in ('onum', 'onum16'):
        args += [A(hasp)]
    elif op in ('eq', 'ne', 'eqr', 'ner'):
        args += [A(text), n]
    elif op == 'out':
        args += [A(stream)]
    elif op in ('none', 'count'):
        args = []
    B = lambda v: v if z3.is_bool(v) else v != 0
    O = lambda s, gl, kd: ex.oblige(s, gl, kd, entry)
    size = (e[i] - b[i]) / bv(es) if es > 1 else e[i] - b[i]
    eq = z3.And(mt[i], size == n, z3.Or(n == 0, EQ(b[i], bv(0), n)))
    at = lambda p, o: z3.BoolVal(False) if not isinstance(p, Ptr) or p.obj is not subj else p.off == o

    def view_is(s):
        p, c = ex.load(s, Ptr(outp, bv(8)), ir.PTR, 'result'), ex.load(s, A(outp), ir.I64, 'result')
        return z3.And(at(p, b[i]), c == size)

    def string_is(s):
        p, c = ex.load(s, A(outp), ir.PTR, 'result'), ex.load(s, Ptr(outp, bv(8)), ir.I64, 'result')
        if not isinstance(p, Ptr) or p.obj.id not in heap:
            return z3.BoolVal(False)
        o, cnt = heap[p.obj.id]
        return z3.And(p.off == 0, o == b[i], cnt == size, c == size)
    cnt = 0
    try:
        for s2, rv in ex.run(st, entry, args):
            cnt += 1
            if op == 'bool':
                O(s2, B(rv) == mt[i], 'post:bool')
            elif op == 'neg':
                O(s2, B(rv) != mt[i], 'post:bool')
            elif op == 'begin':
                O(s2, at(rv, b[i]), 'post:begin')
            elif op == 'end':
                O(s2, at(rv, e[i]), 'post:end')
            elif op in ('size', 'unit_size'):
                O(s2, rv == size, 'post:size')
            elif op in ('data', 'dataunsafe'):
                O(s2, at(rv, b[i]), 'post:data')
            elif op in ('toview', 'view', 'asview'):
                O(s2, view_is(s2), 'post:view')
            elif op in ('strobj', 'str', 'asstr'):
                O(s2, string_is(s2), 'post:string')
            elif op in ('oview', 'asoview', 'ostr', 'onum', 'onum16'):
                has = ex.load(s2, A(hasp), ir.IntTy(8), 'result') != 0
                O(s2, has == mt[i], 'post:empty-when-unmatched')
                if ex.feasible(s2, mt[i]):
                    s2.assume(mt[i])
                    if op in ('onum', 'onum16'):
                        w = 32 if op == 'onum' else 64
                        O(s2, rv == NUM[w](b[i], e[i], bv(10 if w == 32 else 16, 32), bv(0, w)), 'post:number')
                    else:
                        O(s2, string_is(s2) if op == 'ostr' else view_is(s2), 'post:optional-value')
            elif op in ('num', 'num16'):
                w = 32 if op == 'num' else 64
                O(s2, rv == NUM[w](b[i], e[i], bv(10 if w == 32 else 16, 32), bv(0, w)), 'post:number')
            elif op in ('eq', 'eqr'):
                O(s2, B(rv) == eq, 'post:equal')
            elif op in ('ne', 'ner'):
                O(s2, B(rv) == z3.Not(eq), 'post:not-equal')
            elif op == 'out':
                w = s2.flags.get('out', ())
                O(s2, z3.And(z3.BoolVal(len(w) == 1 and w[0][0].obj is stream), at(w[0][1], b[i]), w[0][2] == size) if w else z3.BoolVal(False), 'post:output')
            elif op == 'count':
                O(s2, rv == 3, 'post:count')
            elif op == 'none':
                O(s2, z3.Not(B(rv)), 'post:unmatched')
            else:
                raise ToolError('no contract for ' + entry)
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as x:
        res.error = str(x)
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = cnt, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


def result_jobs(m, ctype, unit):
    return [Job(unit, f, lambda f=f, **kw: prove_result(m, f, ctype, **kw), f) for f in m.funcs if '_' in f and f.split('_')[-1] in
            ('0r', '0g', '1g', '2g', '2s', '2t', '1f', '0b', '1b', '2b', '1c', '0c', 'r', '1', '2', '3', '4') and not f.startswith('_')]
