"""Contracts of the Unicode property atoms (units/unicode.cpp).

1. every lookup function of a table: in bounds of every array for every 32-bit value, and the answer is the one the table's format
   defines (range_array / compact_range: the entry with the greatest key not above the code point; flat_array: listed; bool_trie: the
   bit the three levels select). Proved over the data as an uninterpreted function of which only ordering and range facts are used;
   those facts are evaluated on the data themselves.
2. every property (match_char): the combination of table answers its definition states, with the lookups behind their contracts.
3. every table: the code points it lists, decoded by the format's definition, are those of the Unicode 14 reference (ref/ucd14.json).
Together: match_char accepts exactly the code points of the reference, for all code points."""
import json
import os
import re
import time
import numpy
import z3
from .sym import *
from . import ir, build
from .engine import Result
from .jobs import Job
from .points import fill

C32 = z3.BitVec('cp', 32)
MAXCP = 0x10FFFF
REF = os.path.join(build.VERIF, 'ref', 'ucd14.json')
_ref = []


def ref():
    if not _ref:
        _ref.append(json.load(open(REF)))
    return _ref[0]


# ------------------------------------------------------------------------------------------------ tables
class Table:
    """a constant global: kind, template arguments, and its arrays (name, offset, element size, length)"""

    def __init__(self, m, g, kind, args):
        self.g, self.kind, self.args = g, kind, args
        self.name = short(g)
        if kind == 'bool_trie':
            r1, r2s, f2, b2, r3s, r4s, f4, b4, r5s, f5, b5, r6s = args
            self.fields, off = {}, 0
            for n, es, ln in (('r1', 8, 32), ('r2', 1, r2s), ('r3', 8, r3s), ('r4', 1, r4s), ('r5', 1, r5s), ('r6', 8, r6s)):
                al = es if ln else 8
                off = (off + al - 1) // al * al
                self.fields[n] = (off, es, ln)
                off += es * ln if ln else 8
        else:
            self.fields = {'data': (0, 4, args[-1])}

    def load(self, m):
        """the data, field by field (from the IR constant)"""
        ex = Exec(m, subject=None, name='data')
        cells = ex.const_cells(ex.global_ptr(self.g).obj)
        self.data = {f: [cells[off + i * es][1].as_long() for i in range(ln)] for f, (off, es, ln) in self.fields.items()}
        return self


def short(g):
    x = re.match(r'_ZN3uni6detail6tables(?:L\d+(\w+)E|11script_dataI(?:TnDa)?Li(\d+)EE12scripts_dataE)$', g)
    return x and (x.group(1) or 'script_data%s' % x.group(2))


def table_kind(dem):
    x = re.match(r'uni::detail::(bool_trie|flat_array|range_array|compact_range|compact_list)<(.*?)>::(lookup|value)\(char32_t', dem)
    if not x:
        return None
    return x.group(1), [int(n) for n in re.findall(r'(?:\(short\))?(-?\d+)(?:ul)?', re.sub(r'^(int|unsigned int), ', '', x.group(2)))]


class TabExec(Exec):
    """loads from a table's data yield T(offset) together with the facts that hold of the data"""
    tables = {}
    facts = None

    def load_const(self, st, o, off, ty, where):
        t = self.tables.get(o.name)
        c = self.const_off(off)
        if t is None or c is not None:
            v = super().load_const(st, o, off, ty, where)
            if t is not None and c is not None and z3.is_bv(v):
                st.assume(T(t, ty.store_size())(bv(c)) == v)
            if t is not None and c is not None and self.facts:
                for f in self.facts(t, z3.BitVecVal(c, 64), v):
                    st.assume(f)
            return v
        size = ty.store_size()
        fs = [(a, n) for a, es, n in t.fields.values() if es == size and n]
        self.oblige(st, z3.Or(*[z3.And(z3.UGE(off, bv(a)), z3.ULT(off, bv(a + size * n)), ((off - bv(a)) & (size - 1)) == 0) for a, n in fs]), 'table-bounds', where, t.name)
        v = T(t, size)(off)
        for f, (a, es, n) in t.fields.items():
            if es == size and n:
                st.assume(z3.Implies(z3.And(z3.UGE(off, bv(a)), z3.ULT(off, bv(a + es * n))), z3.And(z3.UGE(v, bv(min(t.data[f]), 8 * es)), z3.ULE(v, bv(max(t.data[f]), 8 * es)))))
        if self.facts:
            for f in self.facts(t, off, v):
                st.assume(f)
        return self.coerce(v, ty)


def T(t, size):
    return z3.Function('%s.%d' % (t.name, size), BV64, z3.BitVecSort(8 * size))


def find_tables(m):
    """(table, function) for every table whose lookup function is called on it"""
    fns = {}
    for n in m.funcs:
        k = table_kind(m.demangled[n])
        if k and m.demangled[n].endswith('const'):
            fns[n] = k
    out = {}
    for n in m.funcs:
        for b in m.funcs[n].blocks.values():
            for ins in b.instrs:
                if ins.op == 'call':
                    callee, args = called(ins)
                    if callee in fns and args:
                        out[args[0]] = (Table(m, args[0], *fns[callee]), callee)
    for n in m.funcs:
        if m.demangled[n] == 'uni::cp_block(char32_t)':
            g = [g for g in m.globals if short(g) == 'block_data']
            if g:
                const, ty, init = m.parser.global_init(g[0])
                out[g[0]] = (Table(m, g[0], 'block', [ty.size() // 4]), n)
    return {g: (t.load(m), f) for g, (t, f) in out.items() if t.name}


def sorted_keys(t):
    k = [v >> 8 for v in t.data['data']]
    return all(a < b for a, b in zip(k, k[1:]))


# ------------------------------------------------------------------------------------------------ what a table says
def z_ranges(t, P):
    """(found, entry): the last entry whose key is not above the code point; what is behind the last entry is not in the table"""
    n = t.args[-1]
    return P != bv(n), T(t, 4)(4 * (P - 1))


def z_trie(t, c):
    r1, r2s, f2, b2, r3s, r4s, f4, b4, r5s, f5, b5, r6s = t.args
    c64 = z3.ZeroExt(32, c)
    at = lambda f, i: T(t, t.fields[f][1])(bv(t.fields[f][0]) + i * t.fields[f][1])
    bit = lambda w: z3.Extract(0, 0, z3.LShR(w, c64 & 63)) == 1
    within = lambda i, f, n: z3.And(z3.UGE(i, bv(f)), z3.ULT(i, bv(f + n)))
    hi = z3.LShR(c64, 6)
    z8 = lambda v: z3.ZeroExt(56, v)
    low = bit(at('r1', hi)) if r1 else z3.BoolVal(False)
    mid = high = z3.BoolVal(False)
    if r3s:
        i = hi - 0x20
        mid = bit(at('r3', z3.If(within(i, f2, r2s), z8(at('r2', i - f2)), bv(0))))
    if r6s:
        i4 = z3.LShR(c64, 12) - 0x10
        child = z3.If(within(i4, f4, r4s), z8(at('r4', i4 - f4)), bv(0)) if r4s else bv(0)
        i5 = child * 64 + (hi & 63)
        leaf = z3.If(within(i5, f5, r5s), z8(at('r5', i5 - f5)), bv(0)) if r5s else bv(0)
        high = bit(at('r6', leaf))
    return z3.If(z3.ULT(c, bv(0x800, 32)), low, z3.If(z3.ULT(c, bv(0x10000, 32)), mid, high))


def prove_lookup(m, tables, g, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    t, fn = tables[g]
    res = Result(t.name)
    st = State()
    P, W, M = z3.BitVec('P', 64), z3.BitVec('W', 64), z3.Bool('listed')
    c64 = z3.ZeroExt(32, C32)
    flat = t.kind == 'flat_array'
    n = t.args[-1]
    ordered = t.kind in ('range_array', 'compact_range', 'block') and sorted_keys(t)
    if flat:
        st.assume(z3.Implies(M, z3.And(z3.ULT(W, bv(n)), T(t, 4)(4 * W) == C32)))
        fsort = t.data['data'] == sorted(t.data['data'])

        def facts(t2, off, v):
            i = z3.LShR(off, 2)
            yield z3.Or(M, v != C32)
            if fsort:
                yield z3.ULT(i, P) == z3.ULT(v, C32)
                yield z3.Implies(M, z3.And(P == W, z3.ULT(P, bv(n)), T(t, 4)(4 * P) == C32))
        if fsort:
            st.assume(z3.ULE(P, bv(n)))
    elif ordered:
        st.assume(z3.ULE(P, bv(n)))

        def facts(t2, off, v):
            yield z3.ULT(z3.LShR(off, 2), P) == z3.ULE(z3.LShR(v, 8), C32)
        if t.data['data'][0] >> 8 == 0:
            st.assume(z3.UGE(P, bv(1)))
    else:
        facts = None
    ex = TabExec(m, subject=None, timeout_ms=timeout_ms, name=t.name, max_time=max_time or 120, loops=70 if refute else 'inv', search=bool(refute))
    ex.tables, ex.facts, ex.rich = {g: t}, facts, True
    ex.stop_on_fail = (kinds or True) if refute else False
    size = bv(4 * n)

    def more_cands(locs, g0):
        out = []
        ptrs = [q for q, v in locs.items() if isinstance(v, Ptr) and v.obj.name == g]
        nums = [q for q, v in locs.items() if v is not None and not isinstance(v, (Ptr, list, Undef)) and z3.is_bv(v) and v.size() == 64]
        here = lambda p: isinstance(p, Ptr) and p.obj.name == g
        if t.kind == 'bool_trie':
            return out
        for p in ptrs:
            out.append(('in %s' % p[1], lambda L, G, p=p: z3.And(z3.ULE(L[p].off, size), (L[p].off & 3) == 0) if here(L[p]) else None))
            out.append(('not behind P %s' % p[1], lambda L, G, p=p: z3.ULE(L[p].off, 4 * P) if here(L[p]) else None))
            out.append(('not behind W %s' % p[1], lambda L, G, p=p: z3.Implies(M, z3.ULE(L[p].off, 4 * W)) if here(L[p]) else None))
            for q in nums:
                out.append(('%s + %s in' % (p[1], q[1]), lambda L, G, p=p, q=q: z3.And(z3.ULE(L[q], bv(n)), z3.ULE(L[p].off + 4 * L[q], size)) if here(L[p]) else None))
                out.append(('P not behind %s + %s' % (p[1], q[1]), lambda L, G, p=p, q=q: z3.ULE(4 * P, L[p].off + 4 * L[q]) if here(L[p]) else None))
        for q in nums:
            out.append(('index %s' % q[1], lambda L, G, q=q: z3.ULE(L[q], bv(n))))
            out.append(('index not behind P %s' % q[1], lambda L, G, q=q: z3.ULE(L[q], P)))
            out.append(('index P not behind %s' % q[1], lambda L, G, q=q: z3.ULE(P, L[q])))
            out.append(('index not behind W %s' % q[1], lambda L, G, q=q: z3.Implies(M, z3.ULE(L[q], W))))
        return out
    ex.more_cands = more_cands
    cnt = 0
    dflt = z3.BitVec('default', 32)
    try:
        gp = ex.global_ptr(g)
        args = [C32] if t.kind == 'block' else [gp, C32] + ([dflt] if t.kind == 'compact_range' else [])
        if t.kind != 'bool_trie' and not flat and not ordered:
            raise ToolError('the entries of %s are not in order' % t.name)
        for s2, rv in ex.run(st, fn, args):
            cnt += 1
            O = lambda g_, k: ex.oblige(s2, g_, k, t.name)
            b = rv if z3.is_bool(rv) else rv != 0
            if t.kind == 'bool_trie':
                O(b == z_trie(t, C32), 'post:listed')
            elif flat:
                O(b == M, 'post:listed')
            else:
                found, e = z_ranges(t, P)
                if t.kind == 'range_array':
                    O(b == z3.And(found, (e & 0xFF) != 0), 'post:listed')
                elif t.kind == 'compact_range':
                    O(rv == z3.If(found, e & 0xFF, dflt), 'post:value')
                else:
                    k = e & 0xFF
                    O(rv == z3.If(z3.And(found, k != 0), z3.Extract(31, 0, P - 1) - (k - 1) + 1, bv(0, 32)), 'post:value')
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    return fill(res, ex, cnt, t0)


# ------------------------------------------------------------------------------------------------ decoding the data
def listed(t):
    """the code points a table lists, by the definition of its format (numpy array of bool / of values)"""
    import numpy as np
    N = MAXCP + 1
    if t.kind == 'flat_array':
        a = np.zeros(N, bool)
        for v in t.data['data']:
            a[v] = True
        return a
    if t.kind == 'bool_trie':
        r1, r2s, f2, b2, r3s, r4s, f4, b4, r5s, f5, b5, r6s = t.args
        c = np.arange(N)
        word = np.zeros(N, np.uint64)

        def get(f, i, first, n):
            d = np.array(t.data[f] or [0])
            j = i - first
            return np.where((j >= 0) & (j < n), d[np.clip(j, 0, max(0, n - 1))], 0) if n else np.zeros(len(i), int)
        lo, mid, hi = c < 0x800, (c >= 0x800) & (c < 0x10000), c >= 0x10000
        if r1:
            word[lo] = np.array(t.data['r1'], np.uint64)[c[lo] >> 6]
        if r3s:
            word[mid] = np.array(t.data['r3'], np.uint64)[get('r2', (c[mid] >> 6) - 0x20, f2, r2s)]
        if r6s:
            i5 = get('r4', (c[hi] >> 12) - 0x10, f4, r4s) * 64 + ((c[hi] >> 6) & 63)
            word[hi] = np.array(t.data['r6'], np.uint64)[get('r5', i5, f5, r5s)]
        return ((word >> (c & 63).astype(np.uint64)) & np.uint64(1)).astype(bool)
    d = t.data['data']
    a = np.zeros(N, np.int64)
    a[:] = -1       # not in the table
    for i, e in enumerate(d[:-1]):
        k = e & 0xFF
        a[e >> 8:d[i + 1] >> 8] = k if t.kind != 'block' else (0 if k == 0 else i - (k - 1) + 1)
    return a > 0 if t.kind == 'range_array' else a


def runs(a):
    """[start, value] of the maximal runs"""
    import numpy as np
    cut = [0] + [int(x) + 1 for x in np.nonzero(a[1:] != a[:-1])[0]]
    return [[x, int(a[x])] for x in cut]


def unruns(r):
    import numpy as np
    a = np.zeros(MAXCP + 1, np.int64)
    for (x, v), (y, _) in zip(r, r[1:] + [[MAXCP + 1, 0]]):
        a[x:y] = v
    return a


class Ground:
    def __init__(self, name, kind, ok, detail):
        self.name, self.kind, self.status, self.model, self.detail = name, kind, 'trivial' if ok else 'failed', None, detail


def prove_data(m, tables, g, ids, **kw):
    t0 = time.time()
    t, fn = tables[g]
    res = Result(t.name)
    want = ref()['tables'].get(t.name)
    res.paths, res.functions, res.queries, res.cuts, res.inv = 1, [fn], 0, 0, {}
    obls = []
    if want is None:
        res.error = 'no reference for table %s' % t.name
    elif t.kind != 'bool_trie' and t.kind != 'flat_array' and not sorted_keys(t):
        obls.append(Ground('entries in order', 'data:order', False, t.name))
    else:
        a = listed(t)
        if t.kind in ('compact_range', 'block'):
            names = {v: k for k, v in ids.items()}
            fam = 'ag' if 'age' in t.name else 'bk' if t.kind == 'block' else 'sc'
            none = {'sc': ids['id_sc_zzzz'], 'ag': 0, 'bk': 0}[fam]
            w = unruns([[x, none if v is None else ids['id_%s_%s' % (fam, v)]] for x, v in want])
            a = __import__('numpy').where(a < 0, none, a)
        else:
            w = unruns(want) > 0
            obls.append(Ground('arrays', 'data:format', all(len(t.data[f]) == n for f, (o, s, n) in t.fields.items()), t.name))
        bad = (a != w).nonzero()[0]
        obls.append(Ground('listed code points', 'data:reference', len(bad) == 0, '%s: U+%04X %s' % (t.name, int(bad[0]) if len(bad) else 0, 'and %d more' % (len(bad) - 1) if len(bad) else '')))
    res.obls, res.time = obls, time.time() - t0
    return res


# ------------------------------------------------------------------------------------------------ properties
CATS = 'cc cf co cs ll lm lo lt lu mc me mn nd nl no pc pd pe pf pi po ps sc sk sm so zl zp zs'.split()
CI = [0x27, 0x2E, 0x3A, 0xB7, 0x387, 0x55F, 0x5F4, 0x2018, 0x2019, 0x2024, 0x2027, 0xFE13, 0xFE52, 0xFE55, 0xFF07, 0xFF0E, 0xFF1A]


class Defs:
    """definition of every property over the tables; A supplies tab(name), val(table), Or, And, Not, le, eq, band"""

    def __init__(self, A, names):
        self.A, self.names = A, names

    def cat(self, *x):
        return self.A.Or(*[self.A.tab('cat_' + y) for y in x])

    def prop(self, *x):
        return self.A.Or(*[self.A.tab('prop_%s_data' % y) for y in x])

    def get(self, p):
        A, cat, prop = self.A, self.cat, self.prop
        letter = cat('lu', 'll', 'lt', 'lm', 'lo')
        if p in CATS:
            return cat(p)
        comp = {'l': 'l', 'm': 'm', 'n': 'n', 'p': 'p', 's': 's', 'z': 'z'}
        if p in comp:
            return cat(*[x for x in CATS if x[0] == p])
        if p == 'lc':
            return cat('lu', 'll', 'lt')
        if p == 'cn':
            return A.Not(cat(*CATS))
        if p == 'c':
            return A.Or(cat('cc', 'cf', 'co', 'cs'), self.get('cn'))
        lower, upper = A.Or(cat('ll'), prop('olower')), A.Or(cat('lu'), prop('oupper'))
        if p == 'lower':
            return lower
        if p == 'upper':
            return upper
        if p == 'cased':
            return A.Or(lower, upper, cat('lt'))
        if p == 'math':
            return A.Or(cat('sm'), prop('omath'))
        if p == 'gr_ext':
            return A.Or(cat('me', 'mn'), prop('ogr_ext'))
        if p == 'ci':
            return A.Or(cat('mn', 'me', 'cf', 'lm', 'sk'), *[A.eq(c) for c in CI])
        if p == 'ids':
            return A.And(A.Or(letter, cat('nl'), prop('oids')), A.Not(prop('pat_syn', 'pat_ws')))
        if p == 'idc':
            return A.And(A.Or(letter, cat('nl', 'mn', 'mc', 'nd', 'pc'), prop('oids', 'oidc')), A.Not(prop('pat_syn', 'pat_ws')))
        if p == 'di':
            return A.And(A.Or(prop('odi', 'vs'), cat('cf')), A.Not(A.Or(A.within(0xFFF9, 0xFFFB), A.within(0x13430, 0x13438), prop('wspace', 'pcm'))))
        if p == 'nchar':
            return A.Or(A.within(0xFDD0, 0xFDEF), A.last2())
        if p == 'any':
            return A.within(0, MAXCP)
        if p == 'ascii':
            return A.within(0, 0x7F)
        if p == 'assigned':
            return A.tab('prop_assigned')
        if p in self.names:
            return A.script(0, p)
        return prop(p)


def mem(name):
    return z3.Function('in.' + name, z3.BitVecSort(32), z3.BoolSort())


def val(name):
    return z3.Function('found.' + name, z3.BitVecSort(32), z3.BoolSort()), z3.Function('value.' + name, z3.BitVecSort(32), z3.BitVecSort(32))


class ZA:
    """definitions as formulas over the contracts of the lookups"""
    Or, And, Not = staticmethod(z3.Or), staticmethod(z3.And), staticmethod(z3.Not)

    def __init__(self, ids):
        self.ids = ids

    def tab(self, n):
        return mem(n)(C32)

    def eq(self, c):
        return C32 == c

    def within(self, a, b):
        return z3.And(z3.UGE(C32, bv(a, 32)), z3.ULE(C32, bv(b, 32)))

    def last2(self):
        return C32 & 0xFFFE == 0xFFFE

    def lookup(self, table, default):
        f, v = val(table)
        return z3.If(f(C32), v(C32), bv(default, 32))

    def script(self, n, x):
        return self.lookup('script_data%d' % n, self.ids['id_sc_zzzz']) == self.ids['id_sc_' + x]


class Sets:
    """definitions as sets of code points"""
    Not = staticmethod(numpy.logical_not)

    def __init__(self, tables):
        self.t = tables

    def Or(self, *a):
        return numpy.logical_or.reduce(a)

    def And(self, *a):
        return numpy.logical_and.reduce(a)

    def tab(self, n):
        return self.t[n]

    def eq(self, c):
        a = numpy.zeros(MAXCP + 1, bool)
        a[c] = True
        return a

    def within(self, x, y):
        a = numpy.zeros(MAXCP + 1, bool)
        a[x:y + 1] = True
        return a

    def last2(self):
        return numpy.arange(MAXCP + 1) & 0xFFFE == 0xFFFE

    def script(self, n, x):
        return self.t['script_data%d' % n] == x


def prove_property(m, tables, entry, ids, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    st = State()
    fam, p = entry.split('_', 1)
    A = ZA(ids)
    zzzz = ids['id_sc_zzzz']
    B = z3.Function('block', z3.BitVecSort(32), z3.BitVecSort(32))

    def tname(ptr, where):
        if not isinstance(ptr, Ptr) or ptr.obj.name not in tables:
            raise ToolError('lookup in an unknown table at %s' % where)
        return tables[ptr.obj.name][0].name

    def lookup(ex, s, name, a, where):
        n = tname(a[0], where)
        ex.oblige(s, a[0].off == 0, 'pre:table', where)
        yield s, mem(n)(a[1])

    def value(ex, s, name, a, where):
        n = tname(a[0], where)
        f, v = val(n)
        s.assume(z3.ULE(v(a[1]), bv(255, 32)))
        ex.oblige(s, a[0].off == 0, 'pre:table', where)
        yield s, z3.If(f(a[1]), v(a[1]), a[2])

    def block(ex, s, name, a, where):
        yield s, B(a[0])
    dem = m.demangled
    kind = lambda n: table_kind(dem.get(n, ''))
    handlers = [(lambda n: kind(n) and '{lambda' not in dem[n] and '::lookup(' in dem[n], lookup), (lambda n: kind(n) and '{lambda' not in dem[n] and '::value(' in dem[n], value)]
    if entry != 'f_block':
        handlers.append((lambda n: dem.get(n, '') == 'uni::cp_block(char32_t)', block))
    for f in ([] if fam != 'sx' else range(22)):
        st.assume(z3.ULE(val('script_data%d' % f)[1](C32), bv(255, 32)))
    ex = TabExec(m, subject=None, handlers=handlers, timeout_ms=timeout_ms, name=entry, max_time=max_time or 100, loops=70)
    ex.tables = {g: t for g, (t, _) in tables.items()}
    ex.stop_on_fail = (kinds or True) if refute else False
    if fam == 'bp':
        want = Defs(A, ref()['scripts']).get(p)
    elif fam == 'sc':
        want = A.script(0, p)
    elif fam == 'bk':
        want = B(C32) == ids['id_bk_' + p]
    elif fam == 'ag':
        age = A.lookup('age_data', 0)
        want = z3.And(age != 0, z3.ULE(age, bv(ids['id_ag_' + p], 32)))
    elif fam == 'sx':
        # the extensions of a code point are the entries of the lists 1, 2, ... up to the first unknown one; without any, its script
        sc = lambda n: A.lookup('script_data%d' % n, zzzz)
        me = ids['id_sc_' + p]
        want = z3.BoolVal(False)
        for n in range(21, 1, -1):
            want = z3.And(sc(n) != zzzz, z3.Or(sc(n) == me, want))
        first = z3.If(sc(1) != zzzz, sc(1), sc(0))
        want = z3.And(first != zzzz, z3.Or(first == me, want))
    cnt = 0
    try:
        for s2, rv in ex.run(st, entry, [C32]):
            cnt += 1
            b = rv if z3.is_bool(rv) else rv != 0
            ex.oblige(s2, z3.Implies(z3.ULE(C32, bv(MAXCP, 32)), b == want), 'post:member', entry)
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    return fill(res, ex, cnt, t0)


def read_ids(m):
    out = {}
    for n in m.funcs:
        if n.startswith('id_'):
            for s, rv in Exec(m, subject=None, name=n).run(State(), n, []):
                out[n] = z3.simplify(rv).as_long()
    return out


def called(ins):
    """(callee, the global arguments)"""
    c, args = ins.a[0], ins.a[1]
    return c, [op.name for ty, op, attrs in args if isinstance(op, ir.CGlobal)]


class Named:
    """an array of names, kept as numbers; equality with a name gives a set"""

    def __init__(self, code, names):
        self.code, self.names = code, names

    def __eq__(self, n):
        return self.code == self.names.get(n, -1)


def reference_sets():
    """code points of every table of the reference; '' is in no entry"""
    N = MAXCP + 1
    t = {}
    for n, r in ref()['tables'].items():
        names = {v: i + 1 for i, v in enumerate(sorted({v for x, v in r if isinstance(v, str)}))}
        names[''] = 0
        a = numpy.zeros(N, numpy.int16)
        for (x, v), (y, _) in zip(r, r[1:] + [[N, 0]]):
            a[x:y] = names['' if v is None else v] if len(names) > 1 else v
        t[n] = Named(a, names) if len(names) > 1 else a > 0
    return t


def unicode_jobs(m, unit):
    tables = find_tables(m)
    ids = read_ids(m)
    jobs = []
    for g, (t, fn) in tables.items():
        jobs.append(Job(unit, 'lookup %s' % t.name, lambda g=g, **kw: prove_lookup(m, tables, g, **kw), t.name))
        jobs.append(Job(unit, 'data %s' % t.name, lambda g=g, **kw: prove_data(m, tables, g, ids, **kw), t.name))
    for n in m.funcs:
        if re.match('(bp|sc|sx|bk|ag)_', n):
            jobs.append(Job(unit, n, lambda n=n, **kw: prove_property(m, tables, n, ids, **kw), n))
    return jobs
