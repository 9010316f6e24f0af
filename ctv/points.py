"""Contracts of ctre::point_set and of collides (units/points.cpp): a negative answer of collides means that no character can start
both sides. Soundness only: an answer "collides" merely keeps the backtracking."""
import re
import time
import z3
from .sym import *
from . import ir
from .engine import Result
from .jobs import Job

MAGIC = 1000003
CAP, K, X = z3.BitVec('Capacity', 64), z3.BitVec('K', 64), z3.BitVec('x', 64)
NOMINAL = 16 * (MAGIC + 1)
VALS = {0x54321: z3.BitVec('u', 64), 0x65432: z3.BitVec('v', 64), 0x35791: z3.BitVec('s', 64), 0x46802: z3.BitVec('t', 64)}
U, V, S, T = VALS.values()
PRIM = ('_ZN4ctre9point_setILm%d', 'EE6insertEll', 'EE5checkEll')
sle = lambda a, b: a <= b       # signed


# ------------------------------------------------------------------------------------------------ the primitive operations
def prove_primitive(m, entry, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    st = State()
    used, l, h = z3.BitVec('used', 64), z3.BitVec('low', 64), z3.BitVec('high', 64)
    st.assume(z3.And(z3.ULT(CAP, bv(1 << 40)), z3.ULE(used, CAP) if entry == 'p_insert' else z3.ULE(used, CAP + 1), sle(l, h)))
    o = Obj('array', 'set', (CAP + 1) * 16, elem=8, writable=True)
    t = Obj('stack', 'set.tail', bv(8))
    o.tail = (NOMINAL, t)
    arr0 = z3.Array('points', BV64, BV64)
    st.mem[o.id], st.mem[t.id] = arr0, {0: (8, used)}
    st.assume(z3.ULT(K, used))
    old = (z3.Select(arr0, 16 * K), z3.Select(arr0, 16 * K + 8))
    st.assume(sle(*old))
    ex = Exec(m, subject=None, timeout_ms=timeout_ms, name=entry, max_time=max_time or 200, generalize={MAGIC: CAP}, loops=3 * refute + 3 if refute else 'inv', search=bool(refute))
    ex.rich = True
    if refute:
        st.assume(z3.ULE(used, bv(refute)))
    ex.stop_on_fail = (kinds or True) if refute else False
    at = lambda a, k, f: z3.Select(a, 16 * k + 8 * f)
    over = z3.And(sle(old[0], h), sle(l, old[1]))

    def more_cands(locs, g0):
        out = []
        ptrs = [q for q, v in locs.items() if isinstance(v, Ptr) and v.obj is o]
        nums = [q for q, v in locs.items() if v is not None and not isinstance(v, (Ptr, list, Undef)) and z3.is_bv(v) and v.size() == 64]
        arr = [q for q in locs if q == ('arr', o.id)]
        here = lambda p: isinstance(p, Ptr) and p.obj is o
        for p in ptrs:
            out.append(('in set %s' % p[1], lambda L, G, p=p: z3.And(z3.ULE(L[p].off, used * 16), (L[p].off & 15) == 0) if here(L[p]) else None))
            out.append(('before end %s' % p[1], lambda L, G, p=p: z3.ULT(L[p].off, used * 16) if here(L[p]) else None))
            out.append(('no overlap before %s' % p[1], lambda L, G, p=p: z3.Or(z3.ULE(L[p].off, K * 16), z3.Not(over)) if here(L[p]) else None))
            for n in nums:
                out.append(('%s + %s in set' % (p[1], n[1]), lambda L, G, p=p, n=n: z3.And(z3.ULE(L[n], used), z3.ULE(L[n] * 16, used * 16 - L[p].off)) if here(L[p]) and L[n] is not None else None))
            if arr:
                a, p0 = arr[0], locs[p].off
                out.append(('kept behind %s' % p[1], lambda L, G, p=p: z3.Or(z3.ULT(16 * K, L[p].off), z3.And(at(L[a], K, 0) == old[0], at(L[a], K, 1) == old[1])) if here(L[p]) else None))
                out.append(('kept before %s' % p[1], lambda L, G, p=p, p0=p0: z3.Or(z3.UGE(16 * K, p0), z3.And(at(L[a], K, 0) == old[0], at(L[a], K, 1) == old[1])) if here(L[p]) else None))
                out.append(('moved up before %s' % p[1], lambda L, G, p=p, p0=p0: z3.Or(z3.ULT(16 * K, p0), z3.UGE(16 * K + 16, L[p].off), z3.And(at(L[a], K + 1, 0) == old[0], at(L[a], K + 1, 1) == old[1])) if here(L[p]) else None))
                out.append(('stored at the start of %s' % p[1], lambda L, G, p=p, p0=p0: z3.Or(L[p].off == p0, z3.And(z3.Select(L[a], p0) == l, z3.Select(L[a], p0 + 8) == h)) if here(L[p]) else None))
                out.append(('not before the start %s' % p[1], lambda L, G, p=p, p0=p0: z3.UGE(L[p].off, p0) if here(L[p]) else None))
        if arr:
            for n in [q for q, v in locs.items() if q[0] != 'arr' and not isinstance(v, (Ptr, list))]:
                for p in ptrs:
                    p0 = locs[p].off
                    for f, new in ((0, l), (1, h)):
                        num = lambda v: z3.is_bv(v) and v.size() == 64
                        out.append(('%s carries the new %d at the start of %s' % (n[1], f, p[1]), lambda L, G, n=n, p=p, f=f, p0=p0, new=new: z3.Or(L[p].off != p0, L[n] == new) if here(L[p]) and num(L[n]) else None))
                        out.append(('%s carries the old %d behind it, %s' % (n[1], f, p[1]), lambda L, G, n=n, p=p, f=f, p0=p0: z3.Or(L[p].off == p0, L[p].off != 16 * K + 16, L[n] == old[f]) if here(L[p]) and num(L[n]) else None))
        return out
    ex.more_cands = more_cands
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    cnt = 0
    try:
        for s2, rv in ex.run(st, entry, [Ptr(o, bv(0)), l, h]):
            cnt += 1
            O = lambda g, k: ex.oblige(s2, g, k, entry)
            if entry == 'p_insert':
                a = s2.mem[o.id]
                O(z3.Or(*[z3.And(at(a, K + d, 0) == old[0], at(a, K + d, 1) == old[1]) for d in (0, 1)]), 'post:points-survive')
                # the new point is stored: somewhere the code wrote it (a witness out of the written positions)
                O(z3.Or(*[z3.And(z3.ULE(i, used * 16), (i & 15) == 0, z3.Select(a, i) == l, z3.Select(a, i + 8) == h) for i in witnesses(a, s2.pc)]), 'post:point-stored')
                O(ex.load(s2, Ptr(t, bv(0)), ir.I64, 'result') == used + 1, 'post:count')
            else:
                f = rv if z3.is_bool(rv) else rv != 0
                O(z3.Or(f, z3.Not(over)), 'post:no-overlap-when-false')
                O(z3.BoolVal(s2.mem[o.id] is arr0 or s2.mem[o.id].eq(arr0)), 'post:unchanged')
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    return fill(res, ex, cnt, t0)


def witnesses(a, pc):
    """positions at which the new point can be: every index of a store in the array, and every aligned index a path condition talks about"""
    out, seen, todo = [], set(), [a] + list(pc)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_select(e) or z3.is_store(e):
            out.append(e.arg(1))
        todo += e.children()
    ded = {z3.simplify(i).sexpr(): z3.simplify(i) for i in out}
    return list(ded.values())[:40]


def fill(res, ex, cnt, t0):
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts, res.inv = cnt, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, ex.loops_cut, ex.inv_stats
    return res


# ------------------------------------------------------------------------------------------------ what an item contains
def letter(c):
    return z3.Or(z3.And(z3.UGE(c, bv(65)), z3.ULE(c, bv(90))), z3.And(z3.UGE(c, bv(97)), z3.ULE(c, bv(122))))


def fold(p):
    return lambda c, ci: z3.Or(p(c), z3.And(ci, letter(c), p(c ^ bv(32))))


cha = lambda v: fold(lambda c: c == (bv(v) if isinstance(v, int) else v))
ran = lambda a, b: fold(lambda c: z3.And(z3.UGE(c, bv(a) if isinstance(a, int) else a), z3.ULE(c, bv(b) if isinstance(b, int) else b)))
alt = lambda *q: lambda c, ci: z3.Or(*[x(c, ci) for x in q])
nol = lambda *q: lambda c, ci: z3.Not(z3.Or(*[x(c, ci) for x in q]))
opaque = lambda n: lambda c, ci: z3.Function(n, BV64, z3.BoolSort())(c)
tab = lambda t: alt(*[ran(a, b) for a, b in t])
from .chars import WORD, SPACE, VSPACE, HSPACE, PUNCT, DIGIT, POSIX  # noqa: E402
U1, U2, S1, R1, R2, PR, BP = cha(U), cha(V), cha(S), ran(U, V), ran(S, T), opaque('property'), opaque('binary_property')
ANY = lambda c, ci: z3.BoolVal(True)
ITEMS = {
    'char': U1, 'range': R1, 'any': ANY, 'prop': PR, 'bprop': BP, 'set0': alt(), 'set1': U1, 'set2': alt(U1, R2), 'setn': alt(nol(U1), R2), 'enum0': alt(), 'enum1': U1, 'enum3': alt(U1, U2, S1),
    'neg0': nol(), 'neg1': nol(U1), 'neg2': nol(U1, U2), 'negr': nol(R1), 'negr2': nol(R1, R2), 'negrc': nol(R2, U1), 'negenum': nol(U1, U2, S1), 'negset': nol(alt(U1, R2), U2), 'negneg': nol(nol(U1), R2),
    'negnot': nol(nol(U1), R2), 'negsetneg': nol(nol(U1), R2), 'negprop': nol(PR, U1), 'negbprop': nol(BP, R1), 'not1': nol(U1), 'notr': nol(R1), 'notset': nol(U1, R2), 'l0': alt(), 'l1': U1, 'l3': alt(U1, R2, nol(U2)), 'lany': ANY,
    'digits': tab(DIGIT), 'words': tab(WORD), 'spaces': tab(SPACE), 'vspaces': tab(VSPACE), 'hspaces': tab(HSPACE), 'alnum': tab(POSIX['alnum']), 'xdigit': tab(POSIX['xdigit']), 'punct': tab(PUNCT),
    'nwords': nol(tab(WORD)), 'nspaces': nol(tab(SPACE), tab(DIGIT))}
LISTS = {'0': alt(), 'C': U1, 'D': S1, 'R': R2, 'CR': alt(U1, R2), 'N': nol(U1), 'M': alt(S1, nol(R1)), 'A': ANY, 'P': PR, 'K': cha(ord('k')), 'W': tab(WORD)}


def member(q):
    """X is matched by q in one of the modes"""
    return z3.Or(q(X, z3.BoolVal(False)), q(X, z3.BoolVal(True)))


def prove_client(m, entry, spec, refute=0, rich=False, max_time=None, kinds=None, timeout_ms=20000):
    t0 = time.time()
    res = Result(entry)
    st = State()
    isletter = 'lit' not in entry
    for v in VALS.values():     # code points; the constants of characters are not letters here (letters are instantiated one by one)
        st.assume(z3.And(z3.ULE(v, bv(0x10FFFF))))
    st.assume(z3.And(z3.ULE(U, V), z3.ULE(S, T)))
    text = entry
    if re.search(r'range|negr|notr|set2|setn|l3|lany|negset|negneg|negnot|negbprop|notset|negprop', text) is None or True:
        pass
    st.assume(z3.ULE(X, bv(0xFFFFFFFF)))
    c0, used0 = z3.Bool('covered'), z3.BitVec('used', 64)
    st.assume(z3.Implies(c0, used0 != 0))
    st.assume(z3.ULT(used0, bv(1000)))
    ghost = {}      # object -> capacity
    dem = m.demangled

    def key(o):
        return 'set%d' % o.id

    def cap_of(name):
        return int(re.search(r'point_setILm(\d+)E', name).group(1))

    def used_cell(s, o, cap):
        return ex.load(s, Ptr(o, bv(16 * (cap + 1))), ir.I64, 'used')

    def covered(s, o, cap):
        """what the set certainly covers: the ghost while only insert changed it, and the first point as it is stored"""
        g = s.flags.get(key(o))
        lo, hi = ex.load(s, Ptr(o, bv(0)), ir.I64, 'points'), ex.load(s, Ptr(o, bv(8)), ir.I64, 'points')
        n = used_cell(s, o, cap)
        cov = z3.And(n != 0, sle(lo, X), sle(X, hi))
        if g is not None and g[1] is not None and same(g[1], lo) and same(g[2], hi):
            cov = z3.Or(cov, z3.And(g[0], z3.UGE(n, g[3])))
        return cov

    def same(a, b):
        return a is b or a.eq(b)

    def insert(ex, s, name, a, where):
        p, l, h = a
        cap = cap_of(name)
        n = used_cell(s, p.obj, cap)
        ex.oblige(s, z3.And(p.off == 0, sle(l, h)), 'pre:interval', where)
        ex.oblige(s, z3.ULE(n, bv(cap)), 'pre:capacity', where)
        c = z3.Or(covered(s, p.obj, cap), z3.And(sle(l, X), sle(X, h)))
        lo, hi = fresh('low', BV64), fresh('high', BV64)
        ex.store(s, Ptr(p.obj, bv(0)), ir.I64, lo, where)
        ex.store(s, Ptr(p.obj, bv(8)), ir.I64, hi, where)
        ex.store(s, Ptr(p.obj, bv(16 * (cap + 1))), ir.I64, n + 1, where)
        s.flags[key(p.obj)] = (c, lo, hi, n + 1)
        yield s, None

    def check(ex, s, name, a, where):
        p, l, h = a
        cap = cap_of(name)
        ex.oblige(s, z3.And(p.off == 0, sle(l, h)), 'pre:interval', where)
        r = fresh('hit', z3.BoolSort())
        s.assume(z3.Implies(z3.Not(r), z3.Not(z3.And(covered(s, p.obj, cap), sle(l, X), sle(X, h)))))
        yield s, r
    prim = lambda n, w: n.startswith('_ZN4ctre9point_setILm') and n.endswith(w)
    handlers = [(lambda n: prim(n, PRIM[1]), insert), (lambda n: prim(n, PRIM[2]), check)]
    ex = Exec(m, subject=None, handlers=handlers, timeout_ms=timeout_ms, name=entry, max_time=max_time or 120, generalize=VALS, loops=60)
    ex.stop_on_fail = (kinds or True) if refute else False
    o = Obj('stack', 'set', bv(NOMINAL + 8))
    lo0, hi0 = z3.BitVec('low0', 64), z3.BitVec('high0', 64)
    st.mem[o.id] = {0: (8, lo0), 8: (8, hi0), NOMINAL: (8, used0)}
    st.flags[key(o)] = (c0, lo0, hi0, used0)
    cnt = 0
    for f in spec.get('pre', []):
        st.assume(f)
    if ex.sol.check(st.pc) != z3.sat:
        res.error = 'precondition is not satisfiable'
        return res
    O = lambda s2, g, k: ex.oblige(s2, g, k, entry)
    try:
        cap = None
        if spec.get('cap'):
            rs = list(ex.run(st.fork(), spec['cap'], []))
            cap = rs[0][1]
        for s2, rv in ex.run(st, entry, [] if spec['kind'] == 'col' else [Ptr(o, bv(0))]):
            cnt += 1
            if spec['kind'] == 'pop':
                O(s2, z3.Implies(z3.Or(c0, member(spec['item'])), covered(s2, o, MAGIC)), 'post:covers')
                n = used_cell(s2, o, MAGIC)
                O(s2, z3.Implies(covered(s2, o, MAGIC), n != 0), 'post:not-empty')
                if cap is not None:
                    O(s2, z3.ULE(n, used0 + cap), 'post:capacity')
            else:
                f = rv if z3.is_bool(rv) else rv != 0
                if spec['kind'] == 'chk':
                    O(s2, z3.Or(f, z3.Not(z3.And(c0, member(spec['item'])))), 'post:disjoint-when-false')
                else:
                    O(s2, z3.Or(f, z3.Not(z3.And(member(spec['a']), member(spec['b'])))), 'post:disjoint-when-false')
        if cnt == 0:
            res.error = 'no path returns'
    except Stop:
        pass
    except ToolError as e:
        res.error = str(e)
    return fill(res, ex, cnt, t0)


def points_jobs(m, unit):
    return [Job(unit, n, lambda n=n, **kw: prove_primitive(m, n, **kw), n) for n in ('p_insert', 'p_check') if n in m.funcs]


NOLET = [z3.Not(letter(v)) for v in VALS.values()]


def client_jobs(m, unit):
    jobs = []

    def add(entry, what=None, **spec):
        jobs.append(Job(unit, what or entry, lambda **kw: prove_client(m, entry, spec, **kw), entry))
    for n, q in ITEMS.items():
        pre = [] if n in ('range', 'negr', 'negr2', 'notr') else [z3.Not(letter(v)) for v in (U, V, S)] if 'enum' in n else [z3.Not(letter(v)) for v in (U, V)]
        add('pop_' + n, kind='pop', item=q, cap='cap_' + n, pre=pre)
        add('chk_' + n, kind='chk', item=q, pre=pre)
    for a, p in LISTS.items():
        for b, q in LISTS.items():
            add('col_L%s_%s' % (a, b), kind='col', a=p, b=q, pre=[z3.Not(letter(v)) for v in (U, S)])
    for n in m.funcs:
        x = re.match(r'_Z4(popc|chkc|chkn)ITnDaL(Di|c)(\d+)E', n)
        if x:
            q = cha(int(x.group(3)))
            add(n, '%s<%s{%s}>' % (x.group(1), 'char32_t' if x.group(2) == 'Di' else 'char', x.group(3)), kind='pop' if x.group(1) == 'popc' else 'chk', item=nol(q) if x.group(1) == 'chkn' else q)
    return jobs
