"""Symbolic execution of the parsed IR: generates and discharges the proof obligations.

Path-wise weakest-precondition style execution. Calls to functions that have a contract are replaced by the
contract; all other calls with a body are executed through (their body is part of the function being verified).
Loops are cut by inductive invariants (see Loop), recursive functions by their contract, or - only where a unit asks
for it - unrolled with an unwinding obligation.
"""
import sys
import time
import z3
from . import ir
from .ir import IRError

sys.setrecursionlimit(200000)

BV64 = z3.BitVecSort(64)
NULLOFF = 1 << 63


class ToolError(Exception):
    """The verifier (not the code) cannot continue: reported as an error exit, never as a verdict."""


class Stop(Exception):
    """first failed obligation while searching for a counterexample"""


DEBUG = False
DUMP = 0


def bv(v, n=64):
    return z3.BitVecVal(v, n)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (prefix, _fresh[0]), sort)


def is_true(e):
    return z3.is_true(z3.simplify(e))


def is_false(e):
    return z3.is_false(z3.simplify(e))


class Obj:
    """A memory object. kind: stack | null | array (SMT array indexed by byte offset, elem-size granularity) | const."""
    n = 0
    __slots__ = ('id', 'kind', 'name', 'size', 'lo', 'elem', 'const', 'writable', 'base', 'nullable', 'tail', 'fact')

    def __init__(self, kind, name, size, lo=None, elem=1, const=None, writable=False, nullable=False):
        Obj.n += 1
        self.id = Obj.n
        self.kind, self.name, self.size, self.elem, self.const = kind, name, size, elem, const
        self.lo = lo if lo is not None else bv(0)
        self.writable = writable
        self.nullable = nullable
        self.fact = None    # what is known about the element at an offset
        self.tail = None    # (offset, object): the members behind an array member of generalised length
        self.base = z3.BitVec('base_%s_%d' % (name, self.id), 64)

    def __repr__(self):
        return '<%s>' % self.name


NULL = Obj('null', 'null', bv(0))


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return '%r+%s' % (self.obj, z3.simplify(self.off) if not isinstance(self.off, int) else self.off)


def PNULL():
    return Ptr(NULL, bv(0))


class Undef:
    """an undefined value (padding, uninitialised)"""

    def __init__(self, ty):
        self.ty = ty


class State:
    __slots__ = ('pc', 'mem', 'ghost', 'trace', 'calls', 'flags', 'ghost_rec')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.ghost = None
        self.trace = []
        self.calls = []
        self.flags = {}

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost) if self.ghost is not None else None
        s.trace = list(self.trace)
        s.calls = list(self.calls)
        s.flags = dict(self.flags)
        return s

    def assume(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)


class Frame:
    __slots__ = ('fn', 'loc', 'active', 'counts', 'objs', 'depth')

    def __init__(self, fn, depth=0):
        self.fn = fn
        self.loc = {}
        self.active = {}
        self.counts = {}
        self.objs = []
        self.depth = depth

    def fork(self):
        f = Frame(self.fn, self.depth)
        f.loc = dict(self.loc)
        f.active = dict(self.active)
        f.counts = dict(self.counts)
        f.objs = list(self.objs)
        return f


class Obligation:
    __slots__ = ('name', 'kind', 'where', 'status', 'time', 'model', 'state', 'detail', 'goal')

    def __init__(self, name, kind, where, status, t, model=None, state=None, detail='', goal=None):
        self.name, self.kind, self.where, self.status, self.time = name, kind, where, status, t
        self.model, self.state, self.detail, self.goal = model, state, detail, goal


class Solver:
    """incremental solver with a short budget; what it cannot decide goes to a fresh solver with the full budget"""
    FAST = 400

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set('timeout', self.FAST)
        self.timeout = timeout_ms
        self.stack = []
        self.queries = 0
        self.hard = 0
        self.unknowns = 0
        self.time = 0.0
        self.last_model = None

    def sync(self, pc):
        n = 0
        m = min(len(pc), len(self.stack))
        while n < m and (self.stack[n] is pc[n] or self.stack[n].eq(pc[n])):
            n += 1
        if n < len(self.stack):
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        for e in pc[n:]:
            self.s.push()
            self.s.add(e)
            self.stack.append(e)

    def check(self, pc, *extra):
        t = time.time()
        self.sync(pc)
        self.queries += 1
        self.s.push()
        self.s.add(*extra)
        r = self.s.check()
        self.last_model = self.s.model() if r == z3.sat else None
        self.s.pop()
        if r == z3.unknown:
            self.hard += 1
            f = z3.Solver()
            f.set('timeout', self.timeout)
            f.add(*pc)
            f.add(*extra)
            r = f.check()
            self.last_model = f.model() if r == z3.sat else None
            if r == z3.unknown:
                self.unknowns += 1
        dt = time.time() - t
        self.time += dt
        if DUMP and dt > DUMP:
            s = z3.Solver()
            s.add(*pc)
            s.add(*extra)
            open('/tmp/slow_%d.smt2' % self.queries, 'w').write(s.to_smt2())
            print('slow', self.queries, '%.1f' % dt, r)
        return r


IGNORED_INTRINSICS = ('llvm.lifetime.end', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.assume',
                      'llvm.invariant', 'llvm.donothing', 'llvm.var.annotation')


class Exec:
    def __init__(self, module, subject=None, handlers=None, specs=None, loops='inv', unroll=40, search=False,
                 generalize=None, timeout_ms=20000, max_paths=20000, rec_contract=None, name='', max_time=None):
        self.m = module
        self.subject = subject          # default Obj used to unify null with subject pointers
        self.handlers = handlers or []  # list of (predicate(name)->key or None, handler(exec, st, name, args) -> gen)
        self.loops_mode = loops
        self.unroll = unroll
        self.search = search            # bounded concrete search mode: prune instead of failing on unwinding
        self.sol = Solver(timeout_ms)
        self.obls = []
        self.recording = True
        self.generalize = generalize or {}
        self.paths = 0
        self.max_paths = max_paths
        self.spec = specs               # ghost spec (Spec) or None
        self.rec_contract = rec_contract
        self.globals = {}
        self.name = name
        self.functions = set()
        self.loops_cut = 0
        self.rec_used = {}
        self.rec_done = set()
        self.stop_on_fail = False
        self.deadline = time.time() + max_time if max_time else None
        self.global_init = {}
        self.undef_ok = True
        self.inv_stats = []
        self.rich = False

    # ------------------------------------------------------------ obligations
    def valid(self, st, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        r = self.sol.check(st.pc, z3.Not(e))
        if r == z3.unsat:
            return True
        return False

    def feasible(self, st, e=None):
        if e is not None:
            e = z3.simplify(e)
            if z3.is_false(e):
                return False
            r = self.sol.check(st.pc, e)
        else:
            r = self.sol.check(st.pc)
        return r != z3.unsat

    def oblige(self, st, goal, kind, where, detail=''):
        """goal must hold in st; afterwards it is assumed"""
        g = z3.simplify(goal)
        if not self.recording:
            if not z3.is_true(g):
                st.assume(g)
            return True
        name = '%s:%s:%s' % (self.name, where, kind)
        if z3.is_true(g):
            self.obls.append(Obligation(name, kind, where, 'trivial', 0.0))
            return True
        t = time.time()
        r = self.sol.check(st.pc, z3.Not(g))
        dt = time.time() - t
        if r == z3.unsat:
            self.obls.append(Obligation(name, kind, where, 'proved', dt))
            st.assume(g)
            return True
        ob = Obligation(name, kind, where, 'failed' if r == z3.sat else 'unknown', dt, self.sol.last_model, st.fork(),
                        detail, z3.Not(g))
        self.obls.append(ob)
        if self.stop_on_fail and r == z3.sat and (self.stop_on_fail is True or self.stop_on_fail(kind)):
            raise Stop()
        st.assume(g)
        return False

    # ------------------------------------------------------------ memory
    def zone(self, p):
        if p.obj.tail is not None:
            c = self.const_off(p.off)
            if c is not None and c >= p.obj.tail[0]:
                return Ptr(p.obj.tail[1], bv(c - p.obj.tail[0]))
        return p

    def new_obj(self, st, name, size, kind='stack'):
        o = Obj(kind, name, bv(size) if isinstance(size, int) else size)
        st.mem[o.id] = {}
        return o

    def const_off(self, off):
        o = z3.simplify(off) if not isinstance(off, int) else off
        if isinstance(o, int):
            return o
        if z3.is_bv_value(o):
            return o.as_signed_long()
        return None

    def check_access(self, st, p, size, what, where):
        o = p.obj
        if o.kind == 'null':
            self.oblige(st, z3.BoolVal(False), 'null-deref', where, what)
            return False
        if o.kind in ('stack', 'const'):
            c = self.const_off(p.off)
            if c is not None:
                sz = self.const_off(o.size)
                ok = 0 <= c and c + size <= sz
                if not ok:
                    self.oblige(st, z3.BoolVal(False), what + '-in-bounds', where, '%s off %d size %d' % (o.name, c, size))
                    return False
                return True
        self.oblige(st, z3.And(z3.UGE(p.off, o.lo), z3.ULE(p.off, o.size - size), z3.UGE(o.size, bv(size))),
                    what + '-in-bounds', where, o.name)
        return True

    def load(self, st, p, ty, where=''):
        size = ty.store_size()
        if isinstance(ty, (ir.StructTy, ir.ArrTy)):
            out = []
            if isinstance(ty, ir.StructTy):
                for o, t in zip(ty.offsets(), ty.els):
                    out.append(self.load(st, Ptr(p.obj, p.off + o), t, where))
            else:
                for i in range(ty.n):
                    out.append(self.load(st, Ptr(p.obj, p.off + i * ty.el.size()), ty.el, where))
            return out
        p = self.zone(p)
        self.check_access(st, p, size, 'load', where)
        o = p.obj
        if o.kind == 'null':
            return self.fresh_val(ty, 'bad')
        if o.kind == 'array':
            if size != o.elem or not isinstance(ty, ir.IntTy):
                if isinstance(ty, ir.IntTy) and size % o.elem == 0 and size > o.elem:
                    arr = st.mem[o.id]
                    parts = [z3.Select(arr, p.off + i * o.elem) for i in range(size // o.elem)]
                    return z3.Concat(*parts[::-1])
                raise ToolError('load of %r from array object %s elem %d' % (ty, o.name, o.elem))
            arr = st.mem[o.id]
            v = z3.Select(arr, p.off)
            if o.fact is not None:
                st.assume(o.fact(p.off, v))
            if ty.n == 1:
                return v != 0
            return v
        if o.kind == 'const':
            return self.load_const(st, o, p.off, ty, where)
        c = self.const_off(p.off)
        if c is None:
            return self.load_symbolic(st, p, ty, where)
        cells = st.mem.get(o.id)
        if cells is None:
            raise ToolError('dangling object %s' % o.name)
        return self.load_cells(cells, c, ty)

    def load_symbolic(self, st, p, ty, where):
        """symbolic offset into a small stack object: enumerate aligned offsets"""
        o = p.obj
        sz = self.const_off(o.size)
        cells = st.mem[o.id]
        size = ty.store_size()
        if sz is None or sz > 4096:
            raise ToolError('symbolic offset into %s' % o.name)
        if not isinstance(ty, ir.IntTy):
            raise ToolError('symbolic-offset load of %r from %s' % (ty, o.name))
        offs = [k for k in range(0, sz - size + 1) if k in cells and cells[k][0] == size]
        if not offs:
            raise ToolError('symbolic-offset load: no cells in %s' % o.name)
        self.oblige(st, z3.Or(*[p.off == k for k in offs]), 'load-initialised', where, o.name)
        r = None
        for k in offs:
            v = self.load_cells(cells, k, ty)
            r = v if r is None else z3.If(p.off == k, v, r)
        return r

    def load_cells(self, cells, c, ty):
        size = ty.store_size()
        cell = cells.get(c)
        if cell is not None and cell[0] == size:
            return self.coerce(cell[1], ty)
        # assemble from bytes
        if isinstance(ty, ir.PtrTy):
            return self.fresh_val(ty, 'undef')
        by = []
        any_init = False
        for k in range(size):
            b = self.byte_at(cells, c + k)
            if b is None:
                b = fresh('undef', z3.BitVecSort(8))
            else:
                any_init = True
            by.append(b)
        if not any_init:
            return self.fresh_val(ty, 'undef')
        v = by[0] if size == 1 else z3.Concat(*by[::-1])
        v = z3.simplify(v)
        if ty.n == 1:
            return z3.Extract(0, 0, v) == 1
        if ty.n < size * 8:
            return z3.Extract(ty.n - 1, 0, v)
        return v

    def byte_at(self, cells, off):
        for back in range(0, 64):
            cell = cells.get(off - back)
            if cell is not None:
                if cell[0] > back:
                    v = cell[1]
                    if isinstance(v, Undef):
                        return None
                    if isinstance(v, Ptr):
                        raise ToolError('partial load of a pointer')
                    if z3.is_bool(v):
                        v = z3.If(v, bv(1, 8), bv(0, 8))
                    if v.size() < cell[0] * 8:
                        v = z3.ZeroExt(cell[0] * 8 - v.size(), v)
                    return z3.Extract(back * 8 + 7, back * 8, v)
                return None
        return None

    def coerce(self, v, ty):
        if isinstance(v, Undef):
            return self.fresh_val(ty, 'undef')
        if isinstance(ty, ir.PtrTy):
            if isinstance(v, Ptr):
                return v
            if z3.is_bv(v):
                return self.int_to_ptr(v)
            raise ToolError('load ptr from %r' % (v,))
        if isinstance(ty, ir.IntTy):
            if isinstance(v, Ptr):
                if ty.n == 64:
                    return self.ptr_to_int(v)
                raise ToolError('load int from ptr')
            if z3.is_bool(v):
                if ty.n == 1:
                    return v
                return z3.If(v, bv(1, ty.n), bv(0, ty.n))
            if v.size() == ty.n:
                return v
            if ty.n == 1:
                return z3.Extract(0, 0, v) == 1
            if v.size() > ty.n:
                return z3.Extract(ty.n - 1, 0, v)
            return z3.ZeroExt(ty.n - v.size(), v)
        raise ToolError('coerce %r' % ty)

    def fresh_val(self, ty, pre):
        if isinstance(ty, ir.IntTy):
            return fresh(pre, z3.BoolSort() if ty.n == 1 else z3.BitVecSort(ty.n))
        if isinstance(ty, ir.PtrTy):
            return Ptr(self.subject if self.subject is not None else NULL, fresh(pre + 'p', BV64))
        if isinstance(ty, ir.StructTy):
            return [self.fresh_val(t, pre) for t in ty.els]
        if isinstance(ty, ir.ArrTy):
            return [self.fresh_val(ty.el, pre) for _ in range(ty.n)]
        if isinstance(ty, ir.FloatTy):
            return Undef(ty)
        raise ToolError('fresh %r' % ty)

    def store(self, st, p, ty, v, where=''):
        if isinstance(ty, ir.StructTy):
            for o, t, x in zip(ty.offsets(), ty.els, v):
                self.store(st, Ptr(p.obj, p.off + o), t, x, where)
            return
        if isinstance(ty, ir.ArrTy):
            for i, x in enumerate(v):
                self.store(st, Ptr(p.obj, p.off + i * ty.el.size()), ty.el, x, where)
            return
        size = ty.store_size()
        p = self.zone(p)
        if not self.check_access(st, p, size, 'store', where):
            return
        o = p.obj
        if o.kind == 'const' or (o.kind == 'array' and not o.writable):
            self.oblige(st, z3.BoolVal(False), 'frame-write', where, 'write to read-only object %s' % o.name)
            return
        if o.kind == 'array':
            if size != o.elem:
                raise ToolError('store of %r to array object' % ty)
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            st.mem[o.id] = z3.Store(st.mem[o.id], p.off, v)
            return
        if isinstance(v, Undef):
            v = self.fresh_val(ty, 'undef')
        c = self.const_off(p.off)
        cells = st.mem.get(o.id)
        if cells is None:
            raise ToolError('dangling object %s' % o.name)
        if c is None:
            # symbolic offset: conditional update of every aligned cell
            cells = dict(cells)
            offs = [k for k in sorted(cells) if cells[k][0] == size]
            sz = self.const_off(o.size)
            if sz is None or isinstance(v, Ptr) or size == 0:
                raise ToolError('symbolic store into %s' % o.name)
            if not offs:
                raise ToolError('symbolic store into uninitialised %s' % o.name)
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            self.oblige(st, z3.Or(*[p.off == k for k in offs]), 'store-slot', where, o.name)
            for k in offs:
                old = self.coerce(cells[k][1], ir.IntTy(size * 8))
                cells[k] = (size, z3.If(p.off == k, v, old))
            st.mem[o.id] = cells
            return
        st.mem[o.id] = self.put_cell(cells, c, size, v)

    def put_cell(self, cells, c, size, v):
        cells = dict(cells)
        self.clear_cells(cells, c, size)
        cells[c] = (size, v)
        return cells

    def clear_cells(self, cells, c, size):
        # split overlapping cells
        for k in [k for k in cells if k < c + size and k + cells[k][0] > c]:
            sz, v = cells[k]
            del cells[k]
            if k >= c and k + sz <= c + size:
                continue
            if isinstance(v, Undef):
                continue
            if isinstance(v, Ptr):
                continue  # remaining bytes become undefined (over-approximation)
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            for b in range(sz):
                if not (c <= k + b < c + size):
                    cells[k + b] = (1, z3.simplify(z3.Extract(b * 8 + 7, b * 8, v)))

    def memcpy(self, st, d, s, n, where):
        n = self.const_off(n)
        if n is None:
            raise ToolError('memcpy of symbolic length')
        if n == 0:
            return
        if s.obj.kind == 'null' or d.obj.kind == 'null':
            self.oblige(st, z3.BoolVal(False), 'null-deref', where, 'memcpy')
            return
        self.check_access(st, d, n, 'store', where)
        self.check_access(st, s, n, 'load', where)
        co, do = self.const_off(s.off), self.const_off(d.off)
        if d.obj.kind == 'array' and s.obj.kind == 'array' and d.obj.elem == s.obj.elem:
            if co == 0 and do == 0:
                st.mem[d.obj.id] = st.mem[s.obj.id]   # whole-object copy (sizes are equal by construction)
                return
            raise ToolError('memcpy between array objects')
        if s.obj.kind == 'const' and co is not None and d.obj.kind == 'stack':
            by = self.const_bytes(s.obj)
            cells = dict(st.mem[d.obj.id])
            self.clear_cells(cells, do, n)
            for k, (sz, v) in self.const_cells(s.obj).items():
                if co <= k and k + sz <= co + n:
                    cells[do + k - co] = (sz, v)
            st.mem[d.obj.id] = cells
            return
        if s.obj.kind != 'stack' or d.obj.kind != 'stack' or co is None or do is None:
            raise ToolError('memcpy %r <- %r' % (d, s))
        sc = st.mem[s.obj.id]
        add = {}
        for k, (sz, v) in sc.items():
            if co <= k and k + sz <= co + n:
                add[do + k - co] = (sz, v)
            elif k < co + n and k + sz > co and not isinstance(v, (Undef, Ptr)):
                if z3.is_bool(v):
                    v = z3.If(v, bv(1, 8), bv(0, 8))
                for b in range(sz):
                    if co <= k + b < co + n:
                        add[do + k + b - co] = (1, z3.simplify(z3.Extract(b * 8 + 7, b * 8, v)))
        cells = dict(st.mem[d.obj.id])
        self.clear_cells(cells, do, n)
        cells.update(add)
        st.mem[d.obj.id] = cells

    # ------------------------------------------------------------ globals / constants
    def const_cells(self, o):
        """cells of a constant global"""
        if isinstance(o.const, dict):
            return o.const
        ty, init = o.const
        out = {}

        def walk(ty, c, off):
            if isinstance(c, ir.CZero):
                if isinstance(ty, ir.ArrTy):
                    for i in range(ty.n):
                        walk(ty.el, c, off + i * ty.el.size())
                elif isinstance(ty, ir.StructTy):
                    for oo, t in zip(ty.offsets(), ty.els):
                        walk(t, c, off + oo)
                elif isinstance(ty, ir.PtrTy):
                    out[off] = (8, PNULL())
                else:
                    out[off] = (ty.store_size(), bv(0, max(8, ty.store_size() * 8)))
            elif isinstance(c, ir.CBytes):
                for i, b in enumerate(c.b):
                    out[off + i] = (1, bv(b, 8))
            elif isinstance(c, ir.CAgg):
                if isinstance(ty, ir.ArrTy):
                    for i, (t, x) in enumerate(c.els):
                        walk(t, x, off + i * ty.el.size())
                else:
                    for oo, (t, x) in zip(ty.offsets(), c.els):
                        walk(t, x, off + oo)
            elif isinstance(c, ir.CInt):
                out[off] = (ty.store_size(), bv(c.v, ty.store_size() * 8))
            elif isinstance(c, ir.CUndef):
                pass
            else:
                out[off] = (8, self.operand(None, None, ty, c))
        walk(ty, init, 0)
        o.const = out
        return out

    def const_bytes(self, o):
        return self.const_cells(o)

    def load_const(self, st, o, off, ty, where):
        cells = self.const_cells(o)
        c = self.const_off(off)
        if c is not None:
            return self.load_cells(cells, c, ty)
        size = ty.store_size()
        items = [(k, v) for k, (sz, v) in sorted(cells.items()) if sz == size]
        if len(items) > 600 or any(isinstance(v, Ptr) for _, v in items):
            return self.load_const_big(st, o, off, ty, where, items)
        r = None
        self.oblige(st, z3.Or(*[off == k for k, _ in items]), 'load-aligned', where, o.name)
        for k, v in items:
            r = v if r is None else z3.If(off == k, v, r)
        return self.coerce(r, ty)

    def load_const_big(self, st, o, off, ty, where, items):
        raise ToolError('symbolic index into large constant %s (%d entries)' % (o.name, len(items)))

    def global_ptr(self, name):
        if name in self.globals:
            return Ptr(self.globals[name], bv(0))
        if name in self.m.globals:
            const, ty, init = self.m.parser.global_init(name)
            if not const or init is None:
                raise ToolError('mutable or external global @%s' % name)
            o = Obj('const', name, bv(ty.size()), const=(ty, init))
            self.globals[name] = o
            return Ptr(o, bv(0))
        raise ToolError('global @%s' % name)

    # ------------------------------------------------------------ operands
    def gen_const(self, v, n):
        """generalisation of magic template constants: integer constants within +-2 of a magic number become symbolic"""
        if self.generalize and n >= 32:
            for magic, sym in self.generalize.items():
                d = v - magic
                if -2 <= d <= 2:
                    s = sym if sym.size() == n else (z3.Extract(n - 1, 0, sym) if sym.size() > n else z3.ZeroExt(n - sym.size(), sym))
                    return s + bv(d, n) if d else s
        return bv(v, n)

    def operand(self, st, fr, ty, op):
        if isinstance(op, ir.Local):
            try:
                return fr.loc[op.name]
            except KeyError:
                raise ToolError('undefined local %%%s in %s' % (op.name, fr.fn.name))
        if isinstance(op, ir.CInt):
            if isinstance(ty, ir.IntTy):
                if ty.n == 1:
                    return z3.BoolVal(bool(op.v))
                return self.gen_const(op.v, ty.n)
            raise ToolError('int const of type %r' % ty)
        if isinstance(op, ir.CNull):
            return PNULL()
        if isinstance(op, ir.CGlobal):
            return self.global_ptr(op.name)
        if isinstance(op, ir.CUndef):
            return Undef(ty)
        if isinstance(op, ir.CZero):
            if isinstance(ty, ir.IntTy):
                return z3.BoolVal(False) if ty.n == 1 else bv(0, ty.n)
            if isinstance(ty, ir.PtrTy):
                return PNULL()
            if isinstance(ty, ir.StructTy):
                return [self.operand(st, fr, t, op) for t in ty.els]
            if isinstance(ty, ir.ArrTy):
                return [self.operand(st, fr, ty.el, op) for _ in range(ty.n)]
        if isinstance(op, ir.CAgg):
            return [self.operand(st, fr, t, x) for t, x in op.els]
        if isinstance(op, ir.CExpr):
            if op.kind == 'gep':
                base = self.operand(st, fr, op.args[0][0], op.args[0][1])
                return self.gep(st, fr, op.ty, base, op.args[1:], '')
            if op.kind == 'ptrtoint':
                return self.ptr_to_int(self.operand(st, fr, *op.args[0]))
            if op.kind in ('sub', 'add'):
                a = self.operand(st, fr, *op.args[0])
                b = self.operand(st, fr, *op.args[1])
                return a - b if op.kind == 'sub' else a + b
        raise ToolError('operand %r' % (op,))

    def ptr_to_int(self, p):
        if p.obj.kind == 'null':
            return p.off
        if p.obj.nullable:
            return z3.If(p.off == bv(NULLOFF), bv(0), p.obj.base + p.off)
        return p.obj.base + p.off

    def int_to_ptr(self, v):
        v = z3.simplify(v)
        if z3.is_bv_value(v) and v.as_long() == 0:
            return PNULL()
        raise ToolError('inttoptr of %s' % v)

    def gep(self, st, fr, bty, base, idx, where, inbounds=False):
        if not isinstance(base, Ptr):
            raise ToolError('gep on %r' % (base,))
        off = base.off
        ty = bty
        first = True
        delta = 0
        sym = False
        for ity, iop in idx:
            v = self.operand(st, fr, ity, iop)
            if isinstance(v, Undef):
                v = self.fresh_val(v.ty, 'undef')
            c = z3.simplify(v)
            cv = c.as_signed_long() if z3.is_bv_value(c) else None
            if first:
                es = ty.size()
                first = False
            elif isinstance(ty, ir.StructTy):
                delta = delta + ty.offsets()[cv]
                ty = ty.els[cv]
                continue
            elif isinstance(ty, ir.ArrTy):
                ty = ty.el
                es = ty.size()
            else:
                raise ToolError('gep into %r' % ty)
            if cv is not None:
                delta = delta + cv * es
            else:
                n = v.size()
                if n < 64:
                    v = z3.SignExt(64 - n, v)
                off = off + v * es if es != 1 else off + v
                sym = True
        if not (isinstance(delta, int) and delta == 0):
            off = off + bv(delta)
        if base.obj.kind == 'null':
            no = z3.simplify(off)
            if z3.is_bv_value(no) and no.as_long() == 0:
                return PNULL()
            if inbounds and st is not None:
                self.oblige(st, no == 0, 'ptr-arith', where, 'offset applied to a null pointer')
            return Ptr(NULL, no)
        np = Ptr(base.obj, off if base.obj.kind != 'stack' else z3.simplify(off))
        if inbounds and st is not None and base.obj.kind == 'array' and (sym or delta != 0 if isinstance(delta, int) else True):
            o = base.obj
            if self.zone(np) is not np:
                return np
            self.oblige(st, z3.And(z3.UGE(np.off, o.lo), z3.ULE(np.off, o.size)), 'ptr-arith', where,
                        'pointer formed outside [begin, end] of %s' % o.name)
        return np

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, fr, ins, where):
        ty = ins.ty
        a = self.operand(st, fr, ty, ins.a[0])
        b = self.operand(st, fr, ty, ins.a[1])
        if isinstance(a, Undef):
            a = self.fresh_val(ty, 'undef')
        if isinstance(b, Undef):
            b = self.fresh_val(ty, 'undef')
        op = ins.op
        if z3.is_bool(a):
            if op == 'and' or op == 'mul':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op == 'xor':
                return z3.Xor(a, b)
            if op in ('add', 'sub'):
                return z3.Xor(a, b)
            raise ToolError('i1 %s' % op)
        n = a.size()
        if op == 'add':
            if 'nsw' in ins.flags:
                self.oblige(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), 'signed-overflow', where, ins.text)
            return a + b
        if op == 'sub':
            if 'nsw' in ins.flags:
                self.oblige(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'signed-overflow', where, ins.text)
            return a - b
        if op == 'mul':
            if 'nsw' in ins.flags:
                self.oblige(st, z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), 'signed-overflow', where, ins.text)
            return a * b
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, z3.ULT(b, bv(n, n)), 'shift-amount', where, ins.text)
            return a << b if op == 'shl' else (z3.LShR(a, b) if op == 'lshr' else a >> b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, b != 0, 'div-by-zero', where, ins.text)
            if 'exact' in ins.flags and op == 'sdiv' and z3.is_bv_value(z3.simplify(b)):
                c = z3.simplify(b).as_long()
                if c & (c - 1) == 0:
                    sh = c.bit_length() - 1
                    return a >> bv(sh, n)
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](a, b)
        raise ToolError(op)

    def unify(self, a, b):
        """same-object view of two pointers, if possible"""
        if a.obj is b.obj:
            return a, b
        for x, y in ((a, b), (b, a)):
            if x.obj.kind == 'null' and y.obj.nullable:
                c = self.const_off(x.off)
                if c == 0:
                    nx = Ptr(y.obj, bv(NULLOFF))
                    return (nx, y) if x is a else (y, nx)
        return None

    def icmp(self, st, fr, ins, where):
        pred, oa, ob = ins.a
        a = self.operand(st, fr, ins.ty, oa)
        b = self.operand(st, fr, ins.ty, ob)
        if isinstance(a, Undef):
            a = self.fresh_val(ins.ty, 'undef')
        if isinstance(b, Undef):
            b = self.fresh_val(ins.ty, 'undef')
        if isinstance(a, Ptr):
            u = self.unify(a, b)
            if u is None:
                if pred in ('eq', 'ne'):
                    # different objects: distinct addresses (null against a non-nullable object, or two live objects)
                    return z3.BoolVal(pred == 'ne')
                raise ToolError('relational comparison of unrelated pointers %r %r' % (a, b))
            x, y = u[0].off, u[1].off
            if pred not in ('eq', 'ne') and x is not y and u[0].obj.kind == 'array':
                pass
            a, b = x, y
        if z3.is_bool(a):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return z3.Xor(a, b)
            if pred == 'ult':
                return z3.And(z3.Not(a), b)
            if pred == 'ugt':
                return z3.And(a, z3.Not(b))
            if pred == 'ule':
                return z3.Or(z3.Not(a), b)
            if pred == 'uge':
                return z3.Or(a, z3.Not(b))
            raise ToolError('i1 icmp ' + pred)
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()

    def cast(self, st, fr, ins):
        fty, op = ins.a
        v = self.operand(st, fr, fty, op)
        ty = ins.ty
        k = ins.op
        if isinstance(v, Undef):
            v = self.fresh_val(fty, 'undef')
        if k == 'bitcast':
            return v
        if k == 'ptrtoint':
            r = self.ptr_to_int(v)
            return r if ty.n == 64 else z3.Extract(ty.n - 1, 0, r)
        if k == 'inttoptr':
            return self.int_to_ptr(v)
        if z3.is_bool(v):
            if k == 'zext':
                return z3.If(v, bv(1, ty.n), bv(0, ty.n))
            if k == 'sext':
                return z3.If(v, bv(-1, ty.n), bv(0, ty.n))
        if k == 'zext':
            return z3.ZeroExt(ty.n - v.size(), v)
        if k == 'sext':
            return z3.SignExt(ty.n - v.size(), v)
        if k == 'trunc':
            if ty.n == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            return z3.Extract(ty.n - 1, 0, v)
        raise ToolError(k)

    # ------------------------------------------------------------ execution
    def run(self, st, fname, args, depth=0):
        fn = self.m.funcs.get(fname)
        if fn is None:
            raise ToolError('no function %s' % fname)
        self.functions.add(fname)
        if depth > 60:
            if self.search:
                return
            raise ToolError('call depth exceeded in %s' % fname)
        fr = Frame(fn, depth)
        k = 0
        for (ty, nm, at), v in zip(fn.params, args):
            if nm is None:
                nm = str(k)
            k += 1
            if 'byval' in at:
                o = self.new_obj(st, 'byval', at['byval'].size())
                fr.objs.append(o)
                self.memcpy(st, Ptr(o, bv(0)), v, bv(at['byval'].size()), fname)
                v = Ptr(o, bv(0))
            fr.loc[nm] = v
        for s2, f2, rv in self.blocks(st, fr, fn.entry, 0, None):
            for o in f2.objs:
                s2.mem.pop(o.id, None)
            yield s2, rv

    def edge(self, st, fr, bb, to):
        """follow edge bb->to, honouring the innermost active loop cut; generator"""
        act = fr.active.get('cur')
        if act is not None and to not in act.body:
            act.exits.append((st, fr, to, bb))
            return
        yield from self.blocks(st, fr, to, 0, bb)

    def blocks(self, st, fr, bb, idx, prev):
        while True:
            blk = fr.fn.blocks[bb]
            if self.deadline and time.time() > self.deadline:
                raise ToolError('time budget exceeded in %s' % self.name)
            if idx == 0:
                loops = fr.fn.loops()
                act = fr.active.get('cur')
                if act is not None and prev is not None and bb not in act.body:
                    act.exits.append((st, fr, bb, prev))
                    return
                if bb in loops and prev != ('cut', bb):
                    entering = prev not in loops[bb]
                    mode = self.loop_mode(fr, bb)
                    if mode == 'inv':
                        if act is not None and act.header == bb and not entering:
                            act.back(self, st, fr, prev)
                            return
                        yield from Loop(self, fr.fn, bb).cut(st, fr, prev)
                        return
                    else:
                        if entering:
                            fr.counts[bb] = 0
                        else:
                            fr.counts[bb] = fr.counts.get(bb, 0) + 1
                            if fr.counts[bb] > mode:
                                if self.search:
                                    return
                                self.oblige(st, z3.BoolVal(False), 'unwinding', fr.fn.name[:60] + '/' + bb, 'more than %d iterations' % mode)
                                return
                # phis
                if prev is not None and blk.instrs and blk.instrs[0].op == 'phi':
                    pb = prev[2] if isinstance(prev, tuple) and len(prev) == 3 else prev
                    if not (isinstance(prev, tuple) and prev[0] == 'cut'):
                        vals = []
                        for ins in blk.instrs:
                            if ins.op != 'phi':
                                break
                            vals.append((ins.res, self.phi_val(st, fr, ins, prev)))
                        for r, v in vals:
                            fr.loc[r] = v
            n = len(blk.instrs)
            while idx < n:
                ins = blk.instrs[idx]
                op = ins.op
                if op == 'phi':
                    idx += 1
                    continue
                where = '%s/%s.%d' % (self.short(fr.fn.name), bb, idx)
                if op == 'br':
                    if ins.a[0] is None:
                        prev, bb, idx = bb, ins.a[1], 0
                        break
                    c = self.operand(st, fr, ir.I1, ins.a[0])
                    if isinstance(c, Undef):
                        c = fresh('undef', z3.BoolSort())
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        prev, bb, idx = bb, ins.a[1], 0
                        break
                    if z3.is_false(c):
                        prev, bb, idx = bb, ins.a[2], 0
                        break
                    nc = z3.simplify(z3.Not(c))
                    ft, ff = self.feasible(st, c), self.feasible(st, nc)
                    if ft and ff:
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise ToolError('path limit in %s' % self.name)
                        s2, f2 = st.fork(), fr.fork()
                        s2.pc.append(c)
                        yield from self.blocks(s2, f2, ins.a[1], 0, bb)
                        st.pc.append(nc)
                        prev, bb, idx = bb, ins.a[2], 0
                        break
                    if ft:
                        st.pc.append(c)
                        prev, bb, idx = bb, ins.a[1], 0
                        break
                    if ff:
                        st.pc.append(nc)
                        prev, bb, idx = bb, ins.a[2], 0
                        break
                    return
                if op == 'switch':
                    v = self.operand(st, fr, ins.ty, ins.a[0])
                    if isinstance(v, Undef):
                        v = self.fresh_val(ins.ty, 'undef')
                    by = {}
                    for cv, lab in ins.a[2]:
                        by.setdefault(lab, []).append(v == self.gen_const(cv, ins.ty.n))
                    rest = z3.Not(z3.Or(*[e for es in by.values() for e in es])) if by else z3.BoolVal(True)
                    outs = [(lab, z3.Or(*es)) for lab, es in by.items()] + [(ins.a[1], rest)]
                    for lab, e in outs:
                        e = z3.simplify(e)
                        if self.feasible(st, e):
                            s2, f2 = st.fork(), fr.fork()
                            s2.assume(e)
                            yield from self.blocks(s2, f2, lab, 0, bb)
                    return
                if op == 'ret':
                    rv = None
                    if ins.a[0] is not None:
                        rv = self.operand(st, fr, ins.ty, ins.a[0])
                        if isinstance(rv, Undef):
                            rv = self.fresh_val(ins.ty, 'undef')
                    yield st, fr, rv
                    return
                if op == 'unreachable':
                    self.oblige(st, z3.BoolVal(False), 'unreachable', where)
                    return
                if op == 'call':
                    gen = self.call(st, fr, ins, where)
                    if gen is not None:
                        done = False
                        for s2, rv in gen:
                            f2 = fr.fork()
                            if ins.res is not None:
                                f2.loc[ins.res] = rv
                            yield from self.blocks(s2, f2, bb, idx + 1, prev)
                        return
                    idx += 1
                    continue
                if op == 'select':
                    c = self.operand(st, fr, ir.I1, ins.a[0])
                    a = self.operand(st, fr, ins.ty, ins.a[1])
                    b = self.operand(st, fr, ins.ty, ins.a[2])
                    if isinstance(c, Undef):
                        c = fresh('undef', z3.BoolSort())
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        fr.loc[ins.res] = a
                    elif z3.is_false(c):
                        fr.loc[ins.res] = b
                    else:
                        if isinstance(a, Undef):
                            a = self.fresh_val(ins.ty, 'undef')
                        if isinstance(b, Undef):
                            b = self.fresh_val(ins.ty, 'undef')
                        if isinstance(a, Ptr):
                            u = self.unify(a, b)
                            if u is None:
                                for e, v in ((c, a), (z3.Not(c), b)):
                                    if self.feasible(st, e):
                                        s2, f2 = st.fork(), fr.fork()
                                        s2.assume(e)
                                        f2.loc[ins.res] = v
                                        yield from self.blocks(s2, f2, bb, idx + 1, prev)
                                return
                            fr.loc[ins.res] = Ptr(u[0].obj, z3.If(c, u[0].off, u[1].off))
                        elif isinstance(a, list):
                            raise ToolError('select on aggregate')
                        else:
                            fr.loc[ins.res] = z3.If(c, a, b)
                    idx += 1
                    continue
                self.simple(st, fr, ins, where)
                idx += 1
            else:
                raise ToolError('block without terminator')

    def phi_val(self, st, fr, ins, prev):
        for v, lab in ins.a:
            if lab == prev:
                x = self.operand(st, fr, ins.ty, v)
                if isinstance(x, Undef):
                    x = self.fresh_val(ins.ty, 'undef')
                return x
        raise ToolError('phi without edge from %s' % (prev,))

    def short(self, name):
        return name if len(name) < 50 else name[:47] + '...'

    def loop_mode(self, fr, bb):
        m = self.loops_mode
        if callable(m):
            m = m(fr.fn, bb)
        if m == 'inv':
            return 'inv'
        if m == 'unroll':
            return self.unroll
        return int(m)

    def simple(self, st, fr, ins, where):
        op = ins.op
        L = fr.loc
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            L[ins.res] = self.binop(st, fr, ins, where)
        elif op == 'icmp':
            L[ins.res] = self.icmp(st, fr, ins, where)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            L[ins.res] = self.cast(st, fr, ins)
        elif op == 'freeze':
            v = self.operand(st, fr, ins.ty, ins.a[0])
            L[ins.res] = self.fresh_val(ins.ty, 'undef') if isinstance(v, Undef) else v
        elif op == 'alloca':
            o = self.new_obj(st, 'alloca.%s' % ins.res, ins.ty.size() * ins.a[0])
            fr.objs.append(o)
            self.on_alloca(st, o, ins)
            L[ins.res] = Ptr(o, bv(0))
        elif op == 'load':
            p = self.operand(st, fr, ir.PTR, ins.a[0])
            L[ins.res] = self.load(st, p, ins.ty, where)
        elif op == 'store':
            v = self.operand(st, fr, ins.ty, ins.a[0])
            p = self.operand(st, fr, ir.PTR, ins.a[1])
            self.store(st, p, ins.ty, v, where)
        elif op == 'getelementptr':
            p = self.operand(st, fr, ir.PTR, ins.a[0])
            L[ins.res] = self.gep(st, fr, ins.ty, p, ins.a[1], where, 'inbounds' in ins.flags)
        elif op == 'extractvalue':
            v = self.operand(st, fr, ins.ty, ins.a[0])
            ty = ins.ty
            for i in ins.a[1]:
                ty = ty.els[i] if isinstance(ty, ir.StructTy) else ty.el
                v = Undef(ty) if isinstance(v, Undef) else v[i]
            if isinstance(v, Undef):
                v = self.fresh_val(ty, 'undef')
            L[ins.res] = v
        elif op == 'insertvalue':
            v = self.operand(st, fr, ins.ty, ins.a[0])
            w = self.operand(st, fr, ins.a[1], ins.a[2])

            def ins_(v, ty, ix):
                if not ix:
                    return w
                els = ty.els if isinstance(ty, ir.StructTy) else [ty.el] * ty.n
                v = [Undef(t) for t in els] if isinstance(v, Undef) else list(v)
                v[ix[0]] = ins_(v[ix[0]], els[ix[0]], ix[1:])
                return v
            L[ins.res] = ins_(v, ins.ty, ins.a[3])
        else:
            raise ToolError('instruction %s' % ins.text[:100])

    def on_alloca(self, st, o, ins):
        pass

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins, where):
        name, args = ins.a
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, where)
        vals = []
        for ty, op, at in args:
            v = self.operand(st, fr, ty, op)
            if isinstance(v, Undef):
                v = self.fresh_val(ty, 'undef')
            vals.append(v)
        for pred, h in self.handlers:
            if pred(name):
                return h(self, st, name, vals, where)
        if name not in self.m.funcs:
            raise ToolError('call to unknown external %s' % name)
        fn = self.m.funcs[name]
        if self.is_recursive(name) and self.rec_contract is not None and not self.search:
            return self.rec_contract(self, st, fr, name, vals, where)
        return self.run(st, name, vals, fr.depth + 1)

    def is_recursive(self, name):
        memo = self.__dict__.setdefault('_rec', {})
        if name in memo:
            return memo[name]
        seen = set()
        todo = [name]
        r = False
        while todo:
            x = todo.pop()
            f = self.m.funcs.get(x)
            if f is None:
                continue
            for b in f.blocks.values():
                for i in b.instrs:
                    if i.op == 'call':
                        c = i.a[0]
                        if c == name:
                            r = True
                        if c not in seen:
                            seen.add(c)
                            todo.append(c)
        memo[name] = r
        return r

    def intrinsic(self, st, fr, ins, where):
        name, args = ins.a
        if name.startswith(IGNORED_INTRINSICS):
            if ins.res is not None:
                fr.loc[ins.res] = Undef(ins.ty)
            return None
        if name.startswith('llvm.lifetime.start'):
            p = self.operand(st, fr, args[1][0], args[1][1])
            if p.obj.kind == 'stack' and p.obj.id in st.mem and isinstance(st.mem[p.obj.id], dict):
                st.mem[p.obj.id] = {}
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = [self.operand(st, fr, a[0], a[1]) for a in args[:3]]
            self.memcpy(st, d, s, n, where)
            return None
        if name.startswith('llvm.memset'):
            d, v, n = [self.operand(st, fr, a[0], a[1]) for a in args[:3]]
            c = self.const_off(n)
            if c is None:
                raise ToolError('memset of symbolic length')
            if c:
                self.check_access(st, d, c, 'store', where)
                if d.obj.kind == 'array':
                    if self.const_off(d.off) == 0 and is_true(v == 0) and is_true(d.obj.size == c):
                        st.mem[d.obj.id] = z3.K(BV64, bv(0, d.obj.elem * 8))
                        return None
                    raise ToolError('memset of array object')
                do = self.const_off(d.off)
                cells = dict(st.mem[d.obj.id])
                self.clear_cells(cells, do, c)
                v = z3.simplify(v)
                k = 0
                while k < c:
                    w = 8 if (do + k) % 8 == 0 and c - k >= 8 else 1
                    w = 1
                    cells[do + k] = (1, v)
                    k += w
                st.mem[d.obj.id] = cells
            return None
        vals = [self.operand(st, fr, a[0], a[1]) for a in args if not isinstance(a[0], ir.MetaTy)]
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            a, b = vals
            k = name.split('.')[1]
            c = {'umax': z3.UGE, 'umin': z3.ULE, 'smax': lambda x, y: x >= y, 'smin': lambda x, y: x <= y}[k](a, b)
            fr.loc[ins.res] = z3.If(c, a, b)
            return None
        if name.startswith('llvm.expect'):
            fr.loc[ins.res] = vals[0]
            return None
        if name.startswith('llvm.is.constant'):
            fr.loc[ins.res] = z3.BoolVal(False)
            return None
        if name.startswith('llvm.trap'):
            self.oblige(st, z3.BoolVal(False), 'trap', where)
            return iter(())
        if name.startswith('llvm.abs'):
            a = vals[0]
            fr.loc[ins.res] = z3.If(a < 0, -a, a)
            return None
        if name.startswith('llvm.ctlz'):
            a = vals[0]
            n = a.size()
            r = bv(n, n)
            for i in range(n):
                r = z3.If(z3.Extract(i, i, a) == 1, bv(n - 1 - i, n), r)
            fr.loc[ins.res] = r
            return None
        raise ToolError('intrinsic %s' % name)


# ---------------------------------------------------------------- loops
class Loop:
    """Cuts a loop with an inductive invariant found by Houdini from
       * coupling candidates (loop location == +-ghost component + constant), the ghost being the state of the spec function,
       * the spec function's own state invariant,
       * generic range / unchanged candidates on the loop locations.
    A candidate is used only if it holds on entry and is preserved by every back edge (both checked by the solver)."""

    def __init__(self, ex, fn, header):
        self.ex, self.fn, self.header = ex, fn, header
        self.body = fn.loops().get(header, set())
        self.exits = []
        self.backs = []

    def back(self, ex, st, fr, prev):
        vals = {}
        for ins in self.fn.blocks[self.header].instrs:
            if ins.op != 'phi':
                break
            vals[ins.res] = ex.phi_val(st, fr, ins, prev)
        self.backs.append((st, fr, vals))

    def val_fresh(self, v, pre):
        ex = self.ex
        if isinstance(v, Ptr):
            if v.obj.kind == 'null':
                if ex.subject is None:
                    raise ToolError('null pointer as a loop variable')
                return Ptr(ex.subject, fresh(pre, BV64))
            if v.obj.kind == 'array' or v.obj.kind == 'const':
                return Ptr(v.obj, fresh(pre, BV64))
            return Ptr(v.obj, fresh(pre, BV64))
        if isinstance(v, list):
            return [self.val_fresh(x, pre) for x in v]
        if isinstance(v, Undef):
            return v
        return fresh(pre, v.sort())

    def eqv(self, a, b):
        """equality of two runtime values as a formula, or None if they cannot be compared"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return None
            u = self.ex.unify(a, b)
            if u is None:
                if a.obj.kind == 'null' or b.obj.kind == 'null':
                    return z3.BoolVal(False)
                return None
            return u[0].off == u[1].off
        if isinstance(a, (list, Undef)) or isinstance(b, (list, Undef)):
            return None
        if a.sort() != b.sort():
            if z3.is_bool(a) and z3.is_bv(b):
                return z3.If(a, bv(1, b.size()), bv(0, b.size())) == b
            if z3.is_bool(b) and z3.is_bv(a):
                return z3.If(b, bv(1, a.size()), bv(0, a.size())) == a
            return None
        return a == b

    @staticmethod
    def num(v):
        if isinstance(v, Ptr):
            return v.off
        if isinstance(v, (list, Undef)) or z3.is_bool(v):
            return None
        return v

    def cut(self, st, fr, prev):
        ex = self.ex
        ex.loops_cut += 1
        if ex.loops_cut > 400:
            raise ToolError('too many loop cuts in %s' % ex.name)
        phis = []
        entry = {}
        for ins in self.fn.blocks[self.header].instrs:
            if ins.op != 'phi':
                break
            phis.append(ins)
            entry[('phi', ins.res)] = ex.phi_val(st, fr, ins, prev)
        wcells = {}   # (objid, off) -> (size, sample value)
        warrays = set()
        saved_rec = ex.recording
        spec = ex.spec if st.ghost is not None else None
        # choose how many spec steps have been taken before entry (peeled iterations)
        g0s = [st.ghost] if spec else [None]
        if spec:
            g = st.ghost
            for _ in range(2):
                c, g2 = spec.step(g)
                if not ex.valid(st, c):
                    break
                g0s.append(g2)
                g = g2
        while True:
            locs = dict(entry)
            for (oid, off), (sz, sample) in wcells.items():
                cells = st.mem.get(oid, {})
                cell = cells.get(off)
                if cell is not None and cell[0] == sz:
                    locs[('mem', oid, off)] = cell[1]
                else:
                    locs[('mem', oid, off)] = None
            for oid in warrays:
                locs[('arr', oid)] = st.mem[oid]
            # entry spec position: the one matching most components
            best = None
            if spec:
                for k, g in enumerate(g0s):
                    sc = 0
                    for c, gv in g.items():
                        if any(self.same(v, gv) for v in locs.values() if v is not None):
                            sc += 1
                    if best is None or sc > best[0]:
                        best = (sc, k, g)
                g0 = best[2]
            else:
                g0 = None
            hv = {}
            for l, v in locs.items():
                if v is None:
                    sz, sample = wcells[(l[1], l[2])]
                    hv[l] = self.val_fresh(sample, 'h')
                else:
                    hv[l] = self.val_fresh(v, 'h')
            hfresh = hv
            gh = {c: self.val_fresh(v, 'g_' + c) for c, v in g0.items()} if spec else None
            cands = self.candidates(st, locs, hv, g0, gh, spec)
            cands = [c for c in cands if c is not None]
            # keep those true on entry
            ok = self.filter_valid(st, [c[1] for c in cands])
            live = [(c[0], c[2], c[3], c[4]) for c, k in zip(cands, ok) if k]
            regrow = False
            while True:
                ex.recording = False
                hv, live = self.couple(hfresh, gh, live)
                allbacks = []
                for ghc, hvc, livec in self.cases(hv, gh, live, spec):
                    self.exits, self.backs = [], []
                    s1 = self.head_state(st, hvc, ghc, wcells, livec)
                    f1 = self.head_frame(fr, hvc)
                    for _ in ex.blocks(s1, f1, self.header, 0, ('cut', self.header)):
                        raise ToolError('return inside loop body')
                    allbacks += self.backs
                    # written cells
                    for sb, fb, vals in self.backs:
                        for oid, cells in sb.mem.items():
                            if oid not in st.mem:
                                continue
                            c0 = s1m[oid] if (s1m := self.mem0).get(oid) is not None else None
                            if not isinstance(cells, dict):
                                if oid not in warrays and not cells.eq(self.mem0[oid]):
                                    warrays.add(oid)
                                    regrow = True
                                continue
                            if cells is c0:
                                continue
                            for off, (sz, v) in cells.items():
                                if (oid, off) in wcells:
                                    continue
                                o = c0.get(off) if c0 else None
                                if o is not None and o[0] == sz and (o[1] is v or self.same(o[1], v)):
                                    continue
                                wcells[(oid, off)] = (sz, v)
                                regrow = True
                    if regrow:
                        break
                if regrow:
                    break
                drop = set()
                for sb, fb, vals in allbacks:
                    newl = self.back_locs(sb, vals, wcells, warrays)
                    gb = self.ghost_back(sb, gh, spec, live, hv, newl)
                    idx = [i for i in range(len(live)) if i not in drop]
                    fs = [live[i][2](newl, gb) for i in idx]
                    for i, k in zip(idx, self.filter_valid(sb, fs)):
                        if not k:
                            drop.add(i)
                            if DEBUG:
                                print('   drop', self.header, live[i][0])
                if not drop:
                    break
                live = [c for i, c in enumerate(live) if i not in drop]
            if regrow:
                continue
            break
        # final, recording pass
        ex.recording = saved_rec
        where = '%s/%s' % (ex.short(self.fn.name), self.header)
        allexits = []
        for ghc, hvc, livec in self.cases(hv, gh, live, spec):
            self.exits, self.backs = [], []
            s1 = self.head_state(st, hvc, ghc, wcells, livec)
            f1 = self.head_frame(fr, hvc)
            for _ in ex.blocks(s1, f1, self.header, 0, ('cut', self.header)):
                raise ToolError('return inside loop body')
            for sb, fb, vals in self.backs:
                newl = self.back_locs(sb, vals, wcells, warrays)
                gb = self.ghost_back(sb, ghc, spec, live, hvc, newl)
                fs = [mk(newl, gb) for desc, f_head, mk, cp in live]
                if getattr(ex, 'single', False):
                    for x, f in zip(live, fs):
                        if not z3.is_true(f):
                            ex.oblige(sb, f, 'inv-preserved', where, x[0])
                else:
                    ex.oblige(sb, z3.And(*fs) if fs else z3.BoolVal(True), 'inv-preserved', where, '; '.join(x[0] for x in live)[:400])
                if spec and hasattr(spec, 'variant'):
                    d = spec.variant(ghc, gb)
                    if d is not None:
                        ex.oblige(sb, d, 'decreases', where, 'loop does not make progress')
            allexits += self.exits
        self.exits = allexits
        if saved_rec:
            ex.inv_stats.append((where, [d for d, _, _, _ in live]))
        for s2, f2, to, frm in self.exits:
            f2.active = dict(fr.active)
            yield from ex.edge(s2, f2, frm, to)

    def cases(self, hv, gh, live, spec):
        """the loop state, split by the cases of the spec: (ghost, locations, invariants)"""
        if spec is None or not hasattr(spec, 'cases'):
            return [(gh, hv, live)]
        out = []
        for known, prefix in spec.cases(gh):
            g2, h2, done = dict(gh, **known), dict(hv), set()
            for desc, f, mk, cp in live:
                if prefix and cp and len(cp) == 3 and cp[2] == prefix and cp[0] not in done:
                    l, c = cp[:2]
                    if not isinstance(h2[l], Ptr) and not isinstance(g2[c], Ptr) and h2[l].sort() == g2[c].sort():
                        h2[l] = g2[c]
                        done.add(l)
            sub = [(gh[c], v) for c, v in known.items()]
            h2 = {l: z3.simplify(z3.substitute(v, *sub)) if isinstance(v, z3.ExprRef) else v for l, v in h2.items()}
            out.append((g2, h2, [(d, z3.simplify(mk(h2, g2)), mk, cp) for d, f, mk, cp in live]))
        return out

    def couple(self, hv, gh, live):
        """a location that equals a ghost component is represented by that component"""
        if gh is None:
            return hv, live
        hv = dict(hv)
        done = set()
        for desc, f, mk, cp in live:
            if cp is None or cp[0] in done or len(cp) == 3:
                continue
            l, c = cp
            a, b = hv[l], gh[c]
            if isinstance(a, Ptr) != isinstance(b, Ptr):
                continue
            if isinstance(a, Ptr):
                if a.obj is not b.obj:
                    continue
                hv[l] = b
            elif z3.is_bool(b) and z3.is_bv(a):
                hv[l] = z3.If(b, bv(1, a.size()), bv(0, a.size()))
            elif z3.is_bool(a) and z3.is_bv(b):
                continue
            else:
                hv[l] = b
            done.add(l)
        new = []
        for d, f, mk, cp in live:
            if not self.ex.rich and cp is None and d.split(' ')[0] in ('range', 'range0', 'ge', 'le', 'bool', 'unchanged') and self.loc_of.get(d) in done:
                continue
            new.append((d, z3.simplify(mk(hv, gh)), mk, cp))
        return hv, new

    def filter_valid(self, st, fs):
        """which of the formulas are valid in st (batched: one query for all, countermodels remove several at once)"""
        ex = self.ex
        ok = [f is not None for f in fs]
        if getattr(ex, 'single', False):
            return [k and (z3.is_true(f) or ex.valid(st, f)) for f, k in zip(fs, ok)]
        while True:
            idx = [i for i, k in enumerate(ok) if k and not z3.is_true(fs[i])]
            if not idx:
                return ok
            r = ex.sol.check(st.pc, z3.Not(z3.And(*[fs[i] for i in idx])))
            if r == z3.unsat:
                return ok
            n = 0
            if r == z3.sat:
                m = ex.sol.last_model
                for i in idx:
                    if not z3.is_true(m.eval(fs[i], model_completion=True)):
                        ok[i] = False
                        n += 1
            if n == 0:
                for i in idx:
                    if not ex.valid(st, fs[i]):
                        ok[i] = False
                return ok

    def same(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            u = self.ex.unify(a, b)
            return u is not None and (u[0].off.eq(u[1].off) or z3.simplify(u[0].off).eq(z3.simplify(u[1].off)))
        if isinstance(a, (Ptr, list, Undef)) or isinstance(b, (Ptr, list, Undef)):
            return False
        if a is None or b is None:
            return False
        if a.sort() != b.sort():
            e = self.eqv(a, b)
            return e is not None and is_true(e)
        return a.eq(b) or is_true(a == b)

    def head_state(self, st, hv, gh, wcells, live):
        s1 = st.fork()
        for l, v in hv.items():
            if l[0] == 'mem':
                cells = s1.mem.get(l[1], {})
                s1.mem[l[1]] = self.ex.put_cell(cells, l[2], wcells[(l[1], l[2])][0], v)
            elif l[0] == 'arr':
                s1.mem[l[1]] = v
        if gh is not None:
            s1.ghost = dict(gh)
            if hasattr(self.ex.spec, 'facts'):   # defining equations of the spec functions, instantiated at the loop state
                s1.assume(self.ex.spec.facts(gh))
        for desc, f, mk, cp in live:
            if f is not None and not z3.is_true(f):
                s1.assume(f)
        self.mem0 = dict(s1.mem)
        s1.flags['aftercut'] = True
        return s1

    def head_frame(self, fr, hv):
        f1 = fr.fork()
        for l, v in hv.items():
            if l[0] == 'phi':
                f1.loc[l[1]] = v
        f1.active = dict(fr.active)
        f1.active['cur'] = self
        return f1

    def back_locs(self, sb, vals, wcells, warrays):
        out = {}
        for r, v in vals.items():
            out[('phi', r)] = v
        for (oid, off), (sz, _) in wcells.items():
            cell = sb.mem.get(oid, {}).get(off)
            if cell is not None and cell[0] == sz:
                out[('mem', oid, off)] = cell[1]
            else:
                out[('mem', oid, off)] = None
        for oid in warrays:
            out[('arr', oid)] = sb.mem[oid]
        return out

    def ghost_back(self, sb, gh, spec, live, hv, newl):
        if spec is None:
            return None
        g = sb.ghost
        opts = [g]
        for _ in range(getattr(spec, 'max_steps', 2)):
            c, g2 = spec.step_at(self.ex, sb, g) if hasattr(spec, 'step_at') else spec.step(g)
            if not self.ex.valid(sb, c):
                break
            opts.append(g2)
            g = g2
        if len(opts) == 1:
            return opts[0]
        best = None
        order = ([0, 1] if getattr(spec, 'stays', False) else [1, 0]) + list(range(2, len(opts)))
        for k in order:
            cs = [(desc.split('==')[1], mk(newl, opts[k])) for desc, f, mk, cp in live if desc.startswith(('ghost ', 'while ')) and '==' in desc]
            n = len({c for (c, _), ok in zip(cs, self.filter_valid(sb, [f for _, f in cs])) if ok})
            if best is None or n > best[0]:
                best = (n, opts[k])
        return best[1]

    def candidates(self, st, locs, hv, g0, gh, spec):
        """yields (description, formula on entry, formula at head, maker(locs, ghost) for back edges)"""
        ex = self.ex
        out = []

        def add(desc, mk, cp=None):
            try:
                fe = mk(locs, g0)
                fh = mk(hv, gh)
            except ToolError:
                return
            if fe is None or fh is None:
                return
            out.append((desc, fe, fh, mk, cp))

        keys = list(locs)
        self.loc_of = {}
        nm = lambda l: ('%' + l[1]) if l[0] == 'phi' else ('mem%d+%d' % (l[1], l[2]) if l[0] == 'mem' else 'arr%d' % l[1])
        if spec:
            for c in g0:
                for l in keys:
                    if locs[l] is None:
                        continue
                    add('ghost %s==%s' % (nm(l), c), lambda L, G, l=l, c=c: self.eqv(L[l], G[c]) if L[l] is not None else None, (l, c))
                    a, b = self.num(locs[l]), self.num(g0[c])
                    if a is None or b is None or l[0] == 'arr' or z3.is_array(a) or z3.is_array(b):
                        continue
                    if a.sort() != b.sort() or isinstance(locs[l], Ptr) != isinstance(g0[c], Ptr):
                        continue
                    if not ex.rich or c in getattr(spec, 'exact', ()):
                        continue
                    d0, s0 = z3.simplify(a - b), z3.simplify(a + b)
                    if not is_true(d0 == 0):
                        add('ghost %s-%s' % (nm(l), c), lambda L, G, l=l, c=c, d0=d0: self.num(L[l]) - self.num(G[c]) == d0)
                    add('ghost %s+%s' % (nm(l), c), lambda L, G, l=l, c=c, s0=s0: self.num(L[l]) + self.num(G[c]) == s0)
            for desc, f in spec.inv():
                add('spec ' + desc, lambda L, G, f=f: f(G))
            # ghost component unchanged
            for c, v in g0.items():
                add('ghost-const %s' % c, lambda L, G, c=c, v=v: self.eqv(G[c], v))
        for l in keys:
            v0 = locs[l]
            if v0 is None or isinstance(v0, (list, Undef)):
                continue
            for kd in ('unchanged', 'range', 'range0', 'ge', 'le', 'bool'):
                self.loc_of['%s %s' % (kd, nm(l))] = l
            add('unchanged %s' % nm(l), lambda L, G, l=l, v0=v0: self.eqv(L[l], v0) if L[l] is not None else None)
            n0 = self.num(v0)
            if n0 is None or z3.is_array(n0):
                if z3.is_array(v0) if not isinstance(v0, Ptr) else False:
                    pass
                continue
            if isinstance(v0, Ptr):
                o = v0.obj if v0.obj.kind != 'null' else ex.subject
                if o is not None and o.kind == 'array':
                    add('range %s' % nm(l), lambda L, G, l=l, o=o: self.prange(L[l], o))
                    add('range0 %s' % nm(l), lambda L, G, l=l, o=o: self.prange0(L[l], o))
                add('ge %s' % nm(l), lambda L, G, l=l, n0=n0: z3.UGE(self.num(L[l]), n0))
                add('le %s' % nm(l), lambda L, G, l=l, n0=n0: z3.ULE(self.num(L[l]), n0))
            else:
                add('ge %s' % nm(l), lambda L, G, l=l, n0=n0: z3.UGE(self.num(L[l]), n0))
                add('le %s' % nm(l), lambda L, G, l=l, n0=n0: z3.ULE(self.num(L[l]), n0))
                if n0.size() <= 8:
                    add('bool %s' % nm(l), lambda L, G, l=l: z3.ULE(self.num(L[l]), bv(1, self.num(L[l]).size())))
                for magic, sym in ex.generalize.items():
                    if n0.size() == sym.size():
                        add('le-magic %s' % nm(l), lambda L, G, l=l, sym=sym: z3.Or(z3.ULE(self.num(L[l]), sym), sym == 0))
            for fdesc, fm in getattr(ex, 'extra_cands', []):
                add('%s %s' % (fdesc, nm(l)), lambda L, G, l=l, fm=fm: fm(L[l], G))
        for desc, mk, *cp in (ex.more_cands(locs, g0) if getattr(ex, 'more_cands', None) else []):
            add(desc, mk, *cp)
        # lock-step pairs
        if spec and not ex.rich:
            return out
        nums = [l for l in keys if locs[l] is not None and self.num(locs[l]) is not None and l[0] != 'arr'
                and self.num(locs[l]).size() == 64]
        for i in range(len(nums)):
            for j in range(i + 1, len(nums)):
                a, b = nums[i], nums[j]
                da = z3.simplify(self.num(locs[a]) - self.num(locs[b]))
                add('lockstep %s %s' % (nm(a), nm(b)), lambda L, G, a=a, b=b, da=da: self.num(L[a]) - self.num(L[b]) == da
                    if L[a] is not None and L[b] is not None else None)
        return out

    def prange(self, p, o):
        if not isinstance(p, Ptr):
            return None
        if p.obj.kind == 'null':
            return z3.BoolVal(False)
        if p.obj is not o:
            return None
        return z3.And(z3.UGE(p.off, o.lo), z3.ULE(p.off, o.size))

    def prange0(self, p, o):
        """null or in range"""
        if not isinstance(p, Ptr):
            return None
        if p.obj.kind == 'null':
            return p.off == 0
        if p.obj is not o:
            return None
        return z3.Or(p.off == bv(NULLOFF), z3.And(z3.UGE(p.off, o.lo), z3.ULE(p.off, o.size)))
