"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the harness units.

Anything outside the subset raises IRError: the check then ends with an error exit, never with a verdict.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()


class IntTy(Ty):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'i%d' % self.n

    def size(self):
        b = (self.n + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p if b <= 8 else ((b + 7) // 8) * 8

    def store_size(self):
        return (self.n + 7) // 8

    def align(self):
        return min(self.size(), 8 if self.n <= 64 else 16)


class PtrTy(Ty):
    def __repr__(self):
        return 'ptr'

    def size(self):
        return 8

    store_size = size

    def align(self):
        return 8


class VoidTy(Ty):
    def __repr__(self):
        return 'void'


class FloatTy(Ty):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def size(self):
        return {'float': 4, 'double': 8}.get(self.name, 16)

    store_size = size
    align = size


class MetaTy(Ty):
    def __repr__(self):
        return 'metadata'


class ArrTy(Ty):
    __slots__ = ('n', 'el')

    def __init__(self, n, el):
        self.n, self.el = n, el

    def __repr__(self):
        return '[%d x %r]' % (self.n, self.el)

    def size(self):
        return self.n * self.el.size()

    store_size = size

    def align(self):
        return self.el.align()


class StructTy(Ty):
    __slots__ = ('name', 'els', 'packed', '_off')

    def __init__(self, name, els, packed=False):
        self.name, self.els, self.packed, self._off = name, els, packed, None

    def __repr__(self):
        return self.name or '{%s}' % ', '.join(map(repr, self.els))

    def offsets(self):
        if self._off is None:
            if self.els is None:
                raise IRError('opaque struct %s' % self.name)
            off, o = [], 0
            for t in self.els:
                a = 1 if self.packed else t.align()
                o = (o + a - 1) // a * a
                off.append(o)
                o += t.size()
            a = 1 if self.packed else self.align()
            self._off = (off, (o + a - 1) // a * a)
        return self._off[0]

    def size(self):
        self.offsets()
        return self._off[1]

    store_size = size

    def align(self):
        if self.packed:
            return 1
        return max([t.align() for t in self.els] or [1])


I1, I8, I16, I32, I64 = IntTy(1), IntTy(8), IntTy(16), IntTy(32), IntTy(64)
PTR, VOID, META = PtrTy(), VoidTy(), MetaTy()

# ---------------------------------------------------------------- operands


class Op:
    __slots__ = ()


class Local(Op):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '%' + self.name


class CInt(Op):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return str(self.v)


class CNull(Op):
    pass


class CUndef(Op):
    pass


class CZero(Op):
    pass


class CGlobal(Op):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class CAgg(Op):
    __slots__ = ('els',)  # list of (ty, op)

    def __init__(self, els):
        self.els = els


class CBytes(Op):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class CExpr(Op):
    __slots__ = ('kind', 'args', 'ty')

    def __init__(self, kind, args, ty=None):
        self.kind, self.args, self.ty = kind, args, ty


class CMeta(Op):
    pass


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'text')

    def __init__(self, op, res, ty, a, flags=(), text=''):
        self.op, self.res, self.ty, self.a, self.flags, self.text = op, res, ty, a, flags, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'instrs')

    def __init__(self, name):
        self.name, self.instrs = name, []


class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params, self.attrs = name, ret, params, attrs  # params: (ty, name, attrs{})
        self.blocks = {}
        self.entry = None
        self._loops = None

    # --- CFG / natural loops
    def succs(self, b):
        t = self.blocks[b].instrs[-1]
        if t.op == 'br':
            return [x for x in t.a[1:] if x]
        if t.op == 'switch':
            return [t.a[1]] + [l for _, l in t.a[2]]
        return []

    def loops(self):
        """header -> set of body blocks (natural loops, by back edges found with dominators)"""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()

        def dfs(root):
            st = [(root, iter(self.succs(root)))]
            seen.add(root)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise IRError('irreducible control flow in %s' % self.name)
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}


TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+(?:\.\d+(?:e[-+]\d+)?)?|0x[0-9A-Fa-f]+)
  | (?P<dots>\.\.\.)
  | (?P<id>[a-zA-Z_.$][-a-zA-Z$._0-9]*)
  | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


class Toks:
    def __init__(self, s):
        self.s = s
        self.t = []
        i = 0
        n = len(s)
        while i < n:
            if s[i] in ' \t':
                i += 1
                continue
            if s[i] == ';':
                break
            m = TOK.match(s, i)
            if not m or m.end() == i:
                raise IRError('token at %r in %r' % (s[i:i + 20], s[:200]))
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r at %r in %r' % (v, self.peek(), self.s[:300]))


FAST = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'volatile', 'nnan', 'fast', 'samesign'}
PARAM_ATTR_PAREN = {'sret', 'byval', 'align', 'dereferenceable', 'dereferenceable_or_null', 'byref', 'inalloca',
                    'elementtype', 'range', 'memory', 'initializes', 'captures'}
PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
              'writable', 'dead_on_unwind', 'returned', 'immarg', 'nofree', 'inreg', 'nest', 'swiftself', 'noext',
              'allocalign', 'allocptr', 'dead_on_return', 'noreturn', 'nounwind'}


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.text = text

    def ty(self, t):
        k, v = t.next()
        if k == 'id':
            if v == 'ptr':
                r = PTR
                if t.acc('addrspace'):
                    raise IRError('addrspace')
            elif v == 'void':
                r = VOID
            elif v == 'metadata':
                r = META
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                r = FloatTy(v)
            elif re.fullmatch(r'i\d+', v):
                r = IntTy(int(v[1:]))
            elif v == 'opaque':
                r = StructTy('opaque', None)
            else:
                raise IRError('type %r in %r' % (v, t.s[:200]))
        elif k == 'loc':
            n = unq(v)
            if n not in self.m.types:
                self.m.types[n] = StructTy('%' + n, None)
            r = self.m.types[n]
        elif v == '[':
            n = int(t.next()[1])
            t.exp('x')
            e = self.ty(t)
            t.exp(']')
            r = ArrTy(n, e)
        elif v == '{':
            els = []
            if not t.acc('}'):
                while True:
                    els.append(self.ty(t))
                    if t.acc('}'):
                        break
                    t.exp(',')
            r = StructTy(None, els)
        elif v == '<':
            if t.acc('{'):
                els = []
                if not t.acc('}'):
                    while True:
                        els.append(self.ty(t))
                        if t.acc('}'):
                            break
                        t.exp(',')
                t.exp('>')
                r = StructTy(None, els, True)
            else:
                raise IRError('vector type in %r' % t.s[:200])
        else:
            raise IRError('type at %r in %r' % (v, t.s[:200]))
        # function type  (only in call position: "void (ptr, ...)")
        return r

    def fnty_tail(self, t):
        """skip '(types...)' after a return type in a call"""
        if t.peek()[1] == '(':
            depth = 0
            while True:
                k, v = t.next()
                if k == 'eof':
                    raise IRError('fn type')
                if v == '(':
                    depth += 1
                elif v == ')':
                    depth -= 1
                    if depth == 0:
                        return

    def const(self, t, ty):
        k, v = t.peek()
        if k == 'loc':
            t.next()
            return Local(unq(v))
        if k == 'glob':
            t.next()
            return CGlobal(unq(v))
        if k == 'num':
            t.next()
            if isinstance(ty, FloatTy):
                return CUndef()
            return CInt(int(v, 0))
        if k == 'str':
            t.next()
            s = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92)
                        i += 2
                        continue
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return CBytes(bytes(out))
        if k == 'id':
            t.next()
            if v == 'true':
                return CInt(1)
            if v == 'false':
                return CInt(0)
            if v in ('null',):
                return CNull()
            if v in ('undef', 'poison'):
                return CUndef()
            if v == 'zeroinitializer':
                return CZero()
            if v == 'getelementptr':
                while t.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    t.next()
                t.exp('(')
                bt = self.ty(t)
                args = []
                while t.acc(','):
                    ty2 = self.ty(t)
                    args.append((ty2, self.const(t, ty2)))
                t.exp(')')
                return CExpr('gep', args, bt)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
                t.exp('(')
                ty2 = self.ty(t)
                c = self.const(t, ty2)
                t.exp('to')
                ty3 = self.ty(t)
                t.exp(')')
                return CExpr(v, [(ty2, c)], ty3)
            if v in ('sub', 'add'):
                while t.peek()[1] in FAST:
                    t.next()
                t.exp('(')
                ty2 = self.ty(t)
                c = self.const(t, ty2)
                t.exp(',')
                ty3 = self.ty(t)
                d = self.const(t, ty3)
                t.exp(')')
                return CExpr(v, [(ty2, c), (ty3, d)], ty2)
            raise IRError('constant %r in %r' % (v, t.s[:200]))
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            t.next()
            packed = False
            if v == '<' and t.acc('{'):
                packed = True
                close = '}'
            els = []
            if not t.acc(close):
                while True:
                    ty2 = self.ty(t)
                    els.append((ty2, self.const(t, ty2)))
                    if t.acc(close):
                        break
                    t.exp(',')
            if packed:
                t.exp('>')
            return CAgg(els)
        if k == 'meta':
            t.next()
            return CMeta()
        raise IRError('constant at %r in %r' % ((k, v), t.s[:300]))

    def attrs(self, t):
        a = {}
        while True:
            k, v = t.peek()
            if k == 'id' and v in PARAM_ATTR_PAREN:
                t.next()
                if v == 'align' and t.peek()[0] == 'num':
                    a['align'] = int(t.next()[1])
                    continue
                if t.acc('('):
                    if v in ('sret', 'byval'):
                        a[v] = self.ty(t)
                        t.exp(')')
                    else:
                        d = 1
                        while d:
                            x = t.next()[1]
                            d += (x == '(') - (x == ')')
            elif k == 'id' and v in PARAM_ATTR:
                t.next()
                a[v] = True
            elif k == 'str':
                t.next()
                if t.acc('='):
                    t.next()
            else:
                return a

    def params(self, t):
        t.exp('(')
        ps = []
        if t.acc(')'):
            return ps
        while True:
            if t.peek()[0] == 'dots':
                t.next()
                ps.append('...')
            else:
                ty = self.ty(t)
                at = self.attrs(t)
                nm = None
                if t.peek()[0] == 'loc':
                    nm = unq(t.next()[1])
                ps.append((ty, nm, at))
            if t.acc(')'):
                return ps
            t.exp(',')

    def parse(self):
        lines = self.text.split('\n')
        # pass 1: types
        for ln in lines:
            if ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    n = m.group(1)
                    n = n[1:-1] if n.startswith('"') else n
                    if n not in self.m.types:
                        self.m.types[n] = StructTy('%' + n, None)
                    if m.group(2) == 'opaque':
                        continue
                    tt = self.ty(Toks(m.group(2)))
                    if not isinstance(tt, StructTy):
                        raise IRError('named non-struct')
                    self.m.types[n].els = tt.els
                    self.m.types[n].packed = tt.packed
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('@'):
                self.glob(ln)
            elif ln.startswith('declare'):
                f = self.header(ln)
                self.m.decls[f.name] = f
            elif ln.startswith('define'):
                f = self.header(ln)
                i += 1
                cur = None
                while not lines[i].startswith('}'):
                    s = lines[i]
                    if s.startswith('  '):
                        if s.lstrip().startswith('switch') and not s.rstrip().endswith(']'):
                            while not lines[i].strip().startswith(']'):
                                i += 1
                                s += ' ' + lines[i].strip()
                        if cur is None:
                            # implicit entry label: number = count of unnamed params
                            nm = str(sum(1 for p in f.params if p[1] is None or p[1].isdigit()))
                            cur = Block(nm)
                            f.blocks[nm] = cur
                            f.entry = nm
                        cur.instrs.append(self.instr(s.strip()))
                    elif s.strip() and not s.startswith(';'):
                        m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
                        if not m:
                            raise IRError('label %r' % s)
                        nm = m.group(1)
                        nm = nm[1:-1] if nm.startswith('"') else nm
                        cur = Block(nm)
                        f.blocks[nm] = cur
                        if f.entry is None:
                            f.entry = nm
                    i += 1
                self.m.funcs[f.name] = f
            i += 1
        return self.m

    def glob(self, ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
        nm = m.group(1)
        nm = nm[1:-1] if nm.startswith('"') else nm
        rest = m.group(2)
        mm = re.search(r'\b(global|constant) ', rest)
        if not mm:
            return
        self.m.globals[nm] = (mm.group(1) == 'constant', rest[mm.end():], 'external' in rest[:mm.start()].split())

    def global_init(self, nm):
        const, rest, ext = self.m.globals[nm]
        t = Toks(rest)
        ty = self.ty(t)
        if ext:
            return const, ty, None
        return const, ty, self.const(t, ty)

    def header(self, ln):
        ln2 = ln.split('{')[0] if False else ln
        t = Toks(ln2.rstrip('{').rstrip())
        t.next()
        # skip linkage etc. until a type is parseable followed by @name
        while True:
            k, v = t.peek()
            if k == 'id' and v in PARAM_ATTR_PAREN | PARAM_ATTR:
                self.attrs(t)
                continue
            if k == 'id' and (v in ('ptr', 'void', 'float', 'double', 'x86_fp80') or re.fullmatch(r'i\d+', v)):
                break
            if k == 'loc' or v in ('[', '{', '<'):
                break
            if k == 'eof':
                raise IRError('header ' + ln[:200])
            t.next()
        ret = self.ty(t)
        k, v = t.next()
        if k != 'glob':
            raise IRError('header %r' % ln[:200])
        ps = self.params(t)
        return Func(unq(v), ret, ps, ln)

    def lab(self, t):
        t.exp('label')
        return unq(t.next()[1])

    def tv(self, t):
        ty = self.ty(t)
        return ty, self.const(t, ty)

    def instr(self, s):
        # cut trailing metadata
        t = Toks(s)
        res = None
        if t.peek()[0] == 'loc' and t.peek(1)[1] == '=':
            res = unq(t.next()[1])
            t.next()
        op = t.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = t.next()[1]
        fl = []
        if op != 'call':
            while t.peek()[1] in FAST:
                fl.append(t.next()[1])
        I = lambda ty, a: Instr(op, res, ty, a, tuple(fl), s)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            ty = self.ty(t)
            a = self.const(t, ty)
            t.exp(',')
            b = self.const(t, ty)
            return I(ty, (a, b))
        if op == 'icmp':
            pred = t.next()[1]
            ty = self.ty(t)
            a = self.const(t, ty)
            t.exp(',')
            b = self.const(t, ty)
            return I(ty, (pred, a, b))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            ty, a = self.tv(t)
            t.exp('to')
            return I(self.ty(t), (ty, a))
        if op == 'freeze':
            ty, a = self.tv(t)
            return I(ty, (a,))
        if op == 'select':
            _, c = self.tv(t)
            t.exp(',')
            ty, a = self.tv(t)
            t.exp(',')
            _, b = self.tv(t)
            return I(ty, (c, a, b))
        if op == 'phi':
            ty = self.ty(t)
            inc = []
            while True:
                t.exp('[')
                v = self.const(t, ty)
                t.exp(',')
                inc.append((v, unq(t.next()[1])))
                t.exp(']')
                if not (t.peek()[1] == ',' and t.peek(1)[1] == '['):
                    break
                t.next()
            return I(ty, inc)
        if op == 'br':
            if t.peek()[1] == 'label':
                return I(None, (None, self.lab(t), None))
            _, c = self.tv(t)
            t.exp(',')
            a = self.lab(t)
            t.exp(',')
            b = self.lab(t)
            return I(None, (c, a, b))
        if op == 'switch':
            ty, v = self.tv(t)
            t.exp(',')
            d = self.lab(t)
            t.exp('[')
            cs = []
            while not t.acc(']'):
                ty2, c = self.tv(t)
                t.exp(',')
                cs.append((c.v, self.lab(t)))
            return I(ty, (v, d, cs))
        if op == 'ret':
            ty = self.ty(t)
            if isinstance(ty, VoidTy):
                return I(ty, (None,))
            return I(ty, (self.const(t, ty),))
        if op == 'unreachable':
            return I(None, ())
        if op == 'alloca':
            ty = self.ty(t)
            cnt = 1
            if t.acc(','):
                if t.peek()[1] != 'align':
                    _, c = self.tv(t)
                    if not isinstance(c, CInt):
                        raise IRError('dynamic alloca')
                    cnt = c.v
            return I(ty, (cnt,))
        if op == 'load':
            ty = self.ty(t)
            t.exp(',')
            _, p = self.tv(t)
            return I(ty, (p,))
        if op == 'store':
            ty, v = self.tv(t)
            t.exp(',')
            _, p = self.tv(t)
            return I(ty, (v, p))
        if op == 'getelementptr':
            ty = self.ty(t)
            t.exp(',')
            _, p = self.tv(t)
            idx = []
            while t.peek()[1] == ',' and t.peek(1)[0] != 'meta':
                t.next()
                idx.append(self.tv(t))
            return I(ty, (p, idx))
        if op == 'extractvalue':
            ty, v = self.tv(t)
            ix = []
            while t.peek()[1] == ',' and t.peek(1)[0] == 'num':
                t.next()
                ix.append(int(t.next()[1]))
            return I(ty, (v, ix))
        if op == 'insertvalue':
            ty, v = self.tv(t)
            t.exp(',')
            ty2, w = self.tv(t)
            ix = []
            while t.peek()[1] == ',' and t.peek(1)[0] == 'num':
                t.next()
                ix.append(int(t.next()[1]))
            return I(ty, (v, ty2, w, ix))
        if op == 'call':
            while True:
                k, v = t.peek()
                if k == 'id' and v in PARAM_ATTR | PARAM_ATTR_PAREN | {'fastcc', 'ccc', 'coldcc'}:
                    if v in ('fastcc', 'ccc', 'coldcc'):
                        t.next()
                    else:
                        self.attrs(t)
                else:
                    break
            ret = self.ty(t)
            if t.peek()[1] == '(':
                self.fnty_tail(t)
            k, v = t.next()
            if k != 'glob':
                raise IRError('indirect call %r' % s[:200])
            callee = unq(v)
            t.exp('(')
            args = []
            if not t.acc(')'):
                while True:
                    ty = self.ty(t)
                    if isinstance(ty, MetaTy):
                        # skip metadata arg
                        d = 0
                        while not (d == 0 and t.peek()[1] in (',', ')')):
                            x = t.next()[1]
                            d += (x in ('(', '{')) - (x in (')', '}'))
                        args.append((ty, CMeta(), {}))
                    else:
                        at = self.attrs(t)
                        args.append((ty, self.const(t, ty), at))
                    if t.acc(')'):
                        break
                    t.exp(',')
            return Instr('call', res, ret, (callee, args), (), s)
        raise IRError('instruction %r' % s[:200])


def parse(text):
    p = Parser(text)
    m = p.parse()
    m.parser = p
    return m
