"""Reference semantics of the supported PCRE dialect, written from the PCRE documentation (README of the library lists the
deviations): an independent parser and a backtracking matcher. Used only as the oracle of the bounded stand-ins and to
confirm counterexamples on the compiled library; no proof depends on it."""
import unicodedata


class SyntaxErr(Exception):
    pass


def rng(a, b):
    return lambda c: a <= c <= b


def one(*cs):
    return lambda c: c in cs


def union(*fs):
    return lambda c: any(f(c) for f in fs)


UP, LO, DIG = rng(65, 90), rng(97, 122), rng(48, 57)
WORD = union(UP, LO, DIG, one(95))
SPACE = one(32, 9, 10, 11, 12, 13)
HSPACE = one(9, 32, 0xA0, 0x1680, 0x180E, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A,
             0x202F, 0x205F, 0x3000)
VSPACE = one(10, 11, 12, 13, 0x85, 0x2028, 0x2029)
POSIX = {
    'alnum': union(UP, LO, DIG), 'alpha': union(UP, LO), 'ascii': rng(0, 127), 'blank': one(32, 9), 'cntrl': union(rng(0, 31), one(127)),
    'digit': DIG, 'graph': rng(0x21, 0x7E), 'lower': LO, 'print': rng(0x20, 0x7E),
    'punct': union(rng(33, 47), rng(58, 64), rng(91, 96), rng(123, 126)), 'space': SPACE, 'upper': UP, 'word': WORD,
    'xdigit': union(DIG, rng(65, 70), rng(97, 102)),
}


def is_letter(c):
    return UP(c) or LO(c)


def fold_eq(a, b, ci):
    return a == b or (ci and is_letter(a) and a ^ 0x20 == b)


class P:
    """recursive descent parser -> tuples"""

    def __init__(self, text):
        self.t = [ord(c) for c in text] if isinstance(text, str) else list(text)
        self.i = 0
        self.groups = 0
        self.names = {}

    def peek(self, k=0):
        return chr(self.t[self.i + k]) if self.i + k < len(self.t) else ''

    def get(self):
        if self.i >= len(self.t):
            raise SyntaxErr('end')
        self.i += 1
        return chr(self.t[self.i - 1])

    def need(self, s):
        for c in s:
            if self.get() != c:
                raise SyntaxErr('expected %s' % s)

    def look(self, s):
        return all(self.peek(k) == c for k, c in enumerate(s))

    def parse(self):
        r = self.alt()
        if self.i != len(self.t):
            raise SyntaxErr('trailing text at %d' % self.i)
        return r

    def alt(self):
        alts = [self.seq()]
        while self.peek() == '|':
            self.get()
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ('alt', alts)

    def seq(self):
        items = []
        while self.peek() not in ('', '|', ')'):
            a = self.atom()
            items.append(self.quant(a))
        return ('seq', items)

    def number(self):
        n = ''
        while self.peek().isdigit():
            n += self.get()
        if not n:
            raise SyntaxErr('number')
        return int(n)

    def quant(self, a):
        c = self.peek()
        if c and c in '*+?':
            self.get()
            lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
        elif c == '{':
            self.get()
            lo = self.number()
            hi = lo
            exact = True
            if self.peek() == ',':
                exact = False
                self.get()
                hi = None if self.peek() == '}' else self.number()
            self.need('}')
            if exact:
                return ('rep', 'greedy', lo, hi, a)
        else:
            return a
        kind = 'greedy'
        if self.peek() == '?':
            self.get()
            kind = 'lazy'
        elif self.peek() == '+':
            self.get()
            kind = 'poss'
        return ('rep', kind, lo, hi, a)

    def name(self):
        n = self.get()
        while self.peek().isalnum() or self.peek() == '_':
            n += self.get()
        return n

    def atom(self):
        c = self.get()
        if c == '(':
            return self.group()
        if c == '[':
            return self.cls()
        if c == '.':
            return ('any',)
        if c == '^':
            return ('bol',)
        if c == '$':
            return ('eol',)
        if c in '*+?{':
            raise SyntaxErr('nothing to repeat')
        if c == '\\':
            d = self.peek()
            if d == 'A':
                self.get(); return ('bos',)
            if d == 'z':
                self.get(); return ('eos',)
            if d == 'Z':
                self.get(); return ('eosnl',)
            if d == 'b':
                self.get(); return ('wordb', True)
            if d == 'B':
                self.get(); return ('wordb', False)
            if d == 'g':
                self.get()
                self.need('{')
                if self.peek() == '-':
                    self.get()
                    k = self.groups + 1 - self.number()
                elif self.peek().isdigit():
                    k = self.number()
                else:
                    k = self.names[self.name()]
                self.need('}')
                return ('back', k)
            if d and d in '123456789':
                self.get()
                return ('back', int(d))
            return self.escape()
        return ('chr', ord(c))

    def group(self):
        if self.peek() != '?':
            self.groups += 1
            k = self.groups
            r = self.alt()
            self.need(')')
            return ('cap', k, r)
        self.get()
        if self.peek() in ('i', 'c', 's', 'm') and self.peek():
            ms = ''
            while self.peek() != ')':
                ms += self.get()
            self.get()
            return ('mode', ms)
        for tok, node in (('>', ('atomic',)), ('=', ('la', True)), ('!', ('la', False)), ('<=', ('lb', True)), ('<!', ('lb', False)), (':', None)):
            if self.look(tok):
                self.need(tok)
                r = self.alt()
                self.need(')')
                return node + (r,) if node else r
        self.need('<')
        n = self.name()
        self.need('>')
        self.groups += 1
        k = self.groups
        self.names[n] = k
        r = self.alt()
        self.need(')')
        return ('cap', k, r)

    def hexnum(self, n):
        if self.peek() == '{':
            self.get()
            s = ''
            while self.peek() != '}':
                s += self.get()
            self.get()
        else:
            s = ''.join(self.get() for _ in range(n))
        return int(s, 16)

    def escape(self):
        d = self.get()
        if d in 'dDwWsShHvVN':
            f = {'d': DIG, 'w': WORD, 's': SPACE, 'h': HSPACE, 'v': VSPACE, 'n': one(10)}[d.lower()]
            return ('pred', (lambda c, ci, f=f: not f(c)) if d.isupper() else (lambda c, ci, f=f: f(c)))
        if d in 'pP':
            self.need('{')
            s = ''
            while self.peek() != '}':
                s += self.get()
            self.get()
            return ('prop', d == 'P', s)
        if d == 'x':
            return ('chr', self.hexnum(2))
        if d == 'u':
            return ('chr', self.hexnum(4))
        if d in 'ntr0aef':
            return ('chr', {'n': 10, 't': 9, 'r': 13, '0': 0, 'a': 7, 'e': 27, 'f': 12}[d])
        if d.isalnum():
            raise SyntaxErr('escape')
        return ('chr', ord(d))

    def cls(self):
        neg = False
        if self.peek() == '^':
            self.get()
            neg = True
        items = []
        while self.peek() != ']':
            if self.look('[:'):
                self.need('[:')
                n = False
                if self.peek() == '^':
                    self.get()
                    n = True
                s = ''
                while self.peek() != ':':
                    s += self.get()
                self.need(':]')
                f = POSIX[s]
                if s in ('upper', 'lower'):
                    f = lambda c, ci, f=f: is_letter(c) if ci else f(c)
                else:
                    f = lambda c, ci, f=f: f(c)
                items.append(('pred', (lambda c, ci, f=f: not f(c, ci)) if n else f))
                continue
            c = self.get()
            if c == '\\':
                a = self.escape()
            else:
                a = ('chr', ord(c))
            if a[0] == 'chr' and self.peek() == '-' and self.peek(1) != ']':
                self.get()
                c = self.get()
                b = self.escape() if c == '\\' else ('chr', ord(c))
                items.append(('range', a[1], b[1]))
            else:
                items.append(a)
        self.get()
        return ('set', neg, items)


def item_match(it, c, ci):
    k = it[0]
    if k == 'chr':
        return fold_eq(it[1], c, ci)
    if k == 'range':
        return it[1] <= c <= it[2] or (ci and is_letter(c) and it[1] <= c ^ 0x20 <= it[2])
    if k == 'pred':
        return it[1](c, ci)
    if k == 'prop':
        return prop_match(it[2], c) != it[1]
    if k == 'set':
        return any(item_match(x, c, ci) for x in it[2]) != it[1]
    raise AssertionError(it)


def prop_match(name, c):
    g = unicodedata.category(chr(c)) if c < 0x110000 else 'Cn'
    n = name.lower()
    return g.lower() == n or g[0].lower() == n


def width(n):
    """lengths a lookbehind body can have"""
    k = n[0]
    if k in ('chr', 'any', 'set', 'pred', 'prop'):
        return {1}
    if k == 'seq':
        s = {0}
        for x in n[1]:
            s = {a + b for a in s for b in width(x)}
        return s
    if k == 'alt':
        return set().union(*[width(x) for x in n[1]])
    if k == 'cap':
        return width(n[2])
    if k == 'atomic':
        return width(n[1])
    if k == 'rep':
        assert n[3] is not None
        s = set()
        for i in range(n[2], n[3] + 1):
            s |= {i * a for a in width(n[4])}
        return s
    return {0}


class Matcher:
    """state: position, captures (tuple of (b,e) or None), flags (ci, ml)"""

    def __init__(self, pattern):
        p = P(pattern)
        self.ast = p.parse()
        self.groups = p.groups
        self.names = p.names
        self.code = {}

    # k: continuation (pos, caps, flags) -> result or None
    def m(self, n, s, pos, caps, fl, k):
        t = n[0]
        L = len(s)
        ci, ml = fl
        if t == 'chr':
            return k(pos + 1, caps, fl) if pos < L and fold_eq(n[1], s[pos], ci) else None
        if t in ('set', 'pred', 'prop'):
            return k(pos + 1, caps, fl) if pos < L and item_match(n, s[pos], ci) else None
        if t == 'any':
            return k(pos + 1, caps, fl) if pos < L and not (ml and s[pos] == 10) else None
        if t == 'seq':
            return self.seq(n[1], 0, s, pos, caps, fl, k)
        if t == 'alt':
            for a in n[1]:
                r = self.m(a, s, pos, caps, fl, k)
                if r is not None:
                    return r
            return None
        if t == 'cap':
            def done(p, c, f):
                c = list(c)
                c[n[1]] = (pos, p)
                return k(p, tuple(c), f)
            return self.m(n[2], s, pos, caps, fl, done)
        if t == 'bos':
            ok = pos == 0
        elif t == 'eos':
            ok = pos == L
        elif t == 'eosnl':
            ok = pos == L or (ml and pos == L - 1 and s[pos] == 10)
        elif t == 'bol':
            ok = pos == 0 or (ml and s[pos - 1] == 10)
        elif t == 'eol':
            ok = pos == L or (ml and s[pos] == 10)
        elif t == 'wordb':
            a = pos > 0 and WORD(s[pos - 1])
            b = pos < L and WORD(s[pos])
            ok = (a != b) == n[1]
        elif t == 'mode':
            for x in n[1]:
                if x == 'i': ci = True
                if x == 'c': ci = False
                if x == 's': ml = False
                if x == 'm': ml = True
            return k(pos, caps, (ci, ml))
        elif t == 'la':
            r = self.m(n[2], s, pos, caps, fl, lambda p, c, f: (p, c))
            if n[1]:
                return k(pos, r[1], fl) if r is not None else None
            ok = r is None
        elif t == 'lb':
            r = None
            for w in sorted(width(n[2])):
                if pos - w >= 0:
                    r = self.m(n[2], s, pos - w, caps, fl, lambda p, c, f: (p, c) if p == pos else None)
                    if r is not None:
                        break
            if n[1]:
                return k(pos, r[1], fl) if r is not None else None
            ok = r is None
        elif t == 'atomic':
            r = self.m(n[1], s, pos, caps, fl, lambda p, c, f: (p, c))
            return k(r[0], r[1], fl) if r is not None else None
        elif t == 'back':
            c = caps[n[1]]
            if c is None:
                return None
            w = c[1] - c[0]
            if pos + w > L or not all(fold_eq(s[c[0] + j], s[pos + j], ci) for j in range(w)):
                return None
            return k(pos + w, caps, fl)
        elif t == 'rep':
            return self.rep(n, s, pos, caps, fl, k)
        else:
            raise AssertionError(n)
        return k(pos, caps, fl) if ok else None

    def seq(self, items, i, s, pos, caps, fl, k):
        if i == len(items):
            return k(pos, caps, fl)
        return self.m(items[i], s, pos, caps, fl, lambda p, c, f: self.seq(items, i + 1, s, p, c, f, k))

    def rep(self, n, s, pos, caps, fl, k):
        """every iteration takes the first way its content matches (documented deviation: no backtracking into an iteration);
        an optional iteration must consume something"""
        _, kind, lo, hi, a = n

        def it(p, c, must):
            return self.m(a, s, p, c, fl, lambda q, d, f: (q, d) if must or q != p else None)
        i = 0
        while i < lo:
            r = it(pos, caps, True)
            if r is None:
                return None
            pos, caps = r
            i += 1
        if kind == 'lazy':
            while True:
                r = k(pos, caps, fl)
                if r is not None:
                    return r
                if hi is not None and i >= hi:
                    return None
                r = it(pos, caps, False)
                if r is None:
                    return None
                pos, caps = r
                i += 1
        stack = [(pos, caps)]
        while hi is None or i < hi:
            r = it(pos, caps, False)
            if r is None:
                break
            pos, caps = r
            stack.append(r)
            i += 1
        if kind == 'poss':
            return k(pos, caps, fl)
        for p, c in reversed(stack):
            r = k(p, c, fl)
            if r is not None:
                return r
        return None

    def at(self, s, pos, full=False, ci=False, ml=False):
        caps = (None,) * (self.groups + 1)

        def end(p, c, f):
            if full and p != len(s):
                return None
            return ((pos, p),) + c[1:]
        return self.m(self.ast, s, pos, caps, (ci, ml), end)

    def match(self, s, **kw):
        return self.at(s, 0, True, **kw)

    def starts_with(self, s, pos=0, **kw):
        return self.at(s, pos, False, **kw)

    def search(self, s, pos=0, **kw):
        for p in range(pos, len(s) + 1):
            r = self.at(s, p, **kw)
            if r is not None:
                return r
        return None

    def search_all(self, s, step=None, **kw):
        step = step or self.search
        out = []
        r = step(s, 0, **kw)
        while r is not None:
            out.append(r)
            b, e = r[0]
            if e == len(s):
                break
            if b == e and step == self.starts_with:
                break
            r = step(s, e + (b == e), **kw)
        return out

    def tokenize(self, s, **kw):
        return self.search_all(s, self.starts_with, **kw)

    def split(self, s, **kw):
        out, cur, frm = [], 0, 0
        while True:
            r = self.search(s, frm, **kw) if frm <= len(s) else None
            if r is None:
                out.append(((cur, len(s)),) + (None,) * self.groups)
                return out
            b, e = r[0]
            out.append(((cur, b),) + r[1:])
            cur = e
            frm = e + (b == e)
