"""C12: the parse table against the documented grammar, for every text.

The table is read out of the compiled program (units/grammar.hpp): the type augment_grammar<pcre>::rule answers for every reachable
nonterminal and every terminal. The claim per nonterminal X is a contract: as a translation (accepted text -> sequence of semantic
actions and characters) X is a given set of forms over the symbols of the grammar. One obligation per (contract, terminal): the
entry consumes the terminal exactly when the forms can begin with it, runs the actions the forms have before it, and what it puts
on the stack is, by the contracts of the symbols put there, what is left of the forms; where nothing is consumed, the forms have the
empty word with exactly these actions and (LL(1)) cannot begin with the terminal. The contracts hold coinductively: an obligation may
use the contract of any nonterminal, as a character has been consumed or the stack got shorter."""
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from . import build
sys.path.insert(0, build.VERIF)
from ref import grammar as ref  # noqa: E402

END = ref.END
CHARS = list(range(128)) + [0x80, 0xff, 0x20ac, 0x10ffff]


def parse_syms(s):
    out = []
    for x in s[1:-1].split():
        k, v = x[0], x[1:]
        if k == '*':
            out.append(('any', None))
        elif k == '!':
            out.append(('a', v.split('::')[-1]))
        elif k == '%':
            out.append(('n', v))
        elif k == '=':
            out.append(('t', frozenset([int(v)])))
        elif k == '+':
            out.append(('t', frozenset(int(i) for i in v.split(',') if i)))
        elif k == '-':
            out.append(('t', frozenset(CHARS) - frozenset(int(i) for i in v.split(',') if i)))
        elif k == '~':
            a, b = map(int, v.split(','))
            out.append(('t', frozenset(c for c in CHARS if a <= c <= b)))
        elif k == '@' and v in ('epsilon',):
            continue
        else:
            out.append(('?', x))
    return out


def dump(names, src='#include "grammar.hpp"\n'):
    """{nonterminal: {terminal: entry}}"""
    d = tempfile.gettempdir()

    def one(part):
        i, ns = part
        f = os.path.join(d, 'gr%d_%d.cpp' % (os.getpid(), i))
        exe = f[:-4]
        open(f, 'w').write(src + 'int main() { printf("start\\t%s\\n", show<ctre::pcre::_start>::name().c_str()); ' + ' '.join('table<%s>();' % n for n in ns) + '}\n')
        p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('the table does not compile: ' + p.stderr[:2000])
        o = subprocess.run([exe], capture_output=True, text=True).stdout
        os.unlink(f)
        os.unlink(exe)
        return o
    parts = [(i, names[i::8]) for i in range(min(8, len(names)))]
    table, start = {}, None
    with ThreadPoolExecutor(8) as pool:
        for o in pool.map(one, parts):
            for ln in o.splitlines():
                x = ln.split('\t')
                if x[0] == 'start':
                    start = x[1][1:]
                    continue
                t = END if x[1] == '@epsilon' else int(x[1][1:])
                table.setdefault(x[0][1:], {})[t] = ('[' + ']' if x[2] == '@epsilon' else x[2])
    return start, table


def full_table():
    src = open(os.path.join(build.REPO, 'include/ctre/pcre.hpp')).read()
    guess = ['ctre::pcre::' + n for n in re.findall(r'struct (\w+) \{\};', src)]
    start, table = None, {}
    want = guess or ['ctre::pcre::_start']
    while want:
        start, t = dump(want)
        table.update(t)
        for e in table.values():
            for v in e.values():
                pass
        seen = {x[1:] for e in table.values() for v in e.values() if v[0] == '[' for x in v[1:-1].split() if x[0] == '%'} | {start}
        want = sorted(seen - set(table))
    return start, table


class Prover:
    def __init__(self, start, table, g=None):
        self.g = g or ref.Grammar()
        self.start, self.raw = start, table
        self.entries = {x: {t: self.entry(x, t) for t in e} for x, e in table.items()}
        self.pops = {x: frozenset(t for t, e in es.items() if e[0] == 'pop') for x, es in self.entries.items()}
        self.pairs, self.choice, self.why = {}, {}, {}

    def ch(self, t):
        return t if t == END else self.g.term(t)

    def entry(self, x, t, depth=0):
        """('pop', actions before, symbols after) | ('eps', actions) | ('reject',) | ('bad', why)"""
        v = self.raw[x][t]
        if v == '@reject':
            return ('reject',)
        if v[0] != '[':
            return ('bad', v)
        return self.run(parse_syms(v), t, depth)

    def run(self, syms, t, depth):
        acts = []
        syms = list(syms)
        while syms:
            k, v = syms.pop(0)
            if k == 'a':
                acts.append(v)
            elif k == 'any':
                return ('bad', 'anything at the end of the text') if t == END else ('pop', tuple(acts), tuple(syms))
            elif k == 't':
                return ('pop', tuple(acts), tuple(syms)) if t in v else ('reject',)
            elif k == 'n':
                if depth > 20 or v not in self.raw:
                    return ('bad', 'no progress')
                e = self.entry(v, t, depth + 1)
                if e[0] in ('bad', 'reject'):
                    return e
                if e[0] == 'eps':
                    acts += e[1]
                    continue
                return ('pop', tuple(acts) + e[1], e[2] + tuple(syms))
            else:
                return ('bad', v)
        return ('eps', tuple(acts))

    # -------------------------------------------------------------------------------------------- what is left
    def cut(self, forms, q):
        return frozenset(f[:len(f) - q] for f in forms)

    def unfold(self, forms):
        out = set()
        for f in forms:
            if f and f[0][0] == 'n':
                out |= {alt + f[1:] for alt in self.g.rules[f[0][1]]}
            else:
                out.add(f)
        return frozenset(out)

    def lead(self, forms, kind):
        """unfold until every form begins with a symbol that is no nonterminal"""
        for _ in range(40):
            if not any(f and f[0][0] == 'n' for f in forms):
                return forms
            forms = frozenset(x for f in forms for x in (self.unfold([f])))
        return None

    def fits(self, y, P):
        F = self.g.first(P)
        return self.pops.get(y) == frozenset(t for t in CHARS if self.ch(t) in F)

    def splits(self, syms, forms, fuel=4000):
        """all ways to read the symbols as the forms: lists of (nonterminal, forms)"""
        out = []
        if len(forms) > 60:
            return out
        if not syms:
            if forms == frozenset([()]):
                out.append(())
            return out
        (k, v), rest = syms[0], syms[1:]
        if k == 'a':
            f = self.lead(forms, 'a')
            if f is not None and all(x and x[0] == ('a', v) for x in f):
                out += self.splits(rest, frozenset(x[1:] for x in f))
        elif k == 't' or k == 'any':
            v = frozenset(CHARS) if k == 'any' else v
            F = self.g.first(forms)
            if not self.g.empty(forms) and frozenset(t for t in CHARS if self.ch(t) in F) == v:
                nxt = {frozenset(self.g.step(forms, self.ch(t))) for t in v}
                if len(nxt) == 1:
                    n = nxt.pop()
                    if all(a == () for a, r in n):
                        out += self.splits(rest, frozenset(r for a, r in n))
        elif k == 'n':
            seen = set()
            cur = forms
            for _ in range(8):
                m = min(len(f) for f in cur) if cur else 0
                cs = 0
                while cs < m and len({f[len(f) - 1 - cs] for f in cur}) == 1:
                    cs += 1
                for q in range(cs + 1):
                    P = self.cut(cur, q)
                    suf = next(iter(cur))
                    suf = suf[len(suf) - q:]
                    if (P, suf) in seen:
                        continue
                    seen.add((P, suf))
                    if self.fits(v, P):
                        out += [((v, P, suf),) + s for s in self.splits(rest, frozenset([suf]))]
                if len(cur) > 1:
                    cp = 0
                    while cp < m and len({f[cp] for f in cur}) == 1:
                        cp += 1
                    p = next(iter(cur))[:cp]
                    for n in range(1, cp + 1):
                        P, R = frozenset([p[:n]]), frozenset(f[n:] for f in cur)
                        if self.fits(v, P) and (P, R) not in seen:
                            seen.add((P, R))
                            out += [((v, P, R),) + s for s in self.splits(rest, R)]
                nx = self.unfold(cur)
                if nx == cur or len(nx) > 60:
                    break
                cur = nx
        return out

    def options(self, x, P):
        """per terminal: the decompositions that would do (None where nothing is consumed), or a reason"""
        res = {}
        F = self.g.first(P)
        E = self.g.empty(P)
        memo = {}
        for t, e in self.entries[x].items():
            if e[0] == 'bad':
                res[t] = e[1]
            elif t != END and self.ch(t) in F:
                st = self.g.step(P, self.ch(t))
                pre = {a for a, r in st}
                if e[0] != 'pop':
                    res[t] = 'the grammar goes on with %s here, the table does not consume it (%s)' % (name(t), self.raw[x][t])
                elif pre != {e[1]}:
                    res[t] = 'actions before %s: grammar %s, table %s' % (name(t), sorted(pre), e[1])
                else:
                    key = (e[2], frozenset(r for a, r in st))
                    if key not in memo:
                        memo[key] = self.splits(*key) or 'after %s the grammar goes on with %s, the table with %s' % (name(t), ' | '.join(show(r) for r in sorted(key[1])), self.raw[x][t])
                    res[t] = memo[key]
            elif e[0] == 'pop':
                res[t] = 'the grammar does not go on with %s here, the table consumes it' % name(t)
            elif e[0] == 'eps':
                res[t] = [()] if E == {e[1]} else 'nothing consumed at %s: actions of the grammar %s, of the table %s' % (name(t), sorted(E), e[1])
            else:
                res[t] = 'rejects' if E else [()]
        return res

    def prove(self):
        root = (self.start, frozenset([(('n', 'S'),)]))
        opts, todo = {}, [root]
        while todo:
            k = todo.pop()
            if k in opts:
                continue
            opts[k] = self.options(*k)
            for t, o in opts[k].items():
                if isinstance(o, list):
                    for d in o:
                        todo += [(y, P) for y, P, q in d if (y, P) not in opts]
        bad = {}
        while True:
            n = len(bad)
            for k, o in opts.items():
                if k in bad:
                    continue
                for t, v in o.items():
                    if isinstance(v, str) and v != 'rejects':
                        bad[k] = (t, v)
                        break
                    if isinstance(v, list):
                        live = [d for d in v if not any((y, P) in bad for y, P, q in d)]
                        if not live:
                            d = v[0] if v else ()
                            bad[k] = (t, 'after %s: ' % name(t) + next((self.short(kk) for kk in ((y, P) for y, P, q in d) if kk in bad), '?'))
                            bad[k] += tuple(kk for kk in ((y, P) for y, P, q in d) if kk in bad)[:1]
                            break
            if len(bad) == n:
                break
        return root, opts, bad

    def short(self, k):
        return '%s as %s' % (k[0].split('::')[-1], ' | '.join(show(f) for f in sorted(k[1])))

    def obligations(self):
        """[(name, ok, detail)] one per (contract, terminal) reachable from the start; fails carry a reason"""
        root, opts, bad = self.prove()
        out = []
        reach, todo, follow = {root: None}, [root], {root: {END}}
        sel = {}
        while todo:
            k = todo.pop()
            for t, v in opts[k].items():
                if isinstance(v, list):
                    live = [d for d in v if not any((y, P) in bad for y, P, q in d)] or v
                    sel[k, t] = live[0] if live else ()
                    for y, P, q in sel[k, t]:
                        if (y, P) not in reach:
                            reach[y, P] = (k, t)
                            todo.append((y, P))
                            follow[y, P] = set()
        # what can follow each contract
        while True:
            n = sum(map(len, follow.values()))
            for (k, t), d in sel.items():
                if k not in follow:
                    continue
                after = set(follow[k])
                for y, P, q in reversed(d):
                    q = q if isinstance(q, frozenset) else frozenset([q])
                    F = set(self.g.first(q))
                    if self.g.empty(q):
                        F |= after
                    follow[y, P] |= F
            if sum(map(len, follow.values())) == n:
                break
        for k in reach:
            F = self.g.first(k[1])
            for t, v in opts[k].items():
                nm = '%s at %s' % (self.short(k), name(t))
                if isinstance(v, str) and v != 'rejects':
                    out.append((nm, False, v, k, t))
                    continue
                if v == 'rejects':
                    ok = self.ch(t) not in follow[k]
                    out.append((nm, ok, '' if ok else 'the grammar allows the empty word before %s here, the table rejects' % name(t), k, t))
                    continue
                live = [d for d in v if not any((y, P) in bad for y, P, q in d)]
                if not live:
                    # only report at the place where it goes wrong
                    sub = [kk for d in v for kk in ((y, P) for y, P, q in d) if kk in bad and kk in reach]
                    if not sub:
                        out.append((nm, False, 'no decomposition', k, t))
                    else:
                        out.append((nm, True, 'by contracts that fail', k, t))
                    continue
                if self.g.empty(k[1]) and self.ch(t) in F and self.ch(t) in follow[k]:
                    out.append((nm, False, 'the grammar has two readings: %s can begin this or follow it' % name(t), k, t))
                    continue
                out.append((nm, True, '', k, t))
        return out, reach, bad


def show(f):
    return ' '.join({'t': lambda v: '{%s}' % ''.join(name(c) for c in sorted(v)), 'n': lambda v: '<%s>' % v, 'a': lambda v: '[%s]' % v}[k](v) for k, v in f) or 'nothing'


def name(t):
    return 'the end' if t == END else 'other' if t == ref.OTHER else chr(t) if 32 < t < 127 else 'U+%04X' % t
