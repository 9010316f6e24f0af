"""The documented grammar (ref/pcre.gram, a copy of the file the library documents its syntax with), read as a translation:
a form is a tuple of symbols, each ('t', frozenset of terminals), ('n', name) or ('a', action)."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
OTHER = -1      # a character that no literal of the grammar names
END = -2


def read(path=os.path.join(HERE, 'pcre.gram')):
    sets, rules, order = {}, {}, []
    for ln in open(path):
        ln = ln.rstrip('\n').strip()
        if not ln or ln.startswith('#'):
            continue
        x = re.match(r'(\w+)=\{(.*)\}$', ln)
        if x and '->' not in ln.split('=')[0]:
            sets[x.group(1)] = frozenset(ord(c.replace('\\', '', 1) if len(c) == 2 else c) for c in split(x.group(2)))
            continue
        n, _, rhs = ln.partition('->')
        rules.setdefault(n.strip(), []).extend(tuple(symbol(s) for s in seq) for seq in alternatives(rhs))
    named = frozenset().union(*sets.values())
    for alts in rules.values():
        for a in alts:
            for kind, v in a:
                if kind == 'str':
                    named |= frozenset(map(ord, v))
                if kind == 'chr':
                    named |= {ord(v)}

    def fin(s):
        kind, v = s
        if kind == 'set':
            return [('t', frozenset([OTHER]) if v == 'other' else sets[v] if v in sets else frozenset([ord(v)]) if len(v) == 1 else {}[v])]
        if kind == 'chr':
            return [('t', frozenset([ord(v)]))]
        if kind == 'str':
            return [('t', frozenset([ord(c)])) for c in v]
        if kind == 'eps':
            return []
        return [s]
    return {n: [tuple(x for s in a for x in fin(s)) for a in alts] for n, alts in rules.items()}, named


def split(s):
    """the members of a set: separated by commas, backslash escapes"""
    out, i = [], 0
    while i < len(s):
        n = 2 if s[i] == '\\' and i + 1 < len(s) and not (s[i + 1] == ',' and i + 2 >= len(s) and False) else 1
        out.append(s[i:i + n])
        i += n
        if i < len(s):
            assert s[i] == ',', (s, i)
            i += 1
    return out


def alternatives(rhs):
    for alt in rhs.split('|'):
        seq = [x.strip() for x in alt.strip().split(',')]
        yield [x for x in seq if x]


def symbol(s):
    if s == 'epsilon':
        return ('eps', '')
    if s[0] == '<':
        return ('n', s[1:-1])
    if s[0] == '[':
        return ('a', s[1:-1])
    if s[0] == '"':
        return ('str', s[1:-1])
    if s[0] == '\\':
        return ('chr', s[1:])
    return ('set', s)


class Grammar:
    def __init__(self):
        self.rules, self.named = read()
        self.memo = {}
        for n, alts in self.rules.items():
            for a in alts:
                for k, v in a:
                    assert k != 'n' or v in self.rules, (n, v)

    def term(self, c):
        return c if c in self.named else OTHER

    def expand(self, form, depth=0):
        """leftmost expansions: (actions, first terminal set, rest) and (actions, None, ()) for the empty word"""
        if form in self.memo:
            return self.memo[form]
        assert depth < 60, 'left recursion'
        out = set()
        if not form:
            out.add(((), None, ()))
        else:
            (k, v), rest = form[0], form[1:]
            if k == 't':
                out.add(((), v, rest))
            elif k == 'a':
                out = {((v,) + a, t, r) for a, t, r in self.expand(rest, depth + 1)}
            else:
                for alt in self.rules[v]:
                    out |= self.expand(alt + rest, depth + 1)
        self.memo[form] = out
        return out

    def step(self, forms, c):
        """{(actions before the terminal, rest)} after reading c"""
        return {(a, r) for f in forms for a, t, r in self.expand(f) if t is not None and c in t}

    def first(self, forms):
        s = frozenset()
        for f in forms:
            for a, t, r in self.expand(f):
                if t is not None:
                    s |= t
        return s

    def empty(self, forms):
        """traces of the empty word"""
        return {a for f in forms for a, t, r in self.expand(f) if t is None}
