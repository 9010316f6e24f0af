"""Bounded: randomly built patterns against the reference matcher on all short subjects. Part of the thorough tier, and the search for a
failing input when an obligation failed which the enumerated corpus does not show. The generator keeps off what KNOWN_FINDINGS.json records
(lookbehind over repeats, captures, anchors and modes; a{0}; references into their own group)."""
import random
import time
from . import native
from .native import Case, words

CHARS = 'abc'
# what a property wants more of: weights of the kinds of atoms
KINDS = {'char': 8, 'class': 4, 'dot': 1, 'group': 3, 'ncgroup': 3, 'anchor': 1, 'wordb': 1, 'look': 1, 'behind': 1, 'atomic': 1, 'back': 1, 'mode': 1, 'escape': 1, 'empty': 1}
MORE = {
    'C01': {'anchor': 5, 'wordb': 4, 'class': 8, 'dot': 4}, 'C02': {'group': 6, 'ncgroup': 6}, 'C03': {'class': 10, 'char': 10, 'look': 2, 'ncgroup': 5}, 'C04': {'ncgroup': 6, 'look': 3, 'back': 3, 'wordb': 3},
    'C05': {'group': 12, 'look': 2}, 'C06': {'anchor': 6, 'ncgroup': 5}, 'C07': {'empty': 3, 'anchor': 3, 'look': 2}, 'C08': {'class': 6, 'behind': 2, 'back': 0}, 'C10': {'class': 14, 'escape': 8}, 'C13': {'look': 8, 'behind': 6, 'atomic': 8},
    'C14': {'back': 10, 'group': 10}, 'C16': {'mode': 8, 'anchor': 6, 'dot': 4, 'class': 6}, 'C12': {'class': 6, 'escape': 6, 'look': 3, 'atomic': 3, 'mode': 3},
}
QUANT = {'C02': .75, 'C03': .7, 'C04': .6, 'C05': .5, 'C07': .4}
SUBJECT = {'C08': ('8', 'a\u00e9\u20ac\U0001f600'), 'C16': ('c', 'aB\n'), 'C01': ('c', 'ab\n '), 'C06': ('c', 'ab\n'), 'C07': ('c', 'ab\n'), 'C10': ('c', 'abcB1_-')}


class Gen:
    def __init__(self, rnd, prop):
        self.r, self.prop = rnd, prop
        self.w = dict(KINDS, **MORE.get(prop, {}))
        self.ct, alpha = SUBJECT.get(prop, ('c', CHARS))
        self.alpha = alpha
        self.letters = [c for c in alpha if c not in '\n -_']

    def pattern(self):
        self.n, self.closed, self.names = 0, [], 0
        self.size = 0
        return self.alt(0, True)

    def alt(self, d, free):
        k = 1 if self.r.random() < .65 else self.r.choice((2, 2, 3))
        parts = [self.seq(d, free) for i in range(k)]
        return '|'.join(parts)

    def seq(self, d, free):
        k = self.r.choice((1, 1, 2, 2, 3) if d else (1, 2, 3, 3, 4))
        out = [self.item(d, free) for i in range(k)]
        return ''.join(out)

    def quantifier(self):
        r = self.r
        q = r.choice(['*', '+', '?', '*', '{%d}' % r.randint(1, 3), '{%d,}' % r.randint(0, 3), None, None])
        if q is None:
            a = r.randint(0, 3)
            q = '{%d,%d}' % (a, max(1, a) + r.randint(0, 3))
        return q + ('' if q.endswith('}') and ',' not in q else r.choice(('', '', '?', '+')))

    def item(self, d, free):
        kinds = [k for k in self.w if (free or k in ('char', 'class', 'dot', 'ncgroup', 'escape')) and (d < 3 or k not in ('group', 'ncgroup', 'look', 'behind', 'atomic'))]
        k = self.r.choices(kinds, [self.w[x] for x in kinds])[0]
        self.size += 1
        a = getattr(self, k)(d, free)
        if a is None:
            return self.r.choice(self.letters)
        if free and k in ('char', 'class', 'dot', 'group', 'ncgroup', 'atomic', 'back', 'escape') and self.size < 14 and self.r.random() < QUANT.get(self.prop, .35):
            a += self.quantifier()
        return a

    def char(self, d, free):
        return self.r.choice(self.letters)

    def dot(self, d, free):
        return '.'

    def empty(self, d, free):
        return self.r.choice(('(?:)', '(?:|%s)' % self.r.choice(self.letters), '(?:%s|)' % self.r.choice(self.letters)))

    def escape(self, d, free):
        return self.r.choice(('\\w', '\\W', '\\d', '\\D', '\\s', '\\S', '\\x%02x' % ord(self.letters[0]) if ord(self.letters[0]) < 256 else '\\w'))

    def set_item(self):
        r = self.r
        if r.random() < .35:
            a, b = sorted(r.sample(range(0, 7), 2))
            return '%c-%c' % (97 + a, 97 + b)
        if r.random() < .15:
            return r.choice(('\\w', '\\d', '\\s', '\\D', '\\W', '[:alpha:]', '[:upper:]', '[:^digit:]', '[:space:]'))
        return r.choice(self.letters)

    def __getattr__(self, name):
        if name == 'class':
            return self.cls
        raise AttributeError(name)

    def cls(self, d, free):
        return '[%s%s]' % ('^' if self.r.random() < .3 else '', ''.join(self.set_item() for i in range(self.r.choice((1, 1, 2, 3)))))

    def group(self, d, free):
        self.n += 1
        me = self.n
        x = self.alt(d + 1, free)
        self.closed.append(me)
        return '(%s)' % x

    def ncgroup(self, d, free):
        return '(?:%s)' % self.alt(d + 1, free)

    def atomic(self, d, free):
        return '(?>%s)' % self.alt(d + 1, free)

    def look(self, d, free):
        return '(?%s%s)' % (self.r.choice('=!'), self.alt(d + 1, free))

    def behind(self, d, free):
        return '(?<%s%s)' % (self.r.choice('=!'), self.alt(max(d + 1, 2), False))

    def anchor(self, d, free):
        return self.r.choice(('^', '$', '\\A', '\\z', '\\Z', '^', '$'))

    def wordb(self, d, free):
        return self.r.choice(('\\b', '\\B'))

    def back(self, d, free):
        return '\\g{%d}' % self.r.choice(self.closed) if self.closed else None

    def mode(self, d, free):
        return self.r.choice(('(?i)', '(?c)', '(?m)', '(?s)'))


def cases(prop, seed, count):
    g = Gen(random.Random('%s %s' % (prop, seed)), prop)
    out, seen = [], set()
    ops = ('search_all', 'split', 'tokenize') if prop == 'C07' else ('match', 'search', 'starts_with') if prop in ('C06', 'C16', 'C01') else ('match', 'search')
    alpha = [ord(c) for c in g.alpha]
    subj = words(alpha, 5 if len(alpha) < 4 else 4 if len(alpha) < 5 else 3)
    while len(out) < count:
        p = g.pattern()
        if p in seen or len(p) > 60 or not p:
            continue
        seen.add(p)
        out.append(Case(prop, p, ops, subj, ct=g.ct, ml=g.r.random() < (.5 if prop in ('C01', 'C06', 'C16') else .1), ci=g.r.random() < (.4 if prop in ('C16', 'C10') else .1)))
    return out


PROPS = set(MORE)


def search(prop, seed=1, budget=150, batch=192):
    """(failing inputs, evaluations, nontrivial, patterns): stops at the first batch that shows one"""
    if prop not in PROPS:
        return [], 0, 0, 0
    t0, n, nt, k = time.time(), 0, 0, 0
    while not k or time.time() - t0 < budget:
        cs = cases(prop, '%s.%d' % (seed, k), batch)
        k += 1
        bad, a, b = native.run_cases(cs)
        n, nt = n + a, nt + b
        if bad:
            return bad, n, nt, k * batch
    return [], n, nt, k * batch
