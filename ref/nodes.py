"""What the nodes of a compiled pattern mean, in a normal form: two nodes with the same normal form match the same texts in the same
order with the same captures. Also the meaning of the semantic actions on these normal forms."""
import re

TOP = 0xFFFFFFFF


# ------------------------------------------------------------------------------------------------ types as clang prints them
TOKEN = re.compile(r"(?:u8|[uUL])?'(?:\\x[0-9A-Fa-f]+|\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8}|\\[0-7]{1,3}|\\.|[^\\])'|\((?:[\w:]+ ?)+\)-?\d+|-?\d+[uUlL]*|[A-Za-z_][\w:]*|[<>,&*]|\{[^}]*\}")


def parse(s):
    toks = TOKEN.findall(s)
    toks = [t for t in toks if t not in ('const', 'unsigned')]
    pos = [0]

    def item():
        t = toks[pos[0]]
        pos[0] += 1
        if "'" in t:
            return char(t)
        if t[0] == '(':
            return ('val', t[1:t.index(')')], int(t[t.index(')') + 1:]))
        if re.match(r'-?\d', t):
            return int(re.match(r'-?\d+', t).group())
        args = None
        if pos[0] < len(toks) and toks[pos[0]] == '<':
            pos[0] += 1
            args = []
            while toks[pos[0]] != '>':
                if toks[pos[0]] == ',':
                    pos[0] += 1
                    continue
                args.append(item())
            pos[0] += 1
        return (t.split('::')[-1] if t.startswith('ctre::') or t.startswith('ctll::') else t,) + tuple(args or ())
    r = item()
    if pos[0] != len(toks):
        raise ValueError('cannot read ' + s[:200])
    return r


ESC = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '0': 0, '\\': 92, "'": 39, '"': 34, '?': 63, 'e': 27}


def char(t):
    b = t[t.index("'") + 1:-1]
    if b[0] != '\\' or len(b) == 1:
        return ord(b)
    if b[1] == 'x':
        return int(b[2:], 16)
    if b[1] in 'uU':
        return int(b[2:], 16)
    if b[1] in '01234567':
        return int(b[1:], 8)
    return ESC[b[1]]


# ------------------------------------------------------------------------------------------------ characters
def norm_ranges(rs):
    out = []
    for a, b in sorted((a, b) for a, b in rs if a <= b):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def comp(rs):
    out, at = [], 0
    for a, b in rs:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= TOP:
        out.append((at, TOP))
    return tuple(out)


def fold(a, b):
    """the characters that differ only in ASCII case from one of a..b"""
    rs = [(a, b)]
    for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
        x, y = max(a, lo), min(b, hi)
        if x <= y:
            rs.append((x + d, y + d))
    return norm_ranges(rs)


def cs(ranges):
    r = norm_ranges(ranges)
    f = norm_ranges([x for a, b in r for x in fold(a, b)])
    return ('cs', r, f, ())


def union(xs):
    xs = list(xs)
    return ('cs', norm_ranges([r for x in xs for r in x[1]]), norm_ranges([r for x in xs for r in x[2]]), tuple(sorted({o for x in xs for o in x[3]}, key=repr)))


def negation(x):
    if not x[3]:
        return ('cs', comp(x[1]), comp(x[2]), ())
    if not x[1] and len(x[3]) == 1 and x[3][0][0] == 'not':
        return x[3][0][1]
    return ('cs', (), (), (('not', x),))


def opaque_class(t):
    return ('cs', (), (), (t,))


def char_class(t):
    """the class a character-like type stands for, None if it is none"""
    n = t[0]
    if n == 'character':
        return cs([(t[1], t[1])])
    if n == 'char_range':
        return cs([(t[1], t[2])])
    if n == 'enumeration':
        return union(cs([(c, c)]) for c in t[1:])
    if n in ('set', 'negative_set', 'negate'):
        xs = [char_class(x) for x in t[1:]]
        if any(x is None for x in xs):
            return None
        u = union(xs)
        return u if n == 'set' else negation(u)
    if n in ('binary_property', 'property'):
        return opaque_class(t)
    if n in CLASS_TYPES:
        return CLASS_TYPES[n]
    if n == 'opqC':
        return opaque_class(t)
    return None


def _r(*xs):
    return cs([(ord(a), ord(b)) if isinstance(a, str) else (a, b) for a, b in xs])


DIGIT = _r('09')
ALPHA = _r('az', 'AZ')
ALNUM = _r('az', 'AZ', '09')
WORD = _r('az', 'AZ', '09', '__')
SPACE = _r((9, 13), (32, 32))
VERTICAL = _r((10, 13), (0x85, 0x85), (0x2028, 0x2029))
HORIZONTAL = _r((9, 9), (32, 32), (0xA0, 0xA0), (0x1680, 0x1680), (0x180E, 0x180E), (0x2000, 0x200A), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
POSIX = dict(alnum=ALNUM, alpha=ALPHA, ascii=_r((0, 127)), blank=_r((9, 9), (32, 32)), cntrl=_r((0, 31), (127, 127)), digit=DIGIT, graph=_r((33, 126)), lower=_r('az'), upper=_r('AZ'), print=_r((32, 126)),
             punct=_r((33, 47), (58, 64), (91, 96), (123, 126)), space=SPACE, word=WORD, xdigit=_r('09', 'af', 'AF'))
CLASS_TYPES = {}


# ------------------------------------------------------------------------------------------------ nodes
KINDS = {'repeat': 'greedy', 'lazy_repeat': 'lazy', 'possessive_repeat': 'possessive'}
EMPTY = ('seq',)


def seq(items):
    """a sequence: flat, repeats of one content side by side joined"""
    flat = []
    for x in items:
        flat += x[1:] if x[0] == 'seq' else [x]
    i = len(flat) - 2
    while i >= 0:
        if i + 1 < len(flat):
            a, b = flat[i], flat[i + 1]
            if a[0] == b[0] == 'rep' and a[1] == b[1] and a[4] == b[4]:
                j = join(a, b)
                if j is not None:
                    flat[i:i + 2] = j
                    i = min(i + 1, len(flat) - 2)
                    continue
        i -= 1
    return flat[0] if len(flat) == 1 else ('seq',) + tuple(flat)


def ordered(x):
    return x[3] == 0 or x[2] <= x[3]


def join(a, b):
    """X{a,b}X{c,d} as one: counts are added; a possessive repeat leaves nothing for a further one, unless an iteration can be empty"""
    (_, k, la, ha, c), (_, _, lb, hb, _) = a, b
    if not ordered(a) or not ordered(b):
        return None
    hi = ha + hb if ha and hb else 0
    if k != 'possessive':
        return [('rep', k, la + lb, hi, c)]
    if ha == 0 and lb == 0:
        return [a]
    if ha == 0:
        return [('reject',)] + list(c[1:] if c[0] == 'seq' else [c]) if consuming(c) else None
    if lb == 0:
        return [('rep', k, la, hi, c)]
    return [('rep', k, ha + lb, hi, c)]


def consuming(x):
    """every match of x reads a character"""
    k = x[0]
    if k in ('cs', 'any', 'reject'):
        return True
    if k == 'seq':
        return any(consuming(y) for y in x[1:])
    if k == 'alt':
        return all(consuming(y) for y in x[1:])
    if k == 'rep':
        return x[2] > 0 and consuming(x[4])
    if k in ('capture', 'atomic'):
        return consuming(x[-1])
    return False


def rep(kind, lo, hi, content):
    c = content
    if (lo, hi) == (0, 1) and kind in ('greedy', 'lazy') and c[0] == 'rep' and c[1] in ('greedy', 'lazy') and (c[2], c[3]) == (0, 1):
        if kind == 'greedy' or c[1] == 'lazy':
            return c
        return ('rep', 'lazy', 0, 1, c[4])
    if (lo, hi, kind) == (0, 1, 'possessive') and c[0] == 'rep' and c[1] == 'greedy' and (c[2], c[3]) == (0, 1):
        return ('rep', 'possessive', 0, 1, c[4])
    return ('rep', kind, lo, hi, c)


def alt(a, b):
    return ('alt',) + (a[1:] if a[0] == 'alt' else (a,)) + (b[1:] if b[0] == 'alt' else (b,))


def chars_of(t):
    return tuple(t[1:])


def denote(t):
    if isinstance(t, int):
        return ('value', t)
    n = t[0]
    c = char_class(t)
    if c is not None:
        return c
    if n == 'string':
        return seq([cs([(x, x)]) for x in t[1:]])
    if n == 'sequence':
        return seq([denote(x) for x in t[1:]])
    if n == 'empty':
        return EMPTY
    if n == 'select':
        r = denote(t[-1])
        for x in reversed(t[1:-1]):
            r = alt(denote(x), r)
        return r
    if n in KINDS:
        return rep(KINDS[n], t[1], t[2], seq([denote(x) for x in t[3:]]))
    if n == 'capture':
        return ('capture', t[1], None, seq([denote(x) for x in t[2:]]))
    if n == 'capture_with_name':
        return ('capture', t[1], chars_of(t[2]), seq([denote(x) for x in t[3:]]))
    if n == 'atomic_group':
        return ('atomic', seq([denote(x) for x in t[1:]]))
    if n in ('lookahead_positive', 'lookahead_negative'):
        return ('look', n, seq([denote(x) for x in t[1:]]))
    if n in ('lookbehind_positive', 'lookbehind_negative'):
        return ('look', n, seq([denote(x) for x in t[1:]]))
    if n in ('boundary', 'not_boundary'):
        return (n, union(char_class(x) for x in t[1:]))
    if n == 'back_reference_with_name':
        return ('backref', chars_of(t[1]))
    if n == 'back_reference':
        return ('backref', t[1])
    if n == 'mode_switch':
        return ('mode', t[1][0].split('::')[-1])
    if n in ('any', 'reject', 'assert_subject_begin', 'assert_subject_end', 'assert_subject_end_line', 'assert_line_begin', 'assert_line_end', 'opqA', 'opqB', 'opqT', 'opqU'):
        return (n,)
    # what the parser keeps on its stack besides nodes
    if n == 'number':
        return ('number', t[1])
    if n == 'capture_id':
        return ('capture_id', t[1])
    if n in ('id', 'property_name', 'property_value'):
        return (n,) + tuple(t[1:])
    if n == 'look_start':
        return ('look_start', t[1][0])
    if n == 'atomic_start':
        return ('atomic_start',)
    return ('unknown',) + tuple(t)


MARKS = ('number', 'capture_id', 'id', 'property_name', 'property_value', 'look_start', 'atomic_start', 'open_set')


def reverse(x):
    """what a lookbehind matches walking back from the current position"""
    k = x[0]
    if k == 'seq':
        return seq([reverse(y) for y in reversed(x[1:])])
    if k == 'alt':
        return ('alt',) + tuple(reverse(y) for y in x[1:])
    if k == 'rep':
        return ('rep', x[1], x[2], x[3], reverse(x[4]))
    if k == 'capture':
        return x[:3] + (reverse(x[3]),)
    if k == 'atomic':
        return ('atomic', reverse(x[1]))
    return x


# ------------------------------------------------------------------------------------------------ semantic actions
LIMIT = (1 << 64) - 1
SIMPLE = {
    'push_character_alarm': cs([(7, 7)]), 'push_character_escape': cs([(27, 27)]), 'push_character_formfeed': cs([(12, 12)]), 'push_character_newline': cs([(10, 10)]),
    'push_character_null': cs([(0, 0)]), 'push_character_return_carriage': cs([(13, 13)]), 'push_character_tab': cs([(9, 9)]), 'push_character_anything': ('any',),
    'push_assert_begin': ('assert_line_begin',), 'push_assert_end': ('assert_line_end',), 'push_assert_subject_begin': ('assert_subject_begin',), 'push_assert_subject_end': ('assert_subject_end',),
    'push_assert_subject_end_with_lineend': ('assert_subject_end_line',), 'push_word_boundary': ('boundary', WORD), 'push_not_word_boundary': ('not_boundary', WORD), 'push_empty': EMPTY,
    'class_digit': DIGIT, 'class_nondigit': negation(DIGIT), 'class_space': SPACE, 'class_nonspace': negation(SPACE), 'class_word': WORD, 'class_nonword': negation(WORD),
    'class_horizontal_space': HORIZONTAL, 'class_non_horizontal_space': negation(HORIZONTAL), 'class_vertical_space': VERTICAL, 'class_non_vertical_space': negation(VERTICAL),
    'class_nonnewline': negation(cs([(10, 10)])), 'create_hexdec': ('number', 0), 'start_atomic': ('atomic_start',),
    'start_lookahead_positive': ('look_start', 'lookahead_positive'), 'start_lookahead_negative': ('look_start', 'lookahead_negative'),
    'start_lookbehind_positive': ('look_start', 'lookbehind_positive'), 'start_lookbehind_negative': ('look_start', 'lookbehind_negative'),
}
for _n, _c in POSIX.items():
    SIMPLE['class_named_' + _n] = _c


def is_node(x):
    return x[0] not in MARKS


class Reject(Exception):
    pass


class Undefined(Exception):
    """the action does not occur on such a stack"""


def act(action, V, stack, n):
    """stack: top first; V: the character read last (None at the beginning); returns (stack, number of groups)"""
    st = list(stack)

    def node(i=0):
        if len(st) <= i or not is_node(st[i]):
            raise Undefined()
        return st[i]

    def mark(i, k):
        if len(st) <= i or st[i][0] != k:
            raise Undefined()
        return st[i]
    if action in SIMPLE:
        return [SIMPLE[action]] + st, n
    if action == 'push_character':
        return [cs([(V, V)])] + st, n
    if action == 'make_sequence':
        return [seq([node(1), node(0)])] + st[2:], n
    if action == 'make_alternate':
        return [alt(node(1), node(0))] + st[2:], n
    if action == 'make_optional':
        return [rep('greedy', 0, 1, node())] + st[1:], n
    if action in ('repeat_plus', 'repeat_star'):
        return [('rep', 'greedy', int(action == 'repeat_plus'), 0, node())] + st[1:], n
    if action == 'repeat_exactly':
        k = mark(0, 'number')[1]
        return [rep('greedy', k, k, node(1))] + st[2:], n
    if action == 'repeat_at_least':
        return [rep('greedy', mark(0, 'number')[1], 0, node(1))] + st[2:], n
    if action == 'repeat_ab':
        return [rep('greedy', mark(1, 'number')[1], mark(0, 'number')[1], node(2))] + st[3:], n
    if action in ('make_lazy', 'make_possessive'):
        # the repeat in front of the mark; its content decides nothing
        x = node()
        if x[0] != 'rep':
            raise Undefined()
        k = 'lazy' if action == 'make_lazy' else 'possessive'
        if x[1] == 'lazy':      # (?:X??)? is X??
            if (x[2], x[3]) != (0, 1):
                raise Undefined()
            return [rep(k, 0, 1, x)] + st[1:], n
        if x[1] != 'greedy':
            raise Undefined()
        return [rep(k, x[2], x[3], x[4])] + st[1:], n
    if action == 'create_number':
        return [('number', V - 48)] + st, n
    if action == 'push_number':
        v = mark(0, 'number')[1] * 10 + V - 48
        if v > LIMIT:
            raise Reject()
        return [('number', v)] + st[1:], n
    if action == 'push_hexdec':
        v = mark(0, 'number')[1] * 16 + int(chr(V), 16)
        if v > LIMIT:
            raise Reject()
        return [('number', v)] + st[1:], n
    if action == 'finish_hexdec':
        v = mark(0, 'number')[1]
        if v > TOP:
            raise Reject()
        return [cs([(v, v)])] + st[1:], n
    if action == 'prepare_capture':
        return [('capture_id', n + 1)] + st, n + 1
    if action == 'reset_capture':
        mark(0, 'capture_id')
        return st[1:], n - 1
    if action == 'make_capture':
        return [('capture', mark(1, 'capture_id')[1], None, node())] + st[2:], n
    if action == 'make_capture_with_name':
        return [('capture', mark(2, 'capture_id')[1], mark(1, 'id')[1:], node())] + st[3:], n
    for a, m in (('push_name', 'id'), ('push_property_name', 'property_name'), ('push_property_value', 'property_value')):
        if action == a:
            if st and st[0][0] == m:
                return [st[0] + (V,)] + st[1:], n
            return [(m, V)] + st, n
    if action == 'make_back_reference':
        if st and st[0][0] == 'id':
            return [('backref', st[0][1:])] + st[1:], n
        k = mark(0, 'number')[1]
        if k == 0 or k > n:
            raise Reject()
        return [('backref', k)] + st[1:], n
    if action == 'make_relative_back_reference':
        k = mark(0, 'number')[1]
        if k == 0 or k > n:
            raise Reject()
        return [('backref', n + 1 - k)] + st[1:], n
    if action == 'make_atomic':
        mark(1, 'atomic_start')
        return [('atomic', node())] + st[2:], n
    if action == 'look_finish':
        k = mark(1, 'look_start')[1]
        return [('look', k, reverse(node()) if 'behind' in k else node())] + st[2:], n
    if action.startswith('mode_'):
        if st and st[0][0] == 'capture_id':
            return [('mode', action)] + st[1:], n - 1
        items = st[0][1:] if st and st[0][0] == 'seq' else st[:1]
        if not items or any(x[0] != 'mode' for x in items):
            raise Undefined()
        return [seq(list(items) + [('mode', action)])] + st[1:], n
    if action == 'set_start':
        if node()[0] != 'cs':
            raise Undefined()
        return st, n
    if action == 'set_combine':
        if node(0)[0] != 'cs' or node(1)[0] != 'cs':
            raise Undefined()
        return [union([st[0], st[1]])] + st[2:], n
    if action == 'set_empty':
        return [cs([])] + st, n
    if action in ('set_make', 'set_make_negative', 'negate_class_named'):
        if node()[0] != 'cs':
            raise Undefined()
        return [st[0] if action == 'set_make' else negation(st[0])] + st[1:], n
    if action == 'make_range':
        a, b = node(1), node(0)
        if not (single(a) and single(b)):
            raise Undefined()
        return [cs([(a[1][0][0], b[1][0][0])])] + st[2:], n
    raise Undefined()


def single(x):
    return x[0] == 'cs' and not x[3] and len(x[1]) == 1 and x[1][0][0] == x[1][0][1]
