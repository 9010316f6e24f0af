"""C12, bounded stand-in for the composition of table, actions and parser: texts against the documented grammar run as a translation
(ref/grammar.py, ref/nodes.py). The texts walk every form of the grammar that is reached in few steps with every character that can
come next there, and with characters that cannot. Labelled bounded, never counted as proved."""
import heapq
import os
import random
import subprocess
import tempfile
from multiprocessing import get_context
from . import build
from ref import grammar, nodes

G = [None]


def gram():
    if G[0] is None:
        G[0] = grammar.Grammar()
    return G[0]


def meaning(text):
    """(stack, groups) | 'reject' | None (no meaning is claimed)"""
    g = gram()
    confs = {((), (('n', 'S'),))}
    prev = None
    for c in list(text) + [None]:
        new = set()
        for trace, form in confs:
            for a, t, r in g.expand(form):
                if c is None and t is None:
                    new.add((trace + tuple((x, prev) for x in a), ()))
                elif c is not None and t is not None and g.term(c) in t:
                    new.add((trace + tuple((x, prev) for x in a), r))
        if not new:
            # what is done with the part read has to be defined
            return 'reject' if all(perform(t + tuple((x, prev) for x in actions_in_front(f))) is not None for t, f in confs) else None
        confs, prev = new, c
    if len({t for t, f in confs}) != 1:
        return None
    return perform(confs.pop()[0])


def actions_in_front(form):
    out = []
    for k, v in form:
        if k != 'a':
            break
        out.append(v)
    return out


def perform(trace):
    st, n = [], 0
    try:
        for a, v in trace:
            st, n = nodes.act(a, v, st, n)
    except nodes.Reject:
        return 'reject'
    except nodes.Undefined:
        return None
    return None if excluded(st) else (list(st), n)


def excluded(x, behind=False):
    """a lookbehind over a group, a repeat or a mode switch: KNOWN_FINDINGS F06, F07, F12"""
    if not isinstance(x, (tuple, list)) or not x:
        return False
    if behind and x[0] in ('rep', 'capture', 'mode'):
        return True
    b = behind or x[0] == 'look' and 'behind' in x[1]
    return any(excluded(y, b) for y in x)


def shortest(g):
    """shortest word of every nonterminal"""
    best = {}
    while True:
        n = dict(best)
        for x, alts in g.rules.items():
            for alt in alts:
                w = []
                for k, v in alt:
                    if k == 't':
                        w.append(pick(v))
                    elif k == 'n':
                        if v not in best:
                            break
                        w += best[v]
                else:
                    if x not in best or len(w) < len(best[x]):
                        best[x] = w
        if n == best:
            return best


def pick(s):
    for c in 'x2a:>)]}':
        if ord(c) in s:
            return ord(c)
    c = min(s)
    return 0x20ac if c == grammar.OTHER else c


def lead(form, n=1):
    return tuple(s for s in form if s[0] != 'a')[:n]


def walk(limit):
    """texts: every (form up to its first symbols, next character) among the forms reached first"""
    g = gram()
    word = shortest(g)
    finish = lambda f: [c for k, v in f if k != 'a' for c in ([pick(v)] if k == 't' else word[v])]
    start = (('n', 'S'),)
    heap, seen, covered, out = [(0, 0, (), start)], {start}, set(), []
    tick = 1
    chars = sorted(g.named) + [0x20ac]
    rejected, times = set(), {}
    while heap and len(out) < limit:
        d, _, pre, form = heapq.heappop(heap)
        steps = {}
        for a, t, r in g.expand(form):
            if t is not None:
                for c in t:
                    steps.setdefault(0x20ac if c == grammar.OTHER else c, []).append((a, r))
        key0 = lead(form)
        wrong = [c for c in chars if c not in steps]
        if key0 not in rejected:
            rejected.add(key0)
            out += [pre + (c,) for c in wrong]
        for c in sorted(steps):
            for a, r in steps[c]:
                key = (lead(form), c, a[-1:], lead(r))
                text = pre + (c,)
                if key not in covered:
                    covered.add(key)
                    out.append(text + tuple(finish(r)))
                times[lead(r, 2)] = times.get(lead(r, 2), 0) + 1
                if r not in seen and times[lead(r, 2)] <= 4:
                    seen.add(r)
                    heapq.heappush(heap, (len(text) + len(finish(r)), tick, text, r))
                    tick += 1
    return out


def derived(n, seed=1):
    """random derivations, some with a character changed"""
    g, rnd = gram(), random.Random(seed)
    word = shortest(g)

    def gen(form, fuel):
        out = []
        for k, v in form:
            if k == 't':
                c = rnd.choice(sorted(v))
                out.append(0x20ac if c == grammar.OTHER else c)
            elif k == 'n':
                out += gen(rnd.choice(g.rules[v]), fuel - 1) if fuel > 0 else word[v]
        return out
    res = []
    while len(res) < n:
        t = gen((('n', 'S'),), rnd.choice((6, 9, 12, 16)))
        if len(t) > 24 or len(t) < 2:
            continue
        if rnd.random() < .3:
            i = rnd.randrange(len(t))
            t[i:i + rnd.choice((0, 1, 1))] = [rnd.choice(sorted(g.named))]
        res.append(tuple(t))
    return res


def texts(thorough=False):
    ts = dict.fromkeys(walk(12000 if thorough else 3000))
    ts.update(dict.fromkeys(derived(6000 if thorough else 1200)))
    return [t for t in ts if len(t) < 40]


def literal(t):
    return 'U"%s"' % ''.join('\\U%08x' % c if c >= 160 else '\\x%x""' % c if False else '\\%03o' % c for c in t)


def _part(args):
    part, wd, k = args
    f, exe = os.path.join(wd, 'p%d.cpp' % k), os.path.join(wd, 'p%d' % k)
    open(f, 'w').write('#include "parsing.hpp"\nint main() {\n' + ''.join('parse<ctll::fixed_string{%s}>(%d);\n' % (literal(t), i) for i, t in part) + '}\n')
    p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-ferror-limit=1', '-fconstexpr-steps=100000000', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
    if p.returncode:
        if len(part) == 1:
            return {part[0][0]: 'error ' + next((l for l in p.stderr.splitlines() if 'error' in l), 'does not compile')[:400]}
        h = len(part) // 2
        r = _part((part[:h], wd, 2 * k + 1000))
        r.update(_part((part[h:], wd, 2 * k + 1001)))
        return r
    res = {}
    for ln in subprocess.run(['timeout', '60', exe], capture_output=True, text=True).stdout.splitlines():
        i, _, t = ln.partition('\t')
        res[int(i)] = t
    os.unlink(exe)
    return res


def read(t):
    if t == 'reject' or t.startswith('error'):
        return t
    x = nodes.parse(t[t.index('[T = ') + 5:-1])
    if x[0] != 'pcre_context':
        return 'error ' + t[:300]
    return [nodes.denote(y) for y in (x[1][1:] if len(x) > 1 else ())], x[2][1] if len(x) > 2 and len(x[2]) > 1 else 0


def _meanings(ts):
    return [meaning(t) for t in ts]


def run(thorough=False, ts=None, procs=8):
    """(failures, texts run)"""
    ts = texts(thorough) if ts is None else ts
    wd = tempfile.mkdtemp(prefix='ctvp.')
    try:
        with get_context('fork').Pool(procs) as p:
            wants = [w for r in p.map(_meanings, [ts[i:i + 200] for i in range(0, len(ts), 200)], chunksize=1) for w in r]
            todo = [(i, t) for i, t in enumerate(ts) if wants[i] is not None]
            rs = p.map(_part, [(todo[i:i + 120], wd, k) for k, i in enumerate(range(0, len(todo), 120))], chunksize=1)
    finally:
        subprocess.run(['rm', '-rf', wd])
    got = {i: t for r in rs for i, t in r.items()}
    bad = []
    for i, t in todo:
        try:
            r = read(got.get(i, 'error no output'))
        except (ValueError, IndexError, KeyError) as e:
            r = 'error %r' % e
        if r != wants[i]:
            bad.append({'pattern': ''.join(map(chr, t)), 'expected': str(wants[i])[:400], 'got': str(r)[:400]})
    return bad, len(todo)
