"""C12: the functions of ctll::parser on opaque stacks: decide, every overload of move, results::operator+, the terminals it reads and
the driver. One obligation per (function, shape of the table entry, position); templates are parametric in the rest of the stack and in
the subject, which are opaque types here. The terminal symbols the table puts on the stack are tried with every terminal."""
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, grammar

PLACES = [('""', []), ('"a"', [97]), ('"ab"', [97, 98]), ('U"a\\u20ac"', [97, 0x20ac]), ('U"\\u0080b"', [0x80, 98]), ('U"\\x7f""aa"', [127, 97, 97]), ('U"\\U0010ffff"', [0x10ffff])]


def term(c):
    return "ctll::term<char{%d}>" % c if c < 128 else 'ctll::term<char32_t{%d}>' % c


def step_obligations():
    """(name, condition)"""
    for lit, cs in PLACES:
        L = 'ctll::fixed_string{%s}' % lit
        n = len(cs)
        for pos in range(n + 1):
            cur = cs[pos] if pos < n else None
            prev = term(cs[pos - 1]) if pos else 'ctll::epsilon'
            at = '%s:%d' % (lit.replace('"', "'"), pos)
            S = lambda *x: 'step<%s, %d%s>' % (L, pos, ''.join(', ' + y for y in x))
            same = lambda a, b: 'std::is_same_v<%s, %s>' % (a, b)
            go = lambda sub, *x: 'left<%s, %d, %s%s>' % (L, pos + 1, sub, ''.join(', ' + y for y in x))
            done = lambda *a: a and 'done<%s, %s, %s>' % (a[-1], prev, done(*a[:-1])) or 'opqS'
            out = lambda r, sub: 'std::is_same_v<typename %s::output_type, %s>' % (r, sub)
            yield 'get_current_term %s' % at, same('term_at<%s, %d>' % (L, pos), 'ctll::epsilon' if cur is None else term(cur))
            yield 'get_previous_term %s' % at, same('before<%s, %d>' % (L, pos), prev)
            for rest in ((), ('R1',), ('R1', 'R2')):
                nm = '%s on %d more' % (at, len(rest))
                for bad in ('toy::no', 'toy::none'):
                    yield 'decide: %s %s' % (bad, nm), 'rejected<%s>(%d)' % (S(bad, *rest), pos)
                yield 'decide: pop %s' % nm, same(S('toy::pop', *rest), go('opqS', *rest))
                for e in ('toy::eps', 'toy::lst'):
                    yield 'decide: %s %s' % (e, nm), same(S(e, 'toy::pop', *rest), go('opqS', *rest))
                if cur == 97:
                    yield 'decide: word %s' % nm, same(S('toy::word', *rest), go('opqS', 'C1', 'C2', *rest))
                else:
                    yield 'decide: word %s' % nm, 'rejected<%s>(%d)' % (S('toy::word', *rest), pos)
                if cur is not None:
                    yield 'decide: any %s' % nm, same(S('toy::any', *rest), go('opqS', 'C1', 'C2', *rest))
                    yield 'decide: terminal %s' % nm, same(S(term(cur), *rest), go('opqS', *rest))
                    yield 'decide: action, any %s' % nm, same(S('toy::actany', *rest), go(done('actA'), 'C1', *rest))
                else:
                    yield 'decide: any %s' % nm, 'rejected<%s>(%d)' % (S('toy::any', *rest), pos)
                    yield 'decide: terminal %s' % nm, "rejected<%s>(%d)" % (S("ctll::term<'a'>", *rest), pos)
                yield 'decide: other terminal %s' % nm, "rejected<%s>(%d)" % (S("ctll::term<'z'>", *rest), pos)
                yield 'decide: action on the stack %s' % nm, same(S('actA', 'toy::pop', *rest), go(done('actA'), *rest))
                yield 'decide: two actions %s' % nm, same(S('toy::acts', *rest), go(done('actA', 'actB'), 'C1', *rest))
                yield 'decide: nonterminals %s' % nm, same(S('toy::nt', *rest), go('opqS', 'C1', 'C2', *rest))
                yield 'decide: action rejects %s' % nm, 'rejected<%s>(%d)' % (S('toy::late', *rest), pos)
                yield 'decide: action on the stack rejects %s' % nm, 'rejected<%s>(%d)' % (S('actNo', *rest), pos)
                yield 'subject kept by a rejection %s' % nm, out(S('actA', 'toy::no', *rest), done('actA'))
                # results: goes on where it was left, at the next character, with the same stack and subject
                if cur is not None:
                    r = 'left<%s, %d, opqS, toy::acts%s>' % (L, pos, ''.join(', ' + y for y in rest))
                    yield 'results + %s' % nm, same('decltype(%s{} + ctll::placeholder{})' % r, go(done('actA', 'actB'), 'C1', *rest)) + ' && !bool(%s{})' % r
            if cur is None:
                yield 'empty stack %s' % at, 'accepted<%s>(%d)' % (S(), pos) + ' && ' + out(S(), 'opqS')
                yield 'action, then empty stack %s' % at, 'accepted<%s>(%d)' % (S('actA'), pos) + ' && ' + out(S('actA'), done('actA'))
            else:
                yield 'empty stack %s' % at, 'rejected<%s>(%d)' % (S(), pos)
    for n in range(0, 13):
        cs = [97 + i % 3 for i in range(n)]
        sub = 'opqS'
        for c in cs:
            sub = 'done<actA, %s, %s>' % (term(c), sub)
        sub = 'done<actB, %s, %s>' % (term(cs[-1]) if cs else 'ctll::epsilon', sub)
        O = 'P<ctll::fixed_string{"%s"}>::template output<opqS>' % ''.join(map(chr, cs))
        yield 'driver on %d characters' % n, '%s::is_correct && std::is_same_v<typename %s::output_type, %s>' % (O, O, sub)
        yield 'driver on %d characters (correct_with)' % n, 'P<ctll::fixed_string{"%s"}>::template correct_with<opqS>' % ''.join(map(chr, cs))


def terminal_obligations(table):
    """the terminal symbols the table puts on the stack, with every terminal: popped exactly for their members"""
    syms = {}
    for e in table.values():
        for v in e.values():
            if v[0] == '[':
                for x in v[1:-1].split():
                    if x[0] in '=+-~*':
                        syms[x] = None
    G = 'ctll::augment_grammar<ctre::pcre>'
    lit = lambda c: 'char{%d}' % c if c < 128 else 'char32_t{%d}' % c
    for x in sorted(syms):
        k, v = x[0], x[1:]
        (kind, members), = grammar.parse_syms('[%s]' % x)
        members = frozenset(grammar.CHARS) if kind == 'any' else members
        num = [int(i) for i in v.split(',') if i] if k != '*' else []
        T = 'ctll::anything' if k == '*' else 'ctll::%s<%s>' % ({'=': 'term', '+': 'set', '-': 'neg_set', '~': 'range'}[k], ','.join(map(lit, num)))
        yes, no = [c for c in grammar.CHARS if c in members], [c for c in grammar.CHARS if c not in members]
        rule = lambda t: 'decltype(%s::rule(%s{}, %s{}))' % (G, T, t)
        yield 'terminal %s: members' % x, ' && '.join('std::is_same_v<%s, ctll::pop_input>' % rule(term(c)) for c in yes) or 'true'
        yield 'terminal %s: others' % x, ' && '.join('std::is_same_v<%s, ctll::reject>' % rule(t) for t in [term(c) for c in no] + (['ctll::epsilon'] if k != '*' else [])) or 'true'
    yield 'empty stack at the end', 'std::is_same_v<decltype(%s::rule(ctll::empty_stack_symbol{}, ctll::epsilon{})), ctll::accept>' % G
    yield 'empty stack before a character', ' && '.join('std::is_same_v<decltype(%s::rule(ctll::empty_stack_symbol{}, %s{})), ctll::reject>' % (G, term(c)) for c in grammar.CHARS)


def _run(args):
    part, wd, k = args
    f, exe = os.path.join(wd, 's%d.cpp' % k), os.path.join(wd, 's%d' % k)
    open(f, 'w').write('#include "steps.hpp"\nint main() {\n' + ''.join('printf("%d\\t%%d\\n", int(%s));\n' % (i, c) for i, (n, c) in part) + '}\n')
    p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-ferror-limit=1', '-fbracket-depth=1024', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
    if p.returncode:
        if len(part) == 1 or k > 1 << 12:
            return {i: 'error ' + next((l for l in p.stderr.splitlines() if 'error' in l), '')[:300] for i, x in part}
        h = len(part) // 2
        r = _run((part[:h], wd, 2 * k + 100))
        r.update(_run((part[h:], wd, 2 * k + 101)))
        return r
    o = subprocess.run([exe], capture_output=True, text=True).stdout
    return {int(a): b for a, b in (l.split('\t') for l in o.splitlines())}


def check(obls, workers=2):
    """[(name, '1' | '0' | error)]"""
    obls = list(obls)
    wd = tempfile.mkdtemp(prefix='ctvs.')
    size = max(1, (len(obls) + workers - 1) // workers)
    try:
        with ThreadPoolExecutor(workers) as p:
            rs = list(p.map(_run, [(list(enumerate(obls))[i:i + size], wd, k + 1) for k, i in enumerate(range(0, len(obls), size))]))
    finally:
        subprocess.run(['rm', '-rf', wd])
    got = {i: v for r in rs for i, v in r.items()}
    return [(n, got.get(i, 'error no output')) for i, (n, c) in enumerate(obls)]
