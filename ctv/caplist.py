"""C05: the captures a result has room for. Contract of find_captures for every list of nodes and every collected output:
    find_captures(list<Node, Rest...>, Out) = Out, the groups inside of Node, find_captures(Rest...)
as a set of groups (number and name). It is proved for every kind of node with opaque contents, an opaque rest and an opaque output
(units/caplist.hpp); the groups of the opaque parts are what an overload for them adds: structural induction over patterns."""
import os
import subprocess
import tempfile
import time
from . import build
from .jobs import Job
from .syntax import Fact, result
from ref import nodes

A, B, C = 'ctre::opq<1>', 'ctre::opq<2>', 'ctre::opq<3>'
BOUNDS = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 4), (2, 2), (2, 0), (2, 5), (1000003, 2000003), (3, 2)]
NODES = [("ctre::string<'a','b'>", ''), ('ctre::string<>', ''), ("ctre::character<'a'>", ''), ('ctre::any', ''), ('ctre::empty', ''), ('ctre::reject', ''), ("ctre::set<ctre::character<'a'>,ctre::digit_chars>", ''), ("ctre::negative_set<ctre::character<'a'>>", ''),
         ("ctre::negate<ctre::word_chars>", ''), ("ctre::char_range<'a','f'>", ''), ("ctre::enumeration<'a','b'>", ''), ('ctre::binary_property<uni::detail::binary_prop, uni::detail::binary_prop::alpha>', ''), ('ctre::word_boundary', ''), ('ctre::not_word_boundary', ''),
         ('ctre::assert_subject_begin', ''), ('ctre::assert_subject_end', ''), ('ctre::assert_subject_end_line', ''), ('ctre::assert_line_begin', ''), ('ctre::assert_line_end', ''),
         ('ctre::back_reference<1>', ''), ('ctre::back_reference_with_name<ctre::ctv_name>', ''), ('ctre::mode_switch<ctre::pcre::mode_multiline>', ''), ("ctre::lookbehind_positive<ctre::string<'a'>>", ''), ("ctre::lookbehind_negative<ctre::string<'a'>>", ''),
         ('ctre::select<%s,%s,%s>' % (A, B, C), '123'), ('ctre::select<%s>' % A, '1'), ('ctre::select<>', ''), ('ctre::sequence<%s,%s,%s>' % (A, B, C), '123'), ('ctre::sequence<%s>' % A, '1'), ('ctre::atomic_group<%s>' % A, '1'), ('ctre::atomic_group<%s,%s>' % (A, B), '12'),
         ('ctre::lookahead_positive<%s>' % A, '1'), ('ctre::lookahead_positive<%s,%s>' % (A, B), '12'), ('ctre::lookahead_negative<%s>' % A, '1'), ('ctre::lookahead_negative<%s,%s>' % (A, B), '12'),
         ('ctre::capture<4,%s>' % A, '1', (4, None)), ('ctre::capture<4,%s,%s>' % (A, B), '12', (4, None)), ('ctre::capture_with_name<5,ctre::ctv_name,%s>' % A, '1', (5, 'ctv_name')), ('ctre::capture_with_name<5,ctre::ctv_name,%s,%s>' % (A, B), '12', (5, 'ctv_name')),
         ('ctre::capture<4,ctre::capture_with_name<5,ctre::ctv_name,%s>,%s>' % (A, B), '12', (4, None), (5, 'ctv_name')), ('ctre::select<ctre::capture<4,%s>,ctre::empty,ctre::capture_with_name<6,ctre::ctv_other,%s>>' % (A, B), '12', (4, None), (6, 'ctv_other'))]
NODES += [('ctre::%s<%d,%d,%s>' % (k, a, b, ','.join((A, B)[:n])), '12'[:n]) for k in ('repeat', 'lazy_repeat', 'possessive_repeat') for a, b in BOUNDS for n in (1, 2)]


def cases():
    for x in NODES:
        held, groups = set(x[1]), set(x[2:])
        yield '%s before any rest' % x[0], 'found<ctll::list<%s, ctre::opq<9>>, ctll::list<ctre::held<7>>>' % x[0], held | {'7', '9'}, groups
        yield '%s at the end' % x[0], 'found<ctll::list<%s>, ctll::list<ctre::held<7>>>' % x[0], held | {'7'}, groups
        yield '%s alone' % x[0], 'whole<%s>' % x[0], held, groups
    yield 'nothing left', 'found<ctll::list<>, ctll::list<ctre::held<7>, ctre::captured_content<3>>>', {'7'}, {(3, None)}


def read(t):
    t = nodes.parse(t[t.index('[T = ') + 5:-1])
    if t[0] != 'list':
        raise ValueError(str(t))
    held, groups = set(), set()
    for x in t[1:]:
        if x[0] == 'held':
            held.add(str(x[1]))
        elif x[0] == 'captured_content':
            n = x[2][0].split('::')[-1] if len(x) > 2 else 'void'
            groups.add((x[1], None if n == 'void' else n))
        else:
            raise ValueError(str(x))
    return held, groups


def prove(**kw):
    t0 = time.time()
    cs = list(cases())
    d = tempfile.mkdtemp(prefix='ctvcap')
    f, exe = os.path.join(d, 'a.cpp'), os.path.join(d, 'a')
    open(f, 'w').write('#include "caplist.hpp"\nint main() {\n%s}\n' % ''.join('%s(%d);\n' % (c[1], i) for i, c in enumerate(cs)))
    try:
        p = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-ferror-limit=1', '-I', os.path.join(build.REPO, 'include'), '-I', os.path.join(build.VERIF, 'units'), f, '-o', exe], capture_output=True, text=True)
        if p.returncode:
            raise build.BuildError(next((l for l in p.stderr.splitlines() if 'error' in l), 'does not compile')[:300])
        lines = dict(l.split('\t', 1) for l in subprocess.run([exe], capture_output=True, text=True).stdout.splitlines())
    finally:
        for x in (f, exe):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)
    out = []
    for i, (name, call, held, groups) in enumerate(cs):
        try:
            got = read(lines[str(i)])
            out.append(Fact(name, 'groups', 'proved' if got == (held, groups) else 'failed', 'found %s %s' % (sorted(got[0]), sorted(got[1], key=str))))
        except (KeyError, ValueError) as e:
            out.append(Fact(name, 'groups', 'unknown', str(e)[:200]))
    return result('groups of a pattern', ['ctre::find_captures(list<%s, _...>, list<_...>)' % n[0] for n in NODES], out, t0)


def capture_list():
    return [Job('groups of a pattern', 'find_captures', prove, 'the groups inside of every node are found', refutable=False)]
