"""Write ref/ucd14.json: the code points of every Unicode 14 table, script extensions, ages and blocks, and the names patterns use.

The data are read from the tree this was first run on and are accepted only where the Unicode 15 database of the installed perl agrees:
a code point assigned in 15.0 is left out, and the few values Unicode itself changed between 14 and 15 are listed below. Development
tool; not part of a check. usage: python3-vt tools/mkucd.py"""
import json
import os
import subprocess
import sys
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from ctv import build, unicode as U

# Unicode 15 changed these values of code points of 14 and earlier
CHANGED = {'alpha': [0x0C04, 0x0F82, 0x0F83, 0x11080, 0x11081], 'lower': [0x10FC, 0xA7F2, 0xA7F3, 0xA7F4, 0xAB69], 'cased': [0x10FC, 0xA7F2, 0xA7F3, 0xA7F4, 0xAB69]}
# the tables list no code point which is not assigned
RESERVED = ('di', 'pat_syn', 'extended_pictographic')
N = U.MAXCP + 1


def inv(l):
    a = np.zeros(N, bool)
    l = list(l) + ([N] if len(l) % 2 else [])
    for x, y in zip(l[::2], l[1::2]):
        a[x:y] = True
    return a


def main():
    m, _ = build.compile_ir(os.path.join(build.VERIF, 'units', 'unicode.cpp'), passes='always-inline,function(sroa,early-cse,simplifycfg),globaldce')
    tabs = U.find_tables(m)
    ids = U.read_ids(m)
    rev = {f: {v: k[6:] for k, v in reversed(ids.items()) if k.startswith('id_%s_' % f)} for f in ('sc', 'bk', 'ag')}
    out = {'tables': {}, 'scripts': sorted(set(rev['sc'].values())), 'names': {}}
    sets = {}
    for t, _f in tabs.values():
        a = U.listed(t)
        if t.kind in ('compact_range', 'block'):
            f = 'ag' if 'age' in t.name else 'bk' if t.kind == 'block' else 'sc'
            out['tables'][t.name] = [[x, rev[f].get(v) if not (f != 'sc' and v == 0) else None] for x, v in U.runs(a)]
            sets[t.name] = np.array([rev[f].get(v) or '' for v in range(256)] + [''], object)[a] if f != 'bk' else a
        else:
            out['tables'][t.name] = U.runs(a)
            sets[t.name] = a > 0
    # names
    src = '''#include <ctre.hpp>
#include <ctre-unicode.hpp>
#include <cstdio>
#include "unicode_names.hpp"
#define P(T) int main() {
#define B(X) if (unsigned(n.value) == unsigned(uni::detail::binary_prop::X)) { std::printf("bp %s %s\\n", n.name, #X); continue; }
#define S(X) if (unsigned(n.value) == unsigned(uni::script::X)) { std::printf("sc %s %s\\n", n.name, #X); continue; }
#define K(X) if (unsigned(n.value) == unsigned(uni::block::X)) { std::printf("bk %s %s\\n", n.name, #X); continue; }
int main() {
	for (auto & n: uni::detail::tables::binary_prop_names) { BINARY(B) std::printf("bp %s ?%u\\n", n.name, n.value); }
	for (auto & n: uni::detail::tables::scripts_names) { SCRIPTS(S) std::printf("sc %s ?%u\\n", n.name, n.value); }
	for (auto & n: uni::detail::tables::blocks_names) { BLOCKS(K) std::printf("bk %s ?%u\\n", n.name, n.value); }
	for (auto n: uni::detail::tables::age_strings) std::printf("ag %s %s\\n", n, n);
}'''
    open('/tmp/mkucd.cpp', 'w').write(src)
    subprocess.run(['clang++', '-std=c++20', '-w', '-I' + build.REPO + '/include', '-I' + build.VERIF + '/units', '/tmp/mkucd.cpp', '-o', '/tmp/mkucd'], check=True)
    for l in subprocess.run(['/tmp/mkucd'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        f, n, x = l.split(' ')
        if f == 'ag':
            if n == 'unassigned':
                continue
            x = 'v' + n.replace('.', '_')
        out['names'].setdefault(f, {})[n] = x
    # against perl
    u = json.loads(subprocess.run(['perl', os.path.join(HERE, 'ucd_dump.pl')], stdout=subprocess.PIPE, text=True).stdout)
    new = inv(u['age']['15.0']['list'])
    D = U.Defs(U.Sets(sets), out['scripts'])
    ok, none = 0, []
    alias = {'emoji_component': 'ecomp', 'emoji_modifier': 'emod', 'emoji_modifier_base': 'ebase', 'emoji_presentation': 'epres', 'extended_pictographic': 'extpict'}
    for p in sorted(set(out['names']['bp'].values())):
        if p.startswith('?'):
            print('no enumerator', p)
            continue
        r = u['bin'].get(alias.get(p, p)) if p not in ('sc', 'assigned') else None
        r = u['gc'].get(p) if r is None else r
        if r is None:
            r = u['sc'].get(p, {}).get('list')
        if r is None:
            none.append(p)
            continue
        a, b = D.get(p), inv(r)
        diff = (a != b) & ~new
        diff[CHANGED.get(p, [])] = False
        if p in RESERVED:
            diff &= a | (sets['age_data'] != '')
        if diff.any():
            print('DIFFERS', p, diff.sum(), hex(diff.nonzero()[0][0]))
        else:
            ok += 1
    print('%d properties agree with Unicode 15, not compared: %s' % (ok, none))
    for t, f, key in (('script_data0', 'sc', lambda x: x),):
        w = np.full(N, '', object)
        for s, v in u['sc'].items():
            w[inv(v['list'])] = s
        a = sets[t].copy()
        a[a == ''] = 'zzzz'
        d = (a != w) & ~new & ~((a == 'zzzz') & (w == 'zzzz'))
        print('sc', d.sum(), [(hex(i), a[i], w[i]) for i in d.nonzero()[0][:5]])
    x = [set() for _ in range(N)]
    for s, v in u['scx'].items():
        for c in inv(v['list']).nonzero()[0]:
            x[c].add(s)
    bad = 0
    for c in range(N):
        if new[c]:
            continue
        first = sets['script_data1'][c] not in ('', 'zzzz')
        got = set()
        for k in range(1, 22):
            s = sets['script_data%d' % k][c]
            if s in ('', 'zzzz'):
                break
            got.add(s)
        if not first and sets['script_data0'][c] not in ('', 'zzzz'):
            got = {sets['script_data0'][c]}
        if got != x[c] - {'zzzz'}:
            bad += 1
            if bad < 5:
                print('scx', hex(c), got, x[c])
    print('scx', bad)
    for a_ in u['age']:
        n = 'v' + a_.replace('.', '_') if a_ != 'na' else ''
        if a_ == '15.0':
            continue
        d = ((sets['age_data'] == n) != inv(u['age'][a_]['list'])) & ~new
        if d.any():
            print('age', a_, d.sum(), [hex(i) for i in d.nonzero()[0][:4]])
    norm = lambda s: s.lower().replace('_', '').replace('-', '').replace(' ', '')
    bn = {}
    for n, e in out['names']['bk'].items():
        bn.setdefault(e, set()).add(norm(n))
    bad = 0
    bl = sets['block_data']
    for s, v in u['blk'].items():
        a = inv(v['list'])
        es = {rev['bk'].get(int(i)) if i > 0 else None for i in np.unique(bl[a])}
        al = {norm(s)} | {norm(n) for n in v['names']}
        for e in es:
            if e is None:
                if s not in ('nb', 'no_block'):
                    print('block', s, 'is no block')
            elif not al & bn[e]:
                print('block', s, e)
    for kind, fam in (('sc', 'sc'),):
        for n, e in out['names'][kind].items():
            if n not in u[fam].get(e, {'names': [e]})['names']:
                print('name', n, e)
    json.dump(out, open(os.path.join(build.VERIF, 'ref', 'ucd14.json'), 'w'), separators=(',', ':'))


main()
