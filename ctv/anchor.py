"""Contract of starts_with_anchor (units/anchor.cpp): it may answer true only for patterns which cannot match behind the begin of the subject."""
import re
import time
import z3
from .engine import *
from .jobs import Job

NODES = {0: 'n_empty', 1: 'n_select', 2: 'n_select1', 3: 'n_select0', 4: 'n_sequence', 5: 'n_sequence1', 6: 'n_reject', 7: 'n_char', 8: 'n_any', 9: 'n_string0', 10: 'n_string1',
         11: 'n_set', 12: 'n_negset', 13: 'n_subj_begin', 14: 'n_subj_end', 15: 'n_subj_end_line', 16: 'n_line_begin', 17: 'n_line_end', 18: 'n_boundary', 19: 'n_not_boundary',
         20: 'n_capture', 21: 'n_capture2', 22: 'n_capture_name', 23: 'backref', 24: 'backref', 25: 'n_la_pos', 26: 'n_la_neg', 27: 'n_lb_pos', 28: 'n_lb_neg', 29: 'n_atomic',
         30: 'n_mode_i', 31: 'n_mode_c', 32: 'n_mode_s', 33: 'n_mode_m'}
BOUNDS = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (0, 3), (2, 3), (1, 2)]
for b, k in ((40, 'greedy'), (50, 'lazy'), (60, 'poss')):
    for i, ab in enumerate(BOUNDS):
        NODES[b + i] = (k,) + ab


class AWorld(World):
    """every use of an abstract part brings the facts about its kind"""

    def __init__(self, x, z, y):
        World.__init__(self, 1)
        self.kind = {'1': x, '2': z, '3': z, '9': y}
        self.facts = []

    def anch(self, items, s):
        if not items:
            return z3.BoolVal(False)
        k = self.kind.get(items[0])
        if items[0].startswith('numeric_mark'):
            return self.anch(items[1:], s)
        if k == 'A':
            return z3.BoolVal(True)
        if k == 'T':
            return self.anch(items[1:], s)
        if k == 'L':
            return z3.Or(z3.Not(s['ml']), self.anch(items[1:], s))
        return z3.BoolVal(False)

    def E(self, key, s):
        r = World.E(self, key, s)
        if key.startswith('~'):
            return r
        items = key.split(',')
        self.facts.append(z3.Implies(z3.And(r['m0'], self.anch(items, s)), s['cur'] == s['begin']))
        self.facts.append(z3.Implies(r['m0'], z3.And(self.inr(r['e0']), z3.UGE(r['e0'], s['cur']))))
        if len(items) == 2 and items[1] == 'end_cycle_mark' and self.kind.get(items[0]) in ('T', 'L'):
            self.facts.append(z3.Implies(r['m0'], r['e0'] == s['cur']))
        return r


def goal(w, nd, s):
    """alternatives, each a (assumptions, conclusion) which implies: a match of the node at cur means cur == begin"""
    if isinstance(nd, tuple):
        sp = RepSpec(w, nd[0], nd[1], nd[2], s, lambda q: w.E('1,end_cycle_mark', q), lambda q: w.E('9', q))
        g = sp.init()
        one = ([sp.axiom(g)], z3.Implies(sp.app(g)['m0'], s['cur'] == s['begin']))
        h = {c: (Ptr(w.subj, fresh('h' + c, BV64)) if isinstance(v, Ptr) else fresh('h' + c, v.sort())) for c, v in g.items()}
        n = sp.nxt(h)
        two = ([sp.axiom(h), w.inr(h['cur'].off), z3.UGE(h['cur'].off, s['cur']), z3.Implies(sp.app(n)['m0'], n['cur'].off == s['begin'])],
               z3.Implies(sp.app(h)['m0'], h['cur'].off == s['begin']))
        return [one, two]
    if nd == 'backref':
        p = fresh('pos', BV64)
        r = w.E('9', s.up(cur=p))
        return [([z3.UGE(p, s['cur']), w.inr(p)], z3.Implies(r['m0'], s['cur'] == s['begin']))]
    r = spec_table(w)[nd](s)
    return [([], z3.Implies(r['m0'], s['cur'] == s['begin']))]


def prove_anchor(m, entry, i, x, z, y):
    t0 = time.time()
    res = Result(entry)
    w = AWorld(x, z, y)
    s = start_state(w)
    ex = Exec(m, handlers=[], timeout_ms=20000, name='%s<%s,%s>,%s' % (NODES[i], x, z, y), max_time=60, loops=20)
    st = State()
    n = 0
    try:
        for s2, rv in ex.run(st, entry, [s['ml'], s['ci']]):
            n += 1
            rv = rv if z3.is_bool(rv) else rv != 0
            s2.assume(rv)
            if not ex.feasible(s2):
                ex.obls.append(Obligation(ex.name + ':answer false', 'post:anchor-sound', entry, 'proved', 0.0))
                continue
            for e in w.pre() + [w.wf_state(s)]:
                s2.assume(e)
            alts = goal(w, NODES[i], s)
            rec = ex.recording
            ok = False
            for k, (pre, c) in enumerate(alts):
                s3 = s2.fork()
                for e in pre + w.facts:
                    s3.assume(e)
                if k + 1 < len(alts):
                    if ex.valid(s3, c):
                        ex.oblige(s3, c, 'post:anchor-sound', entry)
                        break
                else:
                    ex.oblige(s3, c, 'post:anchor-sound', entry)
    except ToolError as e:
        res.error = str(e)
    if n == 0 and not res.error:
        res.error = 'no path returns'
    res.paths, res.obls, res.functions, res.time, res.queries, res.cuts = n, ex.obls, ex.functions, time.time() - t0, ex.sol.queries, 0
    return res


def anchor_jobs(m, unit='starts_with_anchor'):
    """one job per node kind, covering every combination of contents"""
    per = {}
    for n in m.funcs:
        x = re.match(r'_Z2saILi(\d+)ELc(\d+)ELc(\d+)ELc(\d+)EEbbb$', n)
        if x:
            i, a, b, c = map(int, x.groups())
            per.setdefault(i, []).append((n, chr(a), chr(b), chr(c)))
    jobs = []
    for i, es in per.items():
        def run(i=i, es=es, refute=0, rich=False, max_time=None, kinds=None):
            tot = None
            for n, a, b, c in es:
                r = prove_anchor(m, n, i, a, b, c)
                if tot is None:
                    tot = r
                else:
                    tot.obls += r.obls
                    tot.paths += r.paths
                    tot.queries += r.queries
                    tot.time += r.time
                    tot.functions |= r.functions
                    tot.error = tot.error or r.error
            return tot
        nd = NODES[i]
        jobs.append(Job(unit, nd if isinstance(nd, str) else '%s{%d,%d}' % nd, run, str(nd)))
    return jobs
