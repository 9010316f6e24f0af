"""The functions under contract: for every harness entry, the real function it instantiates and its specification."""
import re
import z3
from .engine import *

BIG = bv(1 << 60)


class Job:
    """one function under contract"""

    def __init__(self, unit, entry, run, what, refutable=True, kinds=None):
        self.unit, self.entry, self.run, self.what, self.refutable, self.kinds = unit, entry, run, what, refutable, kinds


def rep_args(n, w, opt='poss'):
    """repeat entries kind_A_B: how the template arguments are generalised"""
    A, B = z3.BitVec('A', 64), z3.BitVec('B', 64)
    kind, a = n.split('_', 1)
    pack = n.endswith('pack')
    one, rest = ('11', '12') if kind == 'gopt' else ('1', '9')
    inner = lambda s: w.E(one + (',2,end_cycle_mark' if pack else ',end_cycle_mark'), s)
    tail = lambda s: w.E(rest, s)
    kind = opt if kind == 'gopt' else kind
    d = {'A': A, 'B': B}
    if pack:
        a = '1_0'
    x, y = a.split('_')
    X = d[x] if x in d else int(x)
    Y = d[y] if y in d else int(y)
    gen, pre = {}, []
    if 'A' in (x, y):
        gen[1000003] = A
        pre += [z3.UGE(A, 1), z3.ULT(A, BIG)]
    if 'B' in (x, y):
        gen[2000003] = B
        pre += [z3.UGE(B, 1), z3.ULT(B, BIG)]
    if a in ('A_B', 'B_A'):
        pre.append(z3.ULT(A, B))
    return (lambda w_, s: RepSpec(w_, kind, X, Y, s, inner, tail)), gen, pre


NOWF = ('n_accept', 'n_end_lookahead', 'n_end_lookbehind', 'n_end_mark_accept')


def engine_job(unit, w, m, n, kinds=None):
    tab = spec_table(w)

    def run(**kw):
        if n == 'n_atomic':
            return prove_node(w, m, n, mkspec=lambda w_, s: RepSpec(w_, 'poss', 1, 1, s, lambda q: w.E('1,end_cycle_mark', q), lambda q: w.E('9', q)), **kw)
        if n.startswith('n_backref'):
            return prove_node(w, m, n, mkspec=lambda w_, s: BackSpec(w_, s, 1 if n == 'n_backref' else 2), **kw)
        if n in tab:
            pre = None
            if n.startswith('n_mark'):
                pre = lambda s: [s['b' + n[-1]] != bv(NULLOFF)]
            return prove_node(w, m, n, specfn=tab[n], check_wf=n not in NOWF, pre=pre, **kw)
        if n.endswith('B_A'):
            return prove_node(w, m, n, specfn=fail, **kw)

        def rep(opt='poss'):
            mk, gen, pre = rep_args(n, w, opt)
            return prove_node(w, m, n, mkspec=mk, generalize=gen, pre=lambda s: pre, **kw)
        r = rep()
        if n.startswith('gopt_') and (r.error or r.failed):
            # possessive is the greedy meaning here (lemma OPT, firsts.py), and so is greedy, where the optimisation is not used
            q = rep('greedy')
            sat = lambda x: [o for o in x.failed if o.status == 'failed']
            if not q.error and not q.failed or sat(r) and not sat(q):
                return q
        return r
    return Job(unit, n, run, n, kinds=kinds)


ENGINE_PREFIX = ('n_', 'greedy_', 'lazy_', 'poss_', 'gopt_')
