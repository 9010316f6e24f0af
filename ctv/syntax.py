"""C12: jobs of the units parse table, parser and semantic actions (grammar.py, steps.py, actions.py)."""
import re
import time
from . import actions, grammar, steps
from .engine import Result
from .jobs import Job
from ref import nodes


class Fact:
    """an obligation decided by evaluating the instantiated code"""

    def __init__(self, name, kind, status, detail=''):
        self.name, self.kind, self.status, self.model, self.detail = name, kind, status, None, detail


def result(name, functions, obls, t0):
    r = Result(name)
    r.paths, r.functions, r.queries, r.cuts, r.inv, r.obls, r.time = 1, functions, 0, 0, {}, obls, time.time() - t0
    return r


KNOWN = set(nodes.SIMPLE) | {a for alts in grammar.ref.read()[0].values() for f in alts for k, a in f if k == 'a'}


def prove_table(**kw):
    t0 = time.time()
    start, table = grammar.full_table()
    names = {x[1:].split('::')[-1] for e in table.values() for v in e.values() if v[0] == '[' for x in v[1:-1].split() if x[0] == '!'}
    known = names <= KNOWN      # (a table with actions of other names is not judged here: what they do is)
    obls, reach, bad = grammar.Prover(start, table).obligations()
    if (start, frozenset([(('n', 'S'),)])) in bad and not any(not o[1] for o in obls):
        obls.append(('the start symbol', False, str(next(iter(bad.values())))[:300], None, None))
    out = [Fact(n, 'table:' + ('accept' if k is None else k[0].split('::')[-1]), 'proved' if ok else 'failed' if known else 'unknown', d) for n, ok, d, k, t in obls]
    return result('parse table', sorted({'ctre::pcre::rule(%s, _)' % k[0].split('::')[-1] for k in reach}), out, t0)


def prove_terminals(**kw):
    t0 = time.time()
    r = steps.check(steps.terminal_obligations(grammar.full_table()[1]))
    return result('terminals', ['ctll::augment_grammar::rule', 'ctll::set', 'ctll::neg_set', 'ctll::range', 'ctll::anything'], [Fact(n, 'terminal', {'1': 'proved', '0': 'failed'}.get(v, 'unknown'), v) for n, v in r], t0)


def prove_steps(**kw):
    t0 = time.time()
    r = steps.check(steps.step_obligations())
    return result('parser', ['ctll::parser::' + f for f in ('decide', 'move', 'results::operator+', 'get_current_term', 'get_previous_term', 'trampoline_decide', 'output', 'correct_with')],
                  [Fact(n, 'parser', {'1': 'proved', '0': 'failed'}.get(v, 'unknown'), v) for n, v in r], t0)


def prove_actions(names, **kw):
    t0 = time.time()
    out = []
    for n, ok, d, what in actions.obligations(2, names):
        left = d.split(', contract ')[0]
        out.append(Fact(n, 'action:' + what[0], 'proved' if ok else 'unknown' if "'unknown'" in left or 'undeclared' in left or 'no member named' in left or 'no output' in left else 'failed', d))
    return result(', '.join(names[:3]), ['ctre::pcre_actions::apply(pcre::%s, _, _)' % n for n in names], out, t0)


GROUPS = [['make_sequence'], ['make_alternate', 'make_optional'], ['repeat_plus', 'repeat_star', 'make_atomic'], ['repeat_ab'], ['repeat_exactly', 'repeat_at_least'], ['make_capture', 'make_capture_with_name', 'prepare_capture', 'reset_capture'],
          ['look_finish'], ['make_lazy', 'make_possessive'], ['create_number', 'push_number', 'push_hexdec', 'finish_hexdec'], ['make_back_reference', 'make_relative_back_reference', 'push_name', 'push_property_name', 'push_property_value'],
          ['set_start', 'set_combine', 'set_empty', 'set_make', 'set_make_negative', 'negate_class_named', 'make_range']]


def syntax_jobs():
    groups = [list(g) for g in GROUPS]
    rest = sorted({j[0] for j in actions.jobs()} - {a for g in groups for a in g})
    groups += [rest[i::3] for i in range(3)]
    js = [Job('parse table', 'pcre', prove_table, 'the table accepts the language of the grammar, with its actions', refutable=False),
          Job('parse table', 'terminals', prove_terminals, 'terminal symbols stand for their members', refutable=False),
          Job('parser', 'steps', prove_steps, 'one step of the pushdown automaton', refutable=False)]
    js += [Job('semantic actions', ' '.join(g[:4]) + (' and %d more' % (len(g) - 4) if len(g) > 4 else ''), lambda g=g, **kw: prove_actions(g), 'the normal form of what is left on the stack', refutable=False) for g in groups]
    for j in js:
        j.cost = 100 if 'make_sequence' in j.entry else 50 if j.entry == 'pcre' else 20
    return js


def action_jobs(*wanted):
    """the semantic actions whose names match"""
    names = sorted({j[0] for j in actions.jobs() if any(re.fullmatch(w, j[0]) for w in wanted)})
    groups = [names] if len(names) < 6 else [names[i::3] for i in range(3)]
    return [Job('semantic actions', ' '.join(g[:4]) + (' and %d more' % (len(g) - 4) if len(g) > 4 else ''), lambda g=g, **kw: prove_actions(g), 'the normal form of what is left on the stack', refutable=False) for g in groups]
