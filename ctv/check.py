"""Check runner:  python3-vt -m ctv.check <property> [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time
import traceback
from multiprocessing import TimeoutError, get_context

from . import build
from .sym import ToolError

VERIF = build.VERIF
NPROC = min(8, os.cpu_count() or 1)


def summarise(job, r, status, detail=''):
    obls = [o for o in r.obls if job.kinds is None or job.kinds(o.kind)]
    ok = [o for o in obls if o.status in ('proved', 'trivial')]
    failed = [o for o in obls if o.status in ('failed', 'unknown')]
    return {
        'unit': job.unit, 'entry': job.entry, 'status': status, 'detail': detail,
        'obligations': len(obls), 'discharged': len(ok), 'trivial': len([o for o in obls if o.status == 'trivial']),
        'time': round(r.time, 2), 'queries': r.queries, 'paths': r.paths, 'functions': sorted(r.functions), 'cuts': r.cuts,
        'kinds': kinds(obls), 'error': r.error,
        'failed': [{'name': o.name, 'kind': o.kind, 'status': o.status, 'detail': str(o.detail)[:300], 'model': model_text(o)} for o in failed[:6]],
    }


def kinds(obls):
    d = {}
    for o in obls:
        d[o.kind] = d.get(o.kind, 0) + 1
    return d


def model_text(o):
    if o.model is None:
        return ''
    try:
        return str(o.model)[:3000]
    except Exception:
        return ''


class Broken:
    """stand-in result when the verifier itself stopped"""

    def __init__(self, err):
        self.error, self.obls, self.time, self.queries, self.paths, self.functions, self.cuts = err, [], 0, 0, 0, [], 1
        self.failed = []


def attempt(job, **kw):
    try:
        return job.run(kinds=job.kinds, **kw)
    except Exception as e:
        return Broken('%s: %s' % (type(e).__name__, traceback.format_exc()[-600:] if not isinstance(e, ToolError) else e))


def decide(job, deadline=None):
    """proved | refuted | undecided.
    refuted only when a counterexample path without any havoc (no loop / recursion cut) exists."""
    mine = lambda x: [o for o in x.failed if job.kinds is None or job.kinds(o.kind)]
    r = attempt(job)
    if r.error == 'precondition is not satisfiable':
        return summarise(job, r, 'undecided', 'vacuous precondition')
    if not r.error and not mine(r):
        if not r.obls or not r.paths:
            return summarise(job, r, 'undecided', 'vacuous: no obligation generated')
        return summarise(job, r, 'proved')
    first = r
    sat = lambda x: [o for o in mine(x) if o.status == 'failed']
    if r.cuts == 0 and sat(r):
        return summarise(job, r, 'refuted', r.error or '')
    if r.cuts and not isinstance(r, Broken) and not (deadline and time.time() > deadline):
        r = attempt(job, rich=True)
        if not r.error and not mine(r) and r.paths:
            return summarise(job, r, 'proved', 'second attempt with the extended invariant candidates')
    for k in (1, 2, 3):
        if not job.refutable or deadline and time.time() > deadline:
            break
        q = attempt(job, refute=k, max_time=40)
        if sat(q):
            return summarise(job, q, 'refuted', 'counterexample path with a subject of at most %d characters' % k)
    d = first.error or 'not proved; no counterexample among executions of the real code with at most 3 characters/iterations'
    return summarise(job, first, 'undecided', d)


_JOBS = []


_DEADLINE = [None]


def _one(i):
    job = _JOBS[i]
    try:
        return decide(job, _DEADLINE[0])
    except Exception:
        return summarise(job, Broken(traceback.format_exc()[-800:]), 'undecided', 'tool: ' + traceback.format_exc()[-800:])


def run_jobs(jobs, cost=lambda j: 0, budget=420, stop_early=True):
    """verify all jobs on all cores; stops at the first refuted one"""
    global _JOBS
    _JOBS = sorted(jobs, key=cost, reverse=True)
    _DEADLINE[0] = time.time() + budget
    if not jobs:
        return []
    out = []
    p = get_context('fork').Pool(NPROC, maxtasksperchild=6)
    try:
        it = p.imap_unordered(_one, range(len(_JOBS)), chunksize=1)
        for _ in _JOBS:
            try:
                r = it.next(timeout=240)
            except TimeoutError:        # a worker died (its job never comes back)
                break
            out.append(r)
            if stop_early and r['status'] == 'refuted':
                break
        else:
            return out
        if not any(r['status'] == 'refuted' for r in out):
            done = set((r['unit'], r['entry']) for r in out)
            out += [summarise(j, Broken('no answer'), 'undecided', 'tool: no answer') for j in _JOBS if (j.unit, j.entry) not in done]
    finally:
        p.terminate()
        p.join()
    return out


# ------------------------------------------------------------------------------------------------ command line
OUT = os.path.join(VERIF, 'out')


def builds():
    """does a trivial user of the library compile? (otherwise nothing can be said)"""
    import tempfile
    d = tempfile.mkdtemp(prefix='ctvb.')
    f = os.path.join(d, 'a.cpp')
    open(f, 'w').write('#include <ctre.hpp>\nint main(int c, char ** v) { return bool(ctre::match<"a(b|c)*d">(std::string_view(v[c - 1]))); }\n')
    rc, o, e = build.run(['clang++', '-std=c++20', '-fsyntax-only', '-w', '-I' + os.path.join(build.REPO, 'include'), f])
    os.unlink(f)
    os.rmdir(d)
    return rc == 0, e


def findings(prop):
    """recorded genuine defects: re-run each one on the current tree"""
    import tempfile
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return out
    from concurrent.futures import ThreadPoolExecutor

    def one(f):
        d = tempfile.mkdtemp(prefix='ctvf.')
        src, exe = os.path.join(d, 'f.cpp'), os.path.join(d, 'f')
        open(src, 'w').write(f['program'])
        rc, o, e = build.run(['clang++', '-std=c++20', '-w', '-I' + os.path.join(build.REPO, 'include'), src, '-o', exe])
        r = True if f.get('kind') == 'does-not-compile' and rc else False
        if rc == 0:
            rc, o, e = build.run(['timeout', '20', exe])
            r = rc != 0
        for x in (src, exe):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)
        return f, r
    fs = [f for f in json.load(open(p))['findings'] if f['property'] == prop]
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, fs))


def bounded(prop, spec, tier, extra=False):
    """the bounded stand-in; returns (failures, evaluations, nontrivial, cases)"""
    from . import native, corpus, items
    cs, its = [], []
    for p in spec.get('native', []) + (spec.get('also', []) if extra else []):
        cs += corpus.cases(p, thorough=(tier == 'thorough' or extra))
        its += items.items(p, thorough=(tier == 'thorough' or extra))
    bad, n, nt = native.run_cases(cs) if cs else ([], 0, 0)
    total = len(cs) + len(its)
    if spec.get('texts'):
        from . import parsing
        b2, n2 = parsing.run(thorough=(tier == 'thorough' or extra))
        bad, n, nt, total = bad + b2, n + n2, nt + n2, total + n2
    if its:
        b2, n2 = native.run_items(its)
        bad, n, nt = bad + b2, n + n2, nt + n2
    for defs in spec.get('native_defs', []):
        b2, n2, t2 = native.run_cases(cs, defs)
        bad, n, nt, total = bad + b2, n + n2, nt + t2, total + len(cs)
    return bad, n, nt, total


def show(b):
    d = {k: v for k, v in b.items() if k != 'case'}
    if 'subject' in d:
        d['subject_text'] = ''.join(chr(c) for c in d['subject'] if isinstance(c, int))
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='', help='proof | bounded')
    a = ap.parse_args()
    from . import registry
    prop = a.property
    spec = registry.PROPS[prop]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ok, err = builds()
    if not ok:
        print('the library does not compile:\n' + err[:1500])
        return 2
    jobs, notes = [], []
    units = spec.get('units', []) + (spec.get('units_thorough', []) if a.tier == 'thorough' else [])
    if a.only == 'bounded':
        units = []
    from concurrent.futures import ThreadPoolExecutor

    def load(u):
        try:
            u()
        except registry.Prefetched:
            pass
        except build.BuildError as e:
            return str(e)
    registry.PREFETCH.append(1)
    with ThreadPoolExecutor(NPROC) as ex:
        errors = list(ex.map(load, units))
    registry.PREFETCH.clear()
    for u, e in zip(units, errors):
        if e:
            notes.append({'unit': u.name, 'not_extractable': e[:1500]})
        else:
            jobs += u()
    res = run_jobs(jobs, cost=lambda j: getattr(j, 'cost', 0 if j.entry.startswith('n_') else 1), budget=420)
    refuted = [r for r in res if r['status'] == 'refuted']
    undecided = [r for r in res if r['status'] == 'undecided']
    known = findings(prop)
    bad, evals, nontriv, ncases = bounded(prop, spec, a.tier) if a.only != 'proof' else ([], 0, 0, 0)
    if refuted and not bad and not spec.get('no_native'):
        b2, n2, t2, c2 = bounded(prop, spec, a.tier, extra=True)
        bad, evals, nontriv, ncases = b2, evals + n2, nontriv + t2, ncases + c2
    if a.only != 'proof':
        # randomly built patterns: a few on every run, more where something is not proved, until one fails where something is refuted
        from . import randomised
        b2, n2, t2, c2 = randomised.search(prop, os.environ.get('VERIF_SEED', '1'), budget=240 if a.tier == 'thorough' else 150 if refuted and not bad else 45 if undecided or notes else 0)
        bad, evals, nontriv, ncases = bad + b2, evals + n2, nontriv + t2, ncases + c2
    wall = time.time() - t0
    obl = sum(r['obligations'] for r in res)
    dis = sum(r['discharged'] for r in res)
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3-vt -m ctv.check %s --tier %s' % (prop, a.tier),
            'trusted_base': spec.get('trust', registry.TRUST),
            'back_end': spec.get('back_end') or 'z3 %s through ctv (verification conditions generated from the LLVM IR of the instantiated functions)' % __import__('z3').get_version_string(),
            'solver_queries': sum(r['queries'] for r in res), 'solver_and_symbolic_execution_s': round(sum(r['time'] for r in res), 1),
            'trivial_obligations': sum(r['trivial'] for r in res), 'paths': sum(r['paths'] for r in res),
            'functions_under_contract': sorted('%s:%s' % (r['unit'], r['entry']) for r in res if r['status'] == 'proved'),
            'real_functions_executed_symbolically': len(set(f for r in res for f in r['functions'])),
            'undecided': [{k: r[k] for k in ('unit', 'entry', 'detail')} for r in undecided], 'not_extractable': notes,
            'bounded_stand_in': {'label': 'bounded, not counted as proved', 'stands_in_for': spec.get('bounded_for', 'functions listed as undecided / not extractable, and the composition of all parts through the public interface'),
                                 'pattern_and_operation_cases': ncases, 'evaluations': evals, 'nontrivial': nontriv, 'failures': len(bad)},
        },
        'assumptions': spec.get('assume', []), 'wall_s': round(wall, 2), 'violations': len(refuted) + len(bad),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d undecided, %d not extractable; bounded stand-in %d evaluations; %.1f s' % (
        prop, len(res), dis, obl, len(undecided), len(notes), evals, wall))
    for r in undecided:
        print('undecided: %s:%s %s' % (r['unit'], r['entry'], r['detail'][:300]))
    for n in notes:
        print('not extractable: %s %s' % (n['unit'], n['not_extractable'][:600]))
    for f, present in known:
        if present:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, f['id'], f['what']))
    if not refuted and not bad:
        return 0
    replay = os.path.join(OUT, 'replay-%s.json' % prop)
    json.dump({'property': prop, 'failed_obligations': [{'function': '%s:%s' % (r['unit'], r['entry']), 'detail': r['detail'], 'obligations': r['failed']} for r in refuted],
               'failing_inputs': [show(b) for b in bad[:40]]}, open(replay, 'w'), indent=1, default=str)
    for r in refuted:
        for o in r['failed'][:2]:
            print('failed obligation %s (%s)' % (o['name'], r['detail']))
    for b in bad[:3]:
        print('failing input: %s' % json.dumps(show(b), default=str)[:600])
    print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if bad else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    for again in (False, True):
        sys.stdout.flush()
        pid = os.fork()
        if not pid:
            try:
                rc = main()
            except SystemExit as e:
                rc = e.code
            except BaseException:
                traceback.print_exc()
                rc = 2
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc if isinstance(rc, int) else 0 if rc is None else 2)
        st = os.waitpid(pid, 0)[1]
        if os.WIFEXITED(st):
            sys.exit(os.WEXITSTATUS(st))
        print('the verifier died of signal %d' % os.WTERMSIG(st), flush=True)        # (once more, then give up)
    sys.exit(2)
