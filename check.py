#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough] [-v] [--only DRIVER]: decide one property of /repo's current source.

Runs every analysis driver  <PROPERTY>_*  of /verif/specs/*.py through the abstract interpreter of
/verif/engine (and the source lints of /verif/engine/lints.py registered for the property), writes
/verif/evidence/<PROPERTY>.json and prints one line per violation / known finding.  Nothing of /repo
is executed.
exit 0: no obligation refuted;  exit 1: VIOLATION;  exit 2: nothing could be analysed."""
import ast
import glob
import json
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for ln in open(p):
        ln = ln.strip()
        if ln.startswith('known:'):
            d = dict(re.findall(r'(\w+)=\[([^\]]*)\]', ln))
            if d.get('property') == pid:
                out.append(d)
    return out


class Res:
    pass


def run_driver(sess, path, tree, name, thorough, seed, limit):
    """analyse one driver in a forked child; returns dict"""
    from engine import prover
    t0 = time.time()

    def onalarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        run = prover.Run(sess, path, tree, name, thorough, seed).execute()
        rs = run.results()
        out = [dict(driver=r.driver, label=r.label, status=r.status, where=list(r.where), detail=r.detail,
                    tag=r.tag, proved=r.proved, und=r.und, n=r.n) for r in rs]
        d = dict(driver=name, unsup=run.unsup, results=out, visited=sorted(run.I.visited), boxes=run.decider.nboxes)
    except TimeoutError:
        d = dict(driver=name, unsup='analysis budget of %d s exhausted' % limit, results=[], visited=[], boxes=0)
    except MemoryError:
        d = dict(driver=name, unsup='memory budget exhausted', results=[], visited=[], boxes=0)
    except Exception as e:
        import traceback
        d = dict(driver=name, unsup='internal: %s: %s' % (type(e).__name__, e), results=[], visited=[], boxes=0,
                 trace=traceback.format_exc())
    signal.alarm(0)
    d['wall'] = round(time.time() - t0, 2)
    return d


def pool(jobs, fn, limit, nproc=8):
    """run fn(job) in forked children, at most nproc at a time"""
    out = {}
    todo = list(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            j = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    b = pickle.dumps(fn(j))
                    with os.fdopen(w, 'wb') as f:
                        f.write(b)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(w)
            live[r] = (j, pid, [], time.time())
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 16)
            if b:
                live[r][2].append(b)
                continue
            j, pid, buf, t0 = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[j] = pickle.loads(b''.join(buf))
            except Exception:
                out[j] = dict(driver=j, unsup='analysis process ended', results=[], visited=[], boxes=0, wall=round(time.time() - t0, 2))
        for r, (j, pid, buf, t0) in list(live.items()):
            if time.time() - t0 > limit + 30:
                os.kill(pid, signal.SIGKILL)
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    thorough = '--thorough' in a or os.environ.get('VERIF_TIER_FORCE') == 'thorough'
    verbose = '-v' in a
    only = a[a.index('--only') + 1] if '--only' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from engine import prover, lints
    sess = prover.Session(REPO)
    jobs, trees = [], {}
    for path in sorted(glob.glob(os.path.join(HERE, 'specs', '*.py'))):
        tree = ast.parse(open(path).read(), path)
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith(pid + '_') and (only is None or only in n.name):
                jobs.append(n.name)
                trees[n.name] = (path, tree)
    limit = 600 if thorough else 200
    # heavy drivers first (order is only a scheduling hint)
    jobs.sort(key=lambda n: 0 if n.endswith('_heavy') else 1)
    res = pool(jobs, lambda j: run_driver(sess, trees[j][0], trees[j][1], j, thorough, seed, limit), limit)
    allr, unsup, visited, boxes = [], [], set(), 0
    for j in sorted(res):
        d = res[j]
        boxes += d['boxes']
        visited |= set(d['visited'])
        if d['unsup']:
            unsup.append((j, d['unsup']))
            if verbose and d.get('trace'):
                print(d['trace'])
        if d['unsup'] and d['unsup'].startswith(('internal', 'analysis', 'memory')):
            pass
        allr += d['results']
        if verbose:
            print('== %s  %ss%s' % (j, d['wall'], '  UNDECIDED DRIVER: ' + d['unsup'] if d['unsup'] else ''))
            for r in d['results']:
                if r['status'] != 'proved' or '-vv' in a:
                    print('   ', r['status'], r['tag'], '|', r['label'], '|', r['where'], '|', r['detail'], (r['proved'], r['und'], r['n']))
    lint_info = []
    for nm, fn in lints.FOR.get(pid, []):
        if only is not None and only not in nm:
            continue
        r = fn(sess, REPO)
        lint_info.append(dict(rule=nm, instances=r['instances'], expected_at_least=r.get('floor', 0), violations=len(r['bad'])))
        visited |= set(r.get('visited', ()))
        allr.append(dict(driver=nm, label='instances', status='proved', where=['', '', 0], detail='', tag='lint', proved=r['instances'] - len(r['bad']), und=0, n=r['instances']))
        for where, label, det in r['bad']:
            allr.append(dict(driver=nm, label=label, status='refuted', where=list(where), detail=det, tag='lint', proved=0, und=0, n=1))
        if r['instances'] < r.get('floor', 0):
            unsup.append((nm, 'only %d instances of the rule found, at least %d confirmed when it was written' % (r['instances'], r['floor'])))
        if verbose:
            print('== lint', nm, r['instances'], 'instances')
            for b in r['bad']:
                print('    refuted', b)
    ref = [r for r in allr if r['status'] == 'refuted']
    nprov = sum(r['proved'] if r['status'] != 'proved' else r['n'] if r['tag'] != 'lint' else r['proved'] for r in allr)
    nund = sum(r['und'] for r in allr)
    known = load_known(pid)
    viol, kn = [], []
    for r in ref:
        k = None
        for d in known:
            if d['driver'] == r['driver'] and d['label'] == r['label'] and (not d.get('where') or d['where'] == r['where'][1]):
                k = d
        (kn if k is not None else viol).append((r, k))
    seen = set()
    for r, k in kn:
        if k['what'] not in seen:
            seen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    reports = []
    if viol and not only:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for n, (r, _) in enumerate(viol):
        rel = os.path.join('evidence', 'replay', '%s-%d.json' % (pid, n))
        rep = dict(property=pid, rule='%s: %s' % (r['driver'], r['label']), file=r['where'][0], function=r['where'][1],
                   line=r['where'][2], what=r['detail'], rerun='python3 check.py %s --only %s -v' % (pid, r['driver']))
        if not only:
            with open(os.path.join(HERE, rel), 'w') as f:
                json.dump(rep, f, indent=1)
        print('  %s:%s %s -- %s / %s: %s' % (r['where'][0], r['where'][2], r['where'][1], r['driver'], r['label'], r['detail']))
        reports.append('%s:%s %s: %s (%s)' % (r['where'][0], r['where'][2], r['where'][1], r['label'], r['detail']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, 'evidence', 'replay', '%s-0.json' % pid)))
    ndrv = len(jobs)
    okdrv = ndrv - len([1 for j, _ in unsup if j in trees])
    print('%s: %d drivers (%d fully analysed), %d obligations discharged, %d undecided, %d refuted (%d known), %d functions analysed, %d interval evaluations, %.1f s'
          % (pid, ndrv, okdrv, nprov, nund, len(ref), len(kn), len(visited), boxes, time.time() - t0))
    for j, u in unsup:
        print('  undecided: %s: %s' % (j, u))
    if not only:
        props = {}
        for ln in open(os.path.join(HERE, 'properties.jsonl')):
            if ln.strip():
                p = json.loads(ln)
                props[p['id']] = p
        cov = dict(
            explanation=('Abstract interpretation of the current source of %s (Python AST; Fortran lowered to the same form): '
                         '%d driver configurations, %d of them analysed to the end, %d obligations (spec equalities, range and '
                         'shape conditions, no-failure conditions at every call/index/attribute) discharged by normal-form or range '
                         'reasoning for all element values, %d left undecided, %d refuted (%d of them listed known findings). '
                         'Array extents are those of the driver configurations; element values are unrestricted symbols.'
                         % (REPO, ndrv, okdrv, nprov, nund, len(ref), len(kn))),
            drivers=ndrv, drivers_completed=okdrv, obligations=nprov + nund + len(ref), discharged=nprov, undecided=nund,
            refuted=len(ref), known_findings=len(kn), interval_evaluations=boxes,
            functions_analysed=sorted(visited, key=str), lints=lint_info,
            not_analysed=['%s: %s' % x for x in unsup],
            rules=sorted({'%s: %s' % (r['driver'], r['label']) for r in allr if r['tag'] in ('spec', 'lint')})[:400],
            trusted_base='engine/ (value graph, numpy/healpy/scipy models, interval evaluation) and the specifications in specs/')
        ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='other', coverage=cov,
                  wall_s=round(time.time() - t0, 2), violations=len(viol),
                  assumptions=['real arithmetic: floating-point rounding is not modelled',
                               'library functions behave as their engine models (numpy, scipy, healpy)'])
        if reports:
            cov['violation_reports'] = reports[:50]
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if viol:
        return 1
    if nprov == 0:
        print('nothing could be analysed for %s' % pid)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
