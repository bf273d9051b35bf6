#!/usr/bin/env python3-vt
# -*- coding: utf-8 -*-
"""check.py <property id> [--tier quick|thorough]   run one check
   check.py --replay FILE                           replay a counterexample
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sx import shims  # noqa
shims.setup_paths(False)
sys.setrecursionlimit(6000)


def load_symbolic(harness):
    from sx import instr
    import logging
    logging.disable(logging.CRITICAL)
    instr.install({'hwp5': shims.REPO_SRC, 'harness': HERE}, ('hwp5',))
    m = importlib.import_module(harness)
    for dep in getattr(m, 'PRELOAD', ()):
        importlib.import_module(dep)
    return m


def child(conn, harness, task, opts):
    try:
        from sx import explore
        r = explore.run_task(harness, task['fn'], task.get('params', {}),
                             opts)
        conn.send(r)
    except BaseException:
        try:
            conn.send({'error': traceback.format_exc(), 'fn': task['fn'],
                       'params': task.get('params', {})})
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_all(harness, tasks, base_opts, jobs, total_s):
    ctx = mp.get_context('fork')
    t0 = time.time()
    results = []
    queue = list(tasks)
    running = []
    while queue or running:
        while queue and len(running) < jobs:
            t = queue.pop(0)
            left = total_s - (time.time() - t0)
            opts = dict(base_opts)
            opts.update(t.get('opts', {}))
            # fair share of what is left, never below 5 s
            share = max(5.0, left * jobs / max(1, len(queue) + jobs))
            opts['budget_s'] = max(5.0, min(opts['budget_s'],
                                            max(share, opts.get('min_s', 0)),
                                            left))
            if left <= 0:
                results.append({'skipped': True, 'fn': t['fn'],
                                'params': t.get('params', {})})
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, harness, t, opts))
            p.start()
            b.close()
            running.append((p, a, t, time.time(), opts))
        if not running:
            continue
        ready = mp.connection.wait([r[1] for r in running], 1.0)
        for r in list(running):
            p, a, t, st, opts = r
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({'error': 'task process died',
                                    'fn': t['fn'],
                                    'params': t.get('params', {})})
                a.close()
                p.join()
                running.remove(r)
            elif time.time() - st > opts['budget_s'] + 90:
                p.kill()
                p.join()
                a.close()
                results.append({'killed': True, 'fn': t['fn'],
                                'params': t.get('params', {})})
                running.remove(r)
    return results


def known_findings(prop):
    """lines `KNOWN property=<id> fn=<harness fn> label=<...> :: text`"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            d = json.loads(line[len('known:'):])
            if d['property'] == prop:
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--strict', action='store_true')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    if args.replay:
        return replay(args.replay)
    prop = args.prop
    harness = 'harness.' + prop.lower()
    t0 = time.time()
    m = load_symbolic(harness)
    tasks = m.tasks(tier)
    if args.only:
        tasks = [t for t in tasks if args.only in
                 '%s %s' % (t['fn'], json.dumps(t.get('params', {})))]
    total = {'quick': 420.0, 'thorough': 800.0}[tier]
    base = dict(budget_s={'quick': 240.0, 'thorough': 700.0}[tier],
                min_s={'quick': 30.0, 'thorough': 60.0}[tier],
                debug=args.debug,
                max_replays={'quick': 60, 'thorough': 400}[tier])
    base.update(getattr(m, 'OPTS', {}).get(tier, {}))
    results = run_all(harness, tasks, base, args.jobs, total)
    return report(prop, tier, m, tasks, results, t0, args)


def report(prop, tier, m, tasks, results, t0, args):
    rc = 0
    agg = dict(paths=0, ok=0, decisions=0, queries=0, solver_s=0.0, checks=0,
               validated=0, replays=0, n_incomplete=0, unknown=0)
    covers = {}
    funcs = set()
    violations, spurious, mism, errors, inc = [], [], [], [], []
    complete = 0
    samples = []
    for r in results:
        name = '%s%s' % (r['fn'], json.dumps(r.get('params', {}),
                                             sort_keys=True))
        if r.get('error'):
            errors.append('%s: %s' % (name, r['error']))
            continue
        if r.get('skipped') or r.get('killed'):
            agg['n_incomplete'] += 1
            inc.append('%s: %s' % (name, 'not run (time)' if r.get('skipped')
                                   else 'killed (time)'))
            continue
        for k in agg:
            agg[k] += r[k]
        covers.setdefault(r['fn'], set()).update(r['covers'])
        funcs.update(r['functions'])
        complete += bool(r['complete'])
        for v in r['violations']:
            violations.append((r, v))
        for v in r['spurious']:
            spurious.append((name, v))
        for v in r['mismatches']:
            mism.append((name, v))
        if r['n_incomplete']:
            kinds = {}
            for i in r['incomplete']:
                kinds[i] = kinds.get(i, 0) + 1
            inc.append('%s: %s' % (name, '; '.join(
                '%s x%d' % x for x in sorted(kinds.items())[:6])))
        if len(samples) < 6 and r['samples']:
            samples.append({'task': name, 'input': r['samples'][0]['values']})
        if args.v:
            print('%-60s paths=%d ok=%d dec=%d q=%d solver=%.1fs repl=%d/%.1fs'
                  ' inc=%d viol=%d wall=%.1fs %s' % (
                      name[:60], r['paths'], r['ok'], r['decisions'],
                      r['queries'], r['solver_s'], r['replays'],
                      r['replay_s'], r['n_incomplete'],
                      len(r['violations']), r['wall_s'],
                      'complete' if r['complete'] else ''))
    # --- vacuity
    want = getattr(m, 'COVERS', {})
    ran = set(t['fn'] for t in tasks)
    missing = []
    for fn, labs in want.items():
        if fn in ran and not args.only:
            for l in labs:
                if l not in covers.get(fn, ()):
                    missing.append('%s:%s' % (fn, l))
    # --- violations
    kf = known_findings(prop)
    rdir = os.path.join(HERE, 'replays')
    nviol = 0
    known_hit = set()
    for r, v in violations:
        k = None
        for i, d in enumerate(kf):
            if d.get('fn') in (None, r['fn']) and \
                    d['label'] in (v['label'] or '') and \
                    all(r['params'].get(a) == b
                        for a, b in d.get('params', {}).items()):
                k = i
                break
        if k is not None:
            known_hit.add(k)
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, nviol))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, harness=r['harness'], fn=r['fn'],
                           params=r['params'], values=v['values'],
                           label=v['label'], replay=v['replay']), f,
                      indent=1, sort_keys=True)
        if nviol < 10:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s %s: %s' % (r['fn'], json.dumps(r['params']),
                                   v['label']))
        nviol += 1
    for i in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[i]['text']))
    if nviol:
        rc = 1
    # --- evidence
    cov = dict(
        states=agg['paths'], transitions=agg['decisions'],
        traces_validated_against_impl=agg['validated'],
        samples=samples or ['none'],
        solver_queries=agg['queries'],
        solver_seconds=round(agg['solver_s'], 2),
        solver_unknown=agg['unknown'],
        assertions_evaluated=agg['checks'],
        tasks=len(tasks), tasks_fully_explored=complete,
        incomplete_paths=agg['n_incomplete'], incomplete=inc[:40],
        spurious=len(spurious), encoding_mismatches=len(mism),
        task_errors=len(errors), not_reached=missing,
        functions_encoded=sorted(funcs),
        bounds=getattr(m, 'BOUNDS', {}).get(tier) or
        getattr(m, 'BOUNDS', {}).get('quick', ''),
        outside=getattr(m, 'OUTSIDE', ''),
        reachability=dict((k, sorted(v)) for k, v in covers.items()),
        exhaustive=False,
        explanation='states = execution paths of the real code explored '
        'symbolically (each path stands for every input satisfying its path '
        'condition); transitions = branch decisions put to the solver; '
        'traces_validated_against_impl = path models re-run on the '
        'uninstrumented code with identical outcome.')
    ev = dict(property=prop, tier=tier,
              seed=int(os.environ.get('VERIF_SEED', '1')),
              level='model_checking', coverage=cov,
              assumptions=getattr(m, 'ASSUMPTIONS', []),
              violations=nviol, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s tier=%s tasks=%d/%d paths=%d decisions=%d queries=%d '
          'solver=%.1fs validated=%d incomplete=%d wall=%.1fs' % (
              prop, tier, complete, len(tasks), agg['paths'],
              agg['decisions'], agg['queries'], agg['solver_s'],
              agg['validated'], agg['n_incomplete'], time.time() - t0))
    for i in inc[:15]:
        print('INCOMPLETE %s' % i)
    if nviol:
        return 1
    # what could not be decided: reported, and an error when nothing at all
    # was decided (or under --strict, which development runs use)
    strict = args.strict or not agg['validated']
    for e in errors[:5]:
        print('ERROR %s' % e)
        rc = 2 if strict else rc
    for name, v in spurious[:5]:
        print('ERROR counterexample does not reproduce on the real code: '
              '%s %s %s -> %s' % (name, v['label'],
                                  json.dumps(v['values'])[:300],
                                  v['replay']['outcome']))
        rc = 2 if strict else rc
    for name, v in mism[:5]:
        print('ERROR encoding disagrees with the real code: %s %s\n   %s\n'
              '   %s' % (name, json.dumps(v['values'])[:300],
                         json.dumps([v['symbolic'], v['covers']])[:600],
                         json.dumps(v['replay'])[:600]))
        rc = 2 if strict else rc
    if missing:
        print('ERROR vacuous: not reached: %s' % ', '.join(missing))
        rc = 2 if strict or not (inc or errors) else rc
    return rc


def replay(path):
    from sx import explore
    d = json.load(open(path))
    r = explore.Replayer(d['harness'])
    out = r(d['fn'], d['params'], d['values'])
    r.close()
    print(json.dumps(out, indent=1))
    if out['outcome'] in ('check', 'exception', 'resources'):
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    import multiprocessing.connection  # noqa
    sys.exit(main())
