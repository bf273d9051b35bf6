# -*- coding: utf-8 -*-
"""Explore one task (harness x parameters)."""
import json
import os
import subprocess
import sys
import time
import traceback
import types

from . import core, ctx, rt, shims
from .core import BudgetExceeded, PathStop, Unencodable


class Replayer(object):
    """client of the concrete replay worker"""

    def __init__(self, harness):
        self.harness = harness
        self.p = None
        self.n = 0
        self.t = 0.0

    def start(self):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONHASHSEED'] = '0'
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(shims.VERIF, 'sx', 'worker.py'),
             self.harness],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True)

    def __call__(self, fn, params, values):
        if self.p is None:
            self.start()
        t0 = time.time()
        self.n += 1
        self.p.stdin.write(json.dumps(dict(
            harness=self.harness, fn=fn, params=params, values=values)) +
            '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        self.t += time.time() - t0
        if not line:
            self.p = None
            raise RuntimeError('replay worker died')
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


# --- snapshot of mutable module/class state ---------------------------------

def snapshot(prefixes):
    snaps = []
    seen = set()

    def add(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, dict):
            snaps.append((o, dict(o)))
        elif isinstance(o, list):
            snaps.append((o, list(o)))
        elif isinstance(o, set):
            snaps.append((o, set(o)))

    attrs = []
    for name, m in list(sys.modules.items()):
        if not any(name == p or name.startswith(p + '.') for p in prefixes):
            continue
        if not isinstance(m, types.ModuleType):
            continue
        for k, v in list(m.__dict__.items()):
            if k.startswith('__'):
                continue
            if isinstance(v, (dict, list, set)):
                add(v)
            if isinstance(v, type) and getattr(
                    v, '__module__', '') == name:
                if id(v) in seen:
                    continue
                seen.add(id(v))
                attrs.append((v, dict(v.__dict__)))
                for k2, v2 in list(v.__dict__.items()):
                    if k2.startswith('__'):
                        continue
                    if isinstance(v2, (dict, list, set)):
                        add(v2)
            if not isinstance(v, (type, types.FunctionType,
                                  types.ModuleType)):
                pass
        attrs.append((m, dict(m.__dict__)))
    return snaps, attrs


def restore(snap):
    snaps, attrs = snap
    for o, c in snaps:
        if len(o) != len(c) or o != c or not _same(o, c):
            o.clear()
            (o.extend if isinstance(o, list) else o.update)(c)
    for o, c in attrs:
        d = o.__dict__
        for k, v in c.items():
            if k.startswith('__'):
                continue
            if d.get(k, restore) is not v:
                try:
                    setattr(o, k, v)
                except (AttributeError, TypeError):
                    pass
        if len(d) != len(c):
            for k in list(d):
                if k not in c and not k.startswith('__'):
                    try:
                        delattr(o, k)
                    except (AttributeError, TypeError):
                        pass


def _same(o, c):
    if isinstance(o, dict):
        for k, v in c.items():
            if o.get(k) is not v:
                return False
    return True


def _safe_differs(o, c):
    return len(o) != len(c)


def restore_quiet(snap):
    """restore without triggering symbolic comparisons"""
    snaps, attrs = snap
    for o, c in snaps:
        if isinstance(o, list):
            if len(o) != len(c) or any(x is not y for x, y in zip(o, c)):
                o[:] = c
        elif isinstance(o, dict):
            if len(o) != len(c) or any(
                    k1 is not k2 or v1 is not v2 for (k1, v1), (k2, v2)
                    in zip(o.items(), c.items())):
                o.clear()
                o.update(c)
        else:
            if len(o) != len(c) or set(map(id, o)) != set(map(id, c)):
                o.clear()
                o.update(c)
    restore((() , attrs))


# ---------------------------------------------------------------------------

def run_task(harness, fn_name, params, opts):
    """returns a result dict"""
    import importlib
    t0 = time.time()
    m = importlib.import_module(harness)
    fn = getattr(m, fn_name)
    eng = core.Engine(max_decisions=opts.get('max_decisions', 20000),
                      concretize_limit=opts.get('concretize_limit', 48))
    core.set_engine(eng)
    rt.FUNCS.clear()
    deadline = t0 + opts['budget_s']
    replay = Replayer(harness)
    snap = snapshot(['hwp5', 'harness'])
    res = dict(harness=harness, fn=fn_name, params=params, paths=0, ok=0,
               stopped=0, incomplete=[], n_incomplete=0, violations=[],
               spurious=[],
               covers=[], validated=0, mismatches=[], samples=[],
               complete=False)
    covers = set()
    pending = []
    labels_seen = {}
    max_viol = opts.get('max_violations', 2)

    def on_violation(label, values, info):
        pending.append((label, values, 'check'))

    eng.on_violation = on_violation
    max_replays = opts.get('max_replays', 150)
    stop = False
    first = True
    while not stop:
        restore_quiet(snap)
        rt.reset_path()
        eng.begin()
        eng.deadline = deadline
        c = ctx.Symbolic(eng, params)
        outcome = 'ok'
        detail = None
        try:
            fn(c, params)
        except PathStop:
            outcome = 'stop'
        except Unencodable as e:
            outcome = 'unencodable'
            detail = str(e)
            if opts.get('debug'):
                traceback.print_exc()
        except BudgetExceeded as e:
            outcome = 'budget'
            detail = str(e)
        except RecursionError as e:
            outcome = 'unencodable'
            detail = 'recursion'
        except MemoryError:
            outcome = 'budget'
            detail = 'memory'
        except (KeyboardInterrupt,):
            raise
        except BaseException as e:
            outcome = 'exception'
            try:
                msg = str(e)
            except BaseException:
                msg = '<symbolic>'
            detail = '%s: %s' % (type(e).__name__, msg[:200])
            if opts.get('debug'):
                traceback.print_exc()
        eng.deadline = None
        res['paths'] += 1
        over_time = time.time() > deadline
        # --- violations asserted on this path
        for label, values, kind in pending:
            if labels_seen.get(label, 0) >= max_viol:
                continue
            r = replay(fn_name, params, values)
            if r['outcome'] in ('check', 'exception', 'resources'):
                labels_seen[label] = labels_seen.get(label, 0) + 1
                res['violations'].append(dict(
                    label=r.get('label') or label, symbolic_label=label,
                    values=values, replay=r))
            else:
                if eng.path_incomplete is None and outcome == 'ok' or \
                        outcome == 'stop':
                    res['spurious'].append(dict(label=label, values=values,
                                                replay=r))
                else:
                    res['spurious'].append(dict(label=label, values=values,
                                                replay=r))
        del pending[:]
        covers |= c.covers
        if outcome == 'stop':
            res['stopped'] += 1
        elif not (outcome == 'budget' and over_time and eng.model is None):
            values = None
            try:
                model = eng.get_model()
                values = eng.values(model)
            except PathStop:
                values = None
            if values is not None:
                must = outcome != 'ok'
                if must and len(res['incomplete']) >= 60:
                    must = False
                if must or (res['validated'] < max_replays):
                    r = replay(fn_name, params, values)
                    if outcome == 'ok':
                        res['validated'] += 1
                        obs = [[k, ctx.canon(v, model)]
                               for k, v in c.observed]
                        if r['outcome'] in ('exception', 'resources',
                                            'check'):
                            # the encoding missed a failure: report it, the
                            # real code fails
                            res['violations'].append(dict(
                                label=r.get('label'), symbolic_label=None,
                                values=values, replay=r))
                        elif r['outcome'] != 'ok' or not _obs_eq(
                                obs, r['observed']) or \
                                set(r['covers']) != c.covers:
                            res['mismatches'].append(dict(
                                values=values, symbolic=obs,
                                replay=r, covers=sorted(c.covers)))
                        elif len(res['samples']) < 2:
                            res['samples'].append(dict(values=values))
                    elif r['outcome'] in ('exception', 'resources',
                                          'check'):
                        lab = r.get('label')
                        if labels_seen.get(lab, 0) < max_viol:
                            labels_seen[lab] = labels_seen.get(lab, 0) + 1
                            res['violations'].append(dict(
                                label=lab, symbolic_label=detail,
                                values=values, replay=r))
                    else:
                        covers |= set(r['covers'])
            if outcome == 'ok':
                res['ok'] += 1
            elif not (outcome == 'exception' and values is not None and
                      res['violations'] and
                      res['violations'][-1]['values'] == values):
                res['n_incomplete'] += 1
                if len(res['incomplete']) < 60:
                    res['incomplete'].append('%s: %s' % (outcome, detail))
        elif outcome == 'budget':
            res['n_incomplete'] += 1
            res['incomplete'].append('time')
        if eng.path_incomplete and outcome == 'ok':
            res['n_incomplete'] += 1
            res['incomplete'].append(eng.path_incomplete)
        if sum(labels_seen.values()) >= 3 * max_viol or \
                len(res['violations']) >= 6:
            break
        if over_time or time.time() > deadline:
            if eng.backtrack():
                res['n_incomplete'] += 1
                res['incomplete'].append('time budget')
                break
            res['complete'] = res['n_incomplete'] == 0
            break
        if res['paths'] >= opts.get('max_paths', 1000000):
            if eng.backtrack():
                res['n_incomplete'] += 1
                res['incomplete'].append('path budget')
                break
            res['complete'] = res['n_incomplete'] == 0
            break
        if not eng.backtrack():
            res['complete'] = res['n_incomplete'] == 0
            break
    replay.close()
    restore_quiet(snap)
    st = eng.stats
    res.update(covers=sorted(covers), decisions=st.decisions,
               queries=st.queries, solver_s=round(st.solver_s, 3),
               checks=st.checks, checks_const=st.checks_const,
               unknown=st.unknown, replays=replay.n,
               replay_s=round(replay.t, 2),
               functions=sorted(rt.FUNCS), wall_s=round(time.time() - t0, 2))
    return res


def _obs_eq(a, b):
    if a == b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_obs_eq(x, y) for x, y in zip(a, b))
    return a == '<opaque>' or b == '<opaque>'
