# -*- coding: utf-8 -*-
"""Concrete replay worker: real code, one forked child per replay."""
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx import shims  # noqa
from sx import ctx  # noqa

CPU_S = 20
WALL_S = 120
AS_BYTES = 3 << 30


def run(req):
    import importlib
    m = importlib.import_module(req['harness'])
    fn = getattr(m, req['fn'])
    c = ctx.Concrete(req['values'], req['params'])
    out = {}
    try:
        fn(c, req['params'])
        out['outcome'] = 'ok'
    except ctx.AssumeFailed:
        out['outcome'] = 'assume'
    except ctx.CheckFailed as e:
        out['outcome'] = 'check'
        out['label'] = str(e)
    except MemoryError:
        out['outcome'] = 'resources'
        out['label'] = 'MemoryError'
    except RecursionError:
        out['outcome'] = 'exception'
        out['label'] = 'RecursionError'
    except Exception as e:
        out['outcome'] = 'exception'
        try:
            s = str(e)
        except Exception:
            s = '?'
        out['label'] = '%s: %s' % (type(e).__name__, s[:300])
        out['tb'] = traceback.format_exc()[-1500:]
    except SystemExit as e:
        out['outcome'] = 'exception'
        out['label'] = 'SystemExit'
    out['covers'] = sorted(c.covers)
    try:
        out['observed'] = [[k, ctx.canon(v)] for k, v in c.observed]
    except Exception as e:
        out['observed'] = ['<error %s>' % e]
    return out


def child(req, w):
    resource.setrlimit(resource.RLIMIT_AS, (AS_BYTES, AS_BYTES))
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    out = run(req)
    try:
        data = json.dumps(out).encode('utf-8')
    except Exception as e:
        data = json.dumps({'outcome': 'exception', 'covers': [],
                           'observed': [],
                           'label': 'unserialisable %s' % e}).encode()
    with os.fdopen(w, 'wb') as f:
        f.write(data)
    os._exit(0)


def handle(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            child(req, w)
        finally:
            os._exit(3)
    os.close(w)
    data = b''
    end = time.time() + WALL_S
    import select
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        rr, _, _ = select.select([r], [], [], left)
        if not rr:
            timed_out = True
            break
        chunk = os.read(r, 65536)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if data:
        try:
            return json.loads(data.decode('utf-8'))
        except ValueError:
            pass
    return {'outcome': 'resources', 'covers': [], 'observed': [],
            'label': 'did not finish (status %d%s)' % (
                status, ', wall time' if timed_out else '')}


def main():
    shims.setup_paths(True)
    out = os.fdopen(os.dup(1), 'w')
    import importlib
    import logging
    logging.disable(logging.CRITICAL)
    for name in sys.argv[1:]:
        m = importlib.import_module(name)
        for dep in getattr(m, 'PRELOAD', ()):
            importlib.import_module(dep)
    for line in sys.stdin:
        req = json.loads(line)
        out.write(json.dumps(handle(req)) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
