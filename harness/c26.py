# -*- coding: utf-8 -*-
"""Temporary files and the programs what is written passes through."""
import errno
import io
import logging
import os
import sys

from . import c25
from .c18 import Modules
from .world import CWD, Fault, File, Pipe, TMP, World

PRELOAD = ['hwp5.utils', 'hwp5.plat', 'hwp5.plat._lxml', 'hwp5.plat.xmllint',
           'hwp5.plat.xsltproc', 'hwp5.transforms', 'hwp5.hwp5proc',
           'hwp5.hwp5html', 'hwp5.hwp5odt', 'hwp5.importhelper',
           'hwp5.xmlmodel', 'hwp5.errors', 'hwp5.cli',
           'hwp5.storage.ole', 'hwp5.plat.olefileio', 'hwp5.dataio']

COVERS = {
    'temps': ['ok', 'fault', 'raised'],
    'validated': ['valid', 'invalid', 'fault', 'raised'],
    'cascade': ['ok', 'raised'],
    'program': ['ok', 'broken', 'missing', 'raised'],
    'linting': ['valid', 'invalid', 'raised'],
    'decrypt': ['ok', 'failed', 'fault'],
    'processor': ['ok', 'failed'],
    'lxslt': ['ok', 'fault'],
    'terminal': ['ok'],
    'resource': ['ok', 'fault'],
}
BOUNDS = {
    'quick': 'up to 3 writes of 2 arbitrary bytes, up to 3 filters, a failure '
             'at any operation or of what is done meanwhile, pipes which '
             'break at any write, any exit status, every choice of options '
             'of the commands on a terminal and not',
}
BOUNDS['thorough'] = BOUNDS['quick'].replace('3 writes', '5 writes')\
    .replace('3 filters', '5 filters')
OUTSIDE = 'the programs (stand-ins: functions from their input to their '\
    'output and exit status), lxml, pygments; failures of removing a '\
    'temporary file, which are logged'
ASSUMPTIONS = ['a broken pipe raises EPIPE at a write or at closing']


class Own(Exception):
    pass


def tasks(tier):
    q = tier == 'quick'
    n = 3 if q else 5
    out = []
    for kind in ('mkstemp', 'mkstemp text', 'make_temp'):
        out.append(dict(fn='temps', params={'kind': kind, 'n': n}))
    out.append(dict(fn='resource', params={}))
    out.append(dict(fn='validated', params={'n': n}))
    for k in range(n + 1):
        out.append(dict(fn='cascade', params={'k': k}))
    out.append(dict(fn='program', params={'n': n}))
    out.append(dict(fn='linting', params={'n': n}))
    out.append(dict(fn='decrypt', params={}))
    out.append(dict(fn='processor', params={}))
    out.append(dict(fn='lxslt', params={}))
    for c in sorted(TERMINAL):
        out.append(dict(fn='terminal', params={'cmd': c}))
    return out


class Sinkf(object):
    """where things are written to"""

    def __init__(self, sx):
        self.sx = sx
        self.parts = []
        self.closed = False

    def write(self, data):
        if not self.sx.is_bytes(data):
            raise TypeError('bytes')
        self.parts.append(data)
        return len(data)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        self.closed = True


def join(parts):
    out = b''
    for x in parts:
        out = out + x
    return out


def writes(sx, n, text=False):
    k = sx.choice('writes', list(range(n + 1)))
    if text:
        return [sx.text('w%d' % i, 2, 0x20, 0x7e) for i in range(k)]
    return [sx.bytes('w%d' % i, 2) for i in range(k)]


def temps(sx, p):
    """the file is there meanwhile and gone after"""
    u = sx.mod('hwp5.utils')
    world = World(sx, sx.int('fail', 0, 40))
    kind = p['kind']
    ws = writes(sx, p['n'], kind == 'mkstemp text')
    stop = sx.choice('raise', [False, True])
    seen = []
    other = CWD + '/other'
    world.files[other] = b'x'
    with world:
        try:
            if kind == 'make_temp':
                with u.make_temp_file() as f:
                    path = f.name
                    for w in ws:
                        f.write(w)
                    f.seek(0)
                    seen.append((path in world.files, f.read()))
                    if stop:
                        raise Own()
            else:
                kw = dict(text=True) if 'text' in kind else {}
                suffix = sx.choice('suffix', ['', '.xml'])
                with u.mkstemp_open(suffix, 'pre', **kw) as (path, f):
                    sx.check(path.endswith(suffix), 'name')
                    for w in ws:
                        f.write(w)
                    f.seek(0)
                    seen.append((path in world.files and path == f.path,
                                 f.read()))
                    if stop:
                        raise Own()
            how = 'ok'
        except Own:
            how = 'raised'
        except Fault:
            how = 'fault'
    if how == 'fault':
        sx.check(world.failed is not None, 'no failure is made up')
    else:
        sx.check(world.failed in (None, 'close', 'unlink'),
                 'failures are reported')
        sx.check(how == ('raised' if stop else 'ok'), 'exceptions')
        sx.check(len(seen) == 1 and seen[0][0], 'the file is there')
        want = u'' if kind == 'mkstemp text' else b''
        for w in ws:
            want = want + w
        sx.check(sx.eq(seen[0][1], want), 'content')
    sx.check(world.files.get(other) == b'x', 'other files are left alone')
    world.clean(sx)
    sx.cover(how)


def resource(sx, p):
    """a resource which is no file is there as one meanwhile"""
    u = sx.mod('hwp5.utils')
    world = World(sx, sx.int('fail', 0, 20))
    data = sx.bytes('data', 3)
    direct = sx.choice('direct', [False, True])
    name = 'xsl/a.xsl'
    mods = Modules()
    streams = []

    def filename(pkg, path):
        if (pkg, path) != ('hwp5', name):
            raise ValueError(path)
        if not direct:
            raise NotImplementedError()
        return '/res/' + path

    def stream(pkg, path):
        if (pkg, path) != ('hwp5', name):
            raise ValueError(path)
        streams.append(c25.Handle(data))
        return streams[-1]
    stop = sx.choice('raise', [False, True])
    try:
        mods.module('pkg_resources', resource_filename=filename,
                    resource_stream=stream)
        with world:
            try:
                with u.hwp5_resources_path(name) as path:
                    if direct:
                        sx.check(path == '/res/' + name, 'path')
                    else:
                        sx.check(sx.eq(world.files[path], data), 'content')
                    if stop:
                        raise Own()
                how = 'ok'
            except Own:
                how = 'raised'
            except Fault:
                how = 'fault'
    finally:
        mods.restore()
    if how == 'fault':
        sx.check(world.failed is not None, 'no failure is made up')
    else:
        sx.check(how == ('raised' if stop else 'ok'), 'exceptions')
    sx.check(all(s.closed for s in streams) or world.failed, 'closed')
    sx.check(not (direct and world.temps), 'no temporary file')
    world.clean(sx)
    sx.cover('fault' if how == 'fault' else 'ok')


class Etree(object):
    """a stand-in for lxml"""

    def __init__(self, sx, world, valid):
        self.sx = sx
        self.seen = []
        self.params = []
        e = self

        class RelaxNG(object):

            error_log = ['an error']

            def __init__(self, doc):
                sx.check(sx.eq(doc, b'schema'), 'schema')

            def validate(self, doc):
                e.seen.append(doc)
                return valid

            __call__ = validate

        class XSLT(object):

            def __init__(self, doc):
                sx.check(sx.eq(doc, b'sheet'), 'stylesheet')

            def __call__(self, doc, **params):
                e.params.append(params)
                e.seen.append(doc)
                return b'<' + doc + b'>'

            @staticmethod
            def strparam(x):
                return ('str', x)
        self.RelaxNG = RelaxNG
        self.XSLT = XSLT
        self.XSLT.error_log = []

    def parse(self, f):
        return f.read()


def validated(sx, p):
    """only what is valid is passed on"""
    m = sx.mod('hwp5.plat._lxml')
    world = World(sx, sx.int('fail', 0, 40))
    valid = sx.choice('valid', [True, False])
    ws = writes(sx, p['n'])
    stop = sx.choice('raise', [False, True])
    world.files[CWD + '/a.rng'] = b'schema'
    out = Sinkf(sx)
    mods = Modules()
    etree = Etree(sx, world, valid)
    log = logging.getLogger('hwp5.plat._lxml')
    off = log.disabled
    try:
        log.disabled = True
        mods.module('lxml', etree=etree)
        with world:
            try:
                rng = m.relaxng_compile('a.rng')
                with rng.validating_output(out) as f:
                    for w in ws:
                        f.write(w)
                    sx.check(not out.parts, 'nothing is passed on yet')
                    if stop:
                        raise Own()
                how = 'valid'
            except Own:
                how = 'raised'
            except Fault:
                how = 'fault'
            except sx.mod('hwp5.errors').ValidationFailed:
                how = 'invalid'
    finally:
        mods.restore()
        log.disabled = off
    if how == 'fault':
        sx.check(world.failed is not None, 'no failure is made up')
    else:
        sx.check(how == ('raised' if stop else 'valid' if valid
                         else 'invalid'), 'outcome')
        sx.check(world.failed in (None, 'unlink'), 'failures are reported')
    if how == 'valid':
        sx.check(sx.eq(join(out.parts), join(ws)), 'passed on')
        sx.check(len(etree.seen) == 1 and sx.eq(etree.seen[0], join(ws)),
                 'validated')
    elif world.failed is None:
        sx.check(not out.parts, 'nothing is passed on')
    world.clean(sx)
    sx.cover(how)


def cascade(sx, p):
    """filters are applied in order, and left in reverse order"""
    u = sx.mod('hwp5.utils')
    k = p['k']
    stop = sx.choice('raise', [False, True])
    tty = sx.choice('tty', [False, True])
    which = sx.choice('which', ['cascade', 'always', 'tty'])
    log = []

    class Filter(object):

        def __init__(self, i, x):
            self.i = i
            self.x = x

        def __enter__(self):
            log.append(('enter', self.i))
            return self.x + [self.i]

        def __exit__(self, *exc):
            log.append(('exit', self.i, exc[0]))

    class Dest(list):

        def isatty(self):
            return tty

        def __add__(self, x):
            return list.__add__(self, x)

    class Opened(object):

        def __enter__(self):
            log.append(('open',))
            return Dest()

        def __exit__(self, *exc):
            log.append(('close', exc[0]))

    filters = [lambda x, i=i: Filter(i, x) for i in range(k)]
    given = list(filters)
    used = k
    if which == 'cascade':
        cm = u.cascade_contextmanager_filters(Dest(), filters)
    elif which == 'always':
        cm = u.wrap_open_dest(Opened, filters)()
    else:
        cm = u.wrap_open_dest_for_tty(Opened, filters)()
        if not tty:
            used = 0
    try:
        with cm as x:
            sx.check(list(x) == list(range(used)), 'filters apply in order')
            if stop:
                raise Own()
        raised = False
    except Own:
        raised = True
    sx.check(raised == stop, 'exceptions')
    t = Own if stop else None
    want = [('enter', i) for i in range(used)] + \
        [('exit', i, t) for i in reversed(range(used))]
    if which != 'cascade':
        want = [('open',)] + want + [('close', t)]
    sx.check(log == want, 'filters are left in reverse order')
    sx.check(filters == given, 'what is given is left alone')
    sx.cover('raised' if stop else 'ok')


class Breaking(Pipe):
    """a pipe which breaks at some write, or when it is closed"""

    at = None

    def write(self, data):
        if self.closed:
            raise ValueError('closed')
        if self.process.breaks == 'write' and len(self.process.parts) >= \
                self.process.at:
            self.process.broken = True
            raise BrokenPipeError(errno.EPIPE, 'broken')
        self.process.parts.append(data)
        return Pipe.write(self, data)

    def flush(self):
        if self.process.broken:
            raise BrokenPipeError(errno.EPIPE, 'broken')

    def close(self):
        first = not self.closed
        Pipe.close(self)
        if first and (self.process.broken or
                      self.process.breaks == 'close'):
            self.process.broken = True
            raise BrokenPipeError(errno.EPIPE, 'broken')


def program(sx, p):
    """what is written passes the program; when that ends is no error"""
    u = sx.mod('hwp5.utils')
    world = World(sx)
    ws = writes(sx, p['n'])
    status = sx.int('status', 0, 255)
    breaks = sx.choice('breaks', ['', 'write', 'close'])
    at = sx.choice('at', [0, 1]) if breaks == 'write' else 0
    missing = sx.choice('missing', [False, True])
    stop = sx.choice('raise', ['', 'own', 'io'])
    if not missing:
        world.programs['prog'] = lambda w, args, data: (
            b'(' + data + b')', status)
    made = []
    popen = world.popen

    def breaking(args, *a, **k):
        proc = popen(args, *a, **k)
        sx.check(proc.args == ['prog', '-x', 'y'], 'arguments')
        proc.breaks, proc.at, proc.parts = breaks, at, []
        proc.broken = False
        proc.stdin = Breaking(proc)
        made.append(proc)
        return proc
    world.popen = breaking
    logger = logging.getLogger('hwp5')
    off, u.logger.disabled = u.logger.disabled, True
    try:
        with world:
            out = world.open('out', 'wb')
            f = u.output_thru_subprocess(['prog', '-x', 'y'])
            try:
                with f(out) as o:
                    for w in ws:
                        o.write(w)
                    if stop:
                        raise Own() if stop == 'own' else IOError(
                            errno.ENOSPC, 'full')
                how = 'ok'
            except Own:
                how = 'own'
            except IOError as e:
                how = 'io' if e.errno == errno.ENOSPC else 'broken'
            sx.check(not out.closed, 'the output is left open')
            out.close()
    finally:
        u.logger.disabled = off
    data = world.files[CWD + '/out']
    if missing:
        sx.check(how == (stop or 'ok'), 'outcome')
        sx.check(sx.eq(data, join(ws)), 'everything is written as it is')
        sx.cover('missing')
        return
    proc, = made
    world.clean(sx)
    sx.check(proc.stdin.closed, 'the pipe is closed')
    if proc.broken:
        sx.check(how != 'broken', 'a program which ends early is no error')
        sx.cover('broken')
        return
    sx.check(how == (stop or 'ok'), 'outcome')
    sx.check(sx.eq(data, b'(' + join(ws) + b')'), 'what the program makes')
    sx.cover('raised' if stop else 'ok')


def linting(sx, p):
    """validating with a program"""
    m = sx.mod('hwp5.plat.xmllint')
    world = World(sx)
    ws = writes(sx, p['n'])
    status = sx.int('status', -15, 255)
    stop = sx.choice('raise', [False, True])
    name = sx.choice('name', ['xmllint', '/opt/xmllint'])
    seen = []

    def lint(w, args, data):
        seen.append((args, data))
        return b'(' + data + b')', status
    world.programs[name] = lint
    mods = Modules()
    mods.attr(m, 'executable', name)
    try:
        with world:
            out = world.open('out', 'wb')
            try:
                with m.relaxng_compile('a.rng').validating_output(out) as f:
                    for w in ws:
                        f.write(w)
                    if stop:
                        raise Own()
                how = 'valid'
            except Own:
                how = 'raised'
            except Exception:
                how = 'invalid'
            out.close()
            ok = m.relaxng('a.rng', 'a.xml') if not stop else None
    finally:
        mods.restore()
    if stop:
        sx.check(how == 'raised', 'exceptions')
    elif how == 'valid':
        sx.check(status == 0, 'an invalid result is reported')
        sx.check(ok, 'valid')
        sx.check(sx.eq(world.files[CWD + '/out'], b'(' + join(ws) + b')'),
                 'passed on')
    else:
        sx.check(sx.Not(status == 0), 'a valid result passes')
        sx.check(sx.Not(ok), 'invalid')
    args = seen[0][0]
    sx.check(args[0] == name and args[args.index('--relaxng') + 1] == 'a.rng'
             and args[-1] == '-', 'arguments')
    if not stop:
        args = seen[1][0]
        sx.check(args[0] == name and args[args.index('--relaxng') + 1] ==
                 'a.rng' and args[-1] == 'a.xml' and '--noout' in args,
                 'arguments')
    sx.check(sx.eq(seen[0][1], join(ws)), 'what is validated')
    world.clean(sx)
    sx.cover(how)


HEX = '0123456789abcdef'


def decrypt(sx, p):
    """decrypting with openssl"""
    plat = sx.mod('hwp5.plat')
    world = World(sx, sx.int('fail', 0, 20))
    key = sx.bytes('key', 2) + b'0123456789abcd'
    data = sx.bytes('data', 3)
    status = sx.int('status', 0, 255)
    seen = []

    def openssl(w, args, stdin):
        if args[1] == 'version':
            return b'', 0
        name = args[args.index('-in') + 1]
        d = w.files[name]
        seen.append((args, d))
        return b'(' + d + b')', status
    world.programs['openssl'] = openssl
    popen = world.popen

    def keyed(args, *a, **k):
        k_ = args[args.index('-K') + 1] if '-K' in args else None
        proc = popen([x for x in args if x is not k_], *a, **k)
        seen.append(k_)
        return proc
    world.popen = keyed
    with world:
        try:
            d = plat.get_aes128ecb_decrypt_openssl()
            got = d(key, data)
            how = 'ok'
        except Fault:
            how = 'fault'
        except NotImplementedError:
            how = 'fault'
        except Exception:
            how = 'failed'
    if how == 'fault':
        sx.check(world.failed is not None, 'no failure is made up')
    elif how == 'failed':
        sx.check(sx.Not(status == 0), 'no failure is made up')
    else:
        sx.check(status == 0, 'a failure is reported')
        sx.check(world.failed is None or world.failed in ('close', 'unlink'),
                 'a failure is reported')
        sx.check(sx.eq(got, b'(' + data + b')'), 'what openssl makes')
        (args, d), k_ = [x for x in seen if isinstance(x, tuple)][0], \
            [x for x in seen if not isinstance(x, tuple)][0]
        sx.check(sx.eq(d, data), 'what is decrypted')
        sx.check('-d' in args and '-aes-128-ecb' in args and
                 '-nopad' in args and args[1] == 'enc', 'arguments')
        want = []
        for c in sx.codepoints(key):
            for n in (c >> 4, c & 15):
                want.append(sx.ite(n < 10, n + 48, n + 87))
        if sx.is_text(k_):
            k_ = k_.encode('ascii')
        sx.check(sx.eq(k_, sx.from_bytes(want)), 'key')
    world.clean(sx)
    sx.cover(how)


def processor(sx, p):
    """transforming with xsltproc"""
    m = sx.mod('hwp5.plat.xsltproc')
    t = sx.mod('hwp5.transforms')
    world = World(sx)
    data = sx.bytes('data', 3)
    status = sx.int('status', -15, 255)
    name = sx.choice('name', ['xsltproc', '/opt/xsltproc'])
    params = sx.choice('params', [{}, {'a': 'b'}, {'a': 'b', 'c': "d'"}])
    way = sx.choice('way', ['stream', 'path', 'function', 'transform'])
    world.files[CWD + '/in.xml'] = data
    seen = []

    def proc(w, args, stdin):
        seen.append(args)
        d = w.files[w.path(args[-1])]
        if '-o' in args:
            w.files[w.path(args[args.index('-o') + 1])] = b'(' + d + b')'
            return b'', status
        return b'(' + d + b')', status
    world.programs[name] = proc
    mods = Modules()
    mods.attr(m, 'executable', name)
    path = 'a.xsl'
    raised = False
    try:
        with world:
            if way == 'function':
                params = {}
                r = m.xslt('a.xsl', 'in.xml', 'out')
            elif way == 'path':
                r = m.XSLT('a.xsl', **params).transform('in.xml', 'out')
            else:
                out = world.open('out', 'wb')
                try:
                    if way == 'stream':
                        r = m.xslt_compile('a.xsl', **params)('in.xml', out)
                    else:
                        b = t.BaseTransform(m.xslt_compile)
                        f = b.make_xsl_transform('xsl/plaintext.xsl',
                                                 **params)
                        r = {}
                        r = f('in.xml', out)
                except t.TransformFailed if hasattr(t, 'TransformFailed') \
                        else Own:
                    raised = True
                out.close()
    finally:
        mods.restore()
    if way == 'transform':
        sx.check(sx.ite(status == 0, 0, 1) == int(raised),
                 'errors are reported')
        path = None
    else:
        sx.check(sx.ite(status == 0, 0, 1) == int('errors' in r),
                 'errors are reported')
    sx.check(sx.eq(world.files[CWD + '/out'], b'(' + data + b')'), 'result')
    args, = seen
    sx.check(args[0] == name, 'program')
    sx.check(args[-1] == 'in.xml' and (
        args[-2] == path or path is None and
        args[-2].endswith('xsl/plaintext.xsl')), 'arguments')
    got = dict((args[i + 1], args[i + 2]) for i, a in enumerate(args)
               if a == '--stringparam')
    sx.check(got == params, 'parameters')
    world.clean(sx)
    sx.cover('failed' if raised or r and 'errors' in r else 'ok')


def lxslt(sx, p):
    """transforming with lxml"""
    m = sx.mod('hwp5.plat._lxml')
    world = World(sx, sx.int('fail', 0, 20))
    data = sx.bytes('data', 3)
    world.files[CWD + '/in.xml'] = data
    world.files[CWD + '/a.xsl'] = b'sheet'
    way = sx.choice('way', ['stream', 'path', 'function'])
    params = sx.choice('params', [{}, {'a': "b'"}])
    etree = Etree(sx, world, True)
    mods = Modules()
    out = Sinkf(sx)
    try:
        mods.module('lxml', etree=etree)
        with world:
            try:
                if way == 'function':
                    params = {}
                    r = m.xslt('a.xsl', 'in.xml', 'out')
                elif way == 'path':
                    r = m.XSLT('a.xsl', **params).transform('in.xml', 'out')
                else:
                    r = m.xslt_compile('a.xsl', **params)('in.xml', out)
                how = 'ok'
            except Fault:
                how = 'fault'
    finally:
        mods.restore()
    if how == 'ok':
        sx.check(world.failed is None, 'failures are reported')
        got = join(out.parts) if way == 'stream' else \
            world.files[CWD + '/out']
        sx.check(sx.eq(got, b'<' + data + b'>'), 'result')
        sx.check(not r.get('errors'), 'no errors')
        sx.check(etree.params == [dict((k, ('str', v))
                                       for k, v in params.items())],
                 'parameters')
    else:
        sx.check(world.failed is not None, 'no failure is made up')
    world.clean(sx)
    sx.cover(how)


# on a terminal: the pager, highlighting, formatting
TERMINAL = {
    'xml': ['hwp5proc', 'xml', 'a.hwp'],
    'xml plain': ['hwp5proc', 'xml', '--no-validate-wellformed', 'a.hwp'],
    'xml out': ['hwp5proc', 'xml', '--output', 'out', 'a.hwp'],
    'html': ['hwp5html', '--html', 'a.hwp'],
    'html out': ['hwp5html', '--html', '--output', 'out', 'a.hwp'],
    'css': ['hwp5html', '--css', 'a.hwp'],
    'styles': ['hwp5odt', '--styles', 'a.hwp'],
    'content': ['hwp5odt', '--content', 'a.hwp'],
    'document': ['hwp5odt', '--document', 'a.hwp'],
}


def mark(args):
    name = args[0]
    if name == 'xmllint':
        return 'xmllint' + ''.join(sorted(
            a for a in args[1:] if a in ('--c14n', '--format', '--encode')))
    return ' '.join(args)


def terminal(sx, p):
    argv = list(TERMINAL[p['cmd']])
    program = argv.pop(0)
    files, bindata, size = c25.sample(sx, symbolic=False)
    files.pop('BinData', None)
    world = World(sx)
    tty = sx.choice('tty', [True, False])
    pager = sx.choice('pager', ['', "more -'x y'"])
    pygments = sx.choice('pygments', [True, False])
    missing = sx.choice('missing', [False, True])

    def prog(w, args, data):
        return ('[%s:' % mark(args)).encode() + data + b']', 0
    for n in ('xmllint', 'less', 'more'):
        if not (missing and n == 'xmllint'):
            world.programs[n] = prog
    mods = Modules()

    def lexer(mimetype, **k):
        sx.check(k.get('encoding') == 'utf-8', 'encoding')
        return mimetype

    class Formatter(object):

        def __init__(self, **k):
            sx.check(k.get('encoding') == 'utf-8', 'encoding')

    def highlight(code, lexer, formatter, out):
        sx.check(isinstance(formatter, Formatter), 'formatter')
        if not sx.is_bytes(code):
            code = code.encode('utf-8')
        out.write(('{%s:' % lexer).encode() + code + b'}')
    try:
        if pygments:
            mods.module('pygments', highlight=highlight)
            mods.module('pygments.lexers', get_lexer_for_mimetype=lexer)
            mods.module('pygments.formatters', TerminalFormatter=Formatter)
        else:
            mods.put('pygments', None)
        old = os.environ.pop('PAGER', None)
        if pager:
            os.environ['PAGER'] = pager
        c25.COMMANDS['terminal'] = (program, argv[:-1])
        log = sx.mod('hwp5.utils').logger
        off, log.disabled = log.disabled, True
        xml = c25.xml_of(sx, files, program == 'hwp5odt' and
                         '--document' in argv)
        out = CWD + '/tty'
        world.files[out] = b''
        stdout = File(world, out, 'wb')
        stdout.tty = tty
        try:
            status, parts, opened = c25.run(
                sx, 'terminal', files, world, name=argv[-1],
                stdout=stdout)
        finally:
            log.disabled = off
            os.environ.pop('PAGER', None)
            if old is not None:
                os.environ['PAGER'] = old
    finally:
        mods.restore()
    sx.check(status == 0, 'status')
    stdout.flush()
    out = 'out' in p['cmd']
    got = world.files[CWD + '/out' if out else CWD + '/tty']
    kind = p['cmd'].split()[0]
    sheet = {'html': 'hwp5html.xsl', 'css': 'hwp5css.xsl',
             'styles': 'odt/styles.xsl', 'content': 'odt/content.xsl',
             'document': 'odt/document.xsl'}.get(kind)
    want = c25.mark(sheet, {}, xml) if sheet else xml

    def through(name):
        if not (missing and name.startswith('xmllint')):
            return ('[%s:' % name).encode() + want + b']'
        return want
    plain = p['cmd'] == 'xml plain'
    if kind == 'xml' and not plain:
        want = through('xmllint--c14n')
        want = through('xmllint--encode')
    if tty and not out:
        if kind != 'css' and not plain:
            want = through('xmllint--format')
        if pygments:
            want = b'{text/css:' + want + b'}' if kind == 'css' else \
                b'{application/xml:' + want + b'}'
        want = through('more -x y' if pager else 'less -R')
    sx.check(sx.eq(got, want), 'what is written')
    world.clean(sx, but=[stdout])
    sx.cover('ok')
