# -*- coding: utf-8 -*-
"""What does the work is what is there and what is asked for."""
import logging
import os
import subprocess

from . import c25
from .c18 import Modules
from .c26 import Etree, Sinkf, join
from .world import CWD, File, TMP, World

PRELOAD = c25.PRELOAD + ['hwp5.plat.xsltproc', 'hwp5.plat.xmllint',
                         'hwp5.plat._uno', 'hwp5.plat.gir_gsf',
                         'hwp5.plat.javax_transform',
                         'hwp5.plat.jython_poifs', 'hwp5.distdoc']

COVERS = {
    'select': ['some', 'none'],
    'cipher': ['some', 'none'],
    'reachable': ['yes', 'no'],
    'forced': ['ok'],
    'uno': ['ok'],
    'logs': ['ok'],
    'olefile': ['ok', 'not ole', 'none'],
    'programs': ['done', 'none'],
}
BOUNDS = {
    'quick': 'every set of modules and programs that are there, every '
             'setting of the environment variables among some values, every '
             'converter',
}
BOUNDS['thorough'] = BOUNDS['quick']
OUTSIDE = 'the libraries and programs (stand-ins); Jython'
ASSUMPTIONS = ['a module that is not there raises ImportError']


def tasks(tier):
    out = []
    for kind in sorted(KINDS):
        out.append(dict(fn='select', params={'kind': kind}))
    out.append(dict(fn='cipher', params={}))
    out.append(dict(fn='reachable', params={'program': 'xsltproc'}))
    out.append(dict(fn='reachable', params={'program': 'xmllint'}))
    out.append(dict(fn='reachable', params={'program': 'openssl'}))
    out.append(dict(fn='forced', params={}))
    out.append(dict(fn='uno', params={}))
    out.append(dict(fn='logs', params={}))
    out.append(dict(fn='olefile', params={}))
    for c in ('txt', 'txt-out', 'html-out', 'html-css', 'odt-out',
              'odt-document-out'):
        out.append(dict(fn='programs', params={'cmd': c}))
    return out


# what is asked for, of which modules, the best one first
KINDS = {
    'get_xslt': ['javax_transform', '_lxml', 'xsltproc', '_uno'],
    'get_xslt_compile': ['javax_transform', '_lxml', 'xsltproc', '_uno'],
    'get_relaxng': ['_lxml', 'xmllint'],
    'get_relaxng_compile': ['_lxml', 'xmllint'],
    'get_olestorage_class': ['jython_poifs', 'olefileio', '_uno', 'gir_gsf'],
}
WHAT = {'get_xslt': 'xslt', 'get_xslt_compile': 'xslt_compile',
        'get_relaxng': 'relaxng', 'get_relaxng_compile': 'relaxng_compile',
        'get_olestorage_class': 'OleStorage'}


def select(sx, p):
    """the first that is there is used"""
    plat = sx.mod('hwp5.plat')
    kind = p['kind']
    mods = Modules()
    on = {}
    names = set(x for v in KINDS.values() for x in v)
    try:
        for n in sorted(names):
            m = sx.mod('hwp5.plat.' + n)
            if n in KINDS[kind]:
                on[n] = sx.bool('on ' + n)
            else:
                on[n] = True
            mods.attr(m, 'is_enabled', lambda n=n: on[n])
        got = getattr(plat, kind)()
        want = [n for n in KINDS[kind] if on[n]]
        if not want:
            sx.check(got is None, 'nothing is there')
            sx.cover('none')
            return
        m = sx.mod('hwp5.plat.' + want[0])
        what = getattr(m, WHAT[kind], None)
        if what is None:
            sx.check(callable(got), 'what is there is used')
        else:
            sx.check(got is what, 'what is there is used')
        sx.cover('some')
    finally:
        mods.restore()


def uno(sx, p):
    """compiling for modules which transform files only"""
    plat = sx.mod('hwp5.plat')
    m = sx.mod('hwp5.plat._uno')
    mods = Modules()
    world = World(sx)
    data = sx.bytes('data', 3)
    errors = sx.choice('errors', [False, True])
    world.files[CWD + '/in'] = data
    seen = []

    def xslt(xsl, inp, out):
        seen.append(xsl)
        f = world.open(out, 'wb')
        f.write(b'(' + world.files[world.path(inp)] + b')')
        f.close()
        return dict(errors=[]) if errors else dict()
    try:
        for n in KINDS['get_xslt']:
            mods.attr(sx.mod('hwp5.plat.' + n), 'is_enabled',
                      lambda n=n: n == '_uno')
        mods.attr(m, 'xslt', xslt)
        out = Sinkf(sx)
        with world:
            r = plat.get_xslt_compile()('a.xsl')('in', out)
    finally:
        mods.restore()
    sx.check(seen == ['a.xsl'], 'stylesheet')
    sx.check(sx.eq(join(out.parts), b'(' + data + b')'), 'result')
    sx.check(('errors' in r) == errors, 'errors are reported')
    world.clean(sx)
    sx.cover('ok')


def cipher(sx, p):
    """the first cipher that is there is used"""
    plat = sx.mod('hwp5.plat')
    mods = Modules()
    names = ['cryptography', 'javax', 'openssl']
    on = dict((n, sx.choice(n, ['there', 'missing', 'broken']))
              for n in names)

    def made(n):
        def get():
            if on[n] == 'missing':
                raise ImportError(n)
            if on[n] == 'broken':
                raise NotImplementedError(n)
            return n
        return get
    try:
        for n in names:
            mods.attr(plat, 'get_aes128ecb_decrypt_' + n, made(n))
        want = [n for n in names if on[n] == 'there']
        try:
            got = plat.get_aes128ecb_decrypt()
        except NotImplementedError:
            got = None
    finally:
        mods.restore()
    sx.check(got == (want[0] if want else None), 'what is there is used')
    sx.cover('some' if want else 'none')


def reachable(sx, p):
    """programs are there if they run"""
    name = p['program']
    m = sx.mod('hwp5.plat' if name == 'openssl' else 'hwp5.plat.' + name)
    how = sx.choice('how', ['there', 'missing', 'failing', 'else'])
    exe = name if name == 'openssl' else \
        sx.choice('executable', [name, '/opt/x'])
    asked = []
    mods = Modules()

    def run(args, *a, **k):
        asked.append(list(args))
        if how == 'missing':
            raise OSError(args[0])
        if how == 'failing':
            raise subprocess.CalledProcessError(1, args)
        if how == 'else':
            raise ValueError()
        return b''
    logger = m.logger
    off, logger.disabled = logger.disabled, True
    try:
        mods.attr(subprocess, 'check_output', run)
        if name == 'openssl':
            got = m.openssl_reachable()
        else:
            mods.attr(m, 'executable', exe)
            mods.attr(m, 'enabled', None)
            got = m.is_enabled()
            sx.check(m.is_enabled() == got, 'asked again')
            m.disable()
            sx.check(not m.is_enabled(), 'switched off')
            m.enable()
            sx.check(m.is_enabled(), 'switched on')
    finally:
        mods.restore()
        logger.disabled = off
    sx.check(bool(got) == (how == 'there'), 'whether it is there')
    sx.check(asked and all(x[0] == exe for x in asked), 'program')
    sx.cover('yes' if got else 'no')


def forced(sx, p):
    """UNO is used if it is set up, or as the environment says"""
    m = sx.mod('hwp5.plat._uno')
    env = sx.choice('env', [None, '0', '1', ' 1 ', '', 'x', '2'])
    on = sx.bool('enabled')
    mods = Modules()
    old = os.environ.pop('PYHWP_PLAT_UNO', None)
    off, m.logger.disabled = m.logger.disabled, True
    try:
        if env is not None:
            os.environ['PYHWP_PLAT_UNO'] = env
        mods.attr(m, 'enabled', on)
        got = m.is_enabled()
    finally:
        m.logger.disabled = off
        mods.restore()
        os.environ.pop('PYHWP_PLAT_UNO', None)
        if old is not None:
            os.environ['PYHWP_PLAT_UNO'] = old
    try:
        want = bool(int(env))
    except (TypeError, ValueError):
        want = on
    sx.check(sx.ite(got, 1, 0) == sx.ite(want, 1, 0), 'whether it is used')
    sx.cover('ok')


LEVELS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40,
          'critical': 50}


class Args(object):

    def __init__(self, **k):
        self.__dict__.update(k)


def logs(sx, p):
    """what is logged, and where, is as the options say, or the
    environment"""
    cli = sx.mod('hwp5.cli')
    values = [None, '', 'debug', 'INFO', 'Warning', 'error', 'critical', 'x']
    a = sx.choice('option', values)
    b = sx.choice('environ', values)
    fa = sx.choice('file option', [None, 'a.log'])
    fb = sx.choice('file environ', [None, 'b.log'])
    color = sx.choice('color', [False, True])
    log = logging.getLogger('hwp5')
    old = log.level, list(log.handlers)
    env = dict(os.environ)
    made = []
    mods = Modules()

    class Handler(logging.Handler):

        def __init__(self, *a, **k):
            logging.Handler.__init__(self)
            made.append((type(self).__name__, a))

    class Stream(Handler):
        pass

    class File(Handler):
        pass
    try:
        for k, v in (('PYHWP_LOGLEVEL', b), ('PYHWP_LOGFILE', fb)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        mods.attr(logging, 'StreamHandler', Stream)
        mods.attr(logging, 'FileHandler', File)
        if color:
            mods.module('colorlog', ColoredFormatter=lambda *a, **k: None)
        else:
            mods.put('colorlog', None)
        log.setLevel(7)
        log.handlers[:] = []
        cli.init_logger(Args(loglevel=a, logfile=fa))
        got = log.level
        handlers = list(log.handlers)
    finally:
        mods.restore()
        log.setLevel(old[0])
        log.handlers[:] = old[1]
        os.environ.clear()
        os.environ.update(env)
    level = a or b
    sx.check(got == (LEVELS.get(level.lower(), 30) if level else 7), 'level')
    f = fa or fb
    sx.check(made == [('File', (f,)) if f else ('Stream', ())], 'where')
    sx.check(len(handlers) == 1, 'one handler')
    sx.cover('ok')




def olefile(sx, p):
    """compound files are opened with what is there"""
    m = sx.mod('hwp5.plat.olefileio')
    new = sx.choice('olefile', [True, False])
    old = sx.choice('OleFileIO_PL', [True, False])
    ole = sx.choice('ole', [True, False])
    mods = Modules()
    used = []

    def module(name):
        mods.module(name, isOleFile=lambda f: (used.append(name), ole)[1],
                    OleFileIO=lambda f: (name, f))
    try:
        for n, there in (('olefile', new), ('OleFileIO_PL', old)):
            if there:
                module(n)
            else:
                mods.put(n, None)
        sx.check(m.is_enabled() == (new or old), 'whether it is there')
        if not (new or old):
            sx.cover('none')
            return
        try:
            s = m.OleStorage('a.hwp')
        except sx.mod('hwp5.errors').InvalidOleStorageError:
            sx.check(not ole, 'no compound file')
            sx.cover('not ole')
            return
    finally:
        mods.restore()
    sx.check(ole, 'a compound file')
    n = 'olefile' if new else 'OleFileIO_PL'
    sx.check(s.olefile == (n, 'a.hwp') and used == [n], 'what is used')
    sx.cover('ok')


def programs(sx, p):
    """the converters with the programs, where lxml is not there"""
    cmd = p['cmd']
    program, argv = c25.COMMANDS[cmd]
    files, bindata, size = c25.sample(sx, symbolic=False)
    lxml = sx.choice('lxml', [False, True])
    env = sx.choice('env', ['', 'both', 'xslt', 'lint'])
    there = sx.choice('there', ['both', 'none', 'xsltproc', 'xmllint'])
    status = sx.int('status', 0, 255)
    valid = sx.choice('valid', [True, False])
    xml = c25.xml_of(sx, files, c25.embeds(argv))
    world = World(sx)
    xslt = '/opt/x p' if env in ('both', 'xslt') else 'xsltproc'
    lint = '/opt/lint' if env in ('both', 'lint') else 'xmllint'

    def proc(w, args, stdin):
        path = args[-2]
        name = path[path.rindex('/xsl/') + 5:]
        return c25.mark(name, {}, w.files[w.path(args[-1])]), status

    def validator(w, args, data):
        return b'valid:' + data, 0 if valid else 3
    if there in ('both', 'xsltproc'):
        world.programs[xslt] = proc
    if there in ('both', 'xmllint'):
        world.programs[lint] = validator
    mods = Modules()
    saved = dict(os.environ)
    ms = [sx.mod('hwp5.plat.xsltproc'), sx.mod('hwp5.plat.xmllint')]
    state = [(m.executable, m.enabled) for m in ms]
    etree = Etree(sx, world, valid)
    if lxml:
        # a stylesheet processor of its own
        class XSLT(object):

            def __init__(self, doc):
                self.name = doc

            def __call__(self, doc, **params):
                return c25.mark(self.name, {}, doc)

        class RelaxNG(object):

            error_log = []

            def __init__(self, doc):
                pass

            def validate(self, doc):
                return valid

        def parse(f):
            n = getattr(f, 'name', '')
            if '/xsl/' in n:
                return n[n.rindex('/xsl/') + 5:]
            return f.read()
        XSLT.strparam = etree.XSLT.strparam
        etree.XSLT, etree.RelaxNG, etree.parse = XSLT, RelaxNG, parse
    try:
        for m in ms:
            m.enabled = None
        for k in ('PYHWP_XSLTPROC', 'PYHWP_XMLLINT'):
            os.environ.pop(k, None)
        if env in ('both', 'xslt'):
            os.environ['PYHWP_XSLTPROC'] = xslt
        if env in ('both', 'lint'):
            os.environ['PYHWP_XMLLINT'] = lint
        if lxml:
            mods.module('lxml', etree=etree)
        else:
            mods.put('lxml', None)
        world.files[TMP + '/stdout'] = b''
        stdout = File(world, TMP + '/stdout', 'wb')
        st, out, opened = c25.run(sx, cmd, files, world, real=True,
                                  ok=Exception, stdout=stdout)
        stdout.flush()
        out = [world.files[TMP + '/stdout']]
        if len(out[0]) == 0:
            out = []
    finally:
        mods.restore()
        for m, (a, b) in zip(ms, state):
            m.executable, m.enabled = a, b
        os.environ.clear()
        os.environ.update(saved)
    validates = (lxml or there in ('both', 'xmllint')) and \
        program == 'hwp5odt'
    # an explicitly named program is relied upon
    broken = not lxml and there in ('none', 'xsltproc') and \
        env in ('both', 'lint') and program == 'hwp5odt'
    works = (lxml or there in ('both', 'xsltproc')) and not broken and \
        (valid or not validates)
    if st == 0:
        sx.check(works, 'a failure is reported')
        if not lxml:
            sx.check(status == 0, 'a failure is reported')
        if lxml:
            # validated as it is
            v = 0
        else:
            v = int(validates)
        verify(sx, cmd, world, out, xml, bindata, v)
        sx.cover('done')
    else:
        if works and not lxml:
            sx.check(sx.Not(status == 0), 'no failure is made up')
        else:
            sx.check(not works, 'no failure is made up')
        sx.cover('none')
    world.clean(sx, but=[stdout])


def verify(sx, cmd, world, out, xml, bindata, valid):
    c25.verify(sx, cmd, world, out, xml, bindata, valid)
