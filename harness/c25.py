# -*- coding: utf-8 -*-
"""The converters write all of a conversion where it is asked for, or fail."""
import io
import logging
import posixpath
import sys
from xml.etree import ElementTree

from . import c21
from .c18 import Modules
from .c23 import Sink, files_of
from .docmodel import Doc
from .world import CWD, Fault, World

PRELOAD = ['hwp5.hwp5txt', 'hwp5.hwp5html', 'hwp5.hwp5odt', 'hwp5.xmlmodel',
           'hwp5.transforms', 'hwp5.plat', 'hwp5.plat._lxml',
           'hwp5.storage.ole', 'hwp5.plat.olefileio', 'hwp5.utils',
           'hwp5.cli', 'hwp5.dataio', 'hwp5.errors', 'hwp5.storage']

COVERS = {
    'convert': ['ok'],
    'faults': ['failed', 'complete'],
    'damaged': ['damaged', 'whole'],
    'unusable': ['ok'],
    'package': ['ok'],
    'manifest': ['ok'],
}
BOUNDS = {
    'quick': 'every option of the three converters, a document with up to '
             'two embedded files of arbitrary content, stored in storages '
             'nested or not; a failure at any call to the system, the '
             'stylesheet processor or the validator; a stream cut at any '
             'place; files which are no documents; archives of up to 3 '
             'files of arbitrary content, whose names need escapes or not',
}
BOUNDS['thorough'] = BOUNDS['quick']\
    .replace('up to 3 ', 'up to 4 ')
OUTSIDE = 'what the stylesheets make of a document (C28..C30); the zip '\
    'format; outputs which exist and cannot be replaced'
ASSUMPTIONS = ['files, archives, olefile, the stylesheet processor and the '
               'validator are replaced by stand-ins']

COMMANDS = {
    'txt': ('hwp5txt', []),
    'txt-out': ('hwp5txt', ['--output', 'out.txt']),
    'html': ('hwp5html', []),
    'html-out': ('hwp5html', ['--output', 'out']),
    'html-css': ('hwp5html', ['--css']),
    'html-css-out': ('hwp5html', ['--css', '--output', 'x.css']),
    'html-html': ('hwp5html', ['--html']),
    'html-html-out': ('hwp5html', ['--html', '--output', 'x.html']),
    'odt': ('hwp5odt', []),
    'odt-out': ('hwp5odt', ['--output', 'x.odt']),
    'odt-embed': ('hwp5odt', ['--embed-image']),
    'odt-noembed': ('hwp5odt', ['--no-embed-image']),
    'odt-styles': ('hwp5odt', ['--styles']),
    'odt-styles-out': ('hwp5odt', ['--styles', '--output', 'x.xml']),
    'odt-content': ('hwp5odt', ['--content', '--embed-image']),
    'odt-content-out': ('hwp5odt', ['--content', '--output', 'x.xml']),
    'odt-document': ('hwp5odt', ['--document']),
    'odt-document-out': ('hwp5odt', ['--document', '--output', 'x.fodt']),
    'odt-document-no': ('hwp5odt', ['--document', '--no-embed-image',
                                    '--output', 'x.fodt']),
}
FAULTS = ['txt', 'txt-out', 'html-out', 'html-css-out', 'odt-out',
          'odt-document-out', 'odt-styles']


def tasks(tier):
    out = []
    for c in sorted(COMMANDS):
        for v in (0, 1):
            out.append(dict(fn='convert', params={'cmd': c, 'valid': v}))
        out.append(dict(fn='damaged', params={'cmd': c}))
        out.append(dict(fn='unusable', params={'cmd': c}))
    for c in FAULTS:
        for v in (0, 1) if 'odt' in c else (0,):
            out.append(dict(fn='faults', params={'cmd': c, 'valid': v}))
    for n in range(4 if tier == 'quick' else 5):
        out.append(dict(fn='package', params={'n': n}))
    out.append(dict(fn='manifest', params={}))
    return out


class Ole(c21.Ole):
    """the handles of what is in it are kept"""

    def __init__(self, tree, opened):
        self.tree = tree
        self.opened = opened
        self.closed = False
        opened.append(self)

    def openstream(self, path):
        segs = path if isinstance(path, list) else path.split('/')
        f = io.BytesIO(self._find(path)) if not self.opened[0].sx.is_sym(
            self._find(path)) else Handle(self._find(path))
        self.opened[0].streams.append((segs, f))
        return f

    def close(self):
        self.closed = True


class Handle(object):

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError('closed')
        d = self.data[self.pos:] if n is None or n < 0 else \
            self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Opened(object):

    def __init__(self, sx):
        self.sx = sx
        self.streams = []


class Stdout(object):

    def __init__(self, sx, tty=False):
        self.sx = sx
        self.parts = []
        self.tty = tty
        self.buffer = Bin(self)

    def write(self, s):
        raise TypeError('bytes are written')

    def flush(self):
        pass

    def isatty(self):
        return self.tty


class Bin(object):

    def __init__(self, out):
        self.out = out
        self.closed = False

    def write(self, data):
        if not self.out.sx.is_bytes(data):
            raise TypeError('bytes are written')
        self.out.parts.append(data)
        return len(data)

    def flush(self):
        pass

    def isatty(self):
        return self.out.tty

    def close(self):
        self.closed = True


class Invalid(Exception):
    pass


class Xslt(object):
    """compiled stylesheets: what they write names them and holds what they
    read"""

    def __init__(self, world):
        self.world = world
        # whether it reports errors
        self.errors = getattr(world, 'xslt_errors', False)

    def compile(self, path, **params):
        self.world.tick('compile')
        if not path.endswith('.xsl'):
            raise ValueError(path)
        path = path.replace('\\', '/')
        name = path[path.rindex('/xsl/') + 5:]

        def transform(inp, out):
            self.world.tick('transform')
            f = self.world.open(inp, 'rb')
            try:
                data = f.read()
            finally:
                f.close()
            out.write(mark(name, params, data))
            return dict(errors=[]) if self.errors else dict()
        return transform


def mark(name, params, data):
    return ('<%s%s>' % (name, sorted(params.items()) or '')).encode() + data


class Rng(object):
    """a validator: what passed it is marked"""

    def __init__(self, world, ok=True):
        self.world = world
        self.ok = ok

    def compile(self, path):
        self.world.tick('compile')
        sx = self.world.sx
        sx.check(path.replace('\\', '/').endswith(
            'odf-relaxng/OpenDocument-v1.2-os-schema.rng'), 'schema')
        return self

    def validating_output(self, output):
        return Validating(self, output)


class Validating(object):

    def __init__(self, rng, output):
        self.rng = rng
        self.output = output

    def __enter__(self):
        self.data = b''
        return self

    def write(self, data):
        self.rng.world.tick('write')
        self.data = self.data + data
        return len(data)

    def flush(self):
        pass

    def __exit__(self, t, e, tb):
        if t is None:
            self.rng.world.tick('validate')
            if not self.rng.ok:
                raise Invalid('invalid')
            self.output.write(b'valid:' + self.data)


def sample(sx, nested=False, cut=None, symbolic=True):
    """a document: files and the contents of its embedded files"""
    doc = Doc(sx, 's')
    doc.section([([('control', 'secd'), ('control', 'cold')], 3), []])
    section = [sx.concrete(x) for x in doc.data()]
    if cut is not None:
        section = section[:cut]
    n = sx.choice('embedded', [0, 1, 2]) if symbolic else 1
    data = [list(sx.bytes('d%d' % i, 2)) for i in range(n)]
    stored = [(i + 1, 'png', d) for i, d in enumerate(data)]
    files = files_of(sx, [('embed', i + 1, 'png', None) for i in range(n)],
                     [section], 0, bindata=stored if n else None)
    want = dict(('BIN%04X.png' % (i + 1), sx.from_bytes(d))
                for i, d in enumerate(data))
    if nested and n:
        # the embedded object of another program
        files['BinData']['BIN0009.OLE'] = {'Inner': b'inner'}
        want['BIN0009.OLE/Inner'] = b'inner'
    return files, want, len(section)


def xml_of(sx, files, embed):
    """the document as XML"""
    mods = Modules()
    opened = [Opened(sx)]
    try:
        mods.module('olefile', OleFileIO=lambda name: Ole(files, opened),
                    isOleFile=lambda name: True)
        hwp = sx.mod('hwp5.xmlmodel').Hwp5File('a.hwp')
        f = Sink()
        hwp.xmlevents(embedbin=embed).dump(f)
    finally:
        mods.restore()
    out = b''
    for c in f.chunks:
        out = out + c
    return out


def run(sx, cmd, files, world, rng=None, name='docs/a.hwp', tty=False,
        ok=(), stdout=None,
        real=False):
    """status, standard output, and what was opened"""
    program, argv = COMMANDS[cmd]
    m = sx.mod('hwp5.' + program)
    opened = [Opened(sx)]
    mods = Modules()
    old = sys.stdout, sys.argv
    out = Stdout(sx, tty)
    if stdout is not None:
        out.buffer = stdout
    log = logging.getLogger('hwp5')
    handlers, level, up = list(log.handlers), log.level, log.propagate
    plat = sx.mod('hwp5.plat')
    xslt = Xslt(world)
    try:
        mods.module('olefile', OleFileIO=lambda name: Ole(files, opened),
                    isOleFile=lambda name: files is not None)
        for n, mod in list(sys.modules.items()):
            if n.startswith('hwp5') and mod is not None and not real:
                for k, v in list(vars(mod).items()):
                    if v is plat.get_xslt_compile and mod is not plat:
                        mods.attr(mod, k, lambda: xslt.compile)
                    elif v is plat.get_relaxng_compile and mod is not plat:
                        mods.attr(mod, k, lambda: rng and rng.compile)
        sys.stdout = out
        sys.argv = [program] + argv + [name]
        log.propagate = False
        try:
            with world:
                m.main()
            status = 0
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else \
                0 if e.code is None else 1
        except Fault:
            status = 'fault'
        except Invalid:
            status = 'invalid'
        except Exception as e:
            # python reports it and exits with 1
            status = 'raised %s' % type(e).__name__
            if world.failed is None and not isinstance(e, ok) and \
                    not getattr(world, 'xslt_errors', False):
                raise
    finally:
        sys.stdout, sys.argv = old
        mods.restore()
        log.handlers[:] = handlers
        log.setLevel(level)
        log.propagate = up
    return status, out.parts, opened


def join(parts):
    out = b''
    for x in parts:
        out = out + x
    return out


def destination(cmd, argv):
    if '--output' in argv:
        return CWD + '/' + argv[argv.index('--output') + 1]
    if cmd == 'html':
        return CWD + '/a'
    if cmd in ('odt', 'odt-embed', 'odt-noembed'):
        return CWD + '/a.odt'


RDF = 'manifest.rdf'
NS = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'


def check_package(sx, z, want):
    """want: names and contents, None for any; what the manifest lists"""
    names = [n for n, d in z.entries]
    sx.check(len(set(names)) == len(names), 'every file once')
    sx.check(sorted(names) == sorted(list(want) + [
        'mimetype', 'META-INF/manifest.xml']), 'files of the package')
    d = dict(z.entries)
    for k, v in want.items():
        if v is not None:
            sx.check(sx.eq(d[k], v), 'content of a file in the package')
    sx.check(d['mimetype'] == b'application/vnd.oasis.opendocument.text',
             'mimetype')
    sx.check(names[0] == 'mimetype', 'mimetype comes first')
    root = ElementTree.fromstring(d['META-INF/manifest.xml'])
    listed = [(e.get(NS + 'full-path'), e.get(NS + 'media-type'))
              for e in root]
    sx.check(root.tag == NS + 'manifest' and
             all(e.tag == NS + 'file-entry' for e in root), 'manifest')
    sx.check(listed[:1] == [
        ('/', 'application/vnd.oasis.opendocument.text')], 'root entry')
    sx.check(sorted(x for x, t in listed[1:]) == sorted(want),
             'the manifest lists every file')
    types = dict(listed)
    for k in want:
        t = {'content.xml': 'text/xml', 'styles.xml': 'text/xml',
             RDF: 'application/rdf+xml'}.get(k)
        sx.check(types[k] == t if t else bool(types[k]), 'media type')


def verify(sx, cmd, world, out, xml, bindata, valid):
    program, argv = COMMANDS[cmd]
    dest = destination(cmd, argv)
    mine = dict((p, d) for p, d in world.files.items()
                if p.startswith(CWD + '/'))

    def res(name):
        d = mark(name, {}, xml)
        return b'valid:' + d if valid else d
    single = None
    if program == 'hwp5txt':
        single = mark('plaintext.xsl', {}, xml)
    elif '--css' in argv:
        single = mark('hwp5css.xsl', {}, xml)
    elif '--html' in argv:
        single = mark('hwp5html.xsl', {}, xml)
    elif '--styles' in argv:
        single = res('odt/styles.xsl')
    elif '--content' in argv:
        single = res('odt/content.xsl')
    elif '--document' in argv:
        single = res('odt/document.xsl')
    if single is not None:
        if dest is None:
            sx.check(sx.eq(join(out), single), 'output')
            sx.check(not mine, 'no files')
        else:
            sx.check(list(mine) == [dest], 'one file')
            sx.check(sx.eq(mine[dest], single), 'output')
            sx.check(not out, 'nothing on the standard output')
        return
    sx.check(not out, 'nothing on the standard output')
    if program == 'hwp5html':
        want = {'index.xhtml': mark('hwp5html.xsl', {}, xml),
                'styles.css': mark('hwp5css.xsl', {}, xml)}
        for k, v in bindata.items():
            want['bindata/' + k] = v
        sx.check(sorted(mine) == sorted(dest + '/' + k for k in want),
                 'files of the directory')
        for k, v in want.items():
            sx.check(sx.eq(mine[dest + '/' + k], v), 'content of a file')
        sx.check([x for x in world.removed if x != dest] == [],
                 'nothing else is removed')
    else:
        sx.check(list(mine) == [dest], 'one file')
        want = {'styles.xml': res('odt/styles.xsl'),
                'content.xml': res('odt/content.xsl'), RDF: None}
        for k, v in bindata.items():
            if '/' not in k:
                want['bindata/' + k] = v
        sx.check(len(world.zips) == 1 and world.zips[0].path == dest,
                 'one archive')
        check_package(sx, world.zips[0], want)


def embeds(argv):
    if '--document' in argv:
        return '--no-embed-image' not in argv
    return '--embed-image' in argv


def closed(sx, world, opened):
    for o in opened[1:]:
        sx.check(o.closed, 'the document is closed')
    for segs, f in opened[0].streams:
        if segs[0] == 'BinData':
            sx.check(f.closed, 'embedded files are closed')


def convert(sx, p):
    cmd = p['cmd']
    program, argv = COMMANDS[cmd]
    if p['valid'] and program != 'hwp5odt':
        sx.cover('ok')
        return
    files, bindata, size = sample(sx, sx.choice('nested', [False, True]))
    xml = xml_of(sx, files, embeds(argv))
    world = World(sx)
    if sx.choice('exists', [False, True]) and program == 'hwp5html':
        d = destination(cmd, argv)
        if d and '.' not in d[-5:]:
            world.dirs.update([d, d + '/old'])
            world.files[d + '/old/x'] = b'old'
    rng = Rng(world) if p['valid'] else None
    status, out, opened = run(sx, cmd, files, world, rng)
    sx.check(status == 0, 'the conversion succeeds')
    verify(sx, cmd, world, out, xml, bindata, p['valid'])
    world.clean(sx)
    closed(sx, world, opened)
    sx.cover('ok')


def faults(sx, p):
    """whatever fails, that it failed is reported and nothing is left"""
    cmd = p['cmd']
    program, argv = COMMANDS[cmd]
    files, bindata, size = sample(sx, symbolic=False)
    xml = xml_of(sx, files, embeds(argv))
    world = World(sx, sx.int('fail', 0, 2000))
    world.xslt_errors = bool(world.fail == 0)
    rng = None
    if p['valid']:
        rng = Rng(world, sx.choice('valid', [True, False]))
    status, out, opened = run(sx, cmd, files, world, rng)
    if status == 0:
        sx.check(world.failed is None or world.failed in ('unlink', 'close'),
                 'a failure is reported')
        sx.check(not world.xslt_errors, 'errors are reported')
        sx.check(rng is None or rng.ok, 'an invalid result is reported')
        verify(sx, cmd, world, out, xml, bindata, p['valid'])
        sx.cover('complete')
    else:
        sx.check(world.failed is not None or status == 'invalid' or
                 world.xslt_errors,
                 'no failure is made up')
        sx.cover('failed')
    world.clean(sx)
    closed(sx, world, opened)


def damaged(sx, p):
    """a document that cannot be read in full is not converted silently"""
    cmd = p['cmd']
    program, argv = COMMANDS[cmd]
    _, _, size = sample(sx, symbolic=False)
    cut = sx.choice('cut', list(range(0, size, 13)) + [size - 1, size])
    files, bindata, _ = sample(sx, cut=cut, symbolic=False)
    try:
        xml = xml_of(sx, files, embeds(argv))
    except Exception:
        xml = None
    world = World(sx)
    status, out, opened = run(sx, cmd, files, world,
                              ok=Exception if xml is None else ())
    if xml is None:
        sx.check(status not in (0, 'fault'), 'status')
        sx.cover('damaged')
    else:
        sx.check(status == 0, 'the conversion succeeds')
        verify(sx, cmd, world, out, xml, bindata, 0)
        sx.cover('whole')
    world.clean(sx)
    closed(sx, world, opened)


def unusable(sx, p):
    """files which are no documents; nothing is made or removed"""
    cmd = p['cmd']
    program, argv = COMMANDS[cmd]
    files, bindata, size = sample(sx, symbolic=False)
    kind = sx.choice('kind', ['ole', 'header', 'signature', 'short'])
    if kind == 'ole':
        files = None
    elif kind == 'header':
        del files['FileHeader']
    elif kind == 'short':
        files['FileHeader'] = b'HWP Document'
    else:
        files['FileHeader'] = b'X' * 256
    d = destination(cmd, argv)
    world = World(sx)
    if d:
        if '.' in posixpath.basename(d):
            world.files[d] = b'old'
        else:
            world.dirs.add(d)
            world.files[d + '/x'] = b'old'
    before = dict(world.files), set(world.dirs)
    status, out, opened = run(sx, cmd, files, world)
    sx.check(status not in (0, 'fault'), 'status')
    sx.check((world.files, world.dirs) == before, 'nothing has changed')
    sx.check(not out, 'nothing is written')
    world.clean(sx)
    sx.cover('ok')


def package(sx, p):
    """archives hold what is put into them"""
    odt = sx.mod('hwp5.hwp5odt')
    n = p['n']
    world = World(sx)
    want = []
    target = sx.choice('target', ['path', 'archive'])
    with world:
        import zipfile
        pkg = odt.ODTPackage('x.odt') if target == 'path' else \
            odt.ODTPackage(zipfile.ZipFile('x.odt', 'w'))
        for i in range(n):
            name = sx.choice('n%d' % i, NAMES) + u'%d' % i
            data = sx.bytes('d%d' % i, 2)
            if sx.choice('how%d' % i, ['stream', 'path']) == 'path':
                world.files[CWD + '/in'] = data
                pkg.insert_path('in', name, u'm/%d' % i)
            else:
                pkg.insert_stream(Handle(data), name, u'm/%d' % i)
            want.append((name, data, u'm/%d' % i))
        pkg.close()
    z = world.zips[0]
    sx.check(len(z.entries) == n + 2, 'files of the package')
    sx.check(z.entries[0][0] == 'mimetype', 'mimetype comes first')
    d = [e for e in z.entries if e[0] not in ('mimetype',
                                              'META-INF/manifest.xml')]
    for (name, data), (a, b, c) in zip(d, want):
        sx.check(sx.eq(name, a) and sx.eq(data, b), 'a file of the package')
    sx.check([f['media_type'] for f in pkg.files] == [c for a, b, c in want],
             'media types')
    for f, (a, b, c) in zip(pkg.files, want):
        sx.check(sx.eq(f['full_path'], a), 'paths')
    world.clean(sx)
    sx.cover('ok')


NAMES = [u'a&b', u'<x>', u'"q"', u"'", u'\uac00.png', u'a b']
RELATED = [(u'a', u'ab'), (u'ab', u'a'), (u'a', u'a/b'), (u'a', u'A'),
           (u'a.b', u'a'), (u'xa', u'a'), (u'a', u'xa')]


def manifest(sx, p):
    """names which need escapes, and which are parts of others"""
    odt = sx.mod('hwp5.hwp5odt')
    world = World(sx)
    names = sx.choice('names', [(a, b) for a in NAMES for b in NAMES
                                if a != b] + RELATED)
    with world:
        pkg = odt.ODTPackage('x.odt')
        for n in names:
            pkg.insert_stream(Handle(b'x'), n, u'a/b')
        pkg.close()
    check_package(sx, world.zips[0], dict((n, b'x') for n in names))
    sx.cover('ok')
