# -*- coding: utf-8 -*-
"""Unpacking writes every stream, and only below the target directory."""
import io
import posixpath
import types

from .c18 import Modules, Out

PRELOAD = ['hwp5.storage', 'hwp5.hwp5html', 'hwp5.proc.unpack']

COVERS = {
    'names': ['plain', 'odd', 'control'],
    'deep': ['plain', 'odd', 'control'],
    'faults': ['failed', 'complete'],
    'bindata': ['plain', 'odd', 'none'],
    'command': ['ok'],
}
BOUNDS = {
    'quick': 'storages up to three levels deep, two items of which have any '
             'names of 0..3 characters out of a, dot, slash, backslash, '
             'colon, NUL and the control character 5; target there or not; '
             'a failure at any call to the file system',
    'thorough': 'the same with names of up to 4 characters',
}
OUTSIDE = 'other file systems than POSIX ones; symbolic links put into the '\
    'target by others; items whose file names coincide; what happens to '\
    'items whose names are no file names'
ASSUMPTIONS = ['a stand-in for the file system takes the calls of '
               'hwp5.storage: it keeps a tree in memory and resolves paths '
               'as POSIX systems do']

BASE = u'/nonexistent/sx/out'
CHARS = [0x61, 0x2e, 0x2f, 0x5c, 0x3a, 0, 5]


def tasks(tier):
    k = 3 if tier == 'quick' else 4
    out = []
    for n in range(k + 1):
        for m in range(0, k + 1):
            if m + n <= k + 1:
                out.append(dict(fn='names', params={'n': n, 'm': m}))
        for inner in ('stream', 'storage'):
            out.append(dict(fn='deep', params={'n': n, 'inner': inner}))
    out.append(dict(fn='faults', params={}))
    for n in range(3):
        out.append(dict(fn='bindata', params={'n': n}))
    out.append(dict(fn='bindata', params={'n': None}))
    out.append(dict(fn='command', params={}))
    return out


class Fault(Exception):
    pass


class File(object):

    def __init__(self, fs, path):
        self.fs = fs
        self.path = path
        self.closed = False

    def write(self, data):
        self.fs.tick()
        assert not self.closed
        for i, (p, d) in enumerate(self.fs.files):
            if p is self.path:
                self.fs.files[i] = (p, d + data)
        return len(data)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class FS(object):
    """a file system in memory. Paths are sequences of names below the root;
    what is asked for outside of the target is recorded"""

    def __init__(self, sx, fail=None, top=True):
        self.sx = sx
        self.files = []
        self.handles = []
        self.dirs = []
        self.outside = []
        self.count = 0
        self.fail = fail
        self.base = BASE.split(u'/')[1:]
        self.dirs = [self.base[:i] for i in range(len(self.base) + top)]
        self.module = types.SimpleNamespace(
            mkdir=self.mkdir, makedirs=self.makedirs, sep='/', altsep=None,
            curdir='.', pardir='..', listdir=self.listdir,
            path=types.SimpleNamespace(
                exists=self.exists, isdir=self.isdir, isfile=self.isfile,
                join=posixpath.join, basename=posixpath.basename,
                dirname=posixpath.dirname, split=posixpath.split,
                splitext=posixpath.splitext, sep='/', altsep=None,
                splitdrive=posixpath.splitdrive, isabs=posixpath.isabs,
                curdir='.', pardir='..', normpath=self.absolute,
                abspath=self.absolute, realpath=self.absolute,
                lexists=self.exists, commonpath=self.commonpath))

    def tick(self):
        self.count += 1
        if self.fail is not None and self.count == self.fail:
            raise Fault('failure')

    def resolve(self, path):
        if u'\0' in path:
            raise ValueError('embedded null byte')
        out = []
        if path[:1] != u'/':
            out = [u'cwd']
        for seg in path.split(u'/'):
            if seg == u'' or seg == u'.':
                continue
            if seg == u'..':
                out = out[:-1]
                continue
            out.append(seg)
        return out

    def absolute(self, path):
        return u'/' + u'/'.join(self.resolve(path))

    def commonpath(self, paths):
        xs = [self.resolve(p) for p in paths]
        out = []
        for i, seg in enumerate(xs[0]):
            if any(len(x) <= i or x[i] != seg for x in xs):
                break
            out.append(seg)
        return u'/' + u'/'.join(out)

    def within(self, segs):
        n = len(self.base)
        return len(segs) > n and segs[:n] == self.base

    def is_dir(self, segs):
        for d in self.dirs:
            if d == segs:
                return True
        return False

    def find(self, segs):
        for path, data in self.files:
            if path == segs:
                return path
        return None

    def exists(self, path):
        segs = self.resolve(path)
        return self.is_dir(segs) or self.find(segs) is not None

    def isdir(self, path):
        return self.is_dir(self.resolve(path))

    def isfile(self, path):
        return self.find(self.resolve(path)) is not None

    def listdir(self, path):
        return []

    def mkdir(self, path, mode=0o777):
        self.tick()
        segs = self.resolve(path)
        if not self.within(segs) and segs != self.base:
            self.outside.append(path)
            return
        if self.exists(path):
            raise FileExistsError(path)
        if not self.is_dir(segs[:-1]):
            raise FileNotFoundError(path)
        self.dirs.append(segs)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        if self.exists(path):
            if exist_ok:
                return
            raise FileExistsError(path)
        segs = self.resolve(path)
        for i in range(1, len(segs) + 1):
            if not self.is_dir(segs[:i]):
                self.mkdir(u'/' + u'/'.join(segs[:i]))

    def open(self, path, mode='r', *a, **k):
        self.tick()
        assert mode in ('wb', 'bw', 'xb'), mode
        segs = self.resolve(path)
        if not self.within(segs):
            self.outside.append(path)
            f = File(self, [u'elsewhere'])
            self.handles.append(f)
            return f
        if self.is_dir(segs):
            raise IsADirectoryError(path)
        if not self.is_dir(segs[:-1]):
            raise FileNotFoundError(path)
        old = self.find(segs)
        if old is not None:
            self.files = [(p, d) for p, d in self.files if p is not old]
        self.files.append((segs, b''))
        f = File(self, segs)
        self.handles.append(f)
        return f


class Stream(object):

    def __init__(self, data):
        self.data = data
        self.handles = []

    def open(self):
        f = Handle(self.data)
        self.handles.append(f)
        return f


class Handle(object):

    def __init__(self, data):
        self.f = io.BytesIO(data)
        self.closed = False

    def read(self, *a):
        assert not self.closed
        return self.f.read(*a)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class Storage(object):

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter([n for n, x in self.items])

    def __getitem__(self, name):
        for n, x in self.items:
            if n == name:
                return x
        raise KeyError(name)


def odd_name(sx, label, n):
    out = []
    for i in range(n):
        c = sx.int('%s[%d]' % (label, i), 0, 0x61)
        sx.assume(sx.Or(*[c == x for x in CHARS]))
        out.append(c)
    return sx.from_codepoints(out)


def plain(sx, name):
    """whether the name of an item is the name of a file"""
    cps = sx.codepoints(name)
    if not cps:
        return False
    if sx.Or(*[sx.Or(c == 0, c == 0x2f) for c in cps]):
        return False
    if len(cps) <= 2 and sx.And(*[c == 0x2e for c in cps]):
        return False
    return True


def file_name(sx, name):
    out = u''
    for c in sx.codepoints(name):
        if c == 5:
            out = out + u'_05'
            sx.cover('control')
        else:
            out = out + sx.from_codepoints([c])
    return out


def use(sx, fs, mods, module):
    m = sx.mod(module)
    mods.attr(m, 'os', fs.module)
    if hasattr(m, 'io'):
        mods.attr(m, 'io', types.SimpleNamespace(
            open=fs.open, BytesIO=io.BytesIO))


def expect(sx, items, at, out):
    """(path, data) of every stream that has a path"""
    for n, x in items:
        if not plain(sx, n):
            sx.cover('odd')
            continue
        sx.cover('plain')
        path = at + [file_name(sx, n)]
        if isinstance(x, Storage):
            expect(sx, x.items, path, out)
        else:
            out.append((path, x.data))
    return out


def verify(sx, fs, items, base=None):
    sx.check(not fs.outside, 'nothing outside of the target')
    want = expect(sx, items, list(base or fs.base), [])
    for path, data in want:
        found = fs.find(path)
        sx.check(found is not None, 'every stream is written')
        for p, d in fs.files:
            if p is found:
                sx.check(sx.eq(d, data), 'the content of the stream')
    for h in fs.handles:
        sx.check(h.closed, 'files are closed')


def collide(sx, a, b):
    return sx.eq(file_name(sx, a), file_name(sx, b))


def unpack(sx, fs, items, expect_fault=False):
    st = sx.mod('hwp5.storage')
    mods = Modules()
    try:
        use(sx, fs, mods, 'hwp5.storage')
        st.unpack(Storage(items), BASE)
    finally:
        mods.restore()


def names(sx, p):
    """two items of any names"""
    a = odd_name(sx, 'a', p['n'])
    b = odd_name(sx, 'b', p['m'])
    if sx.eq(a, b) or collide(sx, a, b):
        return
    items = [(a, Stream(sx.bytes('d', 2))),
             (b, Storage([(u'in', Stream(b'inside'))])),
             (u'\x05Summary', Stream(b'summary'))]
    if p['m'] % 2:
        items.reverse()
    fs = FS(sx)
    unpack(sx, fs, items)
    verify(sx, fs, items)


def deep(sx, p):
    """an odd name further down"""
    a = odd_name(sx, 'a', p['n'])
    inner = Stream(b'inner') if p['inner'] == 'stream' else \
        Storage([(u'one', Stream(b'1')), (u'two', Stream(b'2'))])
    if sx.eq(a, u'other'):
        return
    items = [(u'top\x05', Storage([
        (u'mid', Storage([(a, inner), (u'other', Stream(b'other'))])),
        (u'leaf', Stream(b'leaf'))])), (u'last', Stream(b''))]
    fs = FS(sx)
    if sx.choice('there', [0, 1]):
        # unpacked before: directories are there already
        fs.dirs.append(fs.base + [u'top_05'])
        fs.dirs.append(fs.base + [u'top_05', u'mid'])
        fs.files.append((fs.base + [u'last'], b'old'))
    unpack(sx, fs, items)
    verify(sx, fs, items)


def faults(sx, p):
    """whatever call fails, no stream and no file is left open"""
    at = sx.int('fail', 1, 12)
    streams = [Stream(b'one'), Stream(b'two'), Stream(b'three')]
    items = [(u'a', streams[0]),
             (u'b', Storage([(u'c', streams[1])])), (u'd', streams[2])]
    fs = FS(sx, at)
    try:
        unpack(sx, fs, items)
        sx.cover('complete')
        verify(sx, fs, items)
    except Fault:
        sx.cover('failed')
    for s in streams:
        for h in s.handles:
            sx.check(h.closed, 'streams are closed')
    for h in fs.handles:
        sx.check(h.closed, 'files are closed')


class Doc(Storage):

    def __contains__(self, name):
        return name in [n for n, x in self.items]


def bindata(sx, p):
    """embedded files of a document converted into a directory"""
    hh = sx.mod('hwp5.hwp5html')
    n = p['n']
    items = [(u'FileHeader', Stream(b''))]
    inner = []
    if n is not None:
        a = odd_name(sx, 'a', n)
        inner = [(a, Stream(sx.bytes('d', 1))), (u'BIN0001.png', Stream(b'p'))]
        items.append((u'BinData', Storage(inner)))
    fs = FS(sx)
    t = hh.HTMLTransform.__new__(hh.HTMLTransform)
    mods = Modules()
    try:
        use(sx, fs, mods, 'hwp5.storage')
        use(sx, fs, mods, 'hwp5.hwp5html')
        t.extract_bindata_dir(Doc(items), BASE + u'/bindata')
    finally:
        mods.restore()
    verify(sx, fs, inner, fs.base + [u'bindata'])
    if n is None:
        sx.check(not fs.files and len(fs.dirs) == len(fs.base) + 1,
                 'nothing written')
        sx.cover('none')


def command(sx, p):
    """the command unpacks into the directory asked for, or one named after
    the file"""
    up = sx.mod('hwp5.proc.unpack')
    items = [(u'a', Stream(b'A')), (u's', Storage([(u'b', Stream(b'B'))]))]
    out = sx.choice('out', [None, BASE])
    name = sx.choice('name', [u'/some/doc.hwp', u'doc.x.hwp', u'doc'])
    fs = FS(sx, top=sx.choice('there', [0, 1]))
    where = fs.base
    if out is None:
        where = [u'cwd', {u'/some/doc.hwp': u'doc', u'doc.x.hwp': u'doc.x',
                          u'doc': u'doc'}[name]]
        fs.base = [u'cwd']
        fs.dirs = [[], [u'cwd']]
        if sx.choice('present', [0, 1]):
            fs.dirs.append(where)
    mods = Modules()
    try:
        use(sx, fs, mods, 'hwp5.storage')
        use(sx, fs, mods, 'hwp5.proc.unpack')
        mods.attr(up, 'open_hwpfile', lambda args: Storage(items))
        up.main(types.SimpleNamespace(hwp5file=name, out_directory=out))
    finally:
        mods.restore()
    verify(sx, fs, items, where)
    sx.cover('ok')
