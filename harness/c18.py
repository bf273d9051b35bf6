# -*- coding: utf-8 -*-
"""Storages list every stream once, and listed names lead to the items."""
import io
import sys
import types

PRELOAD = ['hwp5.storage', 'hwp5.storage.ole', 'hwp5.storage.fs',
           'hwp5.plat.olefileio', 'hwp5.plat.gir_gsf',
           'hwp5.plat.jython_poifs', 'hwp5.plat._uno', 'hwp5.proc.cat',
           'hwp5.proc.ls']

COVERS = {
    'ole': ['nested', 'flat', 'missing'],
    'gsf': ['nested', 'flat', 'missing'],
    'uno': ['nested', 'flat', 'missing'],
    'poifs': ['nested', 'flat', 'missing'],
    'fs': ['nested', 'flat', 'missing'],
    'memory': ['nested', 'flat', 'missing'],
    'extra': ['virtual', 'shadowed', 'missing'],
    'gsfread': ['ok'],
}
BOUNDS = {
    'quick': 'every tree out of 9 shapes with up to 5 streams and 4 levels; '
             'names of one arbitrary character of a, b, ., the control '
             'character 5, capital A and a hangul syllable, siblings '
             'differing; looking up any other name; extra formats of items '
             'with extensions of one arbitrary character; reading 3 bytes '
             'in any 3 sizes from -1 to 5',
    'thorough': '14 shapes with up to 6 streams and 5 levels, names of up to '
                'two characters in trees of up to 3 streams',
}
OUTSIDE = 'the libraries that parse compound files (stand-ins of their '\
    'directory interfaces are used); items that are neither streams nor '\
    'storages; names with slashes; empty storages of olefile (which lists '\
    'streams only)'
ASSUMPTIONS = ['the stand-ins behave as olefile, libgsf, POIFS and UNO do '
               'for listing and looking up entries']

# a stream is a number, a storage a list
SHAPES = [[1], [1, 2, 3], [[1, 2], 3], [1, [2]], [[[1]], 2], [[1, [2, 3]], 4],
          [[[1, 2], [3]], 4], [[1], [[[2]]], 3], [[1], [2], [3, [4]], 5]]
MORE = [[[[[[1]]]]], [[1, 2, 3], [4, 5, 6]], [[[1, [2]], [3, [4]]], 5],
        [1, 2, 3, 4], [[1, [2, [3, [4]]]], 5]]
CHARS = [0x61, 0x62, 0x2e, 5, 0x41, 0xac00]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for kind in ('ole', 'gsf', 'uno', 'poifs', 'fs', 'memory'):
        for i in range(len(SHAPES) + (0 if q else len(MORE))):
            out.append(dict(fn='tree', params={
                'kind': kind, 'shape': i,
                'long': not q and str((SHAPES + MORE)[i]).count(',') < 3},
                case=kind))
    for i in range(len(SHAPES)):
        out.append(dict(fn='leafs', params={'shape': i, 'long': not q}))
    for i in range(5 if q else 7):
        out.append(dict(fn='printed', params={'shape': i}))
    for nested in (0, 1):
        out.append(dict(fn='extra', params={'nested': nested}))
    out.append(dict(fn='gsfread', params={}))
    out.append(dict(fn='closing', params={}))
    return out


def name(sx, label, long):
    """an arbitrary short name"""
    out = []
    for i in range(sx.choice(label + 'n', [1, 2]) if long else 1):
        c = sx.int('%s[%d]' % (label, i), 0, 0xffff)
        sx.assume(sx.Or(*[c == x for x in CHARS]))
        out.append(c)
    return sx.from_codepoints(out)


def same_but_case(sx, a, b):
    """compound files don't tell cases apart"""
    xs, ys = sx.codepoints(a), sx.codepoints(b)
    if len(xs) != len(ys):
        return False
    return sx.And(*[sx.Or(sx.eq(x, y), sx.And(x == 0x61, y == 0x41),
                          sx.And(x == 0x41, y == 0x61))
                    for x, y in zip(xs, ys)])


class Node(object):

    def __init__(self, name, kids, data):
        self.name = name
        self.kids = kids
        self.data = data

    def find(self, sx, name):
        """the child of that name, as compound files look it up"""
        for x in self.kids:
            if same_but_case(sx, x.name, name):
                return x
        return None

    def streams(self):
        return sum([x.streams() for x in self.kids], 0) \
            if self.kids is not None else 1


def build(sx, shape, label, long, nm=None):
    if not isinstance(shape, list):
        return Node(nm, None, bytes(bytearray([shape, 77])))
    kids = []
    for i, x in enumerate(shape):
        k = '%s.%d' % (label, i)
        n = name(sx, k, long)
        for y in kids:
            sx.assume(sx.Not(same_but_case(sx, y.name, n)))
        kids.append(build(sx, x, k, long, n))
    return Node(nm, kids, None)


# stand-ins for the libraries

class FakeOle(object):
    """the directory of an OleFileIO"""

    def __init__(self, sx, root):
        self.sx = sx
        self.root = root
        self.closed = 0

    def _find(self, path):
        segs = path if isinstance(path, list) else path.split('/')
        node = self.root
        for s in segs:
            node = node.find(self.sx, s) if node.kids is not None else None
            if node is None:
                raise IOError('file not found')
        return node

    def exists(self, path):
        try:
            self._find(path)
        except IOError:
            return False
        return True

    def get_type(self, path):
        try:
            node = self._find(path)
        except IOError:
            return False
        return 2 if node.kids is None else 1

    def listdir(self, streams=True, storages=False):
        out = []

        def walk(node, prefix):
            for x in node.kids:
                if x.kids is not None:
                    if storages:
                        out.append(prefix + [x.name])
                    walk(x, prefix + [x.name])
                elif streams:
                    out.append(prefix + [x.name])
        walk(self.root, [])
        return out

    def openstream(self, path):
        node = self._find(path)
        if node.kids is not None:
            raise IOError('this file is not a stream')
        return io.BytesIO(node.data)

    def close(self):
        self.closed += 1


class FakeGsf(object):
    """GsfInfile"""

    def __init__(self, sx, node):
        self.sx = sx
        self.node = node
        self.pos = 0

    @property
    def size(self):
        return len(self.node.data)

    def num_children(self):
        return -1 if self.node.kids is None else len(self.node.kids)

    def name_by_index(self, i):
        if i < 0 or i >= len(self.node.kids):
            return None
        return self.node.kids[i].name

    def child_by_name(self, name):
        x = self.node.find(self.sx, name)
        return None if x is None else FakeGsf(self.sx, x)

    def tell(self):
        return self.pos

    def read(self, n):
        if n <= 0 or self.pos + n > self.size:
            return None
        d = self.node.data[self.pos:self.pos + n]
        self.pos += n
        return d

    def seek(self, offset, whence):
        self.pos = offset + (0, self.pos, self.size)[whence]


class NoSuchElement(Exception):
    pass


class FakeUno(object):

    def __init__(self, sx, node):
        self.sx = sx
        self.node = node
        self.SupportedServiceNames = ()
        if node.kids is not None:
            self.SupportedServiceNames = (
                'com.sun.star.embed.OLESimpleStorage',)

    def getElementNames(self):
        return tuple(x.name for x in self.node.kids)

    def getByName(self, name):
        x = self.node.find(self.sx, name)
        if x is None:
            raise NoSuchElement(name)
        return FakeUno(self.sx, x)

    def closeInput(self):
        pass


class FileNotFound(Exception):
    pass


class DirectoryEntry(object):

    def __init__(self, sx, node):
        self.sx = sx
        self.node = node
        self.directoryEntry = node.kids is not None
        self.documentEntry = node.kids is None

    def getName(self):
        return self.node.name

    def getEntries(self):
        return [DirectoryEntry(self.sx, x) for x in self.node.kids]

    def getEntry(self, name):
        x = self.node.find(self.sx, name)
        if x is None:
            raise FileNotFound(name)
        return DirectoryEntry(self.sx, x)


class FakeOs(object):
    """a directory tree in memory; os and os.path"""

    def __init__(self, sx, root):
        self.sx = sx
        self.root = root
        self.path = self

    def _node(self, path):
        node = self.root
        segs = path.split('/')
        assert segs[0] == 'top'
        for s in segs[1:]:
            found = None
            for x in node.kids or ():
                if x.name == s:
                    found = x
                    break
            if found is None:
                return None
            node = found
        return node

    def listdir(self, path):
        return [x.name for x in self._node(path).kids]

    def join(self, *a):
        return u'/'.join(a)

    def isdir(self, path):
        n = self._node(path)
        return n is not None and n.kids is not None

    def exists(self, path):
        return self._node(path) is not None

    def isfile(self, path):
        n = self._node(path)
        return n is not None and n.kids is None


class Mem(object):

    def __init__(self, node):
        self.node = node

    def __iter__(self):
        return iter([x.name for x in self.node.kids])

    def __getitem__(self, name):
        for x in self.node.kids:
            if x.name == name:
                return MemStream(x) if x.kids is None else Mem(x)
        raise KeyError(name)


class MemStream(object):

    def __init__(self, node):
        self.node = node

    def open(self):
        return io.BytesIO(self.node.data)


class Modules(object):
    """modules and their attributes set while in use"""

    def __init__(self):
        self.undo = []

    def module(self, name, **attrs):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            old = sys.modules.get(n)
            m = types.ModuleType(n)
            m.__path__ = []
            if n not in [x[0] for x in self.undo]:
                self.undo.append((n, old))
                sys.modules[n] = m
        for k, v in attrs.items():
            setattr(sys.modules[name], k, v)

    def put(self, name, module):
        self.undo.append((name, sys.modules.get(name)))
        sys.modules[name] = module

    def attr(self, mod, name, value):
        self.undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, value)

    def restore(self):
        for x in reversed(self.undo):
            if len(x) == 3:
                setattr(*x)
            elif x[1] is None:
                del sys.modules[x[0]]
            else:
                sys.modules[x[0]] = x[1]


def open_tree(sx, kind, root, mods):
    if kind == 'ole':
        return sx.mod('hwp5.storage.ole').OleStorage(FakeOle(sx, root))
    if kind == 'gsf':
        mods.module('gi.repository.Gsf', Input=str, InfileMSOle=FakeGsf)
        return sx.mod('hwp5.plat.gir_gsf').OleStorage(FakeGsf(sx, root))
    if kind == 'uno':
        mods.module('com.sun.star.container',
                    NoSuchElementException=NoSuchElement)
        return sx.mod('hwp5.plat._uno').OleStorage(FakeUno(sx, root))
    if kind == 'poifs':
        mods.module('java.io', FileNotFoundException=FileNotFound,
                    FileInputStream=None, IOException=Exception)
        mods.module('org.apache.poi.poifs.filesystem', POIFSFileSystem=None,
                    DirectoryEntry=DirectoryEntry)
        return sx.mod('hwp5.plat.jython_poifs').OleStorage(
            DirectoryEntry(sx, root))
    if kind == 'fs':
        fs = sx.mod('hwp5.storage.fs')
        fake = FakeOs(sx, root)
        mods.attr(fs, 'os', fake)

        class Io(object):
            @staticmethod
            def open(path, mode):
                assert mode == 'rb'
                return io.BytesIO(fake._node(path).data)
        mods.attr(fs, 'io', Io)
        return fs.FileSystemStorage('top')
    return Mem(root)


def names_match(sx, got, want):
    """the same names, each once"""
    if len(got) != len(want):
        return False
    return sx.And(*[sx.Or(*[sx.eq(g, w) for g in got]) for w in want])


def walk(sx, st, stg, node, kind):
    got = list(stg)
    sx.check(names_match(sx, got, [x.name for x in node.kids]),
             'names of items, each once')
    sx.check(st.is_storage(stg) and not st.is_stream(stg), 'a storage')
    for x in node.kids:
        item = stg[x.name]
        if x.kids is not None:
            walk(sx, st, item, x, kind)
        else:
            sx.check(st.is_stream(item) and not st.is_storage(item),
                     'a stream')
            if kind in ('ole', 'fs', 'memory'):
                for i in range(2):
                    f = item.open()
                    sx.check(f.read() == x.data, 'content of the item')
    if kind == 'gsf':
        for x in node.kids:
            if x.kids is None:
                sx.check(stg[x.name].open().read() == x.data, 'content')


def tree(sx, p):
    kind = p['kind']
    st = sx.mod('hwp5.storage')
    shape = (SHAPES + MORE)[p['shape']]
    root = build(sx, shape, 'r', p['long'])
    mods = Modules()
    try:
        stg = open_tree(sx, kind, root, mods)
        walk(sx, st, stg, root, kind)
        for k in [None] + [i for i, x in enumerate(root.kids)
                           if x.kids is not None][:1]:
            node = root if k is None else root.kids[k]
            at = stg if k is None else stg[node.name]
            other = name(sx, 'other%s' % k, False)
            for x in node.kids:
                sx.assume(sx.Not(same_but_case(sx, x.name, other)))
            try:
                at[other]
            except KeyError:
                sx.cover('missing')
            else:
                sx.fail('names which are not there')
    finally:
        mods.restore()
    sx.cover('nested' if any(isinstance(x, list) for x in shape) else 'flat')


def expected(node, base, out):
    for x in node.kids:
        if x.kids is not None:
            expected(x, base + x.name + u'/', out)
        else:
            out.append((base + x.name, x.data))
    return out


class Out(object):

    def __init__(self):
        self.parts = []
        self.buffer = self

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def escape(sx, s):
    out = u''
    for c in sx.codepoints(s):
        if sx.eq(c, 5):
            out = out + u'\\x05'
        elif sx.eq(c, 0xac00):
            out = out + u'\\uac00'
        else:
            out = out + sx.from_codepoints([c])
    return out


def leafs(sx, p):
    """paths of streams: listed, printed, and opened by"""
    st = sx.mod('hwp5.storage')
    shape = SHAPES[p['shape']]
    root = build(sx, shape, 'r', p['long'])
    stg = Mem(root)
    want = expected(root, u'', [])
    got = list(st.iter_storage_leafs(stg))
    sx.check(names_match(sx, got, [path for path, data in want]),
             'paths of streams, each once')
    for path, data in want:
        item = st.open_storage_item(stg, path)
        sx.check(item.open().read() == data, 'stream at a path')
        item = st.open_storage_item(stg, path.split(u'/'))
        sx.check(item.open().read() == data, 'stream at a path in segments')
    try:
        st.open_storage_item(stg, want[0][0] + u'/x')
    except Exception:
        pass
    else:
        sx.fail('paths beyond a stream')


def printed(sx, p):
    """the list and a stream printed by the commands"""
    shape = SHAPES[p['shape']]
    root = build(sx, shape, 'r', False)
    stg = Mem(root)
    want = expected(root, u'', [])
    ls = sx.mod('hwp5.proc.ls')
    cat = sx.mod('hwp5.proc.cat')
    mods = Modules()
    old = sys.stdout
    out = Out()
    try:
        sys.stdout = out
        mods.attr(ls, 'open_hwpfile', lambda args: stg)
        mods.attr(cat, 'open_hwpfile', lambda args: stg)
        ls.main(None)
        got = out.parts
        i = sx.choice('which', range(len(want)))
        sys.stdout = out = Out()
        ns = types.SimpleNamespace(stream=want[i][0])
        cat.main(ns)
        sx.check(sx.eq(b''.join(out.parts), want[i][1]), 'content printed')
    finally:
        sys.stdout = old
        mods.restore()
    text = u''.join(got)
    lines = text.split(u'\n')
    sx.check(len(lines) == len(want) + 1, 'one line for each stream')
    sx.check(names_match(sx, lines[:-1], [escape(sx, w) for w, d in want]),
             'paths printed')
    sx.check(len(lines[-1]) == 0, 'complete lines')


class Formats(object):
    """a stream with other formats"""

    def __init__(self, data, formats):
        self.data = data
        self.formats = formats

    def open(self):
        return io.BytesIO(self.data)

    def other_formats(self):
        return dict((ext, lambda d=d: io.BytesIO(d))
                    for ext, d in self.formats)


class Plain(object):

    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


class Stg(object):

    def __init__(self, items, formats=None):
        self.items = items
        if formats is not None:
            self.other_formats = lambda: dict(
                (ext, lambda d=d: io.BytesIO(d)) for ext, d in formats)

    def __iter__(self):
        return iter([n for n, x in self.items])

    def __getitem__(self, name):
        for n, x in self.items:
            if n == name:
                return x
        raise KeyError(name)


def letter(sx, label, k=1):
    out = []
    for i in range(k):
        c = sx.int('%s[%d]' % (label, i), 0x2e, 0x62)
        sx.assume(sx.Or(*[c == x for x in (0x61, 0x62, 0x2e)]))
        out.append(c)
    return sx.from_codepoints(out)


def extra(sx, p):
    """converted forms are listed next to their streams; what is there under
    a name of its own comes first"""
    st = sx.mod('hwp5.storage')
    n1 = letter(sx, 'n1', sx.choice('j', [1, 2]))
    n2 = letter(sx, 'n2', sx.choice('k', [1, 2]))
    sx.assume(sx.Not(sx.eq(n1, n2)))
    kind = sx.choice('kind', ['stream', 'storage', 'none', 'empty'])
    inner = Stg([(u'x', Formats(b'x', [('.txt', b'X')]))],
                [('.one', b'f1'), ('.two', b'f2')])
    first = {'stream': Formats(b'1', [('.one', b'f1'), ('.two', b'f2')]),
             'storage': inner, 'none': Plain(b'1'),
             'empty': Formats(b'1', [])}[kind]
    # extensions of one letter may collide with names
    ext = letter(sx, 'ext')
    second = Formats(b'2', [(sx.concrete(ext), b'f3')])
    items = [(n1, first), (n2, second)]
    formats = []
    if kind in ('stream', 'storage'):
        formats = [(n1 + u'.one', b'f1'), (n1 + u'.two', b'f2')]
    formats.append((n2 + ext, b'f3'))
    stg = Stg(items)
    if p['nested']:
        stg = st.ExtraItemStorage(Stg([(u'sub', stg)]))[u'sub']
    else:
        stg = st.ExtraItemStorage(stg)
    names = list(stg)
    sx.check(names_match(sx, names, [n1, n2] + [n for n, d in formats]),
             'names listed')
    at = 0
    for n, d in [(n1, b'1'), (n2, b'2')]:
        if n is n1 and kind == 'storage':
            sub = stg[n]
            sx.check(list(sub) == ['x', 'x.txt'], 'names in a storage')
            sx.check(sub['x.txt'].open().read() == b'X', 'extra format')
        else:
            sx.check(stg[n].open().read() == d, 'stream itself')
    for n, d in formats:
        if sx.Or(sx.eq(n, n1), sx.eq(n, n2)):
            sx.cover('shadowed')
            continue
        if [1 for m, e in formats if m is not n and sx.eq(m, n)]:
            continue
        for i in range(2):
            sx.check(stg[n].open().read() == d, 'extra format')
        sx.cover('virtual')
    other = letter(sx, 'other', sx.choice('m', [1, 2, 3]))
    if not sx.Or(*[sx.eq(other, n) for n in
                   [n1, n2] + [n for n, d in formats]]):
        try:
            stg[other]
        except KeyError:
            sx.cover('missing')
        else:
            sx.fail('names which are not there')


def gsfread(sx, p):
    gg = sx.mod('hwp5.plat.gir_gsf')
    data = sx.bytes('d', 3)
    f = gg.OleStream(FakeGsf(sx, Node(None, None, data)))
    pos = 0
    for i in range(3):
        s = sx.choice('s%d' % i, [None, -1, 0, 1, 2, 5])
        d = f.read() if s is None else f.read(s)
        k = 3 - pos if s is None or s < 0 else min(s, 3 - pos)
        sx.check(sx.eq(d, data[pos:pos + k]), 'what is read')
        pos += k
        sx.check(f.tell() == pos, 'position')
    sx.cover('ok')


def closing(sx, p):
    """closing the file closes the compound file, closing a storage in it
    does not"""
    ole = sx.mod('hwp5.storage.ole')
    root = build(sx, [[1, [2]], 3], 'r', False)
    lib = FakeOle(sx, root)
    stg = ole.OleStorage(lib)
    sub = stg[root.kids[0].name]
    if hasattr(sub, 'close'):
        sub.close()
    sx.check(lib.closed == 0, 'a storage closed')
    sx.check(sub[root.kids[0].kids[0].name].open().read() == b'\x01M',
             'still open')
    stg.close()
    sx.check(lib.closed == 1, 'the file closed')
