# -*- coding: utf-8 -*-
"""The XML of a whole document: embedded files, numbers of elements."""
from xml.etree import ElementTree

from .c16 import full
from .c18 import Modules
from .c21 import Ole, head
from .cfb import deflate, fileheader
from .docmodel import Doc

PRELOAD = ['hwp5.xmlmodel', 'hwp5.binmodel', 'hwp5.filestructure',
           'hwp5.storage.ole', 'hwp5.plat.olefileio', 'hwp5.xmlformat',
           'hwp5.compressed']

COVERS = {
    'embed': ['embedded', 'none', 'other'],
    'twice': ['ok'],
    'ids': ['ok'],
    'document': ['ok'],
}
BOUNDS = {
    'quick': 'up to 3 binary data items, each linked, embedded or a storage, '
             'with arbitrary identifiers out of 3, content of 0..3 arbitrary '
             'bytes or one of 47..49, 95..97 bytes with an arbitrary byte; '
             'stored or compressed, with embedding asked for or not, without '
             'any storage of binary data; '
             'documents of up to 3 sections with up to 8 numbered elements '
             'nested in any order',
    'thorough': 'the same with up to 4 items and content of up to 6 '
                'arbitrary bytes',
}
OUTSIDE = 'items whose stream is missing; how the XML is spelled (C10)'
ASSUMPTIONS = ['olefile and zlib are replaced by stand-ins']

ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
IDS = [1, 0x1f, 0xabcd]
FLAGS = {'link': 0, 'embed': 1, 'storage': 2}


def tasks(tier):
    q = tier == 'quick'
    out = []
    for kinds in (['embed'], ['link', 'embed'], ['embed', 'storage'],
                  ['embed', 'embed'], ['storage', 'link', 'embed'],
                  ["link"], []) + (() if q else (
                      ['embed', 'link', 'embed', 'storage'],)):
        for sizes in ((0, 1), (2, 3)) if q else ((0, 1), (2, 3), (4, 5),
                                                 (6, 0)):
            for ask in (True, False):
                out.append(dict(fn='embed', params={
                    'kinds': kinds, 'sizes': sizes, 'ask': ask}))
    for n in (47, 48, 49, 95, 96, 97):
        out.append(dict(fn='embed', params={
            'kinds': ['embed'], 'sizes': [n], 'ask': True}))
    out.append(dict(fn='embed', params={
        'kinds': ['link'], 'sizes': [], 'ask': True, 'missing': True}))
    out.append(dict(fn='twice', params={}))
    for n in (1, 2, 3):
        for k in (4, 6, 8) if q else (4, 6, 8, 10):
            out.append(dict(fn='ids', params={'sections': n, 'n': k}))
    for n in (1, 2, 3):
        out.append(dict(fn='document', params={'sections': n}))
    return out


class Sink(object):

    def __init__(self):
        self.chunks = []

    def write(self, data):
        self.chunks.append(data)


def bstr(s):
    out = [len(s), 0]
    for c in s:
        out += [ord(c), 0]
    return out


EXTS = [u'png', u'jpg', u'OLE', u'b']


def compressed(sx, xs):
    """the pieces of at most 255 bytes"""
    if len(xs) <= 255:
        return deflate(xs)
    return [0, 255, 0, 0, 255] + xs[:255] + compressed(sx, xs[255:])


def files_of(sx, items, sections, flags=0, summary=True, bindata=()):
    """items: (kind, id, ext, content)"""
    docinfo = head(16, 0, 26) + [0] * 26
    tree = {}
    for kind, no, ext, content in items:
        raw = [FLAGS[kind], 0]
        if kind == 'link':
            raw += bstr(u'C:\\x.png') + bstr(u'x.png')
        elif kind == 'embed':
            raw += [no & 0xff, no >> 8] + bstr(ext)
        else:
            raw += [no & 0xff, no >> 8]
        docinfo += head(18, 0, len(raw)) + raw

    def put(xs):
        return sx.from_bytes(compressed(sx, xs) if flags & 1 else xs)
    for no, ext, content in bindata or ():
        tree['BIN%04X.%s' % (no, ext)] = put(content)
    files = {'FileHeader': fileheader(sx, flags), 'DocInfo': put(docinfo),
             'BodyText': {}}
    for i, s in enumerate(sections):
        files['BodyText']['Section%d' % i] = put(s)
    if bindata is not None:
        files['BinData'] = tree
    if summary:
        files['\x05HwpSummaryInformation'] = full(
            sx, {'n': 2, 'order': 0}, True, only=-1)[0]
    return files


class opened(object):

    def __init__(self, sx, files):
        self.sx = sx
        self.files = files

    def __enter__(self):
        self.mods = Modules()
        files = {'a.hwp': self.files}
        self.mods.module('olefile', OleFileIO=lambda name: Ole(name, files),
                         isOleFile=lambda name: name in files)
        return self.sx.mod('hwp5.xmlmodel').Hwp5File('a.hwp')

    def __exit__(self, *exc):
        self.mods.restore()


def tree_of(sx, events):
    """elements: name, attributes, children and texts"""
    xm = sx.mod('hwp5.xmlmodel')
    root = ['', {}, []]
    stack = [root]
    for ev, item in events:
        if ev is xm.STARTEVENT:
            n = [item[0], item[1], []]
            stack[-1][2].append(n)
            stack.append(n)
        elif ev is xm.ENDEVENT:
            sx.check(len(stack) > 1 and stack[-1][0] == item,
                     'elements are nested')
            stack.pop()
        else:
            stack[-1][2].append(item)
    sx.check(len(stack) == 1 and len(root[2]) == 1, 'one element')
    return root[2][0]


def walk(node):
    yield node
    for k in node[2]:
        if isinstance(k, list):
            for x in walk(k):
                yield x


def value6(sx, v):
    """character of the alphabet"""
    return sx.ite(v < 26, v + 65, sx.ite(v < 52, v + 71, sx.ite(
        v < 62, v - 4, sx.ite(v == 62, 43, 47))))


def base64_lines(sx, xs):
    out = []
    for i in range(0, len(xs), 3):
        g = xs[i:i + 3]
        k = len(g)
        g = g + [0] * (3 - k)
        vs = [g[0] >> 2, (g[0] & 3) << 4 | g[1] >> 4,
              (g[1] & 15) << 2 | g[2] >> 6, g[2] & 63]
        cs = [value6(sx, v) for v in vs]
        if k < 3:
            cs = cs[:k + 1] + [0x3d] * (3 - k)
        out += cs
    lines = [10]
    for i in range(0, len(out), 64):
        lines += out[i:i + 64] + [10]
    if not out:
        lines += [10]
    return lines


def some_items(sx, p):
    items, stored = [], []
    for no, ext in zip(IDS, EXTS):
        n = p['sizes'][len(stored) % len(p['sizes'])] if p['sizes'] else 0
        xs = list(sx.bytes('d%d' % no, n)) if n <= 6 else \
            [(i * 7 + 3) & 255 for i in range(n)]
        if n > 6:
            xs[n - 2] = sx.u8('d%d' % no)
        stored.append((no, ext, xs))
    for i, kind in enumerate(p['kinds']):
        no = sx.u16('id%d' % i)
        sx.assume(sx.Or(*[no == x for x in IDS]))
        k = 0
        while k < 2 and no != IDS[k]:
            k += 1
        items.append((kind, no, EXTS[k], stored[k]))
    return items, stored


def is_blank(sx, x):
    return sx.And(*[sx.Or(c == 10, c == 13, c == 32, c == 9)
                    for c in sx.codepoints(x)])


def embed(sx, p):
    items, stored = some_items(sx, p)
    flags = sx.choice('compressed', [0, 1])
    files = files_of(sx, items, [], flags,
                     bindata=None if p.get('missing') else stored)
    with opened(sx, files) as hwp:
        if p['ask']:
            ev = hwp.xmlevents(embedbin=True)
        else:
            ev = hwp.xmlevents() if sx.choice('how', [0, 1]) else \
                hwp.xmlevents(embedbin=False)
        root = tree_of(sx, ev)
    sx.check(root[0] == 'HwpDoc', 'document')
    got = [n for n in walk(root) if n[0] == 'BinData']
    sx.check(len(got) == len(items), 'every item')
    names = {'link': 'BinDataLink', 'embed': 'BinDataEmbedding',
             'storage': 'BinDataStorage'}
    for n, (kind, no, ext, where) in zip(got, items):
        sx.check(n[1]['storage'] == {'link': 'link', 'embed': 'embedding',
                                     'storage': 'storage'}[kind], 'storage')
        inner = [x for x in n[2] if isinstance(x, list)]
        sx.check(len(inner) == 1 and inner[0][0] == names[kind],
                 'kind of item')
        text = [x for x in inner[0][2]]
        sx.check(not [x for x in text if isinstance(x, list)], 'no elements')
        sx.check(not [x for x in n[2] if not isinstance(x, list)], 'no text')
        if kind == 'embed' and p['ask'] and not p.get('missing'):
            sx.cover('embedded')
            all_text = u''
            for t in text:
                all_text = all_text + t
            want = base64_lines(sx, where[2])
            cps = sx.codepoints(all_text)
            if where[2]:
                sx.check(sx.eq(all_text, sx.from_codepoints(want)),
                         'content in base64')
            else:
                sx.check(is_blank(sx, all_text), 'no content')
            sx.check(inner[0][1].get('inline') == 'true', 'marked as inline')
        else:
            sx.check(not text, 'no content of others')
            sx.check('inline' not in inner[0][1], 'not marked as inline')
            sx.cover('other')
        if kind != 'link':
            want = u'BIN'
            for i in (12, 8, 4, 0):
                d = (no >> i) & 15
                want = want + sx.from_codepoints(
                    [sx.ite(d < 10, d + 48, d + 55)])
            sx.check(sx.eq(inner[0][1]['storage-id'], want), 'identifier')
        if kind == 'embed':
            sx.check(sx.eq(inner[0][1]['ext'], ext), 'extension')
    if not p['ask']:
        sx.cover('none')


def twice(sx, p):
    """the same whenever it is made, with and without embedding"""
    items, stored = some_items(sx, {'kinds': ['embed', 'link'],
                                    'sizes': [2]})
    files = files_of(sx, items, [], bindata=stored)
    with opened(sx, files) as hwp:
        seq = [sx.choice('ask%d' % i, [True, False]) for i in range(3)]
        for ask in seq:
            root = tree_of(sx, hwp.xmlevents(embedbin=ask))
            got = [x for n in walk(root) if n[0] == 'BinDataEmbedding'
                   for x in n[2]]
            sx.check(bool(got) == ask, 'embedded as asked for')
            if ask:
                k = items[0][3][2]
                sx.check(sx.eq(got[0], sx.from_codepoints(
                    base64_lines(sx, k))), 'content in base64')
    sx.cover('ok')


NUMBERED = {'Paragraph': 'paragraph-id', 'TableControl': 'table-id',
            'GShapeObjectControl': 'gshape-id', 'ShapeComponent': 'shape-id'}


def numbered(sx, root):
    counts = dict((k, 0) for k in NUMBERED)
    for n in walk(root):
        if n[0] in NUMBERED:
            a = NUMBERED[n[0]]
            sx.check(a in n[1] and n[1][a] == str(counts[n[0]]),
                     'number of ' + n[0])
            counts[n[0]] += 1
    return counts


def nest(sx, p, i, doc):
    """paragraphs with controls which hold paragraphs, in any order"""
    left = [p['n'] // p['sections'] + (i < p['n'] % p['sections'])]
    first = [i == 0]

    def para(depth):
        left[0] -= 1
        items = []
        if depth == 0 and first[0]:
            pass
        while left[0] > 0 and depth < 2:
            k = sx.choice(doc.name('k'), ['end', 'tbl ', 'gso '])
            if k == 'end':
                break
            left[0] -= 1
            if k == 'tbl ':
                items.append(('control', 'tbl ', {
                    'rows': [[[para(depth + 1)]]] if left[0] > 0 else []}))
            else:
                opts = {}
                if left[0] > 0:
                    opts['paras'] = [para(depth + 1)]
                items.append(('control', 'gso ', opts))
        return items
    out = [[('control', 'secd'), ('control', 'cold')]]
    while left[0] > 0:
        out.append(para(0))
    return [(x, 3) if j == 0 else x for j, x in enumerate(out)]


def count_of(nodes, counts):
    for n in nodes:
        if n[0] in counts:
            counts[n[0]] += 1
        count_of(n[2], counts)
    return counts


def ids(sx, p):
    """every paragraph, table and shape has a number of its own"""
    sections, want = [], dict((k, 0) for k in NUMBERED)
    for i in range(p['sections']):
        doc = Doc(sx, 's%d' % i)
        root = doc.section(nest(sx, p, i, doc))
        count_of([root], want)
        sections.append(list(doc.data()))
    files = files_of(sx, [], sections)
    with opened(sx, files) as hwp:
        root = tree_of(sx, hwp.xmlevents())
        sx.check(numbered(sx, root) == want, 'all elements are numbered')
        again = tree_of(sx, hwp.xmlevents())
        sx.check(numbered(sx, again) == want, 'the same again')
    sx.cover('ok')


def document_parts(sx, p, root, version):
    sx.check(root.tag == 'HwpDoc' and root.get('version') == version,
             'document')
    sx.check([x.tag for x in root] == ['HwpSummaryInfo', 'DocInfo',
                                       'BodyText'], 'parts')
    body = root[2]
    sx.check([x.tag for x in body] == ['SectionDef'] * p['sections'],
             'sections')
    sx.check([x.get('section-id') for x in body] ==
             [str(i) for i in range(p['sections'])], 'numbers of sections')


def document(sx, p):
    """the parts of a document, in order"""
    sections = []
    for i in range(p['sections']):
        doc = Doc(sx, 's%d' % i)
        doc.section([([('control', 'secd'), ('control', 'cold')], 3)] +
                    [[]] * i)
        sections.append([sx.concrete(x) for x in doc.data()])
    embed = sx.choice('embed', [True, False])
    flags = sx.choice('compressed', [0, 1])
    files = files_of(sx, [('embed', 1, 'png', None)], sections, flags,
                     bindata=[(1, 'png', [1, 2, 3])])
    with opened(sx, files) as hwp:
        f = Sink()
        decl = sx.choice('declaration', [True, False])
        hwp.xmlevents(embedbin=embed).dump(f, xml_declaration=decl)
        data = b''.join(f.chunks)
        sx.check(data.startswith(b'<?xml') == decl, 'declaration')
        root = ElementTree.fromstring(data)
        document_parts(sx, p, root, '5.0.3.4')
        text = root.findall('.//BinDataEmbedding')[0].text
        sx.check((text or '').split() == (['AQID'] if embed else []),
                 'content in base64')
        f = hwp.xmlevents(embedbin=embed).open(xml_declaration=decl)
        sx.check(f.read() == data, 'the same when opened as a file')
        f.close()
    sx.cover('ok')
