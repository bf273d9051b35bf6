# -*- coding: utf-8 -*-
"""Streams of a document are handed out decrypted and decompressed as the
flags of the file header say."""
from .cfb import (Storage, Stream, deflate, dist_key, fileheader, toy_cipher,
                  toy_encrypt)

PRELOAD = ['hwp5.filestructure', 'hwp5.xmlmodel', 'hwp5.distdoc',
           'hwp5.compressed', 'hwp5.storage.ole']

COVERS = {
    'layers': ['compressed', 'plain', 'password', 'distributable'],
    'sections': ['sorted'],
    'preview': ['text'],
    'extra': ['listed'],
}
BOUNDS = {
    'quick': 'all 32-bit flag words, payloads of 4 arbitrary bytes in every '
             'stream of a document; section names with numbers of up to 3 '
             'digits in any order; preview texts of 2 arbitrary characters',
    'thorough': 'the same with payloads of 12 arbitrary bytes, preview texts '
                'of 3 arbitrary characters',
}
OUTSIDE = 'AES and deflate themselves: streams are made of stored deflate '\
    'blocks, and the block cipher is a stand-in at the place where the '\
    'library is looked up'
ASSUMPTIONS = ['zlib and the AES of the library do what they should']

VIEWS = ('hwp5.filestructure', 'hwp5.recordstream', 'hwp5.binmodel',
         'hwp5.xmlmodel')


def tasks(tier):
    out = []
    n = 4 if tier == 'quick' else 12
    for view in VIEWS:
        for flags in range(8):
            out.append(dict(fn='layers', params={
                'view': view, 'flags': flags, 'n': n}))
    for k in range(4):
        out.append(dict(fn='sections', params={'case': k}))
    for n in range(0, 3 if tier == 'quick' else 4):
        out.append(dict(fn='preview', params={'n': n}))
    out.append(dict(fn='extra', params={}))
    return out


COMPRESSED = ('DocInfo', 'BodyText', 'ViewText', 'BinData', 'Scripts')
ENCRYPTED = ('ViewText', 'Scripts')
PATHS = ['DocInfo', 'BodyText/Section0', 'BodyText/Section1',
         'ViewText/Section0', 'ViewText/Section1', 'BinData/BIN0001.jpg',
         'BinData/BIN0002.OLE', 'Scripts/JScriptVersion',
         'Scripts/DefaultJScript', 'PrvText', 'PrvImage',
         'DocOptions/_LinkDoc', '\x05HwpSummaryInformation', 'Other',
         'XMLTemplate/Schema']


def head(seed):
    """the first record of an encrypted stream: 256 bytes"""
    payload = [(seed >> (8 * i)) & 0xff for i in range(4)] + \
        [(7 * i + 3) & 0xff for i in range(4, 256)]
    word = (16 + 12) | 256 << 20
    return [(word >> (8 * i)) & 0xff for i in range(4)], payload


def encrypted(xs, seed):
    h, payload = head(seed)
    xs = xs + [0] * (-len(xs) % 16)
    return h + payload + toy_encrypt(dist_key(payload)[:16], xs)


def build(sx, flags, n):
    items = {}
    contents = {}
    for k, path in enumerate(PATHS):
        plain = [sx.u8('p%d.%d' % (k, i)) for i in range(n)]
        top = path.split('/')[0]
        stored = plain
        want = plain
        if not flags & 2:
            if flags & 1 and top in COMPRESSED:
                stored = deflate(plain, n // 2)
            if flags & 4 and top in ENCRYPTED:
                if not flags & 1:
                    want = plain + [0] * (-n % 16)
                stored = encrypted(stored, 12345 * (k + 1))
        d = items
        names = path.split('/')
        for name in names[:-1]:
            d = d.setdefault(name, {})
        d[names[-1]] = Stream(sx.from_bytes(stored))
        contents[path] = (stored, sx.from_bytes(want))
    return items, contents


def layers(sx, p):
    flags = p['flags']
    rest = sx.u32('flags')
    sx.assume(sx.eq(rest & 7, flags))
    items, contents = build(sx, flags, p['n'])
    items['FileHeader'] = Stream(fileheader(sx, rest))
    with toy_cipher(sx):
        f = sx.mod(p['view']).Hwp5File(Storage(items))
        names = sorted(f)
        sx.check(names == sorted(items), 'names of the items')
        for path in PATHS:
            item = f
            for name in path.split('/'):
                item = item[name]
            stored, want = contents[path]
            for i in range(2):
                got = item.open().read()
                sx.check(sx.eq(got, want), 'content of ' + path)
        sx.check(sx.eq(f['FileHeader'].open().read(),
                       items['FileHeader'].data), 'file header')
        if flags & 2:
            sx.cover('password')
            return
        sx.check(sx.eq(f.docinfo.open().read(), contents['DocInfo'][1]),
                 'document info')
        sx.check(sx.eq(f.bodytext.section(1).open().read(),
                       contents['BodyText/Section1'][1]), 'body text')
        sx.check(sx.eq(f.viewtext.section(1).open().read(),
                       contents['ViewText/Section1'][1]), 'view text')
        top = 'ViewText' if flags & 4 else 'BodyText'
        for i, s in enumerate(f.text.sections):
            sx.check(sx.eq(s.open().read(),
                           contents['%s/Section%d' % (top, i)][1]),
                     'text of the document')
        sx.check(f.text.section_indexes() == [0, 1], 'sections')
        sx.check(sx.eq(f.summaryinfo.open().read(),
                       contents['\x05HwpSummaryInformation'][1]),
                 'summary information')
        sx.check(sx.eq(f.preview_text.open().read(),
                       contents['PrvText'][1]), 'preview text')
    sx.cover('compressed' if flags & 1 else 'plain')
    if flags & 4:
        sx.cover('distributable')


SECTIONS = [
    ['Section10', 'Section2', 'Section0', 'Section1'],
    ['Section100', 'Section99', 'Section9', 'Section0', 'Section20'],
    ['Section1', 'Section', 'SectionX', 'Other', 'Section0', 'xSection3'],
    [],
]


def sections(sx, p):
    fs = sx.mod('hwp5.filestructure')
    names = SECTIONS[p['case']]
    data = [sx.bytes('s%d' % i, 2) for i in range(len(names))]
    v = tuple(sx.u8('v%d' % i) for i in range(4))
    for mod in VIEWS:
        cls = sx.mod(mod).Sections
        secs = cls(Storage(dict((n, Stream(d))
                                for n, d in zip(names, data))), v)
        want = sorted(int(n[7:]) for n in names
                      if n[:7] == 'Section' and n[7:].isdigit())
        sx.check(secs.section_indexes() == want, 'numbers of sections')
        got = secs.sections
        sx.check(len(got) == len(want), 'number of sections')
        for i, s in zip(want, got):
            d = data[names.index('Section%d' % i)]
            sx.check(sx.eq(s.open().read(), d), 'section')
            sx.check(sx.eq(tuple(s.version), v), 'version of a section')
            sx.check(sx.eq(secs.section(i).open().read(), d),
                     'section by number')
        sx.check(sorted(secs) == sorted(names), 'names')
    sx.cover('sorted')


def preview(sx, p):
    fs = sx.mod('hwp5.filestructure')
    cps = []
    raw = []
    for i in range(p['n']):
        c = sx.int('c%d' % i, 0, 0x10ffff)
        sx.assume(sx.Or(c < 0xd800, c > 0xdfff))
        cps.append(c)
        if c < 0x10000:
            us = [c]
        else:
            us = [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + (c & 0x3ff)]
        for u in us:
            raw += [u & 0xff, u >> 8]
    stg = Storage({'FileHeader': Stream(fileheader(sx, 1)),
                   'PrvText': Stream(sx.from_bytes(raw))})
    f = fs.Hwp5File(stg)
    text = sx.from_codepoints(cps)
    sx.check(sx.eq(f.preview_text.text, text), 'text')
    sx.check(sx.eq(f.preview_text.utf8, text.encode('utf-8')), 'utf-8')
    fmt = f.preview_text.other_formats()
    sx.check(list(fmt) == ['.utf8'], 'formats')
    sx.check(sx.eq(fmt['.utf8']().read(), text.encode('utf-8')),
             'utf-8 stream')
    sx.check(sx.eq(f.preview_text.open().read(), sx.from_bytes(raw)),
             'stream')
    sx.cover('text')


def extra(sx, p):
    """converted forms of streams are listed next to them"""
    fs = sx.mod('hwp5.filestructure')
    st = sx.mod('hwp5.storage')
    data = sx.bytes('d', 2)
    stg = Storage({'FileHeader': Stream(fileheader(sx, 0)),
                   'PrvText': Stream(sx.from_bytes([65, 0])),
                   'DocInfo': Stream(data),
                   'BodyText': {'Section0': Stream(data)}})
    f = st.ExtraItemStorage(fs.Hwp5File(stg))
    names = list(f)
    sx.check(names == ['FileHeader', 'FileHeader.txt', 'PrvText',
                       'PrvText.utf8', 'DocInfo', 'BodyText'], 'names')
    for n in names:
        item = f[n]
        sx.check(st.is_storage(item) == (n == 'BodyText'), 'kind of item')
    sx.check(sx.eq(f['PrvText.utf8'].open().read(), b'A'), 'converted form')
    sx.check(sx.eq(f['DocInfo'].open().read(), data), 'stream')
    sx.check(sx.eq(f['BodyText']['Section0'].open().read(), data), 'stream')
    for missing in ('Nothing', 'DocInfo.txt', 'FileHeader.utf8', 'txt'):
        try:
            f[missing]
            sx.fail('missing items are reported')
        except KeyError:
            pass
    sx.check(list(st.iter_storage_leafs(f)) == [
        'FileHeader', 'FileHeader.txt', 'PrvText', 'PrvText.utf8', 'DocInfo',
        'BodyText/Section0'], 'leafs')
    sx.cover('listed')
