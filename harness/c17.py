# -*- coding: utf-8 -*-
"""Generated contents offered as files: reading behaves like a file."""
import io

PRELOAD = ['hwp5.utils', 'hwp5.filestructure', 'hwp5.recordstream']

COVERS = {
    'bytes': ['ok', 'more', 'enough'],
    'text': ['ok', 'more', 'enough'],
    'json': ['ok', 'none'],
    'formats': ['ok'],
}
BOUNDS = {
    'quick': 'contents delivered in up to 3 chunks of 0..2 arbitrary bytes or '
             'characters, every sequence of 3 read sizes out of none, -1, '
             '0, 1, 2, 4 and one beyond the end; arrays of up to 2 objects '
             'with texts of one arbitrary character',
    'thorough': 'up to 2 chunks of 0..3 or 3 of 0..2, sequences of 4 read '
                'sizes out of these (and 3, 5); arrays of up to 3 objects',
}
OUTSIDE = 'reading after closing'
ASSUMPTIONS = []

SIZES = [None, -1, 0, 1, 2, 4, 100]


def tasks(tier):
    q = tier == 'quick'
    out = []
    for kind in ('bytes', 'text'):
        for n in range(4):
            for first in SIZES:
                out.append(dict(fn='reader', params={
                    'kind': kind, 'chunks': n, 'first': first,
                    'lens': 3 if q or n == 3 else 4,
                    'reads': 2 if q else 3, 'beyond': not q and n < 3}, case=kind))
    for n in range(3 if q else 4):
        out.append(dict(fn='objects', params={'n': n}, case='json'))
    out.append(dict(fn='formats', params={}, case='formats'))
    return out


def file_like(sx, r, sizes, want, empty):
    """r reads like a file over want"""
    pos = 0
    n = len(want)
    for s in sizes:
        d = r.read() if s is None else r.read(s)
        k = n - pos if s is None or s < 0 else min(s, n - pos)
        sx.check(len(d) == k, 'length of what is read')
        sx.check(sx.eq(d, want[pos:pos + k]), 'what is read')
        sx.check(isinstance(d, type(empty)), 'kind of what is read')
        sx.cover('enough' if s is not None and 0 <= s <= n - pos else 'more')
        pos += k
    d = r.read()
    sx.check(sx.eq(d, want[pos:]), 'the rest')
    sx.check(len(r.read(1)) == 0, 'nothing after the end')
    sx.check(len(r.read()) == 0, 'nothing after the end')


def deliver(chunks, log):
    for x in chunks:
        yield x
    log.append('end')


def reader(sx, p):
    ut = sx.mod('hwp5.utils')
    chunks = []
    for i in range(p['chunks']):
        k = sx.choice('len%d' % i, range(p['lens']))
        if p['kind'] == 'bytes':
            chunks.append(sx.bytes('x%d' % i, k))
        else:
            chunks.append(sx.text('x%d' % i, k))
    empty = b'' if p['kind'] == 'bytes' else u''
    want = empty
    for x in chunks:
        want = want + x
    more = [3, 5] if p['beyond'] else []
    sizes = [p['first']] + [sx.choice('size%d' % i, SIZES + more)
                            for i in range(p['reads'])]
    log = []
    if p['kind'] == 'bytes':
        r = ut.GeneratorReader(deliver(chunks, log))
    else:
        r = ut.GeneratorTextReader(deliver(chunks, log))
    file_like(sx, r, sizes, want, empty)
    sx.check(log == ['end'], 'all chunks are fetched, once')
    r.close()
    sx.cover('ok')


def scalar(sx, name):
    c = sx.int(name, 0, 0x10ffff)
    sx.assume(sx.Or(c < 0xd800, c > 0xdfff))
    return sx.from_codepoints([c])


def objects(sx, p):
    """the text of an array of objects, and its bytes"""
    ut = sx.mod('hwp5.utils')
    texts = [scalar(sx, 'c%d' % i) for i in range(p['n'])]
    seen = []

    def to_json(obj, **kwargs):
        seen.append(kwargs)
        return texts[obj]

    want = u'[\n'
    for i, t in enumerate(texts):
        if i:
            want = want + u',\n'
        want = want + t
    want = want + u'\n]'

    def array(**kwargs):
        return ut.JsonObjects(range(p['n']), to_json)

    out = io.StringIO()
    array().dump(out)
    if not texts:
        want = u'[\n]'
    sx.check(sx.eq(out.getvalue(), want), 'text written')
    for kw in seen:
        sx.check(kw == {'sort_keys': True, 'indent': 2}, 'options')
    del seen[:]
    sx.check(sx.eq(u''.join(array().generate(indent=1)), want), 'text')
    for kw in seen:
        sx.check(kw == {'sort_keys': True, 'indent': 1}, 'options')
    data = want.encode('utf-8')
    f = array().open()
    sizes = [sx.choice('s%d' % i, [None, 0, 1, 3, 4, 100]) for i in range(2)]
    file_like(sx, f, sizes, data, b'')
    sx.cover('ok' if p['n'] else 'none')


def formats(sx, p):
    """an extra format of a stream made of one text"""
    fs = sx.mod('hwp5.filestructure')
    from . import cfb
    item = fs.PreviewText(cfb.Stream(sx.from_bytes([65, 0, 66, 0, 67, 0])))
    c = scalar(sx, 'c')
    data = (c + u'xyz').encode('utf-16le')
    item = fs.PreviewText(cfb.Stream(data))
    func = item.other_formats()['.utf8']
    sx.check(sx.eq(func().read(), (c + u'xyz').encode('utf-8')), 'text')
    sx.cover('ok')
