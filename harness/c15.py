# -*- coding: utf-8 -*-
"""Compressed streams: whatever way they are read, the same contents."""
import io

from .cfb import Stream, deflate

PRELOAD = ['hwp5.compressed', 'hwp5.zlib_raw_codec', 'hwp5.filestructure',
           'hwp5.proc.rawunz', 'hwp5.storage.ole']

COVERS = {
    'whole': ['ok'],
    'damaged': ['raw'],
    'chunks': ['ok'],
    'reader': ['ok'],
    'incremental': ['ok'],
    'roundtrip': ['ok'],
    'large': ['ok'],
}
BOUNDS = {
    'quick': 'contents of 0..6 arbitrary bytes in one or two blocks cut '
             'anywhere, read with every buffer size of 1..8 and every '
             'sequence of three read sizes out of -1..4, from sources that '
             'return 1..all bytes at a time; streams cut anywhere; one '
             'stream of 20000 bytes',
    'thorough': 'contents of up to 9 bytes, four read sizes out of -1..9',
}
OUTSIDE = 'Huffman coded deflate blocks (zlib itself is trusted)'
ASSUMPTIONS = ['zlib follows its contract: the model inflates stored blocks '
               'exactly, and deflates into some valid stream']


def tasks(tier):
    q = tier == 'quick'
    top = 6 if q else 9
    out = []
    for n in (0, 1, top):
        out.append(dict(fn='whole', params={'n': n}))
        out.append(dict(fn='chunks', params={'n': n}))
        for short in (0, 1, 3):
            out.append(dict(fn='reader', params={
                'n': n, 'short': short, 'reads': 3 if q else 4,
                'max': 4 if q else 9}))
        out.append(dict(fn='roundtrip', params={'n': n}))
    for k in ('cut', 'type', 'length', 'garbage'):
        out.append(dict(fn='damaged', params={'kind': k}))
    for n in (0, 1, 3):
        out.append(dict(fn='incremental', params={'n': n}))
    for size in (1, 4096, 8196, 8197, 19999, 20000, 20001):
        out.append(dict(fn='large', params={'size': size}))
    return out


class Short(object):
    """a source that returns at most k bytes at a time"""

    def __init__(self, data, k):
        self.f = io.BytesIO(data)
        self.k = k

    def read(self, size=-1):
        if self.k and size > self.k:
            size = self.k
        return self.f.read(size)


def content(sx, p):
    xs = [sx.u8('x%d' % i) for i in range(p['n'])]
    cut = sx.choice('cut', [None, 0, 1, p['n'] // 2])
    return xs, deflate(xs, cut)


def whole(sx, p):
    co = sx.mod('hwp5.compressed')
    fs = sx.mod('hwp5.filestructure')
    xs, raw = content(sx, p)
    # what follows the end of the stream does not matter
    raw = raw + [sx.u8('after%d' % i)
                 for i in range(sx.choice('after', [0, 1, 3]))]
    raw = sx.from_bytes(raw)
    want = sx.from_bytes(xs)
    f = co.decompress(io.BytesIO(raw))
    sx.check(sx.eq(f.read(), want), 'content')
    f = co.decompress(io.BytesIO(raw))
    a = f.read(2)
    sx.check(sx.eq(a + f.read(), want), 'content in two parts')
    item = fs.CompressedStream(Stream(raw))
    for i in range(2):
        sx.check(sx.eq(item.open().read(), want), 'stream of a document')
    sx.cover('ok')


def damaged(sx, p):
    """what is not a deflate stream is handed out as it is"""
    fs = sx.mod('hwp5.filestructure')
    xs = [sx.u8('x%d' % i) for i in range(5)]
    kind = p['kind']
    if kind == 'cut':
        raw = deflate(xs, 2)
        raw = raw[:sx.choice('at', range(len(raw)))]
    elif kind == 'type':
        b = sx.u8('first')
        sx.assume(sx.eq(b & 6, 6))
        raw = [b] + xs
    elif kind == 'length':
        raw = deflate(xs)
        raw[3] = sx.u8('nlen')
        sx.assume(raw[3] != 250)
    else:
        raw = deflate(xs[:2])
        raw[0] = 0
        raw = raw + [7] + xs[2:]
    raw = sx.from_bytes(raw)
    item = fs.CompressedStream(Stream(raw))
    for i in range(2):
        sx.check(sx.eq(item.open().read(), raw), 'stream as it is')
    sx.cover('raw')


def chunks(sx, p):
    co = sx.mod('hwp5.compressed')
    xs, raw = content(sx, p)
    raw = sx.from_bytes(raw)
    want = sx.from_bytes(xs)
    size = sx.choice('bufsize', [1, 2, 3, 5, 8, len(raw), len(raw) + 1])
    got = b''.join(co.decompress_gen(io.BytesIO(raw), size))
    sx.check(sx.eq(got, want), 'content by chunks')
    sx.check(sx.eq(b''.join(co.decompress_gen(io.BytesIO(raw))), want),
             'content')
    f = co.decompress_experimental(io.BytesIO(raw), size)
    a = f.read(1)
    b = f.read(2)
    sx.check(len(a) == min(1, len(xs)), 'length of a part')
    sx.check(len(b) == min(2, max(0, len(xs) - 1)), 'length of a part')
    sx.check(sx.eq(a + b + f.read(), want), 'content in parts')
    dec = co.ZLibIncrementalDecoder(wbits=-15)
    for i in range(2):
        c = sx.choice('c%d' % i, range(0, len(raw) + 1, 3))
        got = dec.decode(raw[:c]) + dec.decode(raw[c:], True)
        sx.check(sx.eq(got, want), 'incremental decoding')
        dec.reset()
    sx.cover('ok')


def read_all(sx, r, sizes, want):
    """a reader behaves like a file over want"""
    pos = 0
    n = len(want)
    for s in sizes:
        d = r.read(s)
        k = n - pos if s < 0 else min(s, n - pos)
        sx.check(len(d) == k, 'length of what is read')
        sx.check(sx.eq(d, want[pos:pos + k]), 'what is read')
        pos += k
        sx.check(r.tell() == pos, 'position')


def reader(sx, p):
    zr = sx.mod('hwp5.zlib_raw_codec')
    xs, raw = content(sx, p)
    r = zr.StreamReader(Short(sx.from_bytes(raw), p['short']))
    sizes = [sx.choice('size%d' % i, range(-1, p['max'] + 1))
             for i in range(p['reads'])]
    want = sx.from_bytes(xs)
    read_all(sx, r, sizes, want)
    r = zr.StreamReader(Short(sx.from_bytes(raw), p['short']))
    sx.check(sx.eq(r.read(), want) if not p['short'] else True, 'all')
    sx.cover('ok')


def large(sx, p):
    zr = sx.mod('hwp5.zlib_raw_codec')
    xs = [i & 0xff for i in range(20000)]
    for i in (0, 1, 4095, 8190, 8191, 8196, 16383, 19999):
        xs[i] = sx.u8('x%d' % i)
    raw = sx.from_bytes(deflate(xs))
    want = sx.from_bytes(xs)
    size = p['size']
    r = zr.StreamReader(io.BytesIO(raw))
    if size == 1:
        sizes = [1, 9000, 1, -1]
    else:
        sizes = [size] * (20000 // size + 2)
    read_all(sx, r, sizes, want)
    co = sx.mod('hwp5.compressed')
    got = b''.join(co.decompress_gen(io.BytesIO(raw)))
    sx.check(sx.eq(got, want), 'content by chunks')
    sx.check(sx.eq(co.decompress(io.BytesIO(raw)).read(), want), 'content')
    sx.cover('ok')


def incremental(sx, p):
    zr = sx.mod('hwp5.zlib_raw_codec')
    parts = [sx.bytes('p%d' % i, sx.choice('n%d' % i, [0, 1, 2]))
             for i in range(p['n'])]
    want = b''
    for x in parts:
        want = want + x
    enc = zr.IncrementalEncoder()
    dec = zr.IncrementalDecoder()
    for k in range(2):
        out = b''
        for x in parts:
            out = out + enc.encode(x)
        out = out + enc.encode(b'', True)
        c = sx.choice('cut%d' % k, [0, 1, 5])
        got = dec.decode(out[:c]) + dec.decode(out[c:], True)
        sx.check(sx.eq(got, want), 'encoded and decoded')
        got, n = zr.zlib_raw_decode(out)
        sx.check(sx.eq(got, want), 'encoded incrementally, decoded at once')
        enc.reset()
        dec.reset()
    sx.cover('ok')


def roundtrip(sx, p):
    zr = sx.mod('hwp5.zlib_raw_codec')
    data = sx.bytes('d', p['n'])
    out, n = zr.zlib_raw_encode(data)
    sx.check(n == len(data), 'input consumed')
    back, m = zr.zlib_raw_decode(out)
    sx.check(m == len(out), 'input consumed')
    sx.check(sx.eq(back, data), 'encoded and decoded')
    c = zr.Codec()
    sx.check(sx.eq(c.decode(c.encode(data)[0])[0], data), 'codec')
    sx.check(sx.eq(zr.StreamReader(io.BytesIO(out)).read(), data), 'reader')
    sx.cover('ok')
