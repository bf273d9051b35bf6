# -*- coding: utf-8 -*-
"""Streams of distribution documents: key and contents."""
from .cfb import Storage, Stream, dist_key, fileheader, toy_cipher, \
    toy_encrypt

PRELOAD = ['hwp5.filestructure', 'hwp5.distdoc', 'hwp5.recordstream',
           'hwp5.storage.ole']

COVERS = {
    'key': ['ok'],
    'upper': ['ok'],
    'content': ['ok'],
    'wrongtag': ['refused', 'read'],
    'wrongsize': ['refused'],
    'parts': ['ok'],
    'unaligned': ['refused'],
}
BOUNDS = {
    'quick': 'every seed that ends in one of 23 values of 20 bits; '
             '40 seeds (the corners and all 16 offsets), for each all '
             'contents of the 252 bytes after the seed; every tag of the '
             'first record; encrypted parts of 0..2 blocks of arbitrary bytes',
    'thorough': 'the same with 200 endings, 400 seeds and up to 4 blocks',
}
OUTSIDE = 'other endings of seeds; AES itself (a stand-in combines '\
    'blocks and key)'
ASSUMPTIONS = ['the key derivation in harness/cfb.py, written from its '
               'published description']


def seeds(n):
    out = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x0000ffff, 0xffff0000]
    out += list(range(16, 32))
    x = 20101118
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0xffffffff
        out.append(x)
    return out


def tasks(tier):
    q = tier == 'quick'
    out = [dict(fn='upper', params={'low': x & 0xfffff})
           for x in (seeds(40)[17:] if q else seeds(200))]
    ss = seeds(40 if q else 400)
    for i in range(0, len(ss), 5 if q else 20):
        out.append(dict(fn='key', params={'seeds': ss[i:i + (5 if q else
                                                            20)]}))
    for n in range(0, 3 if q else 5):
        out.append(dict(fn='content', params={'blocks': n}))
        out.append(dict(fn='parts', params={'blocks': n}))
    out.append(dict(fn='wrongtag', params={}))
    for n in (0, 4, 255, 257, 512):
        out.append(dict(fn='wrongsize', params={'n': n}))
    for n in (1, 15, 17):
        out.append(dict(fn='unaligned', params={'n': n}))
    return out


def header(tag, size, level=0):
    word = tag | level << 10 | size << 20
    return [(word >> (8 * i)) & 0xff for i in range(4)]


def first(sx, seed, symbolic=True):
    return [(seed >> (8 * i)) & 0xff for i in range(4)] + \
        [sx.u8('h%d' % i) if symbolic else (i * 37) & 0xff
         for i in range(4, 256)]


M = (1 << 32) - 1


def upper(sx, p):
    """every seed that ends in the 20 bits given: they alone decide for how
    many bytes each value of the generator is used"""
    low = p['low']
    high = sx.int('high', 0, 0xfff)
    seed = high << 20 | low
    payload = [low & 0xff, low >> 8 & 0xff, (high & 0xf) << 4 | low >> 16,
               high >> 4] + [sx.u8('h%d' % i) if i % 16 == 5 else
                             (i * 37) & 0xff for i in range(4, 256)]
    # the state is a * seed + b
    a, b = 1, 0
    values = []
    while len(values) < 100:
        a, b = a * 214013 & M, (b * 214013 + 2531011) & M
        value = ((seed * a + b) >> 16) & 0xff
        a, b = a * 214013 & M, (b * 214013 + 2531011) & M
        run = (((low * a + b) >> 16) & 0xf) + 1
        values += [value] * run
    start = 4 + low % 16
    want = [payload[i] ^ values[i] for i in range(start, start + 80)]
    s = stream_of(sx, header(28, 256) + payload)
    got = list(s.head_sha1())
    sx.check(len(got) == 80, 'length of the key text')
    for x, y in zip(got, want):
        sx.check(sx.eq(x, y), 'digest text')
    sx.cover('ok')


def stream_of(sx, raw):
    fs = sx.mod('hwp5.filestructure')
    return fs.Hwp5DistDocStream(Stream(sx.from_bytes(raw)), None)


def key(sx, p):
    seed = sx.choice('seed', p['seeds'])
    payload = first(sx, seed)
    want = dist_key(payload, seed)
    s = stream_of(sx, header(28, 256) + payload)
    sx.check(sx.eq(list(s.head_sha1()), want), 'digest text')
    sx.check(sx.eq(list(s.head_key()), want[:16]), 'key')
    sx.check(sx.eq(list(s.head()), payload), 'head is not changed')
    sx.cover('ok')


def content(sx, p):
    payload = first(sx, 77777, False)
    # the bytes the key comes from
    start = 4 + 77777 % 16
    for i in range(16):
        payload[start + i] = sx.u8('k%d' % i)
    k = dist_key(payload, 77777)[:16]
    plain = [sx.u8('p%d' % i) for i in range(16 * p['blocks'])]
    raw = sx.from_bytes(header(28, 256) + payload + toy_encrypt(k, plain))
    with toy_cipher(sx):
        fs = sx.mod('hwp5.filestructure')
        s = stream_of(sx, raw)
        for i in range(2):
            sx.check(sx.eq(s.open().read(), sx.from_bytes(plain)),
                     'content')
        sx.check(sx.eq(s.tail_decrypted(), sx.from_bytes(plain)), 'tail')
        stg = Storage({'FileHeader': Stream(fileheader(sx, 4)),
                       'ViewText': {'Section0': Stream(raw)},
                       'Scripts': {'JScriptVersion': Stream(raw)}})
        f = fs.Hwp5File(stg)
        sx.check(sx.eq(f.text.section(0).open().read(),
                       sx.from_bytes(plain)), 'text of the document')
        sx.check(sx.eq(f['Scripts']['JScriptVersion'].open().read(),
                       sx.from_bytes(plain)), 'scripts of the document')
    sx.cover('ok')


def parts(sx, p):
    payload = first(sx, 4242)
    tail = [sx.u8('t%d' % i) for i in range(16 * p['blocks'])]
    s = stream_of(sx, header(28, 256) + payload + tail)
    sx.check(sx.eq(s.head(), sx.from_bytes(payload)), 'head')
    sx.check(sx.eq(s.head_stream().read(), sx.from_bytes(payload)), 'head')
    sx.check(sx.eq(s.tail(), sx.from_bytes(tail)), 'tail')
    sx.check(sx.eq(s.tail_stream().read(), sx.from_bytes(tail)), 'tail')
    r = s.head_record()
    sx.check(sx.eq(r['payload'], sx.from_bytes(payload)), 'head record')
    sx.check(r['tagid'] == 28 and r['level'] == 0 and r['size'] == 256,
             'head record')
    sx.cover('ok')


def wrongtag(sx, p):
    tag = sx.int('tag', 0, 1023)
    level = sx.int('level', 0, 1023)
    payload = first(sx, 99, False)
    s = stream_of(sx, header(tag, 256, level) + payload)
    with toy_cipher(sx):
        try:
            s.open().read()
        except IOError:
            sx.check(tag != 28, 'the record of a distribution document')
            sx.cover('refused')
            return
    sx.check(sx.eq(tag, 28), 'streams without key are refused')
    sx.cover('read')


def wrongsize(sx, p):
    payload = (first(sx, 99, False) * 2)[:p['n']]
    s = stream_of(sx, header(28, p['n']) + payload)
    with toy_cipher(sx):
        for f in (s.head_sha1, s.head_key, lambda: s.open().read()):
            try:
                f()
                sx.fail('a head of another size is refused')
            except ValueError:
                pass
    sx.cover('refused')


def unaligned(sx, p):
    payload = first(sx, 99, False)
    s = stream_of(sx, header(28, 256) + payload + [sx.u8('x%d' % i)
                                                  for i in range(p['n'])])
    with toy_cipher(sx):
        try:
            s.open().read()
            sx.fail('incomplete blocks are refused')
        except ValueError:
            sx.cover('refused')
