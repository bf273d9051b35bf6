# -*- coding: utf-8 -*-
"""Record framing."""
import io
import struct

PRELOAD = ['hwp5.recordstream']

COVERS = {
    'roundtrip': ['empty', 'several'],
    'header': ['short', 'extended'],
    'decode': ['record', 'end'],
}


def tasks(tier):
    out = []
    sizes = [[0], [1], [2], [7], [0, 0], [1, 0, 3], [4, 4, 4], [0, 2, 0, 1]]
    if tier == 'thorough':
        sizes += [[n] for n in range(3, 24)] + [[3, 0, 5, 0, 0], [1] * 8]
    for s in sizes:
        out.append(dict(fn='roundtrip', params={'sizes': s}))
    out.append(dict(fn='header', params={}))
    for n in range(0, 13 if tier == 'quick' else 21):
        out.append(dict(fn='decode', params={'n': n}))
    return out


def roundtrip(sx, p):
    rs = sx.mod('hwp5.recordstream')
    recs = []
    f = io.BytesIO()
    for i, n in enumerate(p['sizes']):
        r = rs.Record(sx.int('tag%d' % i, 0, 1023),
                      sx.int('level%d' % i, 0, 1023),
                      sx.bytes('p%d' % i, n))
        recs.append(r)
        rs.dump_record(f, r)
    f.seek(0)
    out = list(rs.read_records(f))
    if 0 in p['sizes']:
        sx.cover('empty')
    if len(p['sizes']) > 1:
        sx.cover('several')
    sx.check(len(out) == len(recs), 'number of records read back')
    for i, (a, b) in enumerate(zip(recs, out)):
        sx.check(sx.eq(a['tagid'], b['tagid']), 'tag id')
        sx.check(sx.eq(a['level'], b['level']), 'level')
        sx.check(sx.eq(a['payload'], b['payload']), 'payload')
        sx.check(sx.eq(b['size'], p['sizes'][i]), 'size')
        sx.check(b['seqno'] == i, 'seqno')
        sx.observe('rec', [b['tagid'], b['level'], b['payload']])


class Sized(object):
    """a payload of which only the length matters"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def header(sx, p):
    rs = sx.mod('hwp5.recordstream')
    tag = sx.int('tag', 0, 1023)
    level = sx.int('level', 0, 1023)
    size = sx.choice('size', [0, 1, 0xffe, 0xfff, 0x1000, 0x12345])
    hdr = rs.encode_record_header(dict(tagid=tag, level=level,
                                       payload=Sized(size)))
    sx.cover('short' if size < 0xfff else 'extended')
    sx.check(len(hdr) == (4 if size < 0xfff else 8), 'header length')
    word = struct.unpack('<I', hdr[:4])[0]
    s = size if size < 0xfff else 0xfff
    sx.check(sx.eq(word, tag | (level << 10) | (s << 20)), 'header layout')
    if size >= 0xfff:
        sx.check(sx.eq(struct.unpack('<I', hdr[4:])[0], size), 'ext size')
    got = rs.decode_record_header(io.BytesIO(hdr))
    sx.check(sx.eq(tuple(got), (tag, level, size)), 'header round trip')


def decode(sx, p):
    """arbitrary bytes: at most one record per 4 bytes, payloads are
    slices of the input in order"""
    rs = sx.mod('hwp5.recordstream')
    data = sx.bytes('d', p['n'])
    out = []
    truncated = False
    try:
        for r in rs.read_records(io.BytesIO(data)):
            out.append(r)
    except sx.mod('hwp5.dataio').ParseError:
        truncated = True
    if out:
        sx.cover('record')
    pos = 0
    for i, r in enumerate(out):
        w = struct.unpack('<I', data[pos:pos + 4])[0]
        sx.check(sx.eq(r['tagid'], w & 1023), 'tag id')
        sx.check(sx.eq(r['level'], (w >> 10) & 1023), 'level')
        pos += 4
        size = w >> 20
        if size == 0xfff:
            size = struct.unpack('<I', data[pos:pos + 4])[0]
            pos += 4
        sx.check(sx.eq(r['size'], size), 'size')
        sx.check(r['seqno'] == i, 'number')
        n = len(r['payload'])
        sx.check(sx.eq(n, size), 'the whole payload')
        sx.check(sx.eq(r['payload'], data[pos:pos + n]), 'payload')
        pos += n
    rest = data[pos:]
    if not truncated:
        sx.check(len(rest) == 0, 'nothing is left out silently')
        return
    sx.cover('end')
    sx.check(len(rest) > 0, 'complete streams are read')
    if len(rest) < 4:
        return
    w = struct.unpack('<I', rest[:4])[0]
    size, n = w >> 20, len(rest) - 4
    if size == 0xfff:
        if n < 4:
            return
        size, n = struct.unpack('<I', rest[4:8])[0], n - 4
    sx.check(size > n, 'complete records are read')
