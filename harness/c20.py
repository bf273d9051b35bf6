# -*- coding: utf-8 -*-
"""JSON and hex dumps show all of a record or model."""
import io
import json

from . import spec
from .c04 import arbitrary_version, build, fix_counts
from .cfb import Storage, Stream, fileheader

PRELOAD = ['hwp5.binmodel', 'hwp5.recordstream', 'hwp5.dataio',
           'hwp5.filestructure', 'hwp5.storage.ole', 'hwp5.xmlmodel']

COVERS = {
    'dump': ['ok'],
    'record': ['ok'],
    'stream': ['records', 'models', 'again'],
    'model': ['ok', 'unparsed'],
    'text': ['ok'],
}
BOUNDS = {
    'quick': 'dumps of 0..2, 15..18, 31..33 arbitrary bytes with and without '
             'offsets (and 300 bytes, some arbitrary); records of any tag, '
             'level and sequence number; one model of every record and '
             'control kind in two versions with any text of an '
             'arbitrary character in four kinds (and all fields arbitrary for one kind), 0 or 3 '
             'arbitrary bytes left; streams of up to 3 records, whole, by range and by '
             'group; texts of an arbitrary code unit',
    'thorough': 'the same and all lengths up to 48',
}
OUTSIDE = 'the json library itself (it turns texts and numbers into '\
    'literals); not-a-number and infinite floating point values'
ASSUMPTIONS = ['the model of json.dumps in the engine lays out values as the '
               'library does (checked by replaying on the library)']


def tasks(tier):
    q = tier == 'quick'
    out = []
    for n in ([0, 1, 2, 15, 16, 17, 18, 31, 32, 33] if q else
              range(49)):
        out.append(dict(fn='dump', params={'n': n}))
    out.append(dict(fn='dump', params={'n': 300}))
    for n in (0, 1, 17) if not q else (0, 1, 16):
        out.append(dict(fn='record', params={'n': n}))
    for n in range(4):
        out.append(dict(fn='stream', params={'n': n}))
    for kind in sorted(spec.KINDS):
        if kind.startswith('Field') and kind not in TEXT:
            # one layout for all fields
            continue
        opts = {}
        if kind in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
            opts = {'n': 1}
        elif kind == 'ShapeComponent':
            opts = {'chid': '$rec', 'nsr': 0, 'fill_flags': 0}
        parents = list(spec.PARENTS.get(kind, ()))
        tree = [[i, p, 'zero', {}] for i, p in enumerate(parents)]
        if kind == 'TableCell':
            tree = [[0, 'TableControl', 'zero', {}],
                    [1, 'TableBody', 'zero', {}]]
            lv = 1
        else:
            lv = len(tree)
        mode = 'sym' if kind in SYM else 'text' if kind in TEXT else 'zero'
        tree.append([lv, kind, mode, opts])
        task = dict(fn='model', params={'tree': tree, 'bstr': [0, 1]})
        if mode == 'sym':
            task['opts'] = {'min_s': 150}
        out.append(task)
    out.append(dict(fn='text', params={}))
    return out


SYM = ('CompatibleDocument',)
TEXT = ('FaceName', 'FieldHyperLink', 'BookmarkControlData', 'Numbering')


def digit(sx, d):
    return d + 48 + sx.ite(d > 9, 39, 0)


def hex_lines(sx, xs, crust=False):
    """16 bytes to a line; at least one line"""
    out = []
    for i in range(0, max(1, len(xs)), 16):
        if i and i >= len(xs):
            break
        line = [ord(c) for c in '%06x: ' % i] if crust else []
        for k, b in enumerate(xs[i:i + 16]):
            if k:
                line.append(32)
            line.append(digit(sx, b >> 4))
            line.append(digit(sx, b & 15))
        out.append(sx.from_codepoints(line))
    return out


def same_lines(sx, got, want, where):
    sx.check(len(got) == len(want), where + ': lines')
    for a, b in zip(got, want):
        sx.check(sx.eq(a, b), where)


def dump(sx, p):
    dio = sx.mod('hwp5.dataio')
    n = p['n']
    if n == 300:
        xs = [i & 0xff for i in range(n)]
        for i in (0, 15, 16, 255, 256, 271, 272, 299):
            xs[i] = sx.u8('x%d' % i)
    else:
        xs = [sx.u8('x%d' % i) for i in range(n)]
    data = sx.from_bytes(xs)
    same_lines(sx, list(dio.dumpbytes(data)), hex_lines(sx, xs), 'dump')
    got = list(dio.dumpbytes(data, True))
    sx.check(got[0].split() == ['%X' % i for i in range(16)], 'columns')
    same_lines(sx, got[1:], hex_lines(sx, xs, True), 'dump with offsets')
    got = dio.hexdump(data)
    sx.check(sx.eq(got, u'\n'.join(hex_lines(sx, xs))), 'dump as one text')
    got = dio.hexdump(data, True)
    sx.check(sx.eq(got.split(u'\n', 1)[1],
                   u'\n'.join(hex_lines(sx, xs, True))), 'with offsets')
    sx.cover('ok')


def ser(x, level=0):
    """JSON with sorted keys, two spaces deep"""
    nl = u'\n' + u'  ' * (level + 1)
    if isinstance(x, dict):
        if not x:
            return u'{}'
        parts = [json.dumps(k) + u': ' + ser(x[k], level + 1)
                 for k in sorted(x)]
        return u'{' + nl + (u',' + nl).join(parts) + u'\n' + \
            u'  ' * level + u'}'
    if isinstance(x, (list, tuple)):
        if not x:
            return u'[]'
        parts = [ser(y, level + 1) for y in x]
        return u'[' + nl + (u',' + nl).join(parts) + u'\n' + \
            u'  ' * level + u']'
    if isinstance(x, bytes):
        return json.dumps(x.decode('latin1'))
    return json.dumps(x)


def record_value(sx, r):
    v = {'tagid': r['tagid'], 'tagname': r['tagname'],
         'level': r['level'], 'size': r['size'],
         'payload': hex_lines(sx, list(r['payload']))}
    if 'seqno' in r:
        v['seqno'] = r['seqno']
    return v


def record(sx, p):
    rs = sx.mod('hwp5.recordstream')
    payload = sx.bytes('p', p['n'])
    r = rs.Record(sx.choice('tag', [0, 16, 66, 115, 300, 1023]), sx.int('level', 0, 1023), payload,
                  seqno=sx.choice('seq', [None, 0, 12345]))
    sx.check(sorted(x for x in r if x != 'seqno') == [
        'level', 'payload', 'size', 'tagid', 'tagname'], 'entries')
    want = ser(record_value(sx, r))
    for i in range(2):
        got = rs.record_to_json(r, sort_keys=True, indent=2)
        sx.check(sx.eq(got, want), 'record')
        sx.check(sx.eq(r['payload'], payload), 'record is left as it is')
    sx.cover('ok')


def array(values):
    return u'[\n' + u',\n'.join(ser(v) for v in values) + u'\n]'


def model_value(sx, m):
    v = {}
    for k in m:
        if k == 'binevents':
            continue
        v[k] = m[k]
    v['type'] = m['type'].__name__
    v['payload'] = hex_lines(sx, list(m['payload']))
    if 'unparsed' in m:
        v['unparsed'] = hex_lines(sx, list(m['unparsed']))
    return v


def read(f):
    try:
        return f.read()
    finally:
        f.close()


def stream(sx, p):
    """the records and models of a stream in one array"""
    n = p['n']
    rs = sx.mod('hwp5.recordstream')
    bm = sx.mod('hwp5.binmodel')
    st = sx.mod('hwp5.storage')
    recs = []
    levels = [0] + [sx.choice('lv%d' % i, [0, 1]) for i in range(1, n)]
    for i in range(n):
        recs.append(rs.Record(400 if i else 16, levels[i],
                              sx.bytes('p%d' % i, 2) if i else
                              sx.from_bytes([0] * 26), seqno=i))
    out = io.BytesIO()
    for r in recs:
        rs.dump_record(out, r)
    data = out.getvalue()
    for m in (rs, bm):
        f = m.Hwp5File(Storage({
            'FileHeader': Stream(fileheader(sx, 0)),
            'DocInfo': Stream(data)}))
        want = [record_value(sx, r) for r in recs]
        docinfo = f.docinfo
        out = io.StringIO()
        docinfo.records_json().dump(out)
        sx.check(sx.eq(out.getvalue(), array(want)) if n else
                 out.getvalue().split() == ['[', ']'], 'records of a stream')
        if n:
            a = sx.choice('from', range(n))
            b = sx.choice('to', range(a + 1, n + 1))
            got = u''.join(docinfo.records_json(range=(a, b)).generate())
            sx.check(sx.eq(got, array(want[a:b])), 'range of records')
            got = u''.join(docinfo.records_json(treegroup=0).generate())
            k = 1
            while k < n and levels[k] > 0:
                k += 1
            sx.check(sx.eq(got, array(want[:k])), 'group of records')
            item = st.ExtraItemStorage(f)['DocInfo.records']
            for i in range(2):
                got = read(item.open())
                sx.check(sx.eq(got, array(want).encode('ascii')),
                         'records as a stream')
                sx.cover('again' if i else 'records')
    if not n:
        return
    want = [model_value(sx, m) for m in docinfo.models()]
    sx.check(len(want) == n, 'one model for each record')
    item = st.ExtraItemStorage(f)['DocInfo.models']
    for i in range(2):
        got = read(item.open())
        sx.check(sx.eq(got, array(want).encode('ascii')),
                 'models as a stream')
    out = io.StringIO()
    docinfo.models_json().dump(out)
    sx.check(sx.eq(out.getvalue(), array(want)), 'models of a stream')
    got = u''.join(docinfo.models_json(treegroup=0).generate())
    sx.check(sx.eq(got, array(want[:k])), 'group of models')
    sx.cover('models')


def model(sx, p):
    bm = sx.mod('hwp5.binmodel')
    version = sx.choice('version', [(5, 0, 0, 0), (5, 0, 3, 4)])
    tail = sx.choice('tail', [0, 3])
    records, want = build(sx, fix_counts(p['tree']), version, p, tail)
    models = list(bm.parse_models(dict(version=version), records))
    m = models[-1]
    before = dict(m)
    value = model_value(sx, m)
    for k in ('type', 'content', 'tagname', 'tagid', 'level', 'seqno',
              'size', 'payload'):
        sx.check(k in value, 'entries of a model')
    want = ser(value)
    for i in range(2):
        got = bm.model_to_json(m, sort_keys=True, indent=2)
        sx.check(sx.eq(got, want), 'model')
    for k in before:
        sx.check(k in m and m[k] is before[k], 'model is left as it is')
    if tail:
        sx.check(sx.eq(value['unparsed'][-1], hex_lines(
            sx, list(records[-1]['payload'])[-3:])[0]), 'bytes left')
    sx.cover('unparsed' if tail else 'ok')


def text(sx, p):
    """text and control characters of a paragraph"""
    bm = sx.mod('hwp5.binmodel')
    rs = sx.mod('hwp5.recordstream')
    xs = []
    for i in range(1):
        c = sx.u16('c%d' % i)
        sx.assume(sx.And(c > 31, sx.Or(c < 0xd800, c > 0xdfff)))
        xs += [c & 255, c >> 8]
    ctl = sx.choice('ctl', [0x0d, 0x09, 0x0b])
    if ctl != 0x0d:
        xs += [ctl, 0] + [sx.u8('t%d' % i) for i in range(2)] + [0] * 10 + [ctl, 0]
    else:
        xs += [13, 0]
    r = [rs.Record(66, 0, sx.from_bytes([0] * 22), seqno=0),
         rs.Record(67, 1, sx.from_bytes(xs), seqno=1)]
    m = list(bm.parse_models(dict(version=(5, 0, 1, 7)), r))[1]
    sx.check(m['type'].__name__ == 'ParaText', 'text of a paragraph')
    value = model_value(sx, m)
    got = bm.model_to_json(m, sort_keys=True, indent=2)
    sx.check(sx.eq(got, ser(value)), 'model')
    sx.cover('ok')
