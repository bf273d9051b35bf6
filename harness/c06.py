# -*- coding: utf-8 -*-
"""Damaged records are reported as such."""
from . import spec
from .spec import Builder
from .c04 import fix_counts

PRELOAD = ['hwp5.binmodel', 'hwp5.filestructure']

COVERS = {
    'cut': ['error', 'complete'],
    'hostile': ['error', 'model'],
    'huge': ['error'],
    'stream': ['error'],
}
BOUNDS = {
    'quick': 'every record kind cut at every byte, fields arbitrary for the '
             'smaller kinds and zero for the larger ones; arbitrary payloads '
             'of 0, 1, 3 and 5 bytes for every kind; item counts over the whole '
             'range of their width in payloads holding at most 3 items',
    'thorough': 'the same with arbitrary fields for every kind and '
                'arbitrary payloads of 0..8 bytes',
}
OUTSIDE = 'text cut in the middle (the readers keep what is there); '\
    'payloads longer than the bound'


def trees():
    out = []
    for kind in sorted(spec.KINDS):
        v = {}
        if kind in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
            v = {'n': 2}
        elif kind == 'ShapeComponent':
            v = {'chid': '$rec', 'nsr': 1, 'fill_flags': 0x700}
        parents = list(spec.PARENTS.get(kind, ()))
        if kind == 'TableCell':
            tree = [[0, 'TableControl', 'zero', {}],
                    [1, 'TableBody', 'zero', {}], [1, kind, 'zero', v]]
        else:
            tree = [[i, p, 'zero', {}] for i, p in enumerate(parents)]
            tree.append([len(tree), kind, 'zero', v])
        out.append(fix_counts(tree))
    return out


def tasks(tier):
    out = []
    for tree in trees():
        kind = tree[-1][1]
        parts = 4 if kind in LARGE else 1
        for part in range(parts):
            out.append(dict(fn='cut', params={
                'tree': tree, 'part': part, 'parts': parts}))
            if kind in SMALL or tier == 'thorough':
                t = [list(x) for x in tree]
                t[-1][2] = 'sym'
                out.append(dict(fn='cut', params={
                    'tree': t, 'part': part, 'parts': parts}))
        if kind == 'ParaText':
            continue
        for n in (0, 1, 3, 5) if tier == 'quick' else range(0, 9):
            out.append(dict(fn='hostile', params={'tree': tree, 'n': n}))
    for case in sorted(HUGE):
        out.append(dict(fn='huge', params={'case': case}))
    out.append(dict(fn='stream', params={}))
    for t in out:
        if t['fn'] == 'cut' and tier == 'thorough':
            t['opts'] = {'min_s': 200.0}
    return out


LARGE = ('Numbering', 'ShapeComponent', 'ShapePicture', 'SectionDefData',
         'FaceName', 'BorderFill', 'CharShape', 'Dutmal')
SMALL = ('BinData', 'TabDef', 'Style', 'Bullet', 'CharShape',
         'ParaShape', 'PageDef', 'FootnoteShape', 'ColumnsDef', 'TableBody',
         'FieldHyperLink', 'BookmarkControlData', 'IndexMarker',
         'ParaCharShape')


def records_of(sx, tree, version, payload=None):
    rs = sx.mod('hwp5.recordstream')
    records = []
    for i, (level, k, mode, o) in enumerate(tree):
        tagid, layout = spec.KINDS[k]
        b = Builder(sx, 'r%d' % i, version, mode, dict(o, bstr=(0, 1)))
        if i == len(tree) - 1 and payload is not None:
            records.append(rs.Record(tagid, level, payload, seqno=i))
            break
        layout(b)
        records.append(rs.Record(tagid, level, sx.from_bytes(b.out),
                                 seqno=i))
    return records, b


def parse(sx, version, records):
    """(models, error)"""
    bm = sx.mod('hwp5.binmodel')
    dio = sx.mod('hwp5.dataio')
    models = []
    try:
        for m in bm.parse_models(dict(version=version, path='Section7',
                                      treegroup=3), records):
            models.append(m)
    except dio.ParseError as e:
        return models, e
    return models, None


def check_error(sx, e, records, models):
    sx.check(len(models) == len(records) - 1,
             'the records before the damaged one are read')
    sx.check(e.record is not None, 'the error names the record')
    sx.check(e.record['seqno'] == records[-1]['seqno'],
             'the error names the record')
    sx.check(e.path == 'Section7' and e.treegroup == 3,
             'the error names the stream and the record group')
    sx.check(e.offset is not None and 0 <= e.offset and
             e.offset <= len(records[-1]['payload']),
             'the offset lies within the record')
    sx.check(e.cause is not None, 'the cause is kept')


def cut(sx, p):
    tree = p['tree']
    version = sx.choice('version', [(5, 0, 0, 0), (5, 0, 1, 7), (5, 0, 3, 4)])
    rs = sx.mod('hwp5.recordstream')
    records, b = records_of(sx, tree, version)
    whole = b.out
    if not whole:
        sx.cover('error')
        sx.cover('complete')
        return
    at = sx.choice('cut', list(range(len(whole) + 1))[p['part']::p['parts']])
    last = records[-1]
    records[-1] = rs.Record(last['tagid'], last['level'],
                            sx.from_bytes(whole[:at]), seqno=last['seqno'])
    models, e = parse(sx, version, records)
    inside = [f for f in b.fields if f[0] <= at < f[0] + f[1]]
    if at == len(whole) or not inside:
        sx.check(at < len(whole) or e is None, 'complete records are read')
        sx.cover('complete')
        return
    number = [f for f in inside if f[2] == 'number']
    if number:
        sx.check(e is not None, 'a record cut within a number: ' +
                 tree[-1][1])
        check_error(sx, e, records, models)
        sx.check(sx.eq(e.offset, number[0][0]),
                 'the offset is where the number starts')
        sx.cover('error')
    elif e is not None:
        check_error(sx, e, records, models)
        sx.check(sx.And(e.offset >= inside[0][0], e.offset <= at),
                 'the offset is near the cut')


def hostile(sx, p):
    version = tuple(sx.u8('v%d' % i) for i in range(4))
    tree = p['tree']
    payload = sx.bytes('payload', p['n'])
    records, b = records_of(sx, tree, version, payload)
    models, e = parse(sx, version, records)
    if e is not None:
        check_error(sx, e, records, models)
        sx.cover('error')
        return
    sx.check(len(models) == len(records), 'one model per record')
    rest = models[-1].get('unparsed', b'')
    sx.check(len(rest) <= len(payload), 'undecoded bytes')
    sx.check(sx.eq(payload[len(payload) - len(rest):], rest),
             'the undecoded bytes are the end of the record')
    sx.check(sx.eq(models[-1]['payload'], payload), 'the payload is kept')
    sx.cover('model')


# record kinds with a length field: bytes before it, width of the field,
# bytes of an item
HUGE = {
    'TabDef': (22, [0] * 4, 4, 8),
    'ShapePolygon': (16 + 66, [], 2, 8),
    'ShapeCurve': (16 + 67, [], 2, 8),
    'GradationColors': (20, [0] * 2 + [0] * 30 + [4, 0, 0, 0] + [0] * 17,
                        4, 4),
}


def huge(sx, p):
    """the effort is bounded by the payload, not by the counts in it"""
    rs = sx.mod('hwp5.recordstream')
    tagid, head, width, item = HUGE[p['case']]
    n = sx.int('count', 4, (1 << (8 * width)) - 1)
    body = sx.bytes('items', sx.choice('room', [0, 1, item, 3 * item]))
    payload = sx.from_bytes(
        head + [(n >> (8 * i)) & 0xff for i in range(width)]) + body
    records = [rs.Record(tagid, 0, payload, seqno=0)]
    models, e = parse(sx, (5, 0, 3, 4), records)
    sx.check(e is not None, 'a count larger than what is there')
    check_error(sx, e, records, models)
    sx.check(e.offset == len(head) + width + len(body) -
             (len(body) % item if item <= 4 or len(body) % item < 4
              else 0), 'the offset is where the items end')
    sx.cover('error')


def stream(sx, p):
    """the error tells the stream and the group of records"""
    import io
    bm = sx.mod('hwp5.binmodel')
    rs = sx.mod('hwp5.recordstream')
    dio = sx.mod('hwp5.dataio')
    seqnos = []
    f = io.BytesIO()
    group = sx.choice('group', [0, 1, 2])
    level = sx.choice('level', [0, 1])
    one = sx.bool('one')
    first = 2 * group if one else 0
    for g in range(3):
        for lv in range(2):
            bad = g == group and lv == level
            if bad:
                r = rs.Record(22, lv, b'\x00\x00\x00\x00\x01\x00')
                where = len(seqnos)
            else:
                r = rs.Record(94, lv, sx.bytes('p%d%d' % (g, lv), 2))
            seqnos.append((g, lv))
            rs.dump_record(f, r)
    data = f.getvalue()

    class Item(object):
        path = 'BodyText/Section1'

        def open(self):
            return io.BytesIO(data)
    ms = bm.ModelStream(Item(), (5, 0, 3, 4))
    seen = []
    e = None
    try:
        if one:
            for m in ms.models(treegroup=group):
                seen.append(m)
        else:
            for m in ms.models():
                seen.append(m)
    except dio.ParseError as x:
        e = x
    sx.check(e is not None, 'a truncated record in a stream')
    sx.check([m['seqno'] for m in seen] == list(range(first, where)),
             'the records before the damaged one are read')
    sx.check(e.record['seqno'] == where, 'the error names the record')
    sx.check(e.treegroup == group, 'the error names the group')
    sx.check(e.path == 'BodyText/Section1', 'the error names the stream')
    sx.check(e.offset == 4, 'the error names the offset')
    sx.cover('error')
