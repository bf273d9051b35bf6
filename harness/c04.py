# -*- coding: utf-8 -*-
"""Records are decoded as the format says, field by field."""
import struct

from . import spec
from .spec import Builder, F64

PRELOAD = ['hwp5.binmodel']

COVERS = {
    'decode': ['decoded', 'unparsed'],
    'two_versions': ['decoded'],
    'unknown_tag': ['decoded'],
}
BOUNDS = {
    'quick': 'every record kind and every control kind under the parents '
             'that determine its layout; every field an arbitrary value of '
             'its width, every 4-component version with 8-bit components, '
             'arrays of 0..2 items, texts of 0 or 2 BMP characters, 0 or 3 '
             'bytes after the last field',
    'thorough': 'the same with texts of 0, 1, 2 and 3 code units (one '
                'character outside the BMP) and arrays of up to 3 items',
}
OUTSIDE = 'longer arrays and texts; texts that are not valid UTF-16; '\
    'not-a-number and infinite floating point values'
ASSUMPTIONS = ['the layout table harness/spec.py is the intended format '
               '(transcribed independently from the HWP 5 format tables '
               'and the field order of the current release)']


def tasks(tier):
    out = []
    for kind in sorted(spec.KINDS):
        variants = [{}]
        if kind in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
            variants = [{'n': n} for n in
                        ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3))]
        elif kind == 'ShapeComponent':
            variants = []
            for chid in ('$con', '$rec', '$lin', '$ell', '$pic'):
                variants.append({'chid': chid, 'nsr': 1 if chid == '$ell'
                                 else 0})
            variants.append({'chid': '$pic', 'under_gso': 1, 'nsr': 0})
            variants.append({'chid': '$rec', 'under_gso': 1, 'nsr': 0,
                             'fill_flags': 0x100})
            variants.append({'under_gso': 1, 'nsr': 0, 'anychid': 1})
        for v in variants:
            parents = list(spec.PARENTS.get(kind, ()))
            if v.get('under_gso'):
                parents = ['GShapeObjectControl']
            tree = [[i, p, 'zero', {}] for i, p in enumerate(parents)]
            if kind == 'TableCell':
                tree = [[0, 'TableControl', 'zero', {}],
                        [1, 'TableBody', 'zero', {}]]
                lv = 1
            else:
                lv = len(tree)
            tree.append([lv, kind, 'sym', v])
            out.append(dict(fn='decode', params={'tree': tree}))
    # the kind of a list header depends on where it is
    for parent in ('Paragraph', 'FootNote', 'EndNote', 'HiddenComment',
                   'SectionDef'):
        out.append(dict(fn='decode', params={'tree': [
            [0, parent, 'zero', {}], [1, 'ListHeader', 'sym', {}]]}))
    # caption, body, cells; two tables in a row; a table in a cell
    out.append(dict(fn='decode', params={'tree': [
        [0, 'TableControl', 'zero', {}], [1, 'TableCaption', 'sym', {}],
        [1, 'TableBody', 'zero', {}], [1, 'TableCell', 'sym', {}],
        [1, 'TableCell', 'zero', {}],
        [0, 'TableControl', 'zero', {}], [1, 'TableCaption', 'sym', {}],
        [1, 'TableBody', 'zero', {}], [1, 'TableCell', 'zero', {}]]}))
    out.append(dict(fn='decode', params={'tree': [
        [0, 'TableControl', 'zero', {}], [1, 'TableBody', 'zero', {}],
        [1, 'TableCell', 'zero', {}], [1, 'Paragraph', 'zero', {}],
        [2, 'TableControl', 'zero', {}], [3, 'TableCaption', 'sym', {}],
        [3, 'TableBody', 'zero', {}], [3, 'TableCell', 'zero', {}],
        [1, 'TableCell', 'zero', {}]]}))
    # a paragraph's own lists use that paragraph's counts
    out.append(dict(fn='decode', params={'tree': [
        [0, 'Paragraph', 'zero', {'charshapes': 2, 'linesegs': 1}],
        [1, 'ParaCharShape', 'sym', {'n': 2}],
        [1, 'ParaLineSeg', 'sym', {'n': 1}],
        [1, 'HiddenComment', 'zero', {}],
        [2, 'ListHeader', 'zero', {}],
        [2, 'Paragraph', 'zero', {'charshapes': 1}],
        [3, 'ParaCharShape', 'sym', {'n': 1}],
        [0, 'Paragraph', 'zero', {'charshapes': 1}],
        [1, 'ParaCharShape', 'sym', {'n': 1}]]}))
    # data of a control under other controls is not interpreted
    for parent in ('Header', 'FieldHyperLink', 'TableControl'):
        out.append(dict(fn='decode', params={'tree': [
            [0, parent, 'zero', {}], [1, 'ControlData', 'zero', {}]]}))
    for kind in ('IdMappings', 'ParaShape', 'Numbering', 'ShapePicture',
                 'TableBody', 'TableControl', 'FootNote', 'SectionDef',
                 'ShapeComponent'):
        v = {'chid': '$rec', 'nsr': 0, 'fill_flags': 0} \
            if kind == 'ShapeComponent' else {}
        out.append(dict(fn='two_versions', params={'kind': kind, 'opts': v}))
    out.append(dict(fn='unknown_tag', params={}))
    for t in out:
        if tier == 'thorough':
            t['params']['bstr'] = [0, 1, 2, 3]
    return out


def compare(sx, got, want, where):
    if isinstance(want, F64):
        sx.check(sx.eq(struct.pack('<d', got), want.raw), where)
    elif isinstance(want, dict):
        sx.check(isinstance(got, dict), where + ': structure')
        names = sorted(k for k in got)
        sx.check(names == sorted(want), where + ': fields')
        for k in names:
            compare(sx, got[k], want[k], '%s.%s' % (where, k))
    elif isinstance(want, (list, tuple)):
        sx.check(len(got) == len(want), where + ': item count')
        for a, b in zip(got, want):
            compare(sx, a, b, where + '[]')
    else:
        sx.check(sx.eq(got, want), where)


def build(sx, tree, version, p, tail=0):
    """records and expectations of a tree of record kinds"""
    rs = sx.mod('hwp5.recordstream')
    records, want = [], []
    for i, (level, kind, mode, opts) in enumerate(tree):
        tagid, layout = spec.KINDS[kind]
        o = dict(opts)
        if 'bstr' in p:
            o['bstr'] = tuple(p['bstr'])
        if kind == 'Paragraph':
            pass
        b = Builder(sx, 'r%d' % i, version, mode, o)
        content = layout(b)
        rest = []
        if i == len(tree) - 1 and tail:
            rest = [sx.u8('rest[%d]' % k) for k in range(tail)]
        records.append(rs.Record(tagid, level,
                                 sx.from_bytes(b.out + rest), seqno=i))
        want.append((kind, content, sx.from_bytes(rest)))
    return records, want


def fix_counts(tree):
    """parents carry the counts their children need"""
    tree = [list(x) for x in tree]
    names = {'ParaCharShape': 'charshapes', 'ParaLineSeg': 'linesegs',
             'ParaRangeTag': 'rangetags'}
    for i, (level, kind, mode, opts) in enumerate(tree):
        if kind in names:
            for j in range(i - 1, -1, -1):
                if tree[j][0] == level - 1:
                    tree[j][3] = dict(tree[j][3])
                    tree[j][3][names[kind]] = opts['n']
                    break
    return tree


def arbitrary_version(sx, name='v'):
    return tuple(sx.u8('%s%d' % (name, i)) for i in range(4))


def check_models(sx, models, records, want):
    sx.check(len(models) == len(want), 'one model per record')
    for m, r, (kind, content, rest) in zip(models, records, want):
        sx.check(m['type'].__name__ == kind, 'kind of the record: ' + kind)
        sx.check(m['level'] == r['level'] and m['tagid'] == r['tagid'],
                 'record of the model')
        compare(sx, m['content'], content, kind)
        if len(rest):
            sx.check('unparsed' in m, 'undecoded bytes are kept')
            sx.check(sx.eq(m['unparsed'], rest), 'undecoded bytes')
            sx.cover('unparsed')
        else:
            sx.check(not m.get('unparsed'), 'nothing is left undecoded: ' +
                     kind)
    sx.cover('decoded')


def decode(sx, p):
    bm = sx.mod('hwp5.binmodel')
    version = arbitrary_version(sx)
    tree = fix_counts(p['tree'])
    tail = sx.choice('tail', [0, 3])
    records, want = build(sx, tree, version, p, tail)
    if tree[-1][3].get('anychid'):
        c = want[-1][1]['chid']
        for known in ('$con', '$rec', '$lin'):
            sx.assume(sx.Not(sx.eq(c, known)))
    models = list(bm.parse_models(dict(version=version), records))
    check_models(sx, models, records, want)


def two_versions(sx, p):
    """documents of two versions, read one after the other"""
    bm = sx.mod('hwp5.binmodel')
    for k in (0, 1):
        version = arbitrary_version(sx, 'v%d_' % k)
        sx.assume(sx.And(version[0] == 5, version[1] == 0))
        records, want = build(
            sx, [[0, p['kind'], 'zero', p['opts']]], version, p)
        models = list(bm.parse_models(dict(version=version), records))
        check_models(sx, models, records, want)


def unknown_tag(sx, p):
    """a record of an unknown kind is kept whole"""
    bm = sx.mod('hwp5.binmodel')
    rs = sx.mod('hwp5.recordstream')
    tagid = sx.int('tagid', 0, 1023)
    for t in spec.KNOWN_TAGS:
        sx.assume(tagid != t)
    payload = sx.bytes('p', 3)
    rec = rs.Record(tagid, 0, payload, seqno=0)
    models = list(bm.parse_models(dict(version=(5, 0, 3, 4)), [rec]))
    sx.check(len(models) == 1, 'one model per record')
    sx.check(sx.eq(models[0].get('unparsed'), payload), 'kept whole')
    sx.check(not models[0]['content'], 'no fields')
    sx.cover('decoded')
