# -*- coding: utf-8 -*-
"""Flag words are split into the bit fields the format gives them."""
from . import spec
from .spec import Builder

PRELOAD = ['hwp5.binmodel']
COVERS = {'bitfield': ['value'], 'adhoc': ['value']}
BOUNDS = {
    'quick': 'every flag word of every record and control kind (tables in '
             'harness/spec.py), all values of the word; ad hoc flag words of '
             '8, 16 and 32 bits with every field of 1..width bits at every '
             'position',
    'thorough': 'the same, and every pair of adjacent fields',
}
OUTSIDE = 'flag words nested in arrays at positions other than the first '\
    'item'
ASSUMPTIONS = ['the bit field tables of harness/spec.py are the intended '
               'format']


def tasks(tier):
    out = []
    for i, (kind, opts, hint, path, width, fields) in \
            enumerate(spec.BITFIELDS):
        for name in sorted(fields):
            out.append(dict(fn='bitfield', params={
                'i': i, 'kind': kind, 'hint': hint, 'name': name}))
            for rest in (0, 1):
                out.append(dict(fn='bitfield', params={
                    'i': i, 'kind': kind, 'hint': hint, 'name': name,
                    'rest': rest}))
    for width in (8, 16, 32):
        for lsb in range(0, width):
            out.append(dict(fn='adhoc', params={'width': width,
                                                'lsb': lsb}))
    return out


def enum_items(table):
    if isinstance(table, dict):
        return dict(table)
    return dict(enumerate(table))


def bitfield(sx, p):
    bm = sx.mod('hwp5.binmodel')
    rs = sx.mod('hwp5.recordstream')
    kind, opts, hint, path, width, fields = spec.BITFIELDS[p['i']]
    rest = p.get('rest')
    lo, hi, table = fields[p['name']]
    if rest is None:
        word = sx.int('word', 0, (1 << (8 * width)) - 1)
    else:
        # only this field is arbitrary: all fields can be read at once
        h = min(hi, 8 * width - 1)
        word = sx.int('field', 0, (1 << (h - lo + 1)) - 1) << lo
        if rest:
            word = word | (((1 << (8 * width)) - 1) &
                           ~(((1 << (h - lo + 1)) - 1) << lo))
    opts = dict(opts)
    parents = list(spec.PARENTS.get(kind, ()))
    tree = [(i, k, {}) for i, k in enumerate(parents)]
    if kind in ('ParaLineSeg', 'ParaRangeTag'):
        c = {'ParaLineSeg': 'linesegs', 'ParaRangeTag': 'rangetags'}[kind]
        tree = [(0, 'Paragraph', {c: opts['n']})]
    opts[hint] = word
    tree.append((len(tree), kind, opts))
    if kind == 'ShapeComponent':
        tree[-1][2].setdefault('nsr', 0)
    records = []
    for i, (level, k, o) in enumerate(tree):
        tagid, layout = spec.KINDS[k]
        b = Builder(sx, 'r%d' % i, (5, 0, 3, 4), 'zero', o)
        layout(b)
        records.append(rs.Record(tagid, level, sx.from_bytes(b.out),
                                 seqno=i))
    models = list(bm.parse_models(dict(version=(5, 0, 3, 4)), records))
    m = models[-1]
    sx.check(m['type'].__name__ == kind, 'kind')
    v = m['content']
    for x in path:
        v = v[x]
    sx.check(sx.eq(v + 0, word), 'the whole word')
    name = p['name']
    if rest is not None:
        d = v.dictvalue()
        sx.check(sorted(d) == sorted(fields), 'names of the bit fields')
        for k in sorted(fields):
            l2, h2, t2 = fields[k]
            if h2 < 8 * width:
                sx.check(sx.eq(d[k] + 0, (word >> l2) &
                               ((1 << (h2 - l2 + 1)) - 1)),
                         'all fields at once')
        sx.cover('value')
        return
    value = getattr(v, name)
    want = (word >> lo) & ((1 << (hi - lo + 1)) - 1)
    if hi < 8 * width or lo >= 8 * width:
        sx.check(sx.eq(value + 0, want), 'value of a bit field')
    if table is not None:
        named = enum_items(table)
        n = value.name
        for k in sorted(named):
            if sx.eq(want, k):
                sx.check(n == named[k], 'name of an enumerated value')
                break
        else:
            sx.check(n is None, 'values outside the enumeration: no name')
    sx.cover('value')
    sx.observe('v', [value + 0])


def adhoc(sx, p):
    """the definition of flag words, for every field position"""
    dio = sx.mod('hwp5.dataio')
    width, lsb = p['width'], p['lsb']
    base = {8: dio.BYTE, 16: dio.UINT16, 32: dio.UINT32}[width]
    word = sx.int('word', 0, (1 << width) - 1)
    for msb in range(lsb, width):
        if msb == lsb:
            T = dio.Flags(base, lsb, 'x', (lsb + 1) % width, 'y')
        else:
            E = dio.Enum(A=0, B=1, LAST=(1 << (msb - lsb + 1)) - 1)
            T = dio.Flags(base, lsb, msb, 'x', lsb, msb, E, 'e',
                          (lsb + 1) % width, 'y')
        v = T(word)
        want = (word >> lsb) & ((1 << (msb - lsb + 1)) - 1)
        sx.check(sx.eq(v.x + 0, want), 'value of a bit field')
        sx.check(sx.eq(v.y + 0, (word >> ((lsb + 1) % width)) & 1),
                 'value of a single bit')
        sx.check(sx.eq(v + 0, word), 'the whole word')
    sx.cover('value')
