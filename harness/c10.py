# -*- coding: utf-8 -*-
"""XML output is well-formed and holds the values of the document."""
from . import spec
from .c04 import fix_counts
from .docmodel import Doc, Item, VERSION
from .spec import Builder
from .xmlparse import DECL, legal, parse

PRELOAD = ['hwp5.xmlmodel', 'hwp5.xmlformat']

COVERS = {
    'escape': ['markup', 'illegal', 'plain'],
    'values': ['value'],
    'structures': ['value'],
    'kinds': ['element'],
    'texts': ['element'],
    'whole': ['element'],
}
BOUNDS = {
    'quick': 'attribute and text of 0..2 arbitrary code points (the whole '
             'range, unpaired surrogates included); every kind of value over '
             'its whole range; every record kind with zero numbers; texts of 1 '
             'arbitrary character in every textual field; one section with '
             'five arbitrary characters of text',
    'thorough': 'the same with up to 3 code points in attribute or text',
}
OUTSIDE = 'carriage returns in element text (the reader of the body never '\
    'delivers any); floating point values; output encodings other than utf-8'
ASSUMPTIONS = ['harness/xmlparse.py reads XML 1.0']


def tasks(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for a in range(n):
        for b in range(n):
            if a + b < 4:
                out.append(dict(fn='escape', params={'attr': a, 'text': b}))
    for pre in (']]', '&', '<!--', '</Text', '&#1', "'\""):
        out.append(dict(fn='escape', params={'attr': 1, 'text': 1,
                                             'pre': pre}))
    for k in sorted(VALUES):
        out.append(dict(fn='values', params={'kind': k}))
    for k in ('struct', 'array', 'colors', 'unknown', 'nested'):
        out.append(dict(fn='structures', params={'kind': k}))
    for kind in sorted(spec.KINDS):
        v = {}
        if kind in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
            continue
        if kind == 'ShapeComponent':
            v = {'chid': '$rec', 'nsr': 1, 'fill_flags': 0x700}
        parents = list(spec.PARENTS.get(kind, ()))
        tree = [[i, p, 'zero', {}] for i, p in enumerate(parents)]
        if kind == 'TableCell':
            tree = [[0, 'TableControl', 'zero', {}],
                    [1, 'TableBody', 'zero', {}]]
        lv = 1 if kind == 'TableCell' else len(tree)
        tree = fix_counts(tree + [[lv, kind, 'zero', v]])
        out.append(dict(fn='kinds', params={'tree': tree}))
        if kind in TEXTUAL:
            out.append(dict(fn='texts', params={'tree': tree}))
    out.append(dict(fn='whole', params={}))
    return out


TEXTUAL = ('BinData', 'FaceName', 'Style', 'Bullet', 'Dutmal',
           'FieldHyperLink', 'IndexMarker', 'TableControl',
           'BookmarkControlData', 'FootnoteShape', 'AutoNumbering')


def filtered(sx, cps):
    out = []
    for c in cps:
        if legal(sx, c):
            out.append(c)
        else:
            sx.cover('illegal')
    return out


def serialize(sx, events, declaration=False):
    xf = sx.mod('hwp5.xmlformat')
    data = b''.join(xf.xmlevents_to_bytechunks(iter(events)))
    return data.decode('utf-8')


def escape(sx, p):
    xf = sx.mod('hwp5.xmlformat')
    S, E = xf.STARTEVENT, xf.ENDEVENT
    attr = sx.text('attr', p['attr'], surrogates=True)
    text = sx.text('text', p['text'], surrogates=True)
    for c in sx.codepoints(text):
        sx.assume(sx.Not(sx.eq(c, 13)))
    if 'pre' in p:
        # after characters that have a meaning together
        attr = p['pre'] + attr + p['pre']
        text = p['pre'] + text + p['pre']
    events = [(S, ('Root', {'an-attribute': attr, 'other': 'x'})),
              (S, ('Text', {})), (xf.Text, text), (E, 'Text'), (E, 'Root')]
    out = serialize(sx, events)
    root = parse(sx, out)
    want = filtered(sx, sx.codepoints(attr))
    sx.check(root[0] == 'Root', 'element name')
    sx.check(sorted(root[1]) == ['an-attribute', 'other'], 'attribute names')
    sx.check(sx.eq(root[1]['an-attribute'], want), 'attribute value')
    sx.check(len(root[2]) == 1 and root[2][0][0] == 'Text', 'child')
    got = root[2][0][2]
    want = filtered(sx, sx.codepoints(text))
    if want:
        sx.check(len(got) == 1 and sx.eq(got[0], want), 'text')
    else:
        sx.check(got == [], 'text')
    sx.cover('markup' if len(out) > 60 else 'plain')


# --- values

def hexdigits(sx, v, n, upper=True):
    out = []
    for i in reversed(range(n)):
        d = (v >> (4 * i)) & 15
        out.append(sx.ite(d < 10, d + 48, d + (55 if upper else 87)))
    return sx.from_codepoints(out)


def attributes_of(sx, T, value, name='a_name'):
    dio = sx.mod('hwp5.dataio')
    xm = sx.mod('hwp5.xmlmodel')

    class Model(dio.Struct):
        def attributes():
            yield T, name
        attributes = staticmethod(attributes)
    events = [(xm.STARTEVENT, (Model, {name: value}, {'version': VERSION})),
              (xm.ENDEVENT, (Model, {name: value}, {'version': VERSION}))]
    return list(xm.modelevents_to_xmlevents(iter(events)))


def check_single(sx, evs, want):
    xm = sx.mod('hwp5.xmlmodel')
    sx.check(len(evs) == 2 and evs[0][0] is xm.STARTEVENT and
             evs[1][0] is xm.ENDEVENT, 'one element')
    sx.check(evs[0][1][0] == 'Model' and evs[1][1] == 'Model',
             'element name')
    attrs = evs[0][1][1]
    sx.check(sorted(attrs) == sorted(want), 'attribute names')
    for k, v in want.items():
        sx.check(sx.eq(attrs[k], v), 'value of an attribute')
    sx.cover('value')


def v_colorref(sx):
    sh = sx.mod('hwp5.binmodel')
    v = sx.i32('v')
    x = sx.ite(v < 0, v + (1 << 32), v)
    return sh.COLORREF, v, {'a-name': '#' + hexdigits(
        sx, (x & 0xff) << 16 | (x & 0xff00) | ((x >> 16) & 0xff), 6, False)}


def v_binid(sx):
    v = sx.u16('v')
    return sx.mod('hwp5.binmodel').BinStorageId, v, {
        'a-name': 'BIN' + hexdigits(sx, v, 4)}


PUA = {0xF046: '\u261e', 0xF06C: '\u25cf', 0xF09F: '\u2022',
       0xF0A1: '\u25cb', 0xF06E: '\u25a0', 0xF0A7: '\u25aa',
       0xF06F: '\u2610', 0xF075: '\u25c6', 0xF077: '\u2b29',
       0xF076: '\u2756', 0xF0A4: '\u25c9', 0xF0AB: '\u2605',
       0xF0FC: '\u2713', 0xF0FE: '\u2611'}


def v_wchar(sx):
    v = sx.u16('v')
    T = sx.mod('hwp5.dataio').WCHAR
    if v == 0:
        return T, v, {'a-name': ''}
    for k in sorted(PUA):
        if v == k:
            return T, v, {'a-name': PUA[k]}
    return T, v, {'a-name': sx.from_codepoints([v])}


def v_margin(sx):
    d = dict((k, sx.int(k, -0x8000, 0x7fff))
             for k in ('left', 'right', 'top', 'bottom'))
    return sx.mod('hwp5.binmodel').Margin, d, dict(
        ('a-name-' + k, str(v)) for k, v in d.items())


def v_flags(width):
    def f(sx):
        dio = sx.mod('hwp5.dataio')
        base = {8: dio.BYTE, 16: dio.UINT16, 32: dio.UINT32}[width]
        E = dio.Enum(ONE=1, TWO_X=2)
        T = dio.Flags(base, 0, 'low', 1, 3, E, 'kind', width - 1, 'high')
        v = sx.int('v', 0, (1 << width) - 1)
        want = {'a-name': hexdigits(sx, v, width // 4),
                'low': str(v & 1), 'high': str(v >> (width - 1))}
        k = (v >> 1) & 7
        want['kind'] = 'one' if k == 1 else 'two_x' if k == 2 else str(k)
        return T, v, want
    return f


def v_number(name, lo, hi):
    def f(sx):
        v = sx.int('v', lo, hi)
        return getattr(sx.mod('hwp5.dataio'), name), v, {'a-name': str(v)}
    return f


def v_version(sx):
    v = tuple(sx.u8('v%d' % i) for i in range(4))
    return sx.mod('hwp5.filestructure').VERSION, v, {
        'a-name': '%d.%d.%d.%d' % v}


def v_enum(sx):
    dio = sx.mod('hwp5.dataio')
    E = dio.Enum(ZERO=0, ONE=1)
    v = sx.u8('v')
    want = 'zero' if v == 0 else 'one' if v == 1 else str(v)
    T = dio.Flags(dio.BYTE, 0, 7, E, 'e')
    return T, v, {'a-name': hexdigits(sx, v, 2), 'e': want}


def v_text(sx):
    t = sx.text('v', 2)
    return sx.mod('hwp5.dataio').BSTR, t, {'a-name': t}


VALUES = {
    'colorref': v_colorref, 'binid': v_binid, 'wchar': v_wchar,
    'margin': v_margin, 'flags8': v_flags(8), 'flags16': v_flags(16),
    'flags32': v_flags(32), 'version': v_version, 'enum': v_enum,
    'text': v_text,
    'uint8': v_number('UINT8', 0, 255), 'int8': v_number('INT8', -128, 127),
    'uint16': v_number('UINT16', 0, 0xffff),
    'int16': v_number('INT16', -0x8000, 0x7fff),
    'uint32': v_number('UINT32', 0, 0xffffffff),
    'int32': v_number('INT32', -0x80000000, 0x7fffffff),
    'hwpunit': v_number('HWPUNIT', 0, 0xffffffff),
    'shwpunit': v_number('SHWPUNIT', -0x80000000, 0x7fffffff),
    'hwpunit16': v_number('HWPUNIT16', -0x8000, 0x7fff),
}


def values(sx, p):
    T, value, want = VALUES[p['kind']](sx)
    check_single(sx, attributes_of(sx, T, value), want)


def structures(sx, p):
    dio = sx.mod('hwp5.dataio')
    xm = sx.mod('hwp5.xmlmodel')
    bm = sx.mod('hwp5.binmodel')
    S, E = xm.STARTEVENT, xm.ENDEVENT
    kind = p['kind']

    class Inner(dio.Struct):
        def attributes():
            yield dio.INT32, 'x_pos'
            yield dio.UINT16, 'y'
        attributes = staticmethod(attributes)

    class Outer(dio.Struct):
        def attributes():
            yield Inner, 'in_ner'
        attributes = staticmethod(attributes)

    def inner(i):
        return dict(x_pos=sx.i32('x%d' % i), y=sx.u16('y%d' % i))

    def wanted(d, **kw):
        return dict({'x-pos': str(d['x_pos']), 'y': str(d['y'])}, **kw)
    if kind == 'struct':
        a = inner(0)
        evs = attributes_of(sx, Inner, a, 'some_name')
        want = [(S, ('Model', {})),
                (S, ('Inner', wanted(a, **{'attribute-name': 'some_name'}))),
                (E, 'Inner'), (E, 'Model')]
    elif kind == 'nested':
        a = inner(0)
        evs = attributes_of(sx, Outer, {'in_ner': a}, 'out')
        want = [(S, ('Model', {})), (S, ('Outer', {'attribute-name': 'out'})),
                (S, ('Inner', wanted(a, **{'attribute-name': 'in_ner'}))),
                (E, 'Inner'), (E, 'Outer'), (E, 'Model')]
    elif kind == 'array':
        n = sx.choice('n', [0, 1, 2])
        items = [inner(i) for i in range(n)]
        evs = attributes_of(sx, dio.N_ARRAY(dio.UINT16, Inner), items,
                            'items')
        want = [(S, ('Model', {})), (S, ('Array', {'name': 'items'}))]
        for a in items:
            want += [(S, ('Inner', wanted(a))), (E, 'Inner')]
        want += [(E, 'Array'), (E, 'Model')]
    elif kind == 'colors':
        n = sx.choice('n', [0, 1, 2])
        items = [sx.i32('c%d' % i) for i in range(n)]
        evs = attributes_of(sx, dio.N_ARRAY(dio.UINT32, bm.COLORREF), items,
                            'colors')
        want = [(S, ('Model', {}))]
        for c in items:
            x = sx.ite(c < 0, c + (1 << 32), c)
            want += [(S, ('colors', {
                'r': str(x & 0xff), 'g': str((x >> 8) & 0xff),
                'b': str((x >> 16) & 0xff), 'alpha': str(x >> 24),
                'hex': '#' + hexdigits(sx, (x & 0xff) << 16 | (x & 0xff00) |
                                       ((x >> 16) & 0xff), 6, False)})),
                (E, 'colors')]
        want += [(E, 'Model')]
    else:
        # members that are not part of the definition
        v = sx.i32('v')
        t = sx.text('t', 1)
        items = {'x_pos': v, 'y': 1, 'extra_one': v, 'extra_text': t}
        evs = list(xm.modelevents_to_xmlevents(iter([
            (S, (Inner, items, {})), (E, (Inner, items, {}))])))
        want = [(S, ('Inner', {'x-pos': str(v), 'y': '1',
                               'extra-one': str(v), 'extra-text': t})),
                (E, 'Inner')]
    sx.check(len(evs) == len(want), 'number of events')
    for (e1, i1), (e2, i2) in zip(evs, want):
        sx.check(e1 is e2, 'kind of event')
        if e1 is S:
            sx.check(i1[0] == i2[0], 'element name')
            sx.check(sorted(i1[1]) == sorted(i2[1]), 'attribute names')
            for k in i2[1]:
                sx.check(sx.eq(i1[1][k], i2[1][k]), 'value of an attribute')
        else:
            sx.check(i1 == i2, 'element name')
    sx.cover('value')


def record_events(sx, p, mode, opts=None):
    bm = sx.mod('hwp5.binmodel')
    rs = sx.mod('hwp5.recordstream')
    xm = sx.mod('hwp5.xmlmodel')
    records = []
    for i, (level, k, m, o) in enumerate(p['tree']):
        tagid, layout = spec.KINDS[k]
        last = i == len(p['tree']) - 1
        b = Builder(sx, 'r%d' % i, VERSION, mode if last else 'zero',
                    dict(o, **(opts or {})))
        layout(b)
        records.append(rs.Record(tagid, level, sx.from_bytes(b.out),
                                 seqno=i))
    models = list(bm.parse_models(dict(version=VERSION), records))
    m = models[-1]
    item = (m['type'], m['content'], {'version': VERSION})
    return m, [(xm.STARTEVENT, item), (xm.ENDEVENT, item)]


def kinds(sx, p):
    """every record kind becomes an element, whatever its numbers are"""
    xm = sx.mod('hwp5.xmlmodel')
    xf = sx.mod('hwp5.xmlformat')
    m, events = record_events(sx, p, 'zero')
    text = serialize(sx, list(xm.modelevents_to_xmlevents(iter(events))))
    root = parse(sx, text)
    sx.check(root[0] == p['tree'][-1][1], 'element name')
    sx.cover('element')


def texts(sx, p):
    """whatever characters a text holds"""
    xm = sx.mod('hwp5.xmlmodel')
    m, events = record_events(sx, p, 'text', {'bstr': (1,)})
    text = serialize(sx, list(xm.modelevents_to_xmlevents(iter(events))))
    root = parse(sx, text)
    sx.check(root[0] == p['tree'][-1][1], 'element name')
    sx.cover('element')
    strings = {}

    def walk(d):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v)
            elif sx.is_text(v) and k not in ('chid', 'chid0'):
                strings.setdefault(k.replace('_', '-'), []).append(v)
    walk(m['content'])
    got = {}

    def walk2(n):
        for k, v in n[1].items():
            if k in strings:
                got.setdefault(k, []).append(v)
        for x in n[2]:
            if len(x) == 3 and isinstance(x[1], dict):
                walk2(x)
    walk2(root)
    for k in strings:
        sx.check(len(got.get(k, [])) == len(strings[k]), 'texts are kept')
        want = [filtered(sx, sx.codepoints(v)) for v in strings[k]]
        sx.check(sx.eq(got[k], want) if len(want) == 1 else
                 sx.Or(sx.eq(got[k], want), sx.eq(got[k], want[::-1])),
                 'texts are kept')


class Sink(object):
    def __init__(self):
        self.chunks = []

    def write(self, data):
        self.chunks.append(data)
        return len(data)


def whole(sx, p):
    """a section as a whole: declaration, nesting, texts"""
    xm = sx.mod('hwp5.xmlmodel')
    doc = Doc(sx)
    want = doc.section([([('control', 'secd'), ('control', 'cold'),
                          ('text', [('en', 2)])], 3),
                        [('text', [('cn', 1)]), ('control', 'fn  ', {
                            'paras': [[('text', [('ko', 1)])]]})]])
    sec = xm.Section(Item(doc.data()), VERSION)
    f = Sink()
    sec.xmlevents().dump(f)
    data = b''.join(f.chunks)
    text = data.decode('utf-8')
    root = parse(sx, text, DECL)
    compare(sx, root, want)
    g = sec.xmlevents().open()
    again = g.read()
    sx.check(sx.eq(again, data), 'the same when opened as a file')
    plain = b''.join(sec.xmlevents().bytechunks(xml_declaration=False))
    sx.check(sx.eq(DECL.encode('utf-8') + plain, data), 'declaration')
    sx.cover('element')


def compare(sx, got, want):
    sx.check(got[0] == want[0], 'element name')
    kids = [k for k in got[2] if len(k) == 3 and isinstance(k[1], dict)]
    extra = ('Coord', 'Margin', 'Border', 'Array', 'Splitter', 'Column')
    kids = [k for k in kids if 'attribute-name' not in k[1] and
            k[0] not in extra]
    sx.check(len(kids) == len(want[2]), 'number of children')
    if want[0] == 'Text':
        sx.check(sx.eq(got[2][0], sx.codepoints(want[1]['text'])), 'text')
        sx.check(sx.eq(got[1]['lang'], sx.codepoints(want[1]['lang'])),
                 'language')
    for a, b in zip(kids, want[2]):
        compare(sx, a, b)
