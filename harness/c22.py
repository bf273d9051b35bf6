# -*- coding: utf-8 -*-
"""Dumps show every field of a record at the place it is stored."""
import struct
from xml.etree import ElementTree

from . import c04, spec, xmlparse
from .c04 import arbitrary_version, fix_counts
from .c21 import NAMES, head, join, run
from .cfb import Storage, Stream, fileheader
from .spec import Builder

PRELOAD = ['hwp5.binmodel', 'hwp5.bintype', 'hwp5.xmldump_flat',
           'hwp5.hwp5proc', 'hwp5.proc.models', 'hwp5.proc.find',
           'hwp5.proc.xml', 'hwp5.filestructure', 'hwp5.storage.ole',
           'hwp5.plat.olefileio', 'hwp5.xmlmodel']

COVERS = {
    'fields': ['ok'],
    'lines': ['ok'],
    'flat': ['ok'],
    'flat_text': ['ok'],
    'flat_document': ['ok'],
}
BOUNDS = {
    'quick': 'every record kind and every control kind, every field an '
             'arbitrary value, every version, arrays of 0..2 items, texts '
             'of 0 or 2 characters; text dumps and flat XML of one record '
             'of every kind in two versions with some fields arbitrary, '
             'texts of an arbitrary character, paragraph texts with an '
             'arbitrary character and control characters; documents of '
             'up to 2 sections with nested records',
}
BOUNDS['thorough'] = BOUNDS['quick']
OUTSIDE = 'how values other than numbers and texts are spelled'
ASSUMPTIONS = ['the layout table harness/spec.py']


def tasks(tier):
    out = []
    for t in c04.tasks('quick'):
        if t['fn'] == 'decode':
            out.append(dict(fn='fields', params=t['params']))
    for kind in sorted(spec.KINDS):
        if kind.startswith('Field') and kind != 'FieldHyperLink':
            continue
        opts = {}
        if kind in ('ParaCharShape', 'ParaLineSeg', 'ParaRangeTag'):
            opts = {'n': 1}
        elif kind == 'ShapeComponent':
            opts = {'chid': '$rec', 'nsr': 0, 'fill_flags': 0}
        parents = list(spec.PARENTS.get(kind, ()))
        tree = [[i, p, 'zero', {}] for i, p in enumerate(parents)]
        lv = len(tree)
        if kind == 'TableCell':
            tree = [[0, 'TableControl', 'zero', {}],
                    [1, 'TableBody', 'zero', {}]]
            lv = 1
        for fn in ('lines', 'flat'):
            mode = 'text' if kind in TEXT and fn == 'flat' else 'zero'
            out.append(dict(fn=fn, params={
                'tree': tree + [[lv, kind, mode, opts]], 'bstr': [0, 1]}))
    out.append(dict(fn='flat_text', params={}))
    for n in (1, 2, 3):
        out.append(dict(fn='flat_document', params={'n': n}))
    return out


TEXT = ('FaceName', 'FieldHyperLink', 'BookmarkControlData')


def build(sx, tree, version, p, nonzero=None):
    """records, and the fields of each: position, width"""
    rs = sx.mod('hwp5.recordstream')
    records, fields = [], []
    for i, (level, kind, mode, opts) in enumerate(tree):
        tagid, layout = spec.KINDS[kind]
        o = dict(opts)
        if 'bstr' in p:
            o['bstr'] = tuple(p['bstr'])
        b = Builder(sx, 'r%d' % i, version, mode, o)
        layout(b)
        records.append(rs.Record(tagid, level, sx.from_bytes(b.out),
                                 seqno=i))
        fields.append(sorted(set((s, w) for s, w, k in b.fields
                                 if k != 'text')))
    return records, fields


def leafs(events):
    return [item for ev, item in events if ev is None]


def balanced(sx, events):
    """composites start and end in turn"""
    to = sx.mod('hwp5.treeop')
    stack = []
    for ev, item in events:
        if ev is to.STARTEVENT:
            stack.append(item)
        elif ev is to.ENDEVENT:
            sx.check(bool(stack) and stack.pop() is item, 'nesting')
        else:
            sx.check(ev is None, 'kind of event')
    sx.check(not stack, 'nesting')


def check_fields(sx, m, fields, payload):
    got = leafs(m['binevents'])
    sx.check([x['bin_offset'] for x in got] == [s for s, w in fields],
             'places of the fields')
    for x, (s, w) in zip(got, fields):
        v = x['value']
        t = x.get('bin_type', x['type'])
        if not getattr(t, 'binfmt', None) or t.binfmt[-1] in 'df':
            continue
        n = 0
        for i in range(w):
            n = n | payload[s + i] << (8 * i)
        sx.check(sx.eq(v & ((1 << (8 * w)) - 1), n), 'value of a field')
        sx.check(struct.calcsize(t.binfmt) == w, 'width of a field')
    balanced(sx, m['binevents'])


def fields(sx, p):
    bm = sx.mod('hwp5.binmodel')
    version = arbitrary_version(sx)
    tree = fix_counts(p['tree'])
    records, fields = build(sx, tree, version, p)
    models = list(bm.parse_models(dict(version=version), records))
    sx.check(len(models) == len(records), 'one model per record')
    for m, r, f in zip(models, records, fields):
        check_fields(sx, m, f, r['payload'])
    sx.cover('ok')


def encoded(sx, records):
    data = []
    for r in records:
        data += head(r['tagid'], r['level'], len(r['payload'])) + \
            list(r['payload'])
    return sx.from_bytes(data)


def last_model(sx, p, version):
    bm = sx.mod('hwp5.binmodel')
    records, fields = build(sx, fix_counts(p['tree']), version, p)
    models = list(bm.parse_models(dict(version=version), records))
    return records, models, fields


def lines(sx, p):
    """the lines of find --dump and models --events"""
    version = sx.choice('version', [(5, 0, 0, 0), (5, 0, 3, 4)])
    records, models, fields = last_model(sx, p, version)
    m = models[-1]
    data = encoded(sx, records)
    tree = {'FileHeader': fileheader(sx, 0, tuple(reversed(version))),
            'DocInfo': b'', 'BodyText': {'Section0': data}}
    want = []
    for x in leafs(m['binevents']):
        want.append((x['bin_offset'], x['type'].__name__, x.get('name'),
                     x['value']))
    got = join(sx, run(sx, ['find', '--dump', '--format', '%(seqno)d#',
                            'a'], {'a': tree}), True).split(u'\n')
    at = [k for k, x in enumerate(got) if not sx.is_sym(x) and
          x == u'%d#' % m['seqno']]
    sx.check(len(at) == 1, 'the record is found')
    got = [x for x in got[at[0]:] if x[:2] == u'  ' and x[6:8] == u': ']
    sx.check(len(got) == len(want), 'a line for each field')
    for line, (pos, type, name, value) in zip(got, want):
        w = u'  %04x: %s ' % (pos, type)
        if name:
            w = w + u'%r ' % str(name)
        sx.check(sx.eq(line, w + u'%r' % (value,)), 'line of a field')
    got = join(sx, run(sx, ['models', '--events', 'a', 'bodytext/0'],
                       {'a': tree}), True).split(u'\n')
    at = [k for k, x in enumerate(got) if not sx.is_sym(x) and
          x.split()[1:3] == ['Record', '%d' % m['seqno']]]
    sx.check(len(at) == 2, 'the record is shown')
    got = [x for x in got[at[0] + 1:at[1]] if x[:1] != u' ']
    sx.check(len(got) == len(want), 'a line for each field')
    for line, (pos, type, name, value) in zip(got, want):
        w = u'%04x %s %s ' % (pos, type, name or u'-')
        sx.check(sx.eq(line, w + u'%r' % (value,)), 'line of a field')
    sx.cover('ok')


class Sink(object):

    def __init__(self):
        self.parts = []

    def write(self, x):
        self.parts.append(x)


def attr(sx, x, k):
    return sx.from_codepoints(x[1][k])


def xml_text(sx, s):
    """characters XML can't hold are missing"""
    out = []
    for c in sx.codepoints(s):
        if xmlparse.legal(sx, c):
            out.append(c)
    return sx.from_codepoints(out)


def check_struct(sx, kids, events, cls):
    """elements of a record: nested as the events are, all values shown"""
    to = sx.mod('hwp5.treeop')
    dio = sx.mod('hwp5.dataio')
    stack = [[kids, 0]]
    for ev, item in events:
        if ev is to.ENDEVENT:
            top = stack.pop()
            sx.check(top[1] == len(top[0]), 'nothing else')
            continue
        top = stack[-1]
        sx.check(top[1] < len(top[0]), 'an element for each item')
        x = top[0][top[1]]
        top[1] += 1
        if ev is to.STARTEVENT:
            sx.check(x[0] in ('struct', 'array'), 'structures')
            if 'name' in item:
                sx.check(sx.eq(attr(sx, x, 'name'), item['name']), 'name')
            if x[0] == 'struct':
                sx.check(sx.eq(attr(sx, x, 'type'), item['type'].__name__),
                         'type')
            stack.append([x[2], 0])
            continue
        sx.check(x[0] == 'item', 'items')
        want = {'value': xml_text(sx, u'%s' % (item['value'],)),
                'type': item.get('bin_type', item['type']).__name__,
                'offset': u'%d' % item['bin_offset']}
        if 'name' in item:
            want['name'] = item['name']
        sx.check(sorted(want) == sorted(x[1]), 'entries of an item')
        for k in want:
            sx.check(sx.eq(attr(sx, x, k), want[k]), 'item: ' + k)
        if isinstance(item['type'], dio.FlagsType):
            check_bits(sx, x[2], item)
        else:
            sx.check(not x[2], 'nothing inside of an item')
    sx.check(len(stack) == 1 and stack[0][1] == len(kids), 'complete')


def check_bits(sx, kids, item):
    v = int(item['value'])
    width = item['bin_type'].fixed_size
    sx.check(len(kids) == 1 and kids[0][0] == 'bitflags', 'flags')
    x = kids[0]
    sx.check(int(attr(sx, x, 'hex'), 16) == v and
             len(x[1]['hex']) == 2 * width, 'digits')
    sx.check(int(attr(sx, x, 'bin'), 2) == v and
             len(x[1]['bin']) == 8 * width, 'digits')
    for b in x[2]:
        sx.check(b[0] == 'bits', 'fields of flags')
        lsb, msb = int(attr(sx, b, 'lsb')), int(attr(sx, b, 'msb'))
        sx.check(int(attr(sx, b, 'value')) ==
                 v >> lsb & (1 << (msb - lsb + 1)) - 1, 'value of bits')


def flat_of(sx, version, docinfo, sections, declaration=True):
    bm = sx.mod('hwp5.binmodel')
    f = bm.Hwp5File(Storage({
        'FileHeader': Stream(fileheader(sx, 1 << 5,
                                        tuple(reversed(version)))),
        'DocInfo': Stream(docinfo),
        'BodyText': dict(('Section%d' % i, Stream(x))
                         for i, x in enumerate(sections))}))
    out = Sink()
    sx.mod('hwp5.xmldump_flat').xmldump_flat(
        f, out, xml_declaration=declaration)
    data = b''.join(out.parts)
    text = data.decode('utf-8')
    decl = u'<?xml version="1.0" encoding="utf-8"?>'
    sx.check(text.startswith(decl) == declaration, 'declaration')
    if not sx.is_sym(text):
        return element(sx, ElementTree.fromstring(text.encode('utf-8')))
    # the slow reader is for what is after the file header
    i = text.index(u'</FileHeader>') + 13
    first, rest = text[:i], text[i:]
    sx.check(not sx.is_sym(first), 'file header')
    root = element(sx, ElementTree.fromstring(
        (first + u'</Hwp5Doc>').encode('utf-8')))
    root[2].extend(xmlparse.parse(sx, u'<x>' + rest.replace(
        u'</Hwp5Doc>', u'</x>'))[2])
    return root


def element(sx, x):
    """as the reader for symbolic texts returns it"""
    return [x.tag, dict((k, sx.codepoints(x.get(k))) for k in x.keys()),
            [element(sx, y) for y in x]]


def check_record(sx, x, r, models):
    sx.check(x[0] == 'Record', 'records')
    for k in ('tagname', 'tagid', 'seqno', 'level', 'size'):
        sx.check(sx.eq(attr(sx, x, k), u'%s' % (r[k],)), 'record: ' + k)


def record_elements(x):
    """Record elements inside of x in document order"""
    out = []
    for y in x[2]:
        if isinstance(y, list) and y and y[0] == 'Record':
            out.append(y)
            out.extend(record_elements(y))
    return out


def flat(sx, p):
    version = sx.choice('version', [(5, 0, 0, 0), (5, 0, 3, 4)])
    records, models, fields = last_model(sx, p, version)
    root = flat_of(sx, version, b'', [encoded(sx, records)])
    sx.check(root[0] == 'Hwp5Doc', 'root')
    sx.check([x[0] for x in root[2]] == ['FileHeader', 'DocInfo',
                                         'Section'], 'parts')
    sx.check(not root[2][1][2], 'no records')
    recs = record_elements(root[2][2])
    sx.check(len(recs) == len(records), 'every record')
    for x, r, m in zip(recs, records, models):
        check_record(sx, x, r, m)
        inner = [y for y in x[2] if y[0] != 'Record']
        if m is models[-1]:
            check_struct(sx, inner, m['binevents'], m['type'])
    sx.cover('ok')


def flat_text(sx, p):
    """text of a paragraph and its control characters"""
    c = sx.u16('c')
    sx.assume(sx.And(c > 31, sx.Or(c < 0xd800, c > 0xdfff)))
    xs = [c & 255, c >> 8]
    ctl = sx.choice('ctl', [13, 9, 11])
    if ctl == 13:
        xs += [13, 0]
    else:
        xs += [ctl, 0] + [0] * 12 + [ctl, 0, 65, 0]
    data = head(66, 0, 22) + [0] * 22 + head(67, 1, len(xs)) + xs
    root = flat_of(sx, (5, 0, 3, 0), b'', [sx.from_bytes(data)])
    recs = record_elements(root[2][2])
    sx.check(len(recs) == 2, 'every record')
    out = []

    def items(x):
        for y in x[2]:
            if isinstance(y, list) and y and y[0] == 'item':
                out.append(y)
            elif isinstance(y, list) and y and y[0] in ('struct',
                                                            'array'):
                items(y)
    items(recs[1])
    sx.check(sx.eq(attr(sx, out[0], 'value'),
                   xml_text(sx, sx.from_codepoints([c]))), 'text')
    want = [('0', 'Text'), ('2', 'ControlChar')]
    if ctl != 13:
        want.append(('18', 'Text'))
    sx.check([(attr(sx, y, 'offset'), attr(sx, y, 'type')) for y in out] ==
             want, 'places')
    sx.cover('ok')


def flat_document(sx, p):
    """all records of all streams"""
    n = p['n']

    def stream(k):
        recs = []
        for i in range(n):
            lv = sx.choice('%s.%d' % (k, i), [0, 1]) if i else 0
            recs.append((300 if i else 66, lv, i))
        data = []
        for tag, lv, i in recs:
            size = 22 if tag == 66 else i
            data += head(tag, lv, size) + [0] * size
        return recs, sx.from_bytes(data)
    parts = [stream(k) for k in 'abc']
    k = sx.choice('sections', [1, 2])
    decl = sx.choice('declaration', [True, False])
    root = flat_of(sx, (5, 0, 10, 255), parts[0][1],
                   [x[1] for x in parts[1:1 + k]], decl)
    sx.check(attr(sx, root, 'version') == '5.0.10.255' and
             attr(sx, root, 'hexversion') == '05000aff', 'version')
    names = ['FileHeader', 'DocInfo'] + ['Section'] * k
    sx.check([x[0] for x in root[2]] == names, 'parts')
    items = root[2][0][2][0][2]
    sx.check([attr(sx, y, 'offset') for y in items] ==
             ['0', '32', '36', '40'], 'fields of the header')
    flags = [y for y in items if attr(sx, y, 'name') == 'flags'][0]
    on = [attr(sx, b, 'name') for b in flags[2][0][2]
          if attr(sx, b, 'value') == '1']
    sx.check(on == ['xmltemplate_storage'], 'flags of the header')
    sx.check(sorted(attr(sx, x, 'name') for x in root[2][2:]) ==
             ['Section%d' % i for i in range(k)], 'names of sections')
    order = [root[2][1]] + sorted(root[2][2:],
                                  key=lambda x: attr(sx, x, 'name'))
    for x, (recs, data) in zip(order, parts):
        got = record_elements(x)
        sx.check([(attr(sx, y, 'tagid'), attr(sx, y, 'level'),
                   attr(sx, y, 'seqno')) for y in got] ==
                 [(str(t), str(lv), str(i)) for t, lv, i in recs], 'records')
    sx.cover('ok')
