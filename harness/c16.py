# -*- coding: utf-8 -*-
"""Summary information: property sets decode to the values they hold."""
from datetime import datetime, timedelta
import uuid

from .cfb import Storage, Stream, fileheader
from .docmodel import tree_of

PRELOAD = ['hwp5.msoleprops', 'hwp5.summaryinfo', 'hwp5.filestructure',
           'hwp5.xmlmodel', 'hwp5.storage.ole']

COVERS = {
    'accessors': ['ok'],
    'numbers': ['ok'],
    'layout': ['ok'],
    'ids': ['ok'],
    'filetime': ['ok'],
    'corners': ['ok'],
    'lines': ['ok'],
    'elements': ['ok'],
    'formatter': ['ok'],
    'unknown': ['ok'],
    'xml': ['ok'],
}
BOUNDS = {
    'quick': 'one or two property sets with up to 15 properties in several '
             'orders of the table and of the values; numbers over their '
             'whole range, texts of 0..2 arbitrary characters, 64-bit file '
             'times within the years 1601..9999',
    'thorough': 'the same with texts of up to 4 characters',
}
OUTSIDE = 'file times after the year 9999; dictionaries in code pages other '\
    'than latin-1; texts without terminating null'

HWP = uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c')
OTHER = uuid.UUID('f29f85e0-4ff9-1068-ab91-08002b27b3d9')
# property, accessor, kind of value, label
PROPS = [
    (2, 'title', 't', 'PIDSI_TITLE'),
    (3, 'subject', 't', 'PIDSI_SUBJECT'),
    (4, 'author', 't', 'PIDSI_AUTHOR'),
    (5, 'keywords', 't', 'PIDSI_KEYWORDS'),
    (6, 'comments', 't', 'PIDSI_COMMENTS'),
    (8, 'lastSavedBy', 't', 'PIDSI_LASTAUTHOR'),
    (9, 'revisionNumber', 't', 'PIDSI_REVNUMBER'),
    (0xb, 'lastPrintedTime', 'd', 'PIDSI_LASTPRINTED'),
    (0xc, 'createdTime', 'd', 'PIDSI_CREATE_DTM'),
    (0xd, 'lastSavedTime', 'd', 'PIDSI_LASTSAVE_DTM'),
    (0xe, 'numberOfPages', 'n', 'PIDSI_PAGECOUNT'),
    (0x14, 'dateString', 't', 'HWPPIDSI_DATE_STR'),
    (0x15, 'numberOfParagraphs', 'n', 'HWPPIDSI_PARACOUNT'),
]
LABELS = dict((p[0], p[3]) for p in PROPS)
LABELS.update({0: 'PID_DICTIONARY', 1: 'PID_CODEPAGE',
               0x80000000: 'PID_LOCALE', 0x80000003: 'PID_BEHAVIOR',
               7: 'PIDSI_TEMPLATE', 0xa: 'PIDSI_EDITTIME',
               0xf: 'PIDSI_WORDCOUNT', 0x10: 'PIDSI_CHARCOUNT',
               0x11: 'PIDSI_THUMBNAIL', 0x12: 'PIDSI_APPNAME',
               0x13: 'PIDSI_SECURITY'})
LAST = 2650467743999999999


def tasks(tier):
    q = tier == 'quick'
    out = []
    for order in range(3):
        for n in (0, 2) if q else (0, 1, 2, 4):
            out.append(dict(fn='accessors', params={'order': order, 'n': n}))
            for kind in ('t', 'n') if n == 2 else ('t',):
                out.append(dict(fn='lines', params={
                    'order': order, 'n': 2 if kind == 'n' else min(n, 2),
                    'kind': kind}))
            out.append(dict(fn='elements', params={'order': order, 'n': n}))
            out.append(dict(fn='formatter', params={'order': order, 'n': n}))
    out.append(dict(fn='numbers', params={}))
    for sets in (1, 2):
        for d in (False, True):
            for c in (False, True):
                out.append(dict(fn='layout', params={
                    'sets': sets, 'dictionary': d, 'codepage': c}))
    for n in (1, 2):
        out.append(dict(fn='ids', params={'n': n}))
    out.append(dict(fn='filetime', params={}))
    out.append(dict(fn='corners', params={}))
    out.append(dict(fn='unknown', params={}))
    for x in ('text', 'number'):
        out.append(dict(fn='xml', params={'arbitrary': x}))
    return out


def le(v, n):
    return [(v >> (8 * i)) & 0xff for i in range(n)]


def text_value(sx, name, n):
    """(bytes of the value, text)"""
    cps = []
    raw = []
    for i in range(n):
        c = sx.u16('%s.%d' % (name, i))
        sx.assume(sx.Or(c < 0xd800, c > 0xdfff))
        cps.append(c)
        raw += le(c, 2)
    raw += [0, 0]
    return le(0x1f, 4) + le(n + 1, 4) + raw, sx.from_codepoints(cps)


def number_value(sx, name):
    v = sx.i32(name)
    return le(3, 4) + le(v, 4), v


def time_value(sx, name, value=None):
    v = sx.int(name, 0, LAST) if value is None else value
    return le(0x40, 4) + le(v & 0xffffffff, 4) + le(v >> 32, 4), v


def dictionary_value(entries):
    out = le(len(entries), 4)
    for pid, name in entries:
        out += le(pid, 4) + le(len(name) + 1, 4) + \
            [ord(c) for c in name] + [0]
    return out


def propset(props, order, base):
    """props: [(id, bytes)]; the table lists them in the given order; the
    values follow in the order of props.  Returns the bytes and the offset
    of each property"""
    pos = 8 + 8 * len(props)
    offsets = {}
    data = []
    for pid, raw in props:
        offsets[pid] = pos + len(data)
        data += raw + [0] * (-len(raw) % 4)
    table = []
    for i in order:
        table += le(props[i][0], 4) + le(offsets[props[i][0]], 4)
    return le(pos + len(data), 4) + le(len(props), 4) + table + data, offsets


def stream(sx, sets, head=None, clsid=HWP, gap=0):
    """sets: [(fmtid, bytes)]"""
    head = head or [0xfffe, 0, 0x20005]
    out = le(head[0], 2) + le(head[1], 2) + le(head[2], 4) + \
        list(clsid.bytes_le) + le(len(sets), 4)
    pos = len(out) + 20 * len(sets)
    offs = []
    data = []
    for fmtid, raw in sets:
        data += [0] * gap
        offs.append(pos + len(data))
        out += list(fmtid.bytes_le) + le(pos + len(data), 4)
        data += raw
    return out + data, offs


def full(sx, p, concrete_times=False, only=None):
    """all properties of a document summary; only: the one property which
    is not fixed"""
    props = []
    values = {}
    for pid, acc, kind, label in PROPS:
        if only not in (None, pid) and kind == 't':
            v = acc[:p['n']]
            raw = le(0x1f, 4) + le(len(v) + 1, 4)
            for c in v + '\0':
                raw += le(ord(c), 2)
        elif only not in (None, pid) and kind == 'n':
            v = pid * 11
            raw = le(3, 4) + le(v, 4)
        elif kind == 't':
            raw, v = text_value(sx, acc, p['n'])
        elif kind == 'n':
            raw, v = number_value(sx, acc)
        else:
            raw, v = time_value(sx, acc, 129000000000000000 + pid
                                if concrete_times else None)
        props.append((pid, raw))
        values[pid] = v
    k = len(props)
    if p['order'] == 0:
        order = list(range(k))
    elif p['order'] == 1:
        order = list(reversed(range(k)))
    else:
        order = [(i * 5 + 2) % k for i in range(k)]
        assert sorted(order) == list(range(k))
    raw, offsets = propset(props, order, 0)
    data, offs = stream(sx, [(HWP, raw)], gap=p.get('gap', 0))
    return sx.from_bytes(data), values, offsets, offs[0]


def info(sx, data, mod='hwp5.filestructure'):
    stg = Storage({'FileHeader': Stream(fileheader(sx, 0)),
                   '\x05HwpSummaryInformation': Stream(data)})
    return sx.mod(mod).Hwp5File(stg).summaryinfo


def same(sx, pid, got, want):
    kind = [p[2] for p in PROPS if p[0] == pid][0]
    if kind == 'd':
        sx.check(sx.eq(got.value, want), 'file time')
    else:
        sx.check(sx.eq(got, want), 'value of a property')


def accessors(sx, p):
    data, values, offsets, base = full(sx, dict(p, gap=p['order'] * 4))
    for mod in ('hwp5.filestructure', 'hwp5.xmlmodel'):
        si = info(sx, data, mod)
        for pid, acc, kind, label in PROPS:
            same(sx, pid, getattr(si, acc), values[pid])
    # whatever was read before
    si.propertySetStream
    lines = list(si.plaintext_lines)
    sx.check(len(lines) == 7 + len(PROPS), 'lines of text')
    same(sx, 2, si.title, values[2])
    sx.cover('ok')


def numbers(sx, p):
    """header fields"""
    ms = sx.mod('hwp5.msoleprops')
    head = [sx.u16('byteorder'), sx.u16('version'), sx.u32('system')]
    raw, v = number_value(sx, 'v')
    body, offsets = propset([(0xe, raw)], [0], 0)
    data, offs = stream(sx, [(HWP, body)], head, gap=sx.choice('gap', [0, 3]))
    si = info(sx, sx.from_bytes(data))
    st = si.propertySetStream
    sx.check(sx.eq(st.byteOrder, head[0]), 'byte order')
    sx.check(sx.eq(st.version, head[1]), 'version')
    sx.check(sx.eq(st.systemIdentifier, head[2]), 'system')
    sx.check(st.clsid == HWP, 'class')
    sx.check(len(st.propertysets) == 1, 'sets')
    ps = st.propertysets[0]
    sx.check(ps.fmtid == HWP and ps.desc.offset == offs[0], 'set')
    sx.check(ps.header.bytesize == len(body), 'size of the set')
    sx.check(len(ps.properties) == 1, 'properties')
    pr = ps.properties[0]
    sx.check(pr.id == 0xe and pr.desc.offset == offsets[0xe], 'property')
    sx.check(pr.type.code == 3 and pr.idLabel == 'PIDSI_PAGECOUNT',
             'property')
    sx.check(sx.eq(pr.value, v), 'value')
    want = ['- ByteOrder: 0x' + hexa(sx, head[0], 4, strip=True),
            '- Version: %d' % head[1],
            '- SystemIdentifier: 0x' + hexa(sx, head[2], 8)]
    lines = list(si.plaintext_lines)
    sx.check(sx.eq(lines[1:3], want[1:]), 'lines')
    sx.check(sx.eq(lines[0], want[0]), 'line of the byte order')
    sx.cover('ok')


def hexa(sx, v, n, strip=False):
    out = []
    for i in reversed(range(n)):
        d = (v >> (4 * i)) & 15
        if strip and not out and i and d == 0:
            continue
        out.append(sx.ite(d < 10, d + 48, d + 87))
    return sx.from_codepoints(out)


def layout(sx, p):
    """sets at any place, with and without dictionary and code page"""
    ms = sx.mod('hwp5.msoleprops')
    sets = []
    want = []
    for k in range(p['sets']):
        props = []
        vals = {}
        if p['codepage']:
            raw, v = number_value(sx, 'cp%d' % k)
            props.append((1, raw))
            vals[1] = v
        if p['dictionary']:
            entries = [(0x20, 'one'), (0x14, 'date'), (k, '')]
            props.append((0, dictionary_value(entries)))
            vals[0] = entries
        raw, v = number_value(sx, 'n%d' % k)
        props.append((0x20, raw))
        vals[0x20] = v
        raw, v = text_value(sx, 't%d' % k, 1)
        props.append((0x14, raw))
        vals[0x14] = v
        order = list(range(len(props)))
        if sx.bool('reversed%d' % k):
            order.reverse()
        raw, offsets = propset(props, order, 0)
        sets.append(((HWP, OTHER)[k], raw))
        want.append((vals, offsets))
    data, offs = stream(sx, sets, gap=sx.choice('gap', [0, 8]))
    si = info(sx, sx.from_bytes(data))
    st = si.propertySetStream
    sx.check([s.fmtid for s in st.propertysets] == [f for f, r in sets],
             'sets')
    for i, s in enumerate(st.propertysets):
        vals, offsets = want[i]
        sx.check(s.desc.offset == offs[i], 'offset of a set')
        sx.check(sorted(x.id for x in s.properties) == sorted(vals),
                 'properties')
        for x in s.properties:
            sx.check(x.desc.offset == offsets[x.id], 'offset')
            label = LABELS.get(x.id) if i == 0 else None
            sx.check(x.idLabel == label, 'label')
            if x.id == 0:
                sx.check([(e.id, e.name) for e in x.value.entries] ==
                         vals[0], 'dictionary')
                sx.check(x.value.get(0x14) == 'date' and
                         x.value.get(0x99, 'no') == 'no', 'names')
            else:
                sx.check(sx.eq(x.value, vals[x.id]), 'value')
                sx.check(sx.eq(s[ms.PropertyIdentifier(x.id, '')],
                               vals[x.id]), 'value by identifier')
        try:
            s[ms.PropertyIdentifier(0x7777, '')]
            sx.fail('missing properties are reported')
        except KeyError:
            pass
    lines = list(si.plaintext_lines)
    sx.check(len(lines) == 5 + sum(
        2 + len(v) + len(v.get(0, ())) for v, o in want), 'lines')
    sx.cover('ok')


IDS = [2, 3, 0xe, 0x77, 0x100, 0x102, 0x8000, 0xffff, 0x10000, 0x10001,
       0x10002, 0x1000000, 0x7fffffff, 0x80000000, 0x80000001, 0x80000003,
       0xfffffffe, 0xffffffff]


def ids(sx, p):
    """identifiers of all magnitudes"""
    ms = sx.mod('hwp5.msoleprops')
    props = []
    for i in range(p['n']):
        pid = sx.choice('id%d' % i, IDS)
        for q, r, v in props:
            sx.assume(pid != q)
        raw, v = number_value(sx, 'v%d' % i)
        props.append((pid, raw, v))
    # the locale, along with the dictionary
    body, offsets = propset([(0, dictionary_value([(2, 'x')]))] + [
        (j, r) for j, (q, r, v) in enumerate(props, 0x99990000)],
        range(len(props) + 1), 0)
    for i, (q, r, v) in enumerate(props):
        body[16 + 8 * i:20 + 8 * i] = le(q, 4)
    data, offs = stream(sx, [(HWP, body)])
    si = info(sx, sx.from_bytes(data))
    got = si.propertySetStream.propertysets[0]
    sx.check(len(got.properties) == len(props) + 1, 'properties')
    for i, (q, r, v) in enumerate(props):
        n = 0
        for x in got.properties:
            if x.desc.offset == offsets[0x99990000 + i]:
                n += 1
                sx.check(sx.eq(x.id, q), 'identifier')
                sx.check(sx.eq(x.value, v), 'value')
        sx.check(n == 1, 'one property for each entry of the table')
        sx.check(sx.eq(got[ms.PropertyIdentifier(q, '')], v), 'value')
    sx.cover('ok')


def filetime(sx, p):
    raw, v = time_value(sx, 'v')
    body, offsets = propset([(0xc, raw)], [0], 0)
    data, offs = stream(sx, [(HWP, body)])
    t = info(sx, sx.from_bytes(data)).createdTime
    sx.check(sx.eq(t.value, v), 'file time')
    want = datetime(1601, 1, 1) + timedelta(microseconds=v // 10)
    sx.check(t.datetime == want, 'date and time')
    sx.cover('ok')


CORNERS = [0, 9, 10, 11, 9999999, 10000000, 129000000000000015,
           129000000000000019, 128000000000000005, 0x1ffffffff * 10 + 5,
           90071992547409930, 90071992547409951, 131659218010000005, LAST]


def corners(sx, p):
    raw, v = time_value(sx, 'v', sx.choice('time', CORNERS))
    body, offsets = propset([(0xc, raw)], [0], 0)
    data, offs = stream(sx, [(HWP, body)])
    t = info(sx, sx.from_bytes(data)).createdTime
    want = datetime(1601, 1, 1) + timedelta(microseconds=v // 10)
    sx.check(t.datetime == want, 'date and time')
    sx.check(str(t) == str(want), 'text of date and time')
    sx.cover('ok')


def shown(sx, pid, values):
    kind = [p[2] for p in PROPS if p[0] == pid][0]
    if kind == 'd':
        return str(datetime(1601, 1, 1) +
                   timedelta(microseconds=values[pid] // 10))
    return values[pid] if kind == 't' else '%d' % values[pid]


def lines(sx, p):
    only = sx.choice('only', [q[0] for q in PROPS if q[2] == p['kind']])
    data, values, offsets, base = full(sx, p, True, only)
    si = info(sx, data)
    want = ['- ByteOrder: 0xfffe', '- Version: 0',
            '- SystemIdentifier: 0x00020005', '- CLSID: ' + str(HWP), '',
            '- %08x: Property Set %s' % (base, HWP),
            ' ' * 12 + '-' * (len('Property Set ') + 36)]
    for pid in sorted(offsets, key=lambda i: offsets[i]):
        want.append('- %08x: %s(=0x%08x): ' % (
            base + offsets[pid], LABELS[pid], pid) + shown(sx, pid, values))
    got = list(si.plaintext_lines)
    sx.check(len(got) == len(want), 'number of lines')
    for a, b in zip(got, want):
        sx.check(sx.eq(a, b), 'line of text')
    fmt = si.other_formats()
    sx.check(list(fmt) == ['.txt'], 'formats')
    text = ''
    for x in want:
        text = text + x + '\n'
    for i in range(2):
        sx.check(sx.eq(fmt['.txt']().read(), text.encode('utf-8')),
                 'text stream')
    sx.cover('ok')


def formatter(sx, p):
    sm = sx.mod('hwp5.summaryinfo')
    data, values, offsets, base = full(sx, p, True)
    si = info(sx, data)
    titles = ['Title', 'Subject', 'Author', 'Keywords', 'Comments',
              'Last saved by', 'Revision Number', 'Last Printed at',
              'Created at', 'Last saved at', 'Number of pages', 'Date',
              'Number of paragraphs']
    got = list(sm.HwpSummaryInfoTextFormatter().formatTextLines(si))
    sx.check(len(got) == len(titles), 'number of lines')
    for g, t, (pid, acc, kind, label) in zip(got, titles, PROPS):
        sx.check(sx.eq(g, t + ': ' + shown(sx, pid, values)), 'line')
    sx.cover('ok')


def elements(sx, p):
    xm = sx.mod('hwp5.xmlmodel')
    data, values, offsets, base = full(sx, p, True)
    si = info(sx, data, 'hwp5.xmlmodel')
    nodes = tree_of(sx, xm, si.events())
    sx.check([n[0] for n in nodes] == ['HwpSummaryInfo'], 'root')
    nodes = nodes[0][2]
    sx.check([n[0] for n in nodes] == ['PropertySetStream'], 'stream')
    a = nodes[0][1]
    sx.check(a['byte_order'] == 'fffe' and a['clsid'] == str(HWP) and
             a['system_identifier'] == '00020005', 'header')
    nodes = nodes[0][2]
    sx.check([n[0] for n in nodes] == ['PropertySet'], 'set')
    sx.check(nodes[0][1]['fmtid'] == HWP and nodes[0][1]['offset'] == base,
             'set')
    kids = nodes[0][2]
    ids = sorted(offsets, key=lambda i: offsets[i])
    sx.check([n[0] for n in kids] == ['Property'] * len(ids), 'properties')
    for n, pid in zip(kids, ids):
        a = n[1]
        sx.check(a['id'] == pid and a['offset'] == offsets[pid] and
                 a['id_label'] == LABELS[pid], 'property')
        same(sx, pid, a['value'], values[pid])
        kind = [x[2] for x in PROPS if x[0] == pid][0]
        sx.check((a['type'], a['type_code']) == {
            't': ('VT_LPWSTR', '0x001f'), 'n': ('VT_I4', '0x0003'),
            'd': ('VT_FILETIME', '0x0040')}[kind], 'type')
    sx.cover('ok')


def unknown(sx, p):
    """values of a type that is not known do not hide the others"""
    xm = sx.mod('hwp5.xmlmodel')
    code = sx.u16('code')
    sx.assume(sx.And(code != 3, code != 0x1f, code != 0x40))
    raw, v = number_value(sx, 'v')
    pid = sx.choice('pid', [1, 7, 0x77])
    body, offsets = propset([(pid, le(code, 4) + [1, 2, 3, 4]), (0xe, raw)],
                            [0, 1], 0)
    data, offs = stream(sx, [(HWP, body)])
    si = info(sx, sx.from_bytes(data), 'hwp5.xmlmodel')
    sx.check(sx.eq(si.numberOfPages, v), 'other property')
    st = si.propertySetStream
    for x in st.propertysets[0].properties:
        if x.id == pid:
            sx.check(sx.eq(x.type.code, code), 'type code')
            sx.check(x.value is None, 'value')
    nodes = tree_of(sx, xm, si.events())
    kids = nodes[0][2][0][2][0][2]
    sx.check([n[1]['id'] for n in kids] == [pid, 0xe], 'properties')
    sx.check(sx.eq(kids[1][1]['value'], v), 'value')
    sx.check('value' not in kids[0][1], 'no value')
    sx.check(len(list(si.plaintext_lines)) == 9, 'lines')
    sx.cover('ok')


def xml(sx, p):
    """as XML, with a dictionary"""
    from .xmlparse import parse, DECL
    entries = [(0xe, 'pages'), (0x14, 'date')]
    raw, v = number_value(sx, 'v')
    raw2, t = text_value(sx, 't', 1)
    if p['arbitrary'] == 'text':
        sx.assume(sx.eq(v, 37))
    else:
        sx.assume(sx.eq(t, '<'))
    for c in sx.codepoints(t):
        sx.assume(sx.And(c >= 0x20, c < 0xfffe))
    raw3, d = time_value(sx, 'd', 129000000000000000)
    body, offsets = propset([(0, dictionary_value(entries)), (0xe, raw),
                             (0x14, raw2), (0xc, raw3)], [3, 1, 0, 2], 0)
    data, offs = stream(sx, [(HWP, body)])
    si = info(sx, sx.from_bytes(data), 'hwp5.xmlmodel')
    text = b''.join(si.xmlevents().bytechunks()).decode('utf-8')
    root = parse(sx, text, DECL)

    def attrs(n):
        return dict((k, sx.from_codepoints(x)) for k, x in n[1].items())
    sx.check(root[0] == 'HwpSummaryInfo', 'root')
    st = root[2][0]
    sx.check(attrs(st) == {'byte-order': 'fffe', 'version': '0',
                           'system-identifier': '00020005',
                           'clsid': str(HWP)}, 'stream')
    ps = st[2][0]
    sx.check(attrs(ps) == {'fmtid': str(HWP), 'offset': '%d' % offs[0]},
             'set')
    kids = ps[2]
    want = [(0, None, {}), (0xe, 'VT_I4', '%d' % v),
            (0x14, 'VT_LPWSTR', t), (0xc, 'VT_FILETIME',
                                     str(datetime(1601, 1, 1) + timedelta(
                                         microseconds=d // 10)))]
    sx.check(len(kids) == 4, 'properties')
    for n, (pid, kind, val) in zip(kids, want):
        a = attrs(n)
        w = {'id': str(pid), 'offset': str(offsets[pid]),
             'id-label': LABELS[pid]}
        if kind:
            w['type'] = kind
            w['type-code'] = {'VT_I4': '0x0003', 'VT_LPWSTR': '0x001f',
                              'VT_FILETIME': '0x0040'}[kind]
            w['value'] = val
        sx.check(sorted(a) == sorted(w), 'attributes')
        for k in w:
            sx.check(sx.eq(a[k], w[k]), 'attribute')
        if pid == 0:
            sx.check([attrs(e) for e in n[2]] == [
                {'id': str(i), 'name': s} for i, s in entries], 'dictionary')
    sx.cover('ok')
