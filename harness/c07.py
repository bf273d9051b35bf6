# -*- coding: utf-8 -*-
"""Paragraph text is split into text runs and control characters."""
import struct

PRELOAD = ['hwp5.binmodel']

COVERS = {
    'text': ['text', 'control'],
    'control': ['single', 'object', 'tab'],
    'names': ['single', 'object'],
}
BOUNDS = {
    'quick': 'paragraphs of 0..4 arbitrary code units; one control character '
             'of every code with an arbitrary 12-byte parameter between 0..2 '
             'arbitrary code units; surrogate pairs',
    'thorough': 'paragraphs of 0..6 arbitrary code units and two control '
                'characters of every code',
}
OUTSIDE = 'control characters cut off at the end of the paragraph; '\
    'unpaired surrogates; an odd number of bytes'

SINGLE = [0x00, 0x0a, 0x0d] + list(range(0x18, 0x20))
# codes that start an object held in a following record
EXTENDED = [0x01, 0x02, 0x03, 0x0b, 0x0c, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x15,
            0x16, 0x17]
NAMES = {0x00: 'NULL', 0x02: 'SECTION_COLUMN_DEF', 0x03: 'FIELD_START',
         0x04: 'FIELD_END', 0x08: 'TITLE_MARK', 0x09: 'TAB',
         0x0a: 'LINE_BREAK', 0x0b: 'DRAWING_TABLE_OBJECT',
         0x0d: 'PARAGRAPH_BREAK', 0x0f: 'HIDDEN_EXPLANATION',
         0x10: 'HEADER_FOOTER', 0x11: 'FOOT_END_NOTE', 0x12: 'AUTO_NUMBER',
         0x15: 'PAGE_CTLCHR', 0x16: 'BOOKMARK', 0x18: 'HYPHEN',
         0x1e: 'NONBREAK_SPACE', 0x1f: 'FIXWIDTH_SPACE'}


def tasks(tier):
    out = []
    for n in range(0, 5 if tier == 'quick' else 7):
        out.append(dict(fn='text', params={'n': n}))
        if n >= 2:
            for i in range(n - 1):
                out.append(dict(fn='text', params={'n': n, 'pair': i}))
    for before in (0, 1, 2):
        for after in (0, 1, 2):
            out.append(dict(fn='control', params={
                'shape': ['t'] * before + ['c'] + ['t'] * after}))
    if tier == 'thorough':
        for shape in ('cc', 'tcc', 'ctc', 'cct', 'tctc', 'ctct', 'tctct',
                      'ccc', 'ptc', 'cpt'):
            out.append(dict(fn='control', params={'shape': list(shape)}))
    out.append(dict(fn='control', params={'shape': list('pct')}))
    out.append(dict(fn='control', params={'shape': list('cp')}))
    out.append(dict(fn='names', params={}))
    return out


def parse(sx, units, tail=b''):
    bm = sx.mod('hwp5.binmodel')
    rs = sx.mod('hwp5.recordstream')
    data = []
    for u in units:
        data.extend([u & 0xff, u >> 8])
    rec = rs.Record(67, 0, sx.from_bytes(data), seqno=0)
    m, = bm.parse_models(dict(version=(5, 0, 3, 4)), [rec])
    sx.check(m['type'].__name__ == 'ParaText', 'kind')
    sx.check(not m.get('unparsed'), 'the paragraph is read to its end')
    return m['content']['chunks']


def same_text(sx, text, units):
    """text is what the code units encode"""
    got = text.encode('utf-16le')
    want = []
    for u in units:
        want.extend([u & 0xff, u >> 8])
    return sx.eq(got, sx.from_bytes(want))


def compare(sx, chunks, want):
    pos = 0
    sx.check(len(chunks) == len(want), 'number of chunks')
    for ((start, end), chunk), (kind, units) in zip(chunks, want):
        sx.check(start == pos, 'chunks are contiguous')
        pos += len(units)
        sx.check(end == pos, 'chunks are contiguous')
        if kind == 'text':
            sx.check(sx.is_text(chunk), 'a text run')
            sx.check(same_text(sx, chunk, units), 'text of a run')
            sx.cover('text')
        else:
            sx.check(isinstance(chunk, dict), 'a control character')
            code = units[0]
            sx.check(sx.eq(chunk['code'], code), 'control code')
            bs = []
            for u in units[1:7]:
                bs.extend([u & 0xff, u >> 8])
            if kind == 'single':
                sx.check(sorted(chunk) == ['code'], 'single unit control')
                sx.cover('single')
            elif sx.eq(code, 9):
                sx.check(sorted(chunk) == ['code', 'param'], 'tab')
                q = chunk['param']
                sx.check(sx.And(
                    sx.eq(q['width'], bs[0] | bs[1] << 8 | bs[2] << 16 |
                          bs[3] << 24),
                    sx.eq(q['unknown0'], bs[4]), sx.eq(q['unknown1'], bs[5]),
                    sx.eq(q['unknown2'], sx.from_bytes(bs[6:]))),
                    'parameters of a tab')
                sx.cover('tab')
            else:
                sx.check(sorted(chunk) == ['chid', 'code', 'param'],
                         'object control')
                sx.check(sx.eq(chunk['chid'], sx.from_codepoints(
                    [bs[3], bs[2], bs[1], bs[0]])), 'id of the object')
                sx.check(sx.eq(chunk['param'], sx.from_bytes(bs[4:12])),
                         'parameters of the object')
                sx.cover('object')


def isin(sx, v, codes):
    return sx.Or(*[sx.eq(v, c) for c in codes])


def text(sx, p):
    """arbitrary code units"""
    n = p['n']
    units = [sx.u16('u%d' % i) for i in range(n)]
    for i, u in enumerate(units):
        if p.get('pair') == i:
            sx.assume(sx.And(u >= 0xd800, u < 0xdc00))
        elif 'pair' in p and p['pair'] == i - 1:
            sx.assume(sx.And(u >= 0xdc00, u < 0xe000))
        else:
            sx.assume(sx.Or(u < 0xd800, u >= 0xe000))
            # complete controls only
            sx.assume(sx.Or(u >= 32, isin(sx, u, SINGLE)))
    chunks = parse(sx, units)
    want = []
    run = []
    for u in units:
        if u < 32:
            if run:
                want.append(('text', run))
                run = []
            want.append(('single', [u]))
            sx.cover('control')
        else:
            run = run + [u]
    if run:
        want.append(('text', run))
    if not want:
        sx.cover('text')
    compare(sx, chunks, want)
    sx.observe('chunks', [[list(a), b] for a, b in chunks])


def control(sx, p):
    """controls of every kind between texts"""
    units = []
    want = []
    for i, k in enumerate(p['shape']):
        if k == 't':
            u = sx.u16('u%d' % i)
            sx.assume(sx.And(u >= 32, sx.Or(u < 0xd800, u >= 0xe000)))
            new = [u]
        elif k == 'p':
            new = [sx.int('u%dh' % i, 0xd800, 0xdbff),
                   sx.int('u%dl' % i, 0xdc00, 0xdfff)]
        else:
            code = sx.int('c%d' % i, 0, 31)
            if isin(sx, code, SINGLE):
                want.append(('single', [code]))
            else:
                new = [code] + [sx.u16('q%d_%d' % (i, j)) for j in range(6)]
                new += [sx.choice('rest%d' % i, [code, 0x41])]
                want.append(('object', new))
            units.extend(want[-1][1])
            continue
        units.extend(new)
        if want and want[-1][0] == 'text':
            want[-1][1].extend(new)
        else:
            want.append(('text', list(new)))
    chunks = parse(sx, units)
    compare(sx, chunks, want)


def names(sx, p):
    """every code has a size and a name"""
    cc = sx.mod('hwp5.binmodel.controlchar').ControlChar
    code = sx.choice('code', list(range(32)))
    kind = cc.get_kind_by_code(code)
    single = code in SINGLE
    sx.check(kind.size == (1 if single else 8), 'size of a control')
    ext = code in EXTENDED
    sx.check((kind is cc.EXTENDED) == ext, 'controls followed by a record')
    name = cc.get_name_by_code(code)
    if code in NAMES:
        sx.check(name == NAMES[code], 'name of a control')
    sx.cover('single' if single else 'object')
