# -*- coding: utf-8 -*-
"""Paragraph text is cut at character shape and line boundaries."""

PRELOAD = ['hwp5.xmlmodel']

COVERS = {
    'split': ['cut', 'whole'],
    'paragraph': ['lines', 'cut', 'control'],
    'nested': ['inner'],
    'notext': ['empty'],
    'sequence': ['ok'],
}
BOUNDS = {
    'quick': 'paragraphs of up to 3 text runs and controls of up to 11 code '
             'units together, characters inside and outside the BMP, up to '
             '3 character shapes and 3 line segments at arbitrary 32-bit '
             'positions, the text anywhere in paragraphs of up to 2^31 '
             'units; three paragraphs, after or within each other, with '
             'and without text and lines',
    'thorough': 'up to 4 chunks of up to 19 code units, up to 4 character '
                'shapes and 4 line segments',
}
OUTSIDE = 'character shape lists that are empty, not in order or do not '\
    'start at 0; boundaries within a control character or a surrogate pair'

# a: BMP character, A: character outside the BMP, c: control of 8 units,
# s: control of a single unit; a text run is a word of a and A
SHAPES = {
    'quick': [['a'], ['aa'], ['aaa'], ['aAa'], ['AA'], ['aa', 's'],
              ['c'], ['a', 'c', 'a'], ['s', 'aa'], ['a', 's', 'a'],
              ['aA', 's', 'Aa']],
    'thorough': [['aaaaa'], ['AaAaA'], ['c', 'c'], ['aa', 'c', 'aa', 's'],
                 ['c', 'aa', 'c'], ['s', 's', 's'], ['a', 's', 'A', 's'],
                 ['aaa', 'c', 'Aa', 's']],
}


def tasks(tier):
    out = []
    shapes = list(SHAPES['quick'])
    if tier == 'thorough':
        shapes += SHAPES['thorough']
    for s in shapes:
        n = sum(width(x) for x in s)
        for k in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            out.append(dict(fn='split', params={'chunks': s, 'n': k}))
            out.append(dict(fn='split', params={'chunks': s, 'n': k,
                                                'far': True}))
        big = n > 4 or len(s) > 2
        combos = [(1, 1), (2, 1), (1, 2), (2, 2)]
        if not big:
            combos.append((3, 2))
            combos.append((2, 3))
        if tier == 'thorough':
            combos += [(3, 3)]
            if not big:
                combos += [(4, 2), (2, 4)]
        for cs, ls in combos + [(2, 0)]:
            out.append(dict(fn='paragraph', params={
                'chunks': s, 'charshapes': cs, 'linesegs': ls}))
    out.append(dict(fn='nested', params={}))
    out.append(dict(fn='notext', params={}))
    for o in ('after', 'within'):
        out.append(dict(fn='sequence', params={'order': o}))
    return out


def width(word):
    return sum({'a': 1, 'A': 2, 'c': 8, 's': 1}[x] for x in word)


def chunks_of(sx, words):
    """chunks as the paragraph text reader reports them, and for every text
    the code unit each of its characters starts at"""
    out = []
    pos = 0
    for i, w in enumerate(words):
        end = pos + width(w)
        if w == 'c':
            chunk = dict(code=11, chid='tbl ', param=b'12345678')
        elif w == 's':
            chunk = dict(code=10)
        else:
            cps = []
            for j, x in enumerate(w):
                if x == 'a':
                    c = sx.int('t%d_%d' % (i, j), 32, 0xffff)
                    sx.assume(sx.Or(c < 0xd800, c > 0xdfff))
                else:
                    c = sx.int('t%d_%d' % (i, j), 0x10000, 0x10ffff)
                cps.append(c)
            chunk = sx.from_codepoints(cps)
        out.append(((pos, end), chunk))
        pos = end
    return out


def forbidden(words):
    """positions inside of something that can't be cut"""
    out = []
    pos = 0
    for w in words:
        if w == 'c':
            out.extend(range(pos + 1, pos + 8))
            pos += 8
        elif w == 's':
            pos += 1
        else:
            for x in w:
                if x == 'A':
                    out.append(pos + 1)
                pos += width(x)
    return out


def positions(sx, name, n, words, base=0):
    """ascending positions starting at 0; the text starts at base"""
    out = [0]
    for i in range(1, n):
        p = sx.int('%s%d' % (name, i), 1, 0x7ffffffe)
        sx.assume(p > out[-1])
        for q in forbidden(words):
            sx.assume(sx.Not(sx.eq(p, base + q)))
        out.append(p)
    return out


def at(sx, starts, values, pos):
    """the value in effect at a position"""
    v = values[0]
    for s, x in zip(starts[1:], values[1:]):
        v = sx.ite(s <= pos, x, v)
    return v


def units_of(sx, text):
    n = 0
    out = []
    for c in sx.codepoints(text):
        out.append(n)
        n += 2 if c > 0xffff else 1
    return n


def check_pieces(sx, words, chunks, pieces, marks):
    """pieces: (start, end, [(label, starts, values, got)], chunk)"""
    total = chunks[-1][0][1]
    pos = 0
    texts = {}
    starts = [c[0][0] for c in chunks]
    for start, end, attrs, chunk in pieces:
        if start is not None:
            sx.check(sx.And(sx.eq(start, pos)), 'pieces are contiguous')
        k = max(i for i, s in enumerate(starts) if s <= pos)
        if sx.is_text(chunk):
            n = units_of(sx, chunk)
            sx.check(n > 0, 'no empty pieces')
            texts.setdefault(k, [])
            texts[k].append(chunk)
        else:
            sx.check(chunk == chunks[k][1], 'controls are kept')
            n = width(words[k])
        if end is not None:
            sx.check(sx.eq(end, pos + n), 'pieces are contiguous')
        sx.check(pos + n <= chunks[k][0][1], 'pieces stay within a run')
        for label, sts, vals, got in attrs:
            for u in range(pos, pos + n):
                sx.check(sx.eq(at(sx, sts, vals, u), got),
                         label + ' of every character')
        if pos not in starts:
            sx.cover('cut')
            sx.check(sx.Or(*[sx.eq(m, pos) for m in marks]),
                     'text is cut at boundaries only')
        pos += n
    sx.check(pos == total, 'all of the text is kept')
    for i, ((s, e), chunk) in enumerate(chunks):
        if sx.is_text(chunk):
            got = []
            for t in texts.get(i, []):
                got.extend(sx.codepoints(t))
            sx.check(sx.eq(sx.from_codepoints(got), chunk),
                     'the text is kept')


def split(sx, p):
    """one list of shapes"""
    xm = sx.mod('hwp5.xmlmodel')
    words = p['chunks']
    chunks = chunks_of(sx, words)
    # far into a paragraph
    base = sx.int('base', 1, 0x7fffff00) if p.get('far') else 0
    starts = positions(sx, 'pos', p['n'], words, base)
    ids = [sx.u32('id%d' % i) for i in range(p['n'])]
    pieces = list(xm.split_and_shape(
        iter([((r[0] + base, r[1] + base), None, c) for r, c in chunks]),
        xm.make_ranged_shapes(list(zip(starts, ids)))))
    if len(pieces) == len(chunks):
        sx.cover('whole')
    starts = [q - base for q in starts]
    check_pieces(sx, words, chunks,
                 [(r[0] - base, r[1] - base, [('shape', starts, ids, a[0])],
                   c) for r, a, c in pieces], starts)


def paragraph_events(sx, xm, words, chunks, cs, ls, prefix=''):
    bm = sx.mod('hwp5.binmodel')
    START, END = xm.STARTEVENT, xm.ENDEVENT
    ctx = dict(name='paragraph' + prefix)
    para = (bm.Paragraph, dict(split=0, which=prefix), ctx)
    cstarts = positions(sx, prefix + 'cpos', cs, words)
    ids = [sx.u32('%sid%d' % (prefix, i)) for i in range(cs)]
    lstarts = positions(sx, prefix + 'lpos', max(ls, 1), words)
    linesegs = [dict(chpos=p, y=1000 + i) for i, p in enumerate(lstarts)]
    events = [(START, para)]

    def leaf(model, attrs):
        item = (model, attrs, dict(ctx))
        events.append((START, item))
        events.append((END, item))
    if chunks is not None:
        leaf(bm.ParaText, dict(chunks=list(chunks)))
    leaf(bm.ParaCharShape, dict(charshapes=list(zip(cstarts, ids))))
    if ls:
        leaf(bm.ParaLineSeg, dict(linesegs=linesegs))
    return events, para, cstarts, ids, lstarts


def pieces_of(sx, xm, events, cs, ids, ls, haslines):
    """(pieces) of the events between a paragraph's start and end"""
    bm = sx.mod('hwp5.binmodel')
    out = []
    line = None
    nlines = 0
    last = None
    opened = None
    for ev, (model, attrs, ctx) in events:
        if model is bm.LineSeg:
            if ev is xm.STARTEVENT:
                sx.check(line is None, 'lines are not nested')
                line = attrs
                nlines += 1
            else:
                sx.check(line is attrs, 'lines are closed')
                line = None
        else:
            sx.check(line is not None, 'text is in lines')
            if ev is xm.STARTEVENT:
                opened = (model, attrs)
                if model is bm.Text:
                    chunk = attrs['text']
                else:
                    sx.check(model is bm.ControlChar, 'text or control')
                    code = attrs['code']
                    chunk = dict(code=11, chid='tbl ', param=b'12345678') \
                        if code == 11 else dict(code=code)
                    sx.check(attrs['name'] == (
                        'DRAWING_TABLE_OBJECT' if code == 11
                        else 'LINE_BREAK'), 'name of a control')
                    sx.check(attrs.get('char') ==
                             (None if code == 11 else '\n'),
                             'character of a control')
                    sx.cover('control')
                marks = [('shape', cs, ids, attrs['charshape_id'])]
                if haslines:
                    idxs = [1000 + i for i in range(len(ls))]
                    marks.append(('line', ls, idxs, line['y']))
                out.append((None, None, marks, chunk))
                sx.check(line is not last or True, 'line')
                last = line
            else:
                sx.check(opened is not None and opened[1] is attrs,
                         'text is closed')
                opened = None
    sx.check(line is None and opened is None, 'all is closed')
    if nlines > 1:
        sx.cover('lines')
    return out


def paragraph(sx, p):
    xm = sx.mod('hwp5.xmlmodel')
    words = p['chunks']
    chunks = chunks_of(sx, words)
    events, para, cs, ids, ls = paragraph_events(
        sx, xm, words, chunks, p['charshapes'], p['linesegs'])
    bm = sx.mod('hwp5.binmodel')
    events.append((xm.ENDEVENT, para))
    out = list(xm.make_texts_linesegmented_and_charshaped(iter(events)))
    sx.check(out[0][0] is xm.STARTEVENT and out[0][1][0] is bm.Paragraph and
             out[-1][0] is xm.ENDEVENT and out[-1][1][0] is bm.Paragraph,
             'the paragraph is kept')
    sx.check(out[0][1][1] is para[1], 'attributes of the paragraph')
    pieces = pieces_of(sx, xm, out[1:-1], cs, ids, ls, p['linesegs'])
    check_pieces(sx, words, chunks, pieces, cs + ls)


def nested(sx, p):
    """a paragraph within a control of another one"""
    xm = sx.mod('hwp5.xmlmodel')
    bm = sx.mod('hwp5.binmodel')
    w1, w2 = ['aa'], ['a', 's']
    c1, c2 = chunks_of(sx, w1), [((0, 1), 'x'), ((1, 2), dict(code=10))]
    e1, p1, cs1, ids1, ls1 = paragraph_events(sx, xm, w1, c1, 2, 2, 'o')
    e2, p2, cs2, ids2, ls2 = paragraph_events(sx, xm, w2, c2, 2, 1, 'i')
    note = (bm.FootNote, {}, {})
    events = e1 + [(xm.STARTEVENT, note)] + e2 + [
        (xm.ENDEVENT, p2), (xm.ENDEVENT, note), (xm.ENDEVENT, p1)]
    out = list(xm.make_texts_linesegmented_and_charshaped(iter(events)))
    sx.check(out[0][1][1] is p1[1] and out[1][1][0] is bm.FootNote and
             out[2][1][1] is p2[1], 'order of the events')
    i = [k for k, (ev, it) in enumerate(out) if it[0] is bm.Paragraph]
    sx.check(len(i) == 4 and out[i[2] + 1][1][0] is bm.FootNote and
             out[i[2] + 1][0] is xm.ENDEVENT, 'order of the events')
    check_pieces(sx, w2, c2, pieces_of(sx, xm, out[i[1] + 1:i[2]], cs2, ids2,
                                       ls2, 1), cs2 + ls2)
    check_pieces(sx, w1, c1, pieces_of(sx, xm, out[i[2] + 2:i[3]], cs1, ids1,
                                       ls1, 1), cs1 + ls1)
    sx.cover('inner')


def sequence(sx, p):
    """one paragraph after, or within, another; any may lack text or lines"""
    xm = sx.mod('hwp5.xmlmodel')
    bm = sx.mod('hwp5.binmodel')
    note = (bm.FootNote, {}, {})
    ps = []
    for i in range(3):
        words = sx.choice('words%d' % i, [None, ['aa'], ['a', 's']])
        ls = sx.choice('lines%d' % i, [0, 2]) if words else 0
        chunks = None if words is None else \
            [((0, 2), sx.from_codepoints([65 + i, 75 + i]))] \
            if len(words) == 1 else \
            [((0, 1), sx.from_codepoints([65 + i])), ((1, 2), dict(code=10))]
        ev, para, cs, ids, lst = paragraph_events(
            sx, xm, words or [], chunks, 2 if words else 1, ls, 'q%d' % i)
        ps.append((words, chunks, ev, para, cs, ids, lst, ls))
    if p['order'] == 'after':
        events = []
        for q in ps:
            events += q[2] + [(xm.ENDEVENT, q[3])]
    else:
        a, b, c = ps
        events = a[2] + [(xm.STARTEVENT, note)]
        for q in (b, c):
            events += q[2] + [(xm.ENDEVENT, q[3])]
        events += [(xm.ENDEVENT, note), (xm.ENDEVENT, a[3])]
    out = list(xm.make_texts_linesegmented_and_charshaped(iter(events)))
    mine = dict((i, []) for i in range(3))
    stack = []
    for ev, item in out:
        if item[0] is bm.Paragraph:
            i, = [i for i in range(3) if ps[i][3][1] is item[1]]
            if ev is xm.STARTEVENT:
                stack.append(i)
            else:
                sx.check(stack.pop() == i, 'order of the paragraphs')
        elif item[0] is not bm.FootNote:
            mine[stack[-1]].append((ev, item))
    for i, (words, chunks, ev, para, cs, ids, lst, ls) in enumerate(ps):
        got = mine[i]
        if words is None:
            sx.check(len([1 for e, it in got if it[0] is bm.LineSeg]) == 2,
                     'one line')
            sx.check(all(it[1]['text'] == '' for e, it in got
                         if it[0] is bm.Text), 'no text')
            continue
        check_pieces(sx, words, chunks, pieces_of(
            sx, xm, got, cs, ids, lst, ls), cs + lst)
        if not ls:
            sx.check(len([1 for e, it in got if it[0] is bm.LineSeg]) == 2,
                     'one line')
    sx.cover('ok')


def notext(sx, p):
    """a paragraph without text still has a line"""
    xm = sx.mod('hwp5.xmlmodel')
    bm = sx.mod('hwp5.binmodel')
    events, para, cs, ids, ls = paragraph_events(sx, xm, ['a'], None, 2,
                                                 sx.choice('n', [0, 1, 2]))
    events.append((xm.ENDEVENT, para))
    out = list(xm.make_texts_linesegmented_and_charshaped(iter(events)))
    names = [(ev, it[0]) for ev, it in out if it[0] is not bm.Text]
    S, E = xm.STARTEVENT, xm.ENDEVENT
    sx.check(names == [(S, bm.Paragraph), (S, bm.LineSeg), (E, bm.LineSeg),
                       (E, bm.Paragraph)], 'one line')
    for ev, it in out:
        if it[0] is bm.Text:
            sx.check(it[1]['text'] == '', 'no text')
            sx.check(sx.eq(it[1]['charshape_id'], ids[0]), 'shape')
    sx.cover('empty')
