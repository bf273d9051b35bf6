# -*- coding: utf-8 -*-
"""Text is divided into runs of one language each."""
from .docmodel import Doc, Item, VERSION, tree_of

PRELOAD = ['hwp5.charsets', 'hwp5.xmlmodel']

COVERS = {
    'tokens': ['one', 'several', 'neutral only'],
    'blocks': ['token'],
    'section': ['several'],
}
BOUNDS = {
    'quick': 'texts of 0..2 arbitrary code points (unpaired surrogates '
             'included), and of 3 with one arbitrary at any position; texts '
             'of 4 characters out of 4 classes; paragraphs with two '
             'arbitrary characters of the basic plane, two character shapes',
    'thorough': 'texts of 3 with two arbitrary code points; texts of 6 '
                'characters by class',
}
OUTSIDE = 'longer texts'
ASSUMPTIONS = ['the table of Unicode blocks in the harness']

# Unicode blocks by language; None: goes with the text around it
BLOCKS = [
    (0x0000, 0x0040, None),       # controls, digits, ascii punctuation
    (0x0041, 0x024f, 'en'),       # latin
    (0x1100, 0x11ff, 'ko'),       # hangul jamo
    (0x2e80, 0x2fdf, 'cn'),       # radicals
    (0x3000, 0x303f, 'symbol'),   # cjk symbols and punctuation
    (0x3040, 0x30ff, 'jp'),       # hiragana, katakana
    (0x3130, 0x318f, 'ko'),       # hangul compatibility jamo
    (0x3400, 0x4dbf, 'cn'),       # extension a
    (0x4e00, 0x9fff, 'cn'),       # unified ideographs
    (0xa960, 0xa97f, 'ko'),       # jamo extended-a
    (0xac00, 0xd7ff, 'ko'),       # hangul syllables, jamo extended-b
    (0xf900, 0xfaff, 'cn'),       # compatibility ideographs
]
CLASSES = {'ko': (0xac00, 0xd7a3), 'en': (0x41, 0x24f), 'cn': (0x4e00, 0x9fff),
           'neutral': (0, 0x40)}


def tasks(tier):
    out = []
    q = tier == 'quick'
    for n in range(0, 3):
        out.append(dict(fn='tokens', params={'n': n}))
    for pos in range(3):
        for name in sorted(CLASSES):
            out.append(dict(fn='tokens', params={
                'n': 3, 'fixed': {str(pos): name, str((pos + 1) % 3): 'en'}}))
            if not q:
                out.append(dict(fn='tokens', params={
                    'n': 3, 'fixed': {str(pos): name}}))
    out.append(dict(fn='blocks', params={'n': 4 if q else 6}))
    out.append(dict(fn='section', params={'n': 1, 'two': False}))
    for two in (False, True):
        for name in sorted(CLASSES) + ['']:
            out.append(dict(fn='section', params={
                'n': 2, 'two': two, 'first': name}))
    return out


def lang_of(c):
    for lo, hi, lang in BLOCKS:
        if c < lo:
            return 'other'
        if c <= hi:
            return lang
    return 'other'


def expected(sx, cps, langs):
    """[(language, code points)]"""
    out = []
    cur = None
    for c, lang in zip(cps, langs):
        if not out:
            out.append([lang, [c]])
        elif lang is None or lang == out[-1][0]:
            out[-1][1].append(c)
        elif out[-1][0] is None:
            out[-1][0] = lang
            out[-1][1].append(c)
        else:
            out.append([lang, [c]])
    return [(lang or 'ko', part) for lang, part in out]


def compare(sx, got, want):
    sx.check(len(got) == len(want), 'number of runs')
    for (l1, t1), (l2, t2) in zip(got, want):
        sx.check(sx.eq(l1, l2), 'language of a run')
        sx.check(sx.eq(sx.codepoints(t1), t2), 'text of a run')


def tokens(sx, p):
    cs = sx.mod('hwp5.charsets')
    cps = []
    for i in range(p['n']):
        lo, hi = CLASSES.get(p.get('fixed', {}).get(str(i)), (0, 0x10ffff))
        cps.append(sx.int('t%d' % i, lo, hi))
    text = sx.from_codepoints(cps)
    got = list(cs.tokenize_unicode_by_lang(text))
    langs = [lang_of(c) for c in cps]
    compare(sx, got, expected(sx, cps, langs))
    if len(got) > 1:
        sx.cover('several')
    elif got:
        sx.cover('one')
        if langs == [None] * len(langs):
            sx.cover('neutral only')


def blocks(sx, p):
    cs = sx.mod('hwp5.charsets')
    names = sorted(CLASSES)
    cps = []
    langs = []
    for i in range(p['n']):
        name = sx.choice('class%d' % i, names)
        lo, hi = CLASSES[name]
        cps.append(sx.int('c%d' % i, lo, hi))
        langs.append(None if name == 'neutral' else name)
    got = list(cs.tokenize_unicode_by_lang(sx.from_codepoints(cps)))
    compare(sx, got, expected(sx, cps, langs))
    sx.cover('token')


def section(sx, p):
    """in a document, with the character shape changing in the middle"""
    xm = sx.mod('hwp5.xmlmodel')
    rs = sx.mod('hwp5.recordstream')
    doc = Doc(sx)
    root = doc.section([[('control', 'secd'), ('text', [('en', 1)])]])
    n = p['n']
    cps = []
    for i in range(n):
        u = sx.u16('u%d' % i)
        sx.assume(u >= 0x20)
        sx.assume(sx.Or(u < 0xd800, u >= 0xe000))
        if p.get('first') is not None and i == 0:
            cl = [sx.And(u >= lo, u <= hi) for name, (lo, hi) in
                  sorted(CLASSES.items()) if p['first'] in (name, '')]
            sx.assume(sx.Not(sx.Or(*cl)) if p['first'] == '' else cl[0])
        cps.append(u)
    shapes = [(0, 3)]
    if p['two']:
        shapes.append((1, 4))
    units = cps + [13]
    doc.record(0, 'Paragraph', {'text': len(units),
                                'charshapes': len(shapes), 'linesegs': 1})
    doc.paratext(1, units)
    out = []
    for pos, cid in shapes:
        out += [pos, 0, 0, 0, cid, 0, 0, 0]
    doc.records.append(rs.Record(16 + 52, 1, sx.from_bytes(out)))
    doc.records.append(rs.Record(16 + 53, 1, sx.from_bytes([0] * 36)))
    sec = xm.Section(Item(doc.data()), VERSION)
    nodes = tree_of(sx, xm, sec.events())
    texts = []

    def walk(ns):
        for name, attrs, kids in ns:
            if name == 'Text':
                texts.append(attrs)
            walk(kids)
    walk(nodes)
    texts = texts[1:]
    langs = [lang_of(c) for c in cps]
    want = []
    if len(shapes) == 1:
        parts = [(3, cps, langs)]
    else:
        parts = [(3, cps[:1], langs[:1]), (4, cps[1:], langs[1:])]
    for cid, cc, ll in parts:
        for lang, t in expected(sx, cc, ll):
            want.append((cid, lang, t))
    sx.check(len(texts) == len(want), 'number of texts')
    for t, (cid, lang, cc) in zip(texts, want):
        sx.check(sx.eq(t['lang'], lang), 'language')
        sx.check(sx.eq(sx.codepoints(t['text']), cc), 'text')
        sx.check(sx.eq(t['charshape_id'], cid), 'character shape')
    if len(want) > 1:
        sx.cover('several')
