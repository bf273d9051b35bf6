# -*- coding: utf-8 -*-
"""Fonts of character shapes."""
from .c21 import head
from .docmodel import Item

PRELOAD = ['hwp5.binmodel', 'hwp5.recordstream']

COVERS = {
    'fonts': ['all'],
    'font': ['found', 'none'],
    'shapes': ['found', 'none'],
    'layout': ['ok'],
}
BOUNDS = {
    'quick': 'up to 3 fonts, one of which may have no name, divided among the seven languages in any way, '
             'up to 2 character shapes with arbitrary fonts for each '
             'language, every number of a shape and every language; face '
             'names and shapes mixed with other records in any order',
    'thorough': 'the same with up to 4 fonts and 3 character shapes',
}
OUTSIDE = 'counts larger than the number of fonts there are'
ASSUMPTIONS = []

LANGS = ['ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user']
VERSION = (5, 0, 3, 4)


def tasks(tier):
    k = 3 if tier == 'quick' else 4
    out = []
    for n in range(k + 1):
        out.append(dict(fn='fonts', params={'n': n}))
        out.append(dict(fn='layout', params={'n': n}))
    for n in (1, 2, 3):
        for lang in LANGS:
            out.append(dict(fn='font', params={'n': n, 'lang': lang}))
    for n in range(k):
        out.append(dict(fn='shapes', params={'n': n}))
    return out


def le(v, n):
    return [(v >> (8 * i)) & 0xff for i in range(n)]


def mappings(counts):
    raw = le(7, 4)
    for c in counts:
        raw += le(c, 4)
    for i in range(9):
        raw += le(90 + i, 4)
    return head(17, 0, len(raw)) + raw


def facename(sx, i, nameless=-1):
    """its name is a letter, or it has none; some have more fields"""
    flags = [0, 0x80, 0x40, 0x20][i % 4]
    raw = [flags | i << 2] + ([0, 0] if nameless == i else
                              [1, 0, 0x41 + i, 0])
    raw += {0: [], 0x80: [1, 1, 0, 0x61, 0], 0x40: [0] * 10,
            0x20: [1, 0, 0x62, 0]}[flags]
    return head(19, 1, len(raw)) + raw


def charshape(sx, fonts, size=0):
    raw = []
    for f in fonts:
        raw += le(f, 2)
    raw += [0] * 28 + le(size, 4) + [0] * 24
    return head(21, 1, len(raw)) + raw


def docinfo(sx, data):
    return sx.mod('hwp5.binmodel').DocInfo(Item(sx.from_bytes(data), 'DocInfo'), VERSION)


def divided(sx, n):
    """numbers of fonts of the languages"""
    counts = [sx.int('n.' + k, 0, n) for k in LANGS]
    total = 0
    for c in counts:
        total = total + c
    sx.assume(total == n)
    return counts


def number_of(m):
    """bits of the flags which mean nothing tell the fonts apart"""
    return (m['content']['flags'] >> 2) & 7


def fonts(sx, p):
    """every font belongs to one language, in order"""
    n = p['n']
    counts = divided(sx, n)
    data = head(16, 0, 26) + [0] * 26 + mappings(counts)
    nameless = sx.choice('nameless', range(-1, n))
    for i in range(n):
        data += facename(sx, i, nameless)
    data += charshape(sx, [0] * 7)
    got = docinfo(sx, data).facenames_by_lang
    sx.check(sorted(got) == sorted(LANGS), 'languages')
    at = 0
    for k, c in zip(LANGS, counts):
        fs = got[k]
        sx.check(len(fs) == c, 'number of fonts of ' + k)
        for f in fs:
            sx.check(number_of(f) == at, 'font of ' + k)
            sx.check(f['content']['name'] in ('', chr(0x41 + at)), 'name')
            at += 1
    sx.check(at == n, 'all fonts')
    sx.cover('all')


def font(sx, p):
    """the font a shape has for a language"""
    n, lang = p['n'], p['lang']
    counts = divided(sx, n)
    k = LANGS.index(lang)
    shapes = []
    for i in range(2):
        shapes.append([sx.u16('font%d' % i) if x == k else x
                       for x in range(7)])
    data = head(16, 0, 26) + [0] * 26 + mappings(counts)
    nameless = sx.choice('nameless', range(-1, n))
    for i in range(n):
        data += facename(sx, i, nameless)
    for s in shapes:
        data += charshape(sx, s)
    which = sx.choice('shape', [0, 1])
    no = shapes[which][k]
    info = docinfo(sx, data)
    if no >= counts[k]:
        try:
            got = info.charshape_lang_facename(which, lang)
        except (IndexError, KeyError):
            got = None
        sx.check(got is None, 'no font of another language')
        sx.cover('none')
        return
    got = info.charshape_lang_facename(which, lang)
    before = 0
    for i in range(k):
        before = before + counts[i]
    sx.check(sx.eq(number_of(got), before + no), 'font')
    sx.cover('found')


def shapes(sx, p):
    """shapes are counted in order"""
    n = p['n']
    sizes = [sx.i32('size%d' % i) for i in range(n)]
    data = head(16, 0, 26) + [0] * 26 + mappings([1, 0, 0, 0, 0, 0, 0])
    data += facename(sx, 0)
    for s in sizes:
        data += charshape(sx, [0] * 7, s & 0xffffffff)
        if sx.bool('more'):
            data += head(300, 1, 1) + [7]
    info = docinfo(sx, data)
    got = [m['content']['basesize'] for m in info.charshapes]
    sx.check(len(got) == n, 'number of shapes')
    for g, s in zip(got, sizes):
        sx.check(sx.eq(g, s), 'shapes in order')
    i = sx.choice('i', range(n + 2))
    if i < n:
        sx.check(sx.eq(info.get_charshape(i)['content']['basesize'],
                       sizes[i]), 'shape of a number')
        sx.cover('found')
    else:
        sx.check(info.get_charshape(i) is None, 'no such shape')
        sx.cover('none')


def layout(sx, p):
    """other records among the fonts"""
    n = p['n']
    at = sx.choice('mappings', range(n + 1))
    data = []
    for i in range(n + 1):
        if i == at:
            data += mappings([n, 0, 0, 0, 0, 0, 0])
        if sx.bool('other%d' % i):
            data += head(sx.choice('tag%d' % i, [16, 300]), 1, 26) + [0] * 26
        if i < n:
            data += facename(sx, i)
    info = docinfo(sx, data)
    got = info.facenames_by_lang
    sx.check([number_of(f) for f in got['ko']] == list(range(n)),
             'fonts in order')
    sx.check([len(got[k]) for k in LANGS] == [n] + [0] * 6, 'languages')
    content = info.idmappings['content']
    sx.check(content['ko_fonts'] == n and content['bindata'] == 7 and
             content['styles'] == 96, 'mappings')
    sx.cover('ok')
