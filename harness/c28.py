# -*- coding: utf-8 -*-
"""Plain text out of the XML of a document."""
from . import xdoc
from sx.xslt import chars, convert, items_eq

PRELOAD = []
COVERS = {'text': ['ok'], 'blocks': ['ok'], 'sections': ['ok']}
BOUNDS = {
    'quick': 'paragraphs of up to three lines with up to three things in '
             'them in all, of any kind, texts of two arbitrary characters '
             'each; tables, drawings, notes, headers and fields with '
             'paragraphs in them; two sections of two columns',
    'thorough': 'the same, with four things',
}
OUTSIDE = 'XSLT engines (the meaning of the stylesheet is given by an ' \
    'interpreter of XSLT 1.0, compared with xsltproc on every path)'
ASSUMPTIONS = ['the XML is what the XML conversion gives']
OPTS = {'max_paths': 20000}

KINDS = ['text', 'char', 'field', 'auto', 'bookmark', 'note', 'header',
         'table', 'gso']


def tasks(tier):
    out = []
    for k in KINDS:
        for split in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 2)):
            out.append(dict(fn='text', params={
                'first': [k], 'split': split, 'n': 3}))
            if tier == 'thorough':
                for k2 in KINDS:
                    out.append(dict(fn='text', params={
                        'first': [k, k2], 'split': split, 'n': 4}))
    for k in KINDS:
        out.append(dict(fn='blocks', params={'kind': k}))
    out.append(dict(fn='sections', params={}))
    return out


def make(sx, name, kind, depth=0, any=False):
    """(item, its plain text); any: any of its kind"""
    def choose(options):
        return sx.choice(name, options) if any else options[0]
    if kind == 'text':
        t = xdoc.symtext(sx, name, 2)
        return ('text', t, 0, 'ko'), t
    if kind == 'char':
        return ('char', choose(sorted(xdoc.CHARS))), []
    if kind == 'field':
        a, x = make(sx, name + 'a', 'text')
        b, y = make(sx, name + 'b', 'char') if depth else \
            make(sx, name + 'b', 'field', 1)
        return ('field', choose(sorted(xdoc.FIELDS)), [a, b]), x + y
    if kind == 'auto':
        return ('auto', 'page', sx.int(name, 1, 99), '', ')'), []
    if kind == 'bookmark':
        return ('bookmark',), []
    if kind in ('note', 'header'):
        a, x = para(sx, name + 'a')
        b, y = para(sx, name + 'b')
        if kind == 'note':
            k = choose(['FootNote', 'EndNote'])
            return ('note', k, 1, [a, b]), x + y
        k = choose(['Header', 'Footer'])
        return ('header', k, [a, b], 100, 100), x + y
    if kind == 'table':
        a, x = para(sx, name + 'a')
        return ('table', {'rows': [[{'paragraphs': [a]}]]}), \
            chars('\n<표>\n')
    if kind == 'gso':
        a, x = para(sx, name + 'a')
        return ('gso', {'shapes': [{'chid': '$rec', 'paragraphs': [a]}]}), \
            chars('\n<그림>\n')
    raise ValueError(kind)


def para(sx, name, kinds=('text',), lines=None, any=False):
    items = []
    want = []
    lines = lines or [0] * len(kinds)
    for i, k in enumerate(kinds):
        x, w = make(sx, '%s%d' % (name, i), k, any=any)
        while len(items) <= lines[i]:
            items.append([])
        items[lines[i]].append(x)
        want = want + w
    return {'items': items}, want + [10]


def run(sx, body, sections):
    doc = xdoc.hwpdoc(xdoc.docinfo(), sections)
    return convert(sx, 'plaintext.xsl', doc).string()


def text(sx, p):
    """the text of a paragraph, whatever is in it"""
    kinds = p['first'] + [sx.choice('kind %d' % i, KINDS)
                          for i in range(len(p['first']), p['n'])]
    split = (list(p['split']) + [2] * p['n'])[:p['n']]
    a, want = para(sx, 'p', kinds, split)
    b, more = para(sx, 'q')
    body = xdoc.Body()
    got = run(sx, body, [body.section(0, [[a, b]])])
    sx.check(items_eq(got, want + more), 'text')
    sx.cover('ok')


def blocks(sx, p):
    """paragraphs of any number of lines and things before, after, and in
    one another"""
    pars = []
    want = []
    for i in range(2):
        n = sx.choice('n%d' % i, [0, 1, 2])
        a, w = para(sx, 'p%d' % i, [p['kind'], 'text'][:n],
                    [0, sx.choice('l%d' % i, [0, 1])][:n] if n > 1 else None,
                    any=i == 0)
        pars.append(a)
        want += w
    body = xdoc.Body()
    got = run(sx, body, [body.section(0, [pars])])
    sx.check(items_eq(got, want), 'text')
    sx.cover('ok')


def sections(sx, p):
    body = xdoc.Body()
    secs = []
    want = []
    for s in range(sx.choice('sections', [1, 2])):
        cols = []
        for c in range(sx.choice('columns %d' % s, [1, 2])):
            pars = []
            for i in range(sx.choice('paragraphs %d %d' % (s, c), [0, 1, 2])):
                a, w = para(sx, 's%dc%dp%d' % (s, c, i))
                pars.append(a)
                want += w
            cols.append(pars)
        secs.append(body.section(s, cols))
    got = run(sx, body, secs)
    sx.check(items_eq(got, want), 'text')
    sx.cover('ok')

