# -*- coding: utf-8 -*-
"""A section becomes a properly nested tree that holds everything once."""
from .docmodel import Doc, Item, VERSION, compare, tree_of

PRELOAD = ['hwp5.xmlmodel']

COVERS = {'section': ['done'], 'words': ['done'], 'rows': ['row', 'empty']}
BOUNDS = {
    'quick': 'sections of up to 4 paragraphs holding tables (up to 3 rows of '
             '0..3 cells, nested one level), notes, headers, drawing objects '
             'with text, fields over up to 3 lines and column definitions, '
             'every sequence of 6 field starts, field ends, line ends and '
             'characters; '
             'every character any of about a hundred of its script; every pair of '
             'objects in one paragraph',
    'thorough': 'the same documents with sequences of 8, every three objects in one '
                'paragraph, and tables of up to 4 rows of 0..4 cells',
}
OUTSIDE = 'sections whose control characters and control records do not '\
    'correspond; tables whose cells do not match the row sizes'

T = ('text', [('en', 2)])
TK = ('text', [('en', 1), ('ko', 1)])
SECD = ('control', 'secd')
COLD = ('control', 'cold')
LINE = ('line',)
FE = ('fieldend',)
FIRST = ([SECD, COLD, T], 3)


def ctl(chid, **kw):
    return ('control', chid, kw)


TABLE = ctl('tbl ', rows=[[[[T]], [[T], [TK]]], [[[T]]]])
OBJECTS = {
    'table': TABLE,
    'table3': ctl('tbl ', rows=[[[[T]]], [[[T]], [[]], [[T]]]],
                  caption=[[T]]),
    'emptyrow': ctl('tbl ', rows=[[[[T]], [[T]]], [], [[[T]]], []]),
    'nested': ctl('tbl ', rows=[[[[T, ctl('tbl ', rows=[[[[T]], [[T]]]]),
                                   T]], [[T]]]]),
    'note': ctl('fn  ', paras=[[T], [T]]),
    'notenote': ctl('fn  ', paras=[[ctl('atno'), T,
                                    ctl('fn  ', paras=[[T]])]]),
    'endnote': ctl('en  ', paras=[[ctl('atno'), TK]]),
    'header': ctl('head', paras=[[T]]),
    'footer': ctl('foot', paras=[[ctl('atno')]]),
    'hidden': ctl('tcmt', paras=[[T]]),
    'box': ctl('gso ', paras=[[T], [TK]]),
    'shape': ctl('gso '),
    'captioned': ctl('gso ', caption=[[T]], paras=[[T]]),
    'boxtable': ctl('gso ', paras=[[TABLE]]),
    'bookmark': ctl('bokm'),
    'columns': ctl('tbl ', rows=[[[([T], 0), ([ctl('cold'), T], 2),
                                   ([T], 0)]]]),
}
FIELD = ('field', '%hlk')
CLICK = ('field', '%clk')

SECTIONS = {
    'plain': [FIRST, [T], [TK]],
    'nocolumns': [([SECD, T], 1), [T]],
    'textfirst': [([T, SECD, COLD, T], 3)],
    'columnsets': [FIRST, [T], ([COLD, T], 2), ([T], 0), ([COLD], 2)],
    'empty': [FIRST, []],
    'breaks': [FIRST, [T, ('break',), T, LINE, ('break',)]],
    'lines': [FIRST, [T, LINE, T, LINE, TK]],
    'field': [FIRST, [T, FIELD, T, FE, T]],
    'fieldlines': [FIRST, [T, FIELD, T, LINE, T, LINE, T, FE, T]],
    'fieldatline': [FIRST, [FIELD, LINE, T, FE, LINE, T]],
    'fields': [FIRST, [FIELD, T, FE, CLICK, T, FE]],
    'nestedfields': [FIRST, [FIELD, T, CLICK, T, LINE, T, FE, T, FE, T]],
    'fieldobject': [FIRST, [FIELD, T, ctl('bokm'), FE, T]],
    'order': [FIRST, [ctl('bokm'), T, ctl('fn  ', paras=[[T]]), ctl('atno'),
                      T, FIELD, ctl('pghd'), FE]],
}


def tasks(tier):
    out = []
    for k in sorted(SECTIONS):
        out.append(dict(fn='section', params={'section': k}))
    for k in sorted(OBJECTS):
        out.append(dict(fn='section', params={'objects': [k]}))
        for k2 in sorted(OBJECTS):
            out.append(dict(fn='section', params={'objects': [k, k2]}))
            if tier == 'thorough':
                for k3 in sorted(OBJECTS):
                    out.append(dict(fn='section',
                                    params={'objects': [k, k2, k3]}))
    for first in 'fo':
        for second in WORD:
            out.append(dict(fn='words', params={
                'n': 6 if tier == 'quick' else 8, 'first': [first, second]},
                opts={'min_s': 400}))
    for n in range(0, 4 if tier == 'quick' else 5):
        out.append(dict(fn='rows', params={
            'n': n, 'cols': 3 if tier == 'quick' else 4}))
    return out


def description(p):
    if 'section' in p:
        return SECTIONS[p['section']]
    items = []
    for k in p['objects']:
        items.append(T)
        items.append(OBJECTS[k])
    return [FIRST, items + [LINE, T], [T]]


def section(sx, p):
    xm = sx.mod('hwp5.xmlmodel')
    doc = Doc(sx)
    want = doc.section(description(p))
    sec = xm.Section(Item(doc.data()), VERSION)
    got = tree_of(sx, xm, sec.events())
    compare(sx, got, [want])
    sx.cover('done')


WORD = ('f', 'e', 'l', 'o')


def words(sx, p):
    """any sequence of field starts and ends, line ends and objects"""
    xm = sx.mod('hwp5.xmlmodel')
    items = []
    opened = 0
    for i in range(p['n']):
        x = p['first'][i] if i < len(p['first']) else \
            sx.choice('w%d' % i, WORD)
        if x == 'e':
            sx.assume(opened > 0)
            opened -= 1
            items.append(FE)
        elif x == 'f':
            opened += 1
            items.append(('field', ('%hlk', '%clk')[i % 2],
                          {'fields': {'id': 100 + i}}))
        elif x == 'l':
            # lines are not empty
            sx.assume(items and items[-1] is not LINE)
            items.append(LINE)
        else:
            items.append(('break',))
    doc = Doc(sx)
    want = doc.section([FIRST, items + [FE] * opened, [T]])
    sec = xm.Section(Item(doc.data()), VERSION)
    compare(sx, tree_of(sx, xm, sec.events()), [want])
    sx.cover('done')


def rows(sx, p):
    """the cells of a table are grouped into its rows"""
    xm = sx.mod('hwp5.xmlmodel')
    bm = sx.mod('hwp5.binmodel')
    n = p['n']
    S, E = xm.STARTEVENT, xm.ENDEVENT
    sizes = [sx.int('cols%d' % i, 0, p['cols']) for i in range(n)]
    body = (bm.TableBody, dict(rowcols=list(sizes), rows=n), dict(a=1))
    events = [(S, body)]
    cells = []
    total = 0
    want = []
    for i in range(n):
        k = sx.concrete(sizes[i])
        row = []
        for j in range(k):
            cell = (bm.TableCell, dict(row=i, col=j), {})
            para = (bm.Paragraph, dict(row=i, col=j), {})
            events += [(S, cell), (S, para), (E, para), (E, cell)]
            row.append(['TableCell', dict(row=i, col=j),
                        [['Paragraph', dict(row=i, col=j), []]]])
        if row:
            want.append(['TableRow', {}, row])
            sx.cover('row')
        else:
            sx.cover('empty')
    if not n:
        sx.cover('empty')
    events.append((E, body))
    got = tree_of(sx, xm, xm.restructure_tablebody(iter(events)))
    compare(sx, got, [['TableBody', {'rows': n}, want]])
