# -*- coding: utf-8 -*-
"""OpenDocument texts out of the XML of a document: what is in them, and the
styles of it."""
from fractions import Fraction

from sx import css
from sx.xslt import Num, chars, concrete_text, convert, items_eq

from . import xdoc
from .c29 import (ALIGNS, LINES, STROKES, WIDTHS, color, is_text, mm, number,
                  par, simple)

PRELOAD = []
COVERS = {'text': ['ok'], 'para': ['ok'], 'char': ['ok'], 'line': ['ok'],
          'fonts': ['ok'], 'borders': ['ok'], 'fills': ['ok'],
          'tables': ['ok'], 'caption': ['ok'], 'sections': ['ok'],
          'notes': ['ok'], 'images': ['ok'], 'shapes': ['ok'],
          'groups': ['ok'], 'styles': ['ok'], 'breaks': ['ok'],
          'wrap': ['ok'], 'names': ['ok']}
BOUNDS = {
    'quick': 'texts of two arbitrary characters; numbers up to ten million '
             'units (1/7200 inch each); three styles, two or three shapes of '
             'paragraphs and of texts, up to two fonts for every language, '
             'two fills and borders, three images; tables of two rows of '
             'two cells, in pages, cells, notes and text boxes; two '
             'sections; packages (content and styles) and flat documents',
    'thorough': 'the same, with longer paragraphs',
}
OUTSIDE = 'XSLT engines (the meaning of the stylesheets is given by an ' \
    'interpreter of XSLT 1.0, compared with xsltproc on every path) and ' \
    'office suites (a style, and those it is derived from, give properties); ' \
    'tabs, line breaks, numbers of pages and other fields which are ' \
    'computed, headers and footers, captions of drawings, which are not ' \
    'converted; colors of texts, which are not converted; what a line ' \
    'spacing of another kind leaves of that of the style; matrices'
ASSUMPTIONS = ['the XML is what the XML conversion gives']
OPTS = {'max_paths': 20000}

NS = {'office': 'office', 'style': 'style', 'text': 'text',
      'table': 'table', 'draw': 'drawing', 'fo': 'xsl-fo-compatible',
      'svg': 'svg-compatible'}
ITEMS = ['text', 'char', 'field', 'auto', 'bookmark', 'note', 'cold']
UNDERLINES = ['none', 'underline', 'overline', 'line_through']
LINE_STYLES = {'solid': ('single', ['solid']), 'dashed': ('single', ['dash']),
               'dotted': ('single', ['dotted']),
               'dash_dot': ('single', ['dot-dash']),
               'dash_dot_dot': ('single', ['dot-dot-dash']),
               'long_dashed': ('single', ['long-dash']),
               'large_dotted': ('single', ['dotted']),
               'double': ('double', ['solid']),
               'lower_weighted': ('double', ['solid']),
               'upper_weighted': ('double', ['solid']),
               'middle_weighted': ('double', ['solid'])}
SIDES = css.SIDES


def q(name):
    p, _, local = name.partition(':')
    if p == 'xlink':
        return '{http://www.w3.org/1999/xlink}' + local
    return '{urn:oasis:names:tc:opendocument:xmlns:%s:1.0}%s' % (
        NS[p], local)


def tasks(tier):
    out = []

    def add(fn, **params):
        out.append(dict(fn=fn, params=params))
    n = 3 if tier == 'quick' else 4
    for k in ITEMS:
        for k2 in ITEMS:
            add('text', first=[k, k2], n=n)
    for a in sorted(ALIGNS):
        add('para', align=a)
    for i in range(3):
        add('styles', style=i)
    for b in (0, 1):
        for i in (0, 1):
            add('char', bold=b, italic=i)
    for u in UNDERLINES:
        add('line', underline=u)
    for k in ('ko', 'en'):
        add('fonts', lang=k)
    for s in SIDES:
        add('borders', side=s)
    add('borders', side=None)
    add('fills')
    for w in ('page', 'cell', 'note', 'box', 'flat'):
        add('tables', where=w)
    add('caption')
    add('sections', flat=0)
    add('sections', flat=1)
    for k in ('FootNote', 'EndNote'):
        add('notes', kind=k)
    for i in (0, 1):
        add('images', inline=i)
        add('shapes', inline=i)
        add('groups', inline=i)
    add('breaks')
    for f in ('float', 'block', 'back', 'front'):
        add('wrap', flow=f)
    for i in range(len(NAMES)):
        add('names', name=i)
    return out


# documents ----------------------------------------------------------------

class Odt(object):
    """what an office suite makes of a document"""

    def __init__(self, sx, doc, flat=False):
        self.sx = sx
        if flat:
            self.content = self.styles = self.top('odt/document.xsl', doc)
        else:
            self.content = self.top('odt/content.xsl', doc)
            self.styles = self.top('odt/styles.xsl', doc)
        self.text = self.one('office:text', self.content)
        self.common = self.of_family(self.one('office:styles', self.styles))
        self.auto = self.of_family(self.one('office:automatic-styles',
                                            self.content))
        self.defined()

    def top(self, sheet, doc):
        r = convert(self.sx, sheet, doc)
        return [c for c in r.children if c.kind == 'element'][0]

    def all(self, name, top=None):
        out = []
        name = q(name)

        def walk(n):
            for c in n.children:
                if c.kind == 'element':
                    if c.name == name:
                        out.append(c)
                    walk(c)
        walk(top or self.text)
        return out

    def one(self, name, top):
        found = self.all(name, top)
        if len(found) != 1:
            self.sx.check(False, '%s: %d' % (name, len(found)))
        return found[0]

    def word(self, n, name):
        s = n.attr(q(name))
        if s is None:
            return None
        s = concrete_text(s)
        if s is None:
            raise AssertionError(name)
        return s

    def of_family(self, top):
        out = {}
        for s in top.children:
            if s.kind == 'element' and s.name == q('style:style'):
                k = (self.word(s, 'style:family'),
                     self.word(s, 'style:name'))
                if k in out:
                    self.sx.check(False, 'style %s defined twice' % k[1])
                out[k] = s
        return out

    FAMILIES = [('text:p', 'text:style-name', 'paragraph'),
                ('text:span', 'text:style-name', 'text'),
                ('table:table', 'table:style-name', 'table'),
                ('table:table-cell', 'table:style-name', 'table-cell'),
                ('draw:frame', 'draw:style-name', 'graphic'),
                ('draw:rect', 'draw:style-name', 'graphic'),
                ('draw:line', 'draw:style-name', 'graphic'),
                ('draw:g', 'draw:style-name', 'graphic')]

    def defined(self):
        """what is used is defined"""
        sx = self.sx
        for tag, attr, family in self.FAMILIES:
            for n in self.all(tag):
                s = self.word(n, attr)
                if s is not None:
                    sx.check((family, s) in self.auto or
                             (family, s) in self.common,
                             'style %s not defined' % s)
        for d in (self.common, self.auto):
            for (family, name), s in d.items():
                for a in ('style:parent-style-name',
                          'style:next-style-name'):
                    t = self.word(s, a)
                    sx.check(t is None or (family, t) in self.common,
                             'style %s not defined' % t)
        pages = {}
        for m in self.all('style:master-page', self.styles):
            pages[self.word(m, 'style:name')] = m
        layouts = {}
        for m in self.all('style:page-layout', self.styles):
            layouts[self.word(m, 'style:name')] = m
        for m in pages.values():
            sx.check(self.word(m, 'style:page-layout-name') in layouts,
                     'page layout not defined')
        for s in self.auto.values():
            m = self.word(s, 'style:master-page-name')
            sx.check(m is None or m in pages, 'master page not defined')
        self.pages, self.layouts = pages, layouts

    def style(self, family, name):
        """{property: value}"""
        s = self.auto.get((family, name)) or self.common.get((family, name))
        if s is None:
            return {}
        up = self.word(s, 'style:parent-style-name')
        out = dict(self.style(family, up)) if up else {}
        for p in s.children:
            if p.kind == 'element':
                for a in p.attrs:
                    out[a.name] = a.value
        return out

    def style_of(self, n):
        for tag, attr, family in self.FAMILIES:
            if n.name == q(tag):
                s = self.word(n, attr)
                out = {}
                if family == 'text':
                    up = n.parent
                    while up.name != q('text:p'):
                        up = up.parent
                    out = self.style_of(up)
                if s is not None:
                    out = dict(out, **self.style(family, s))
                return out
        raise ValueError(n.name)

    def layout_of(self, p):
        """the page layout which a paragraph begins"""
        s = self.auto.get(('paragraph', self.word(p, 'text:style-name')))
        m = s and self.word(s, 'style:master-page-name')
        if not m:
            return None
        return self.layouts[self.word(self.pages[m],
                                      'style:page-layout-name')]

    def paragraphs(self, top=None):
        """in the text, not in notes"""
        out = []

        def walk(n):
            for c in n.children:
                if c.kind == 'element':
                    if c.name == q('text:note'):
                        continue
                    if c.name == q('text:p'):
                        out.append(c)
                    walk(c)
        walk(top or self.text)
        return out


def shown(n):
    """the text of a paragraph, without notes and what is in drawings"""
    out = []
    for c in n.children:
        if c.kind == 'text':
            out = out + c.value
        elif c.kind == 'element' and (c.name == q('text:span')):
            out = out + shown(c)
    return out


def length(style, name):
    return css.length(style[q(name)])


def is_len(sx, style, name, want, what, tolerance=Fraction(3, 100)):
    if q(name) not in style:
        sx.check(False, '%s: no %s' % (what, name))
    sx.check(css.close(length(style, name), want, tolerance),
             what + ' ' + name)


CM = Fraction(15, 100)          # of lengths in hundredths of centimeters


def is_word(sx, style, name, want, what):
    if q(name) not in style:
        sx.check(False, '%s: no %s' % (what, name))
    sx.check(concrete_text(style[q(name)]) in want, what + ' ' + name)


def attrs(n):
    return dict((a.name, a.value) for a in n.attrs)


def odt_of(sx, info, sections, flat=False):
    return Odt(sx, xdoc.hwpdoc(info, sections), flat)


# texts --------------------------------------------------------------------

def make(sx, name, kind):
    """(item, [(text, shape)], notes)"""
    if kind == 'text':
        t = xdoc.symtext(sx, name, 1)
        s = sx.choice(name + 'shape', [0, 1])
        return ('text', t, s, 'ko'), [(t, s)], []
    if kind == 'char':
        return ('char', 'PARAGRAPH_BREAK'), [], []
    if kind == 'field':
        a, x, _ = make(sx, name + 'a', 'text')
        t = xdoc.symtext(sx, name + 'b', 1)
        b, y = ('text', t, 1, 'ko'), [(t, 1)]
        if sx.choice(name, [0, 1]):
            return ('field', '%clk', [('field', '%hlk', [a]), b]), x + y, []
        return ('field', '%hlk', [a, ('bookmark',), b]), x + y, []
    if kind == 'auto':
        return ('auto', 'page', 3, '', ''), [], []
    if kind == 'bookmark':
        return ('bookmark',), [], []
    if kind == 'cold':
        return ('cold',), [], []
    if kind == 'note':
        x, w = simple(sx, name)
        return ('note', 'FootNote', 1, [par(x)]), [], [w]
    raise ValueError(kind)


def text(sx, p):
    """texts are in paragraphs, in their order, and each has its shape"""
    kinds = p['first'] + [sx.choice('kind %d' % i, ['text', 'field', 'note'])
                          for i in range(2, p['n'])]
    lines = [[], []]
    texts = []
    notes = []
    cut = sx.choice('cut', [1, p['n']])
    for i, k in enumerate(kinds):
        x, w, n = make(sx, 'i%d' % i, k)
        lines[i >= cut].append(x)
        texts += w
        notes += n
    last, w2 = simple(sx, shape=1)
    sizes = [number(sx, 'size %d' % i, 0, 409600) for i in (0, 1)]
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(
        charshapes=[xdoc.charshape(basesize=s) for s in sizes]),
        [body.section(0, [[{'items': lines if cut < p['n'] else lines[:1]},
                           par(last)]])])
    ps = page.paragraphs()
    sx.check(len(ps) == 2, 'paragraphs')
    want = []
    for t, _ in texts:
        want = want + t
    is_text(sx, shown(ps[0]), want, 'text')
    is_text(sx, shown(ps[1]), w2, 'last text')
    bodies = page.all('text:note-body')
    sx.check(len(bodies) == len(notes), 'notes')
    for b, w in zip(bodies, notes):
        is_text(sx, b.string(), w, 'text of a note')
    spans = [s for s in page.all('text:span', ps[0])
             if s.parent is ps[0]]
    sx.check(len(spans) == len(texts), 'texts')
    for s, (t, c) in zip(spans, texts):
        is_text(sx, s.string(), t, 'a text')
        is_len(sx, page.style_of(s), 'style:font-size-asian',
               Num.of(sizes[c]) / 100, 'a text')
    for s in page.all('text:span', ps[1]):
        is_len(sx, page.style_of(s), 'style:font-size-asian',
               Num.of(sizes[1]) / 100, 'last text')
    sx.cover('ok')


def para_is(sx, st, d, what='paragraph'):
    """d: values of a shape"""
    left = Num.of(d['left'])
    if d['indent'] < 0:
        left = left - d['indent']
    is_len(sx, st, 'fo:margin-left', left / 200, what)
    for k in ('top', 'right', 'bottom'):
        is_len(sx, st, 'fo:margin-' + k, Num.of(d[k]) / 200, what)
    is_len(sx, st, 'fo:text-indent', Num.of(d['indent']) / 200, what)
    is_word(sx, st, 'fo:text-align', [ALIGNS[d['align']]], what)
    if d['type'] == 'ratio':
        n, u = css.quantity(st[q('fo:line-height')])
        sx.check(u == '%', 'unit of line-height')
        sx.check(css.close(n, d['spacing']), 'line-height')
    elif d['type'] == 'fixed':
        is_len(sx, st, 'fo:line-height', Num.of(d['spacing']) / 200, what)
    else:
        is_len(sx, st, 'style:line-spacing', Num.of(d['spacing']) / 400,
               what)


def para(sx, p):
    """a paragraph looks as its shape says, whatever its style"""
    shapes = []
    for i in (0, 1):
        d = dict((k, number(sx, '%s %d' % (k, i))) for k in SIDES)
        d['indent'] = number(sx, 'indent %d' % i, -1000000, 1000000)
        d['spacing'] = number(sx, 'spacing %d' % i, 1, 1000)
        d['type'] = sx.choice('type %d' % i, ['ratio', 'fixed', 'spaceonly'])
        d['align'] = [p['align'], sx.choice('align', ['both', 'right'])][i]
        shapes.append(d)
    which = sx.choice('shape', [0, 1])
    of = sx.choice('of style', [0, 1])
    x, w = simple(sx)
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(
        parashapes=[xdoc.parashape(
            align=d['align'], indent=d['indent'],
            linespacing=d['spacing'], linespacing_type=d['type'],
            **dict(('doubled_margin_' + s, d[s]) for s in SIDES))
            for d in shapes],
        styles=[xdoc.style('Body', 'B', of, 0)]),
        [body.section(0, [[par(x, para=which)]])])
    e, = page.paragraphs()
    para_is(sx, page.style_of(e), shapes[which])
    sx.cover('ok')


def styles(sx, p):
    """of several styles, each gives the shapes which it has, to a paragraph
    which has none of its own"""
    n = 3
    margins = [number(sx, 'margin %d' % i) for i in range(n)]
    sizes = [number(sx, 'size %d' % i, 0, 409600) for i in range(n)]
    of = [(sx.choice('para %d' % i, list(range(n))), (i + 1) % n)
          for i in range(n)]
    after = [sx.choice('next %d' % i, [0, 1, 2]) if i == p['style'] else 0
             for i in range(n)]
    which = p['style']
    mine = sx.choice('own', [None, 0, 1, 2])
    pid, cid = (mine, mine) if mine is not None else of[which]
    x, w = simple(sx, shape=cid)
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(
        parashapes=[xdoc.parashape(doubled_margin_top=m) for m in margins],
        charshapes=[xdoc.charshape(basesize=c) for c in sizes],
        styles=[xdoc.style('n%d' % i, ['Title', 'Other', 'Third One'][i],
                           *of[i], next_style_id=after[i])
                for i in range(n)]),
        [body.section(0, [[par(x, style=which, para=pid)]])])
    e, = page.paragraphs()
    is_len(sx, page.style_of(e), 'fo:margin-top', Num.of(margins[pid]) / 200,
           'paragraph')
    s, = page.all('text:span', e)
    for k in ('fo:font-size', 'style:font-size-asian',
              'style:font-size-complex'):
        is_len(sx, page.style_of(s), k, Num.of(sizes[cid]) / 100, 'text')
    # the styles themselves
    names = ['Title', 'Other', 'Third_One']
    for i in range(n):
        st = page.style('paragraph', names[i])
        if not st:
            sx.check(False, 'style not defined')
        is_len(sx, st, 'fo:margin-top', Num.of(margins[of[i][0]]) / 200,
               'style')
        is_len(sx, st, 'fo:font-size', Num.of(sizes[of[i][1]]) / 100,
               'style')
        sx.check(page.word(page.common['paragraph', names[i]],
                           'style:next-style-name') == names[after[i]],
                 'next style')
    # the paragraph is derived from its style
    k = ('paragraph', page.word(e, 'text:style-name'))
    if k in page.auto:
        sx.check(page.word(page.auto[k], 'style:parent-style-name') ==
                 names[which], 'parent style')
    else:
        sx.check(k[1] == names[which], 'style')
    sx.cover('ok')


NAMES = ['Body', u'\ubc14\ud0d5\uae00', 'A B', 'a/b', 'x:y', "it's", 'a&b',
         '<i>', '"q"', '(1)', '50%', '$a', '{b}', 'c|d', '1. a', '-x', '.y', '0', 'e~f', 'g`h', 'i^j',
         'k=l', 'm;n', 'o,p', 'q?r', 's@t', '[u]', 'v\\w', 'x!y', 'z#',
         'a*b', 'c+d', 'e>f']


def names(sx, p):
    """names of styles are names"""
    import re
    name = NAMES[p['name']]
    x, w = simple(sx)
    y, v = simple(sx, 'u')
    margins = [number(sx, 'm%d' % i) for i in (0, 1)]
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(
        parashapes=[xdoc.parashape(doubled_margin_top=m) for m in margins],
        styles=[xdoc.style('n', 'Other', 1, 0),
                xdoc.style('n', name, 0, 0, next_style_id=1)]),
        [body.section(0, [[par(x, style=1, para=0),
                           par(y, style=1, para=1)]])])
    for d in (page.common, page.auto):
        for _, s in d:
            sx.check(bool(re.match(r'[^\W\d][\w.-]*$', s)), 'name: %s' % s)
    ps = page.paragraphs()
    sx.check(len(ps) == 2, 'paragraphs')
    for i in (0, 1):
        is_len(sx, page.style_of(ps[i]), 'fo:margin-top',
               Num.of(margins[i]) / 200, 'paragraph')
        is_text(sx, shown(ps[i]), [w, v][i], 'text')
    sx.cover('ok')


# characters ---------------------------------------------------------------

def charpage(sx, shapes, which, of, **kw):
    x, w = simple(sx, shape=which)
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(
        charshapes=shapes, styles=[xdoc.style('Body', 'B', 0, of)], **kw),
        [body.section(0, [[par(x)]])])
    e, = page.paragraphs()
    s, = page.all('text:span', e)
    is_text(sx, s.string(), w, 'text')
    return page, page.style_of(s)


def char(sx, p):
    """a text looks as its shape says, whatever its style"""
    shapes = []
    for i in (0, 1):
        shapes.append(dict(
            size=number(sx, 'size %d' % i, 0, 409600),
            rel=dict((k, number(sx, '%s %d' % (k, i), 10, 250))
                     for k in ('en', 'ko', 'other')),
            italic=[p['italic'], sx.choice('italic', [0, 1])][i],
            bold=[p['bold'], sx.choice('bold', [0, 1])][i]))
    which = sx.choice('shape', [0, 1])
    of = sx.choice('of style', [0, 1])
    page, st = charpage(sx, [xdoc.charshape(
        basesize=d['size'], sizes=d['rel'], italic=d['italic'],
        bold=d['bold']) for d in shapes], which, of)
    d = shapes[which]
    for k, name in (('en', 'fo:font-size'), ('ko', 'style:font-size-asian'),
                    ('other', 'style:font-size-complex')):
        is_len(sx, st, name, Num.of(d['size']) * d['rel'][k] / 10000, 'text')
    for name, on in (('font-style', d['italic'] and 'italic'),
                     ('font-weight', d['bold'] and 'bold')):
        for k in ('fo:' + name, 'style:%s-asian' % name,
                  'style:%s-complex' % name):
            got = concrete_text(st.get(q(k), chars('normal')))
            sx.check(got == (on or 'normal'), 'text ' + k)
    sx.cover('ok')


def line(sx, p):
    """lines under, over and through a text"""
    shapes = []
    for i in (0, 1):
        u = [p['underline'], sx.choice('other', UNDERLINES)][i]
        shapes.append((u, sx.choice('style %d' % i, sorted(LINES))
                       if u != 'none' and i == 0 else 'double',
                       color(sx, 'c%d' % i)))
    which = sx.choice('shape', [0, 1])
    of = sx.choice('of style', [0, 1])
    page, st = charpage(sx, [xdoc.charshape(
        underline=u, underline_style=s, underline_color=c)
        for u, s, c in shapes], which, of)
    u, s, c = shapes[which]
    for k in UNDERLINES[1:]:
        name = 'style:text-%s-' % k.replace('_', '-')
        if k == u:
            t, v = LINE_STYLES[s]
            is_word(sx, st, name + 'type', [t], 'line')
            is_word(sx, st, name + 'style', v, 'line')
            is_text(sx, st.get(q(name + 'color'), []), c, 'line')
        else:
            is_word(sx, st, name + 'type', ['none'], 'line')
    sx.cover('ok')


def fonts(sx, p):
    """fonts of texts, by language"""
    faces = {}
    for k in xdoc.LANGS:
        n = sx.choice('n' + k, [1, 2]) if k in ('ko', 'en') else 1
        faces[k] = [xdoc.face('F%s%d' % (k, i), {'serif-style': sx.choice(
            'serif', [2, 11])} if k == p['lang'] and i == 0 else None)
            for i in range(n)]
    ids = [dict((k, sx.choice('id %s %d' % (k, i),
                              list(range(len(faces[k])))))
                for k in ('ko', 'en')) for i in (0, 1)]
    which = sx.choice('shape', [0, 1])
    of = sx.choice('of style', [0, 1])
    page, st = charpage(sx, [xdoc.charshape(faces=d) for d in ids], which,
                        of, faces=faces)
    decls = [page.word(f, 'style:name')
             for f in page.all('style:font-face', page.styles)]
    for k, name in (('en', 'style:font-name'),
                    ('ko', 'style:font-name-asian')):
        want = 'F%s%d' % (k, ids[which][k])
        is_word(sx, st, name, [want], 'font')
        sx.check(decls.count(want) == 1, 'declaration of a font')
    sx.cover('ok')


# tables -------------------------------------------------------------------

def tablepage(sx, info, rows, where='page', flat=False, items=(), **kw):
    body = xdoc.Body()
    t = ('table', dict(kw, rows=rows))
    if where == 'page':
        a = par(*(list(items) + [t]))
    elif where == 'cell':
        a = par(('table', {'rows': [[{'paragraphs': [par(t)]}]]}))
    elif where == 'note':
        a = par(('note', 'FootNote', 1, [par(t)]))
    else:
        a = par(('gso', {'shapes': [{'chid': '$rec',
                                     'paragraphs': [par(t)]}]}))
    return odt_of(sx, info, [body.section(0, [[a]])], flat)


def borders(sx, p):
    """borders of cells"""
    bs = []
    for i in (0, 1):
        d = {}
        for s in SIDES:
            if i == 0 and p['side'] in (s, None):
                stroke = sx.choice('stroke', sorted(STROKES)) \
                    if p['side'] else 'dashed'
                width = sx.choice('width', WIDTHS) if p['side'] is None \
                    else sx.choice('width', WIDTHS[:2])
            else:
                stroke, width = [('solid', '0.1mm'), ('double', '5.0mm')][i]
            d[s] = (stroke, width, color(sx, 'c%d%s' % (i, s)))
        bs.append(d)
    ids = [sx.choice('id %d' % i, [1, 2]) for i in (0, 1)]
    x, w = simple(sx)
    y, v = simple(sx, 'u')
    page = tablepage(sx, xdoc.docinfo(
        borderfills=[xdoc.borderfill(d) for d in bs]), [[
            {'paragraphs': [par(x)], 'attrs': {'borderfill-id': ids[0]}},
            {'paragraphs': [par(y)], 'attrs': {'borderfill-id': ids[1]}}]])
    cells = page.all('table:table-cell')
    sx.check(len(cells) == 2, 'cells')
    for c, i, t in zip(cells, ids, (w, v)):
        is_text(sx, c.string(), t, 'text of a cell')
        st = page.style_of(c)
        for s in SIDES:
            b = css.words(st.get(q('fo:border-' + s), []))
            stroke, width, col = bs[i - 1][s]
            sx.check(len(b) == 3, 'border')
            sx.check(concrete_text(b[0]) == width, 'width of a border')
            sx.check(concrete_text(b[1]) in STROKES[stroke],
                     'kind of a border')
            is_text(sx, b[2], col, 'color of a border')
    sx.cover('ok')


def fills(sx, p):
    """backgrounds of cells"""
    cs = [color(sx, 'c%d' % i) for i in (0, 1)]
    fs = []
    for i in (0, 1):
        fs.append(sx.choice('fill %d' % i, [None, 'color']))
    ids = [sx.choice('id %d' % i, [1, 2]) for i in (0, 1)]
    x, w = simple(sx)
    y, v = simple(sx, 'u')
    page = tablepage(sx, xdoc.docinfo(borderfills=[
        xdoc.borderfill({}, [xdoc.E('FillColorPattern', [
            ('attribute-name', 'fill_colorpattern'),
            ('background-color', c), ('pattern-color', '#000000'),
            ('pattern-type', 'none'), ('pattern-type-flags', '0')])]
            if f else []) for c, f in zip(cs, fs)]), [[
                {'paragraphs': [par(x)],
                 'attrs': {'borderfill-id': ids[0]}}],
                [{'paragraphs': [par(y)],
                  'attrs': {'borderfill-id': ids[1]}}]])
    cells = page.all('table:table-cell')
    sx.check(len(cells) == 2, 'cells')
    for c, i in zip(cells, ids):
        got = page.style_of(c).get(q('fo:background-color'))
        if fs[i - 1]:
            is_text(sx, got or [], cs[i - 1], 'background')
        else:
            sx.check(got is None or concrete_text(got) == 'transparent',
                     'background')
    sx.cover('ok')


def tables(sx, p):
    """tables, their cells, and what is in them"""
    where = p['where'] if p['where'] != 'flat' else 'page'
    rows = []
    want = []
    for r in range(sx.choice('rows', [1, 2])):
        row = []
        for c in range(sx.choice('cells %d' % r, [0, 1, 2])):
            k = '%d.%d ' % (r, c)
            a = dict(('padding-' + s, number(sx, k + s)) for s in SIDES)
            a['colspan'] = number(sx, k + 'colspan', 1, 99)
            a['rowspan'] = number(sx, k + 'rowspan', 1, 99)
            ps = []
            texts = []
            for i in range(1 + (r == 0 and c == 0)):
                x, w = simple(sx, k + 'p%d ' % i)
                ps.append(par(x))
                texts.append(w)
            row.append({'paragraphs': ps, 'attrs': a})
            want.append((r, a, texts))
        rows.append(row)
    size = dict((k, number(sx, k)) for k in (
        'width', 'margin-top', 'margin-right', 'margin-bottom',
        'margin-left'))
    cols = number(sx, 'cols', 1, 99)
    spacing = sx.choice('spacing', [0, 7])
    page = tablepage(sx, xdoc.docinfo(borderfills=[xdoc.borderfill()]), rows,
                     where, p['where'] == 'flat', cellspacing=spacing,
                     cols=cols, attrs=size)
    ts = page.all('table:table')
    sx.check(len(ts) == (2 if where == 'cell' else 1), 'tables')
    e = ts[-1]
    up = e.parent
    sx.check(up.name == q({'page': 'office:text', 'cell': 'table:table-cell',
                           'note': 'text:note-body', 'box': 'draw:rect'}[
                               where]), 'place of a table')
    st = page.style_of(e)
    is_len(sx, st, 'style:width', mm(size['width']), 'table')
    for s in SIDES:
        is_len(sx, st, 'fo:margin-' + s, mm(size['margin-' + s]), 'table')
    is_word(sx, st, 'table:border-model',
            ['separating' if spacing else 'collapsing'], 'table')
    columns = Num.of(0)
    for c in page.all('table:table-column', e):
        if c.parent is e:
            n, u = css.quantity(c.attr(q('table:number-columns-repeated'))
                                or chars('1'))
            columns = columns + n
    sx.check(columns.compare(Num.of(cols), '='), 'columns')
    trs = [x for x in page.all('table:table-row', e) if x.parent is e]
    sx.check(len(trs) == len(rows), 'rows')
    i = 0
    for r, tr in enumerate(trs):
        tds = [x for x in tr.children if x.name == q('table:table-cell')]
        sx.check(len(tds) == len(rows[r]), 'cells')
        for td in tds:
            _, a, texts = want[i]
            i += 1
            st = page.style_of(td)
            for s in SIDES:
                is_len(sx, st, 'fo:padding-' + s, mm(a['padding-' + s]),
                       'cell')
            for k, n in (('colspan', 'table:number-columns-spanned'),
                         ('rowspan', 'table:number-rows-spanned')):
                is_text(sx, td.attr(q(n)) or chars('1'), [Num.of(a[k])], k)
            ps = [x for x in td.children if x.kind == 'element']
            sx.check(len(ps) == len(texts), 'paragraphs of a cell')
            for x, w in zip(ps, texts):
                is_text(sx, shown(x), w, 'text of a cell')
    sx.cover('ok')


def caption(sx, p):
    """a table with a caption: its cells, what is around it, its caption"""
    x, w = simple(sx)
    y, v = simple(sx, 'c')
    z, u = simple(sx, 'd')
    pos = sx.choice('position', ['top', 'bottom', 'left', 'right'])
    page = tablepage(
        sx, xdoc.docinfo(borderfills=[xdoc.borderfill()]),
        [[{'paragraphs': [par(x)]}]], items=[z],
        caption={'position': pos, 'paragraphs': [par(y)]})
    td, = page.all('table:table-cell')
    is_text(sx, td.string(), w, 'text of a cell')
    is_text(sx, shown(page.paragraphs()[0]), u, 'text before a table')
    texts = page.text.string()
    if pos in ('top', 'left'):
        full = u + v + w
    else:
        full = u + w + v
    sx.check(sx.Or(items_eq(texts, full), items_eq(texts, u + w)), 'texts')
    sx.cover('ok')
    is_text(sx, texts, full, 'caption of a table left out')


# pages --------------------------------------------------------------------

def sections(sx, p):
    """sizes and margins of the pages of sections, and what is on them"""
    defs = []
    secs = []
    body = xdoc.Body()
    n = sx.choice('sections', [1, 2])
    for s in range(n):
        d = dict((k, number(sx, '%s %d' % (k, s))) for k in [
            x + '-offset' for x in SIDES] + ['width', 'height'])
        d['orientation'] = sx.choice('orientation %d' % s,
                                     ['portrait', 'landscape'])
        cols = []
        texts = []
        for c in range(sx.choice('columns %d' % s, [1, 2])):
            x, w = simple(sx, 's%dc%d' % (s, c))
            a = par(x, new_section=int(c == 0))
            cols.append([a])
            texts.append(w)
            if c == 0:
                y, v = simple(sx, 's%dd%d' % (s, c))
                cols[-1].append(par(y))
                texts.append(v)
        secs.append(body.section(s, cols, d))
        defs.append((d, texts))
    page = odt_of(sx, xdoc.docinfo(), secs, p['flat'])
    ps = page.paragraphs()
    sx.check(len(ps) == sum(len(t) for _, t in defs), 'paragraphs')
    i = 0
    for d, texts in defs:
        for k, w in enumerate(texts):
            is_text(sx, shown(ps[i]), w, 'text of a section')
            e = page.layout_of(ps[i])
            i += 1
            if k:
                sx.check(e is None, 'page layout within a section')
                continue
            if e is None:
                sx.check(False, 'no page layout')
            e, = page.all('style:page-layout-properties', e)
            st = attrs(e)
            a, b = d['width'], d['height']
            if d['orientation'] == 'landscape':
                a, b = b, a
            is_len(sx, st, 'fo:page-width', mm(a), 'page', CM)
            is_len(sx, st, 'fo:page-height', mm(b), 'page', CM)
            for s in SIDES:
                is_len(sx, st, 'fo:margin-' + s, mm(d[s + '-offset']),
                       'page', CM)
            is_word(sx, st, 'style:print-orientation', [d['orientation']],
                    'page')
    sx.cover('ok')


def breaks(sx, p):
    """paragraphs which begin a page do so"""
    flags = [sx.choice('new page %d' % i, [0, 1]) for i in range(3)]
    own = [sx.choice('shape %d' % i, [0, 1]) for i in range(3)]
    margins = [number(sx, 'm%d' % i) for i in (0, 1)]
    pars = []
    texts = []
    for i in range(3):
        x, w = simple(sx, 't%d' % i)
        pars.append(par(x, new_page=flags[i], para=own[i],
                        new_section=int(i == 0)))
        texts.append(w)
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(parashapes=[
        xdoc.parashape(doubled_margin_top=m) for m in margins]),
        [body.section(0, [pars])])
    ps = page.paragraphs()
    sx.check(len(ps) == 3, 'paragraphs')
    for i in range(3):
        st = page.style_of(ps[i])
        got = concrete_text(st.get(q('fo:break-before'), chars('auto')))
        sx.check(got == ('page' if flags[i] else 'auto'), 'page break')
        is_len(sx, st, 'fo:margin-top', Num.of(margins[own[i]]) / 200,
               'paragraph')
        is_text(sx, shown(ps[i]), texts[i], 'text')
    sx.cover('ok')


def notes(sx, p):
    """footnotes and endnotes: where they are, their numbers and texts"""
    k = p['kind']
    other = 'EndNote' if k == 'FootNote' else 'FootNote'
    a, wa = simple(sx, 'a')
    b, wb = simple(sx, 'b')
    n1 = number(sx, 'n1', 1, 999)
    n2 = number(sx, 'n2', 1, 999)
    c, wc = simple(sx, 'c', shape=1)
    d, wd = simple(sx, 'd')
    e, we = simple(sx, 'e')
    items = [a, ('note', k, n1, [par(c), par(d, para=1)]), b]
    two = sx.choice('two', [0, 1])
    if two:
        items.append(('note', other, n2, [par(e)]))
    size = [number(sx, 's%d' % i, 0, 409600) for i in (0, 1)]
    margins = [number(sx, 'm%d' % i) for i in (0, 1)]
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(
        charshapes=[xdoc.charshape(basesize=s) for s in size],
        parashapes=[xdoc.parashape(doubled_margin_top=m) for m in margins]),
        [body.section(0, [[par(*items)]])])
    top = page.paragraphs()
    sx.check(len(top) == 1, 'paragraphs')
    is_text(sx, shown(top[0]), wa + wb, 'text')
    # order of texts and notes
    kids = [x for x in top[0].children if x.kind == 'element']
    sx.check([x.name for x in kids] == [
        q('text:span'), q('text:note'), q('text:span')] +
        [q('text:note')] * two, 'place of a note')
    ns = page.all('text:note')
    for x, kind, n, texts in zip(ns, (k, other), (n1, n2),
                                 ([wc, wd], [we])):
        sx.check(page.word(x, 'text:note-class') == kind.lower(), 'class')
        cit, = page.all('text:note-citation', x)
        is_text(sx, cit.string(), [Num.of(n)], 'number of a note')
        nb, = page.all('text:note-body', x)
        ps = page.paragraphs(nb)
        sx.check(len(ps) == len(texts), 'paragraphs of a note')
        for y, w in zip(ps, texts):
            is_text(sx, shown(y), w, 'text of a note')
        if kind == k:
            is_len(sx, page.style_of(page.all('text:span', ps[0])[0]),
                   'fo:font-size', Num.of(size[1]) / 100, 'text of a note')
            is_len(sx, page.style_of(ps[1]), 'fo:margin-top',
                   Num.of(margins[1]) / 200, 'paragraph of a note')
    sx.cover('ok')


# things -------------------------------------------------------------------

def fill(c):
    return xdoc.E('FillColorPattern', [
        ('attribute-name', 'fill_colorpattern'), ('background-color', c),
        ('pattern-color', '#000000'), ('pattern-type', 'none'),
        ('pattern-type-flags', '0')])


def images(sx, p):
    """images: which, where, and how big"""
    datas = [xdoc.bindata('BIN000%d' % i, e)
             for i, e in ((1, 'png'), (3, 'jpg'), (10, 'bmp'))]
    hrefs = ['BIN0001.png', 'BIN0003.jpg', 'BIN00010.bmp']
    n = [sx.choice('image %d' % i, [1, 2, 3]) for i in (0, 1)]
    size = [(number(sx, 'w%d' % i), number(sx, 'h%d' % i)) for i in (0, 1)]
    x = number(sx, 'x', -1000000, 1000000)
    y = number(sx, 'y', -1000000, 1000000)
    z = number(sx, 'z', 0, 1000)
    margins = dict(('margin-' + s, number(sx, s)) for s in SIDES)
    t, w = simple(sx)
    body = xdoc.Body()
    items = []
    for i in (0, 1):
        items.append(('gso', {'shapes': [{
            'chid': '$pic', 'bindata': n[i], 'initial': size[i]}],
            'attrs': dict(margins, **{'inline': p['inline'], 'x': x, 'y': y,
                                      'z-order': z})}))
    page = odt_of(sx, xdoc.docinfo(bindatas=datas), [body.section(0, [[
        par(items[0], t, items[1])]])], flat=sx.choice('flat', [0, 1]))
    e, = page.paragraphs()
    kids = [c.name for c in e.children if c.kind == 'element']
    sx.check(kids == [q('draw:frame'), q('text:span'), q('draw:frame')],
             'place of an image')
    is_text(sx, shown(e), w, 'text')
    for i, f in enumerate(page.all('draw:frame')):
        st = attrs(f)
        is_len(sx, st, 'svg:width', mm(size[i][0]), 'image')
        is_len(sx, st, 'svg:height', mm(size[i][1]), 'image')
        if p['inline']:
            is_word(sx, st, 'text:anchor-type', ['as-char'], 'image')
        else:
            is_word(sx, st, 'text:anchor-type', ['paragraph', 'char'],
                    'image')
            is_len(sx, st, 'svg:x', mm(x), 'image')
            is_len(sx, st, 'svg:y', mm(y), 'image')
        is_text(sx, st[q('draw:z-index')], [Num.of(z)], 'order')
        im, = page.all('draw:image', f)
        is_text(sx, im.attr(q('xlink:href')) or [],
                chars('bindata/' + hrefs[n[i] - 1]), 'image')
        st = page.style_of(f)
        for s in SIDES:
            is_len(sx, st, 'fo:margin-' + s, mm(margins['margin-' + s]),
                   'image')
    sx.cover('ok')


def shapes(sx, p):
    """rectangles, the texts in them, and lines"""
    x = number(sx, 'x', -1000000, 1000000)
    y = number(sx, 'y', -1000000, 1000000)
    size = (number(sx, 'w'), number(sx, 'h'))
    cx, cy = number(sx, 'cx'), number(sx, 'cy')
    stroke = sx.choice('stroke', ['none', 'solid', 'dashed', 'dotted'])
    filled = sx.choice('filled', [0, 1])
    width = number(sx, 'stroke width', 0, 100000)
    c1, c2 = color(sx, 'c1'), color(sx, 'c2')
    t, w = simple(sx)
    u, v = simple(sx, 'u')
    o, wo = simple(sx, 'o')
    rec = {'chid': '$rec', 'size': size, 'stroke': stroke, 'color': c1,
           'stroke_width': width, 'paragraphs': [par(t), par(u)]}
    if filled:
        rec['fills'] = [fill(c2)]
        rec['attrs'] = {'fill-colorpattern': 1}
    lin = {'chid': '$lin', 'cx': cx, 'cy': cy, 'color': c2}
    body = xdoc.Body()
    at = {'inline': p['inline'], 'x': x, 'y': y}
    order = sx.choice('order', [0, 1])
    two = [('gso', {'shapes': [rec], 'attrs': dict(at)}),
           ('gso', {'shapes': [lin], 'attrs': dict(at)})]
    page = odt_of(sx, xdoc.docinfo(), [body.section(0, [[
        par(two[order], o, two[1 - order])]])])
    top = [e for e in page.paragraphs() if e.parent is page.text]
    sx.check(len(top) == 1, 'paragraphs')
    is_text(sx, shown(top[0]), wo, 'text')
    r, = page.all('draw:rect')
    st = attrs(r)
    for k, n in (('x', x), ('y', y), ('width', size[0]),
                 ('height', size[1])):
        is_len(sx, st, 'svg:' + k, mm(n), 'rectangle')
    anchor = ['as-char'] if p['inline'] else ['paragraph', 'char']
    is_word(sx, st, 'text:anchor-type', anchor, 'rectangle')
    ps = page.paragraphs(r)
    sx.check(len(ps) == 2, 'paragraphs of a box')
    is_text(sx, shown(ps[0]), w, 'text of a box')
    is_text(sx, shown(ps[1]), v, 'text of a box')
    st = page.style_of(r)
    is_word(sx, st, 'draw:stroke', [{'none': 'none', 'solid': 'solid'}.get(
        stroke, 'dash')], 'rectangle')
    is_text(sx, st.get(q('svg:stroke-color'), []), c1, 'color of a line')
    is_len(sx, st, 'svg:stroke-width', mm(width), 'rectangle')
    if filled:
        is_word(sx, st, 'draw:fill', ['solid'], 'rectangle')
        is_text(sx, st.get(q('draw:fill-color'), []), c2, 'fill')
    else:
        is_word(sx, st, 'draw:fill', ['none'], 'rectangle')
    e, = page.all('draw:line')
    st = attrs(e)
    is_len(sx, st, 'svg:x1', mm(x), 'line')
    is_len(sx, st, 'svg:y1', mm(y), 'line')
    is_len(sx, st, 'svg:x2', mm(x) + mm(cx) * 2, 'line')
    is_len(sx, st, 'svg:y2', mm(y) + mm(cy) * 2, 'line')
    is_text(sx, page.style_of(e).get(q('svg:stroke-color'), []), c2,
            'color of a line')
    sx.cover('ok')


def groups(sx, p):
    """things in groups"""
    datas = [xdoc.bindata('BIN000%d' % i, 'png') for i in (1, 2)]
    x = number(sx, 'x', -1000000, 1000000)
    y = number(sx, 'y', -1000000, 1000000)
    w, h = number(sx, 'w'), number(sx, 'h')
    n = sx.choice('image', [1, 2])
    kinds = [sx.choice('kind %d' % i, ['$pic', '$rec', '$lin', '$con'])
             for i in (0, 1)]
    t, wt = simple(sx)
    colors = [color(sx, 'c%d' % i) for i in (0, 1)]

    def shape(i, k, deep=False):
        if k == '$pic':
            return {'chid': k, 'bindata': n, 'initial': (w, h)}
        if k == '$con' and not deep:
            return {'chid': k, 'shapes': [shape(i, '$rec', True)]}
        return {'chid': k, 'size': (w, h), 'color': colors[i]}
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(bindatas=datas), [body.section(0, [[
        par(('gso', {'shapes': [{'chid': '$con', 'shapes': [
            shape(i, k) for i, k in enumerate(kinds)]}],
            'attrs': {'inline': p['inline'], 'x': x, 'y': y}}), t)]])])
    e, = page.paragraphs()
    is_text(sx, shown(e), wt, 'text')
    g = [c for c in e.children if c.kind == 'element'][0]
    sx.check(g.name == q('draw:g'), 'group')
    is_word(sx, attrs(g), 'text:anchor-type',
            ['as-char'] if p['inline'] else ['paragraph', 'char'], 'group')
    kids = [c for c in g.children if c.kind == 'element']
    names = {'$pic': 'draw:frame', '$rec': 'draw:rect', '$lin': 'draw:line',
             '$con': 'draw:g'}
    sx.check([c.name for c in kids] == [q(names[k]) for k in kinds],
             'things of a group')
    for i, (k, c) in enumerate(zip(kinds, kids)):
        if k == '$con':
            c, = [d for d in c.children if d.kind == 'element']
            sx.check(c.name == q('draw:rect'), 'things of a group')
            k = '$rec'
        st = attrs(c)
        if k in ('$pic', '$rec'):
            is_len(sx, st, 'svg:width', mm(w), k)
            is_len(sx, st, 'svg:height', mm(h), k)
        if k == '$pic':
            im, = page.all('draw:image', c)
            is_text(sx, im.attr(q('xlink:href')) or [],
                    chars('bindata/BIN000%d.png' % n), 'image')
        else:
            is_text(sx, page.style_of(c).get(q('svg:stroke-color'), []),
                    colors[i], 'color of a line')
    sx.cover('ok')


WRAPS = {'block': 'none', 'back': 'run-through', 'front': 'run-through'}


def wrap(sx, p):
    """how texts flow around drawings, and what their positions mean"""
    a = {'flow': p['flow'], 'inline': 0,
         'text-side': sx.choice('side', ['both', 'left', 'right', 'larger']),
         'vrelto': sx.choice('vrelto', ['paper', 'page', 'paragraph']),
         'hrelto': sx.choice('hrelto', ['paper', 'page', 'paragraph',
                                        'column']),
         'x': 0, 'y': 0, 'halign': sx.choice('halign', [
             'left', 'center', 'right', 'inside', 'outside'])}
    t, w = simple(sx)
    body = xdoc.Body()
    page = odt_of(sx, xdoc.docinfo(), [body.section(0, [[
        par(('gso', {'shapes': [{'chid': '$rec'}], 'attrs': a}), t)]])])
    e, = page.all('draw:rect')
    st = page.style_of(e)
    want = WRAPS.get(p['flow']) or {'both': 'parallel', 'left': 'left',
                                    'right': 'right', 'larger': 'biggest'}[
        a['text-side']]
    is_word(sx, st, 'style:wrap', [want], 'drawing')
    is_word(sx, st, 'style:vertical-rel', [{
        'paper': 'page', 'page': 'page-content'}.get(
            a['vrelto'], 'paragraph')], 'drawing')
    is_word(sx, st, 'style:horizontal-rel', [{
        'paper': 'page', 'page': 'page-content',
        'column': 'page-content'}.get(a['hrelto'], 'paragraph')], 'drawing')
    is_word(sx, st, 'style:horizontal-pos', {
        'left': ['from-left', 'left'], 'center': ['center'],
        'right': ['right'], 'inside': ['from-inside', 'inside'],
        'outside': ['outside']}[a['halign']], 'drawing')
    is_text(sx, shown(page.paragraphs()[0]), w, 'text')
    sx.cover('ok')
