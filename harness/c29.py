# -*- coding: utf-8 -*-
"""HTML and CSS out of the XML of a document: what is shown, and how."""
from fractions import Fraction

from sx import css
from sx.xslt import Num, chars, concrete_text, convert, items_eq

from . import xdoc

PRELOAD = []
COVERS = {'text': ['ok'], 'para': ['ok'], 'char': ['ok'], 'line': ['ok'],
          'fonts': ['ok'], 'borders': ['ok'], 'fills': ['ok'],
          'tables': ['ok'], 'caption': ['ok'], 'sections': ['ok'],
          'headers': ['ok'], 'images': ['ok'], 'bullets': ['ok'],
          'position': ['ok'], 'title': ['ok'], 'styles': ['ok']}
BOUNDS = {
    'quick': 'texts of two arbitrary characters; numbers up to ten million '
             'units (1/7200 inch each); two styles, two shapes of '
             'paragraphs, two of characters, up to two fonts for every '
             'language, two fills and borders, three images; tables of two '
             'rows of two cells; two sections',
    'thorough': 'the same, with longer paragraphs',
}
OUTSIDE = 'XSLT engines (the meaning of the stylesheets is given by an ' \
    'interpreter of XSLT 1.0, compared with xsltproc on every path) and ' \
    'browsers (a cascade of the rules of classes); names of styles and ' \
    'fonts which CSS has to escape; footnotes, endnotes and lines are not ' \
    'shown; things other than texts within fields'
ASSUMPTIONS = ['the XML is what the XML conversion gives']
OPTS = {'max_paths': 20000}

XH = '{http://www.w3.org/1999/xhtml}'
MM = Fraction(720, 254)         # points
INHERITED = {'color', 'font-style', 'font-weight', 'font-family',
             'font-size', 'line-height', 'text-align', 'text-indent'}
INITIAL = {'font-style': 'normal', 'font-weight': 'normal',
           'text-decoration-line': 'none', 'line-height': 'normal',
           'padding-left': '0', 'min-height': '0'}
ITEMS = ['text', 'char', 'field', 'auto', 'bookmark', 'note', 'cold']
ALIGNS = {'both': 'justify', 'left': 'left', 'right': 'right',
          'center': 'center', 'distribute': 'justify',
          'distribute_space': 'justify'}
LINES = {'solid': ['solid'], 'dashed': ['dashed'], 'dotted': ['dotted'],
         'dash_dot': ['dashed'], 'dash_dot_dot': ['dashed'],
         'long_dashed': ['dashed'], 'large_dotted': ['dotted'],
         'double': ['double'], 'lower_weighted': ['double'],
         'upper_weighted': ['double'], 'middle_weighted': ['double']}
STROKES = {'none': ['none'], 'solid': ['solid'], 'dashed': ['dashed'],
           'dotted': ['dotted'], 'dash-dot': ['dashed'],
           'dash-dot-dot': ['dashed'], 'long-dash': ['dashed'],
           'large-dot': ['dotted'], 'double': ['double'],
           'double-2': ['double'], 'double-3': ['double'],
           'triple': ['double'], 'wave': ['solid'],
           'double-wave': ['double', 'solid'], 'inset': ['inset'],
           'outset': ['outset'], 'groove': ['groove'], 'ridge': ['ridge']}
WIDTHS = ['0.1mm', '0.12mm', '0.15mm', '0.2mm', '0.25mm', '0.3mm', '0.4mm',
          '0.5mm', '0.6mm', '0.7mm', '1.0mm', '1.5mm', '2.0mm', '3.0mm',
          '4.0mm', '5.0mm']


def tasks(tier):
    out = []

    def add(fn, **params):
        out.append(dict(fn=fn, params=params))
    n = 3 if tier == 'quick' else 4
    for k in ITEMS:
        for k2 in ITEMS:
            add('text', first=[k, k2], n=n)
    for a in sorted(ALIGNS):
        add('para', align=a)
    for i in range(3):
        add('styles', style=i)
    for own in (False, True):
        add('char', own=own)
        for u in ('none', 'underline', 'overline', 'line_through'):
            add('line', own=own, underline=u)
    for i in range(7):
        add('fonts', lang=i)
    for s in css.SIDES:
        add('borders', side=s)
    add('borders', side=None)
    for f in ('none', 'color', 'pattern', 'gradation', 'image'):
        add('fills', fill=f)
    for i in (0, 1):
        add('tables', inline=i)
        add('caption', inline=i)
    add('sections')
    add('headers')
    for i in (0, 1):
        add('images', inline=i)
    add('bullets')
    for what in ('table', 'gso'):
        for r in ('paragraph', 'column', 'page', 'paper'):
            add('position', what=what, hrelto=r)
    add('title')
    return out


# pages --------------------------------------------------------------------

class Page(object):
    """what a browser makes of a document"""

    def __init__(self, sx, doc):
        self.sx = sx
        html = convert(sx, 'hwp5html.xsl', doc)
        self.html = [c for c in html.children if c.kind == 'element'][0]
        sheet = []
        for link in self.all('link'):
            sx.check(concrete_text(link.attr('href')) == 'styles.css',
                     'link to a style sheet')
            sheet += convert(sx, 'hwp5css.xsl', doc).string() + [10]
        self.own = []
        for s in self.all('style'):
            self.own += s.string() + [10]
        self.rules = css.rules(sheet) + css.rules(self.own)

    def all(self, tag, top=None):
        out = []

        def walk(n):
            for c in n.children:
                if c.kind == 'element':
                    if c.name == XH + tag:
                        out.append(c)
                    walk(c)
        walk(top or self.html)
        return out

    @property
    def body(self):
        return self.all('body')[0]

    def classes(self, n):
        s = concrete_text(n.attr('class') or [])
        if s is None:
            raise AssertionError('class')
        return s.split()

    def chain(self, n):
        out = []
        while n.kind == 'element':
            out.insert(0, (n.name.replace(XH, ''), self.classes(n)))
            n = n.parent
        return out

    def style(self, n, pseudo=''):
        """declarations in force"""
        out = {}
        up = []
        while n.kind == 'element':
            up.insert(0, n)
            n = n.parent
        for x in up:
            last = x is up[-1] and not pseudo
            d = css.cascade(self.rules, self.chain(x),
                            inline=css.declarations(x.attr('style') or []))
            for k, v in d.items():
                if last or k in INHERITED:
                    out[k] = v
        if pseudo:
            out.update(css.cascade(self.rules, self.chain(up[-1]), pseudo))
        for k, v in INITIAL.items():
            out.setdefault(k, chars(v))
        return out

    def by_class(self, name, top=None):
        out = []

        def walk(n):
            for c in n.children:
                if c.kind == 'element':
                    if name in self.classes(c):
                        out.append(c)
                    walk(c)
        walk(top or self.html)
        return out


def is_len(sx, style, name, want, what):
    """want: points"""
    if name not in style:
        sx.check(False, '%s: no %s' % (what, name))
    sx.check(css.close(css.length(style[name]), want), what + ' ' + name)


def is_word(sx, style, name, want, what):
    if name not in style:
        sx.check(False, '%s: no %s' % (what, name))
    want = want if isinstance(want, list) else [want]
    sx.check(concrete_text(style[name]) in want, what + ' ' + name)


def is_text(sx, got, want, what):
    sx.check(items_eq(got, want), what)


def color(sx, name):
    return [ord('#')] + [sx.int('%s%d' % (name, i), 0x30, 0x39)
                         for i in range(6)]


def mm(n):
    return Num.of(n) * Fraction(72, 7200)


def number(sx, name, lo=0, hi=10000000):
    return sx.int(name, lo, hi)


def word(sx, name, n=2):
    """a name which need not be escaped"""
    return [sx.int('%s%d' % (name, i), 0xac00, 0xd7a3) for i in range(n)]


def simple(sx, name='t', shape=0, lang='ko'):
    t = xdoc.symtext(sx, name, 2)
    return ('text', t, shape, lang), t


def par(*items, **kw):
    return dict(kw, items=[list(items)])


def page_of(sx, info, sections, title=''):
    return Page(sx, xdoc.hwpdoc(info, sections, title))


def text_spans(page, p):
    return [s for s in page.all('span', p)
            if any(c.startswith('lang-') for c in page.classes(s))]


# texts --------------------------------------------------------------------

def make(sx, name, kind):
    """(item, what is shown, texts)"""
    if kind == 'text':
        t = xdoc.symtext(sx, name, 2)
        return ('text', t, 0, 'ko'), t, [t]
    if kind == 'char':
        c = sx.choice(name, ['TAB', 'LINE_BREAK', 'PARAGRAPH_BREAK'])
        return ('char', c), [xdoc.CHARS[c][0]], []
    if kind == 'field':
        a, x, s = make(sx, name + 'a', 'text')
        if sx.choice(name, [0, 1]):
            b, y, t = make(sx, name + 'b', 'text')
            return ('field', '%clk', [('field', '%hlk', [a]), b]), x + y, \
                s + t
        return ('field', '%hlk', [a]), x, s
    if kind == 'auto':
        n = sx.int(name, 1, 999)
        a, b = xdoc.symtext(sx, name, 2)
        return ('auto', 'page', n, [a], [b]), [a, Num.of(n), b], []
    if kind == 'bookmark':
        return ('bookmark',), [], []
    if kind == 'cold':
        return ('cold',), [], []
    if kind == 'note':
        x, _ = simple(sx, name)
        return ('note', 'FootNote', 1, [par(x)]), [], []
    raise ValueError(kind)


def text(sx, p):
    """what is in paragraphs is shown, in its order"""
    kinds = p['first'] + [sx.choice('kind %d' % i, ITEMS)
                          for i in range(2, p['n'])]
    lines = [[], []]
    want = []
    texts = []
    cut = sx.choice('cut', list(range(1, p['n'] + 1)))
    for i, k in enumerate(kinds):
        x, w, t = make(sx, 'i%d' % i, k)
        lines[i >= cut].append(x)
        want += w
        texts += t
    last, w2 = simple(sx)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(), [body.section(0, [[
        {'items': lines if cut < p['n'] else lines[:1]}, par(last)]])])
    ps = page.all('p', page.body)
    sx.check(len(ps) == 2, 'paragraphs')
    is_text(sx, ps[0].string(), want, 'text')
    is_text(sx, ps[1].string(), w2, 'last text')
    spans = text_spans(page, ps[0])
    sx.check(len(spans) == len(texts), 'texts')
    for s, t in zip(spans, texts):
        is_text(sx, s.string(), t, 'a text')
    sx.cover('ok')


def para(sx, p):
    """a paragraph looks as its shape says, whatever its style"""
    shapes = []
    for i in (0, 1):
        d = dict((k, number(sx, '%s %d' % (k, i)))
                 for k in ('top', 'right', 'bottom', 'left'))
        d['indent'] = number(sx, 'indent %d' % i, -1000000, 1000000)
        d['spacing'] = number(sx, 'spacing %d' % i, 1, 1000)
        d['type'] = sx.choice('type %d' % i, ['ratio', 'fixed', 'spaceonly'])
        d['align'] = [p['align'], sx.choice('align', ['both', 'right'])][i]
        shapes.append(d)
    which = sx.choice('shape', [0, 1])
    of = sx.choice('of style', [0, 1])
    x, w = simple(sx)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(
        parashapes=[xdoc.parashape(
            align=d['align'], indent=d['indent'],
            linespacing=d['spacing'], linespacing_type=d['type'],
            **dict(('doubled_margin_' + s, d[s]) for s in css.SIDES))
            for d in shapes],
        styles=[xdoc.style('Body', 'B', of, 0)]),
        [body.section(0, [[par(x, para=which)]])])
    d = shapes[which]
    e, = page.all('p', page.body)
    s = page.style(e)
    for side in css.SIDES:
        is_len(sx, s, 'margin-' + side, Num.of(d[side]) / 200, 'paragraph')
    is_len(sx, s, 'text-indent', Num.of(d['indent']) / 200, 'paragraph')
    left = css.length(s['padding-left'])
    if d['indent'] < 0:
        fine = css.close(left, Num.of(-d['indent']) / 200)
        kept = False
    else:
        fine = css.close(left, 0)
        kept = css.close(left, Num.of(-shapes[of]['indent']) / 200)
    sx.check(sx.Or(fine, kept), 'paragraph padding-left')
    is_word(sx, s, 'text-align', ALIGNS[d['align']], 'paragraph')
    t = page.style(page.all('span', e)[0])
    if d['type'] == 'ratio':
        n, u = css.quantity(t['line-height'])
        sx.check(u == '', 'unit of line-height')
        sx.check(css.close(n, Num.of(d['spacing']) / 100), 'line-height')
    else:
        is_word(sx, t, 'line-height', 'normal', 'text')
    sx.cover('ok')
    sx.check(fine, 'outdent of the style kept')


def styles(sx, p):
    """of several styles, each gives the shapes which it has"""
    n = 3
    margins = [number(sx, 'margin %d' % i) for i in range(n)]
    colors = [color(sx, 'c%d' % i) for i in range(n)]
    of = [(sx.choice('para %d' % i, list(range(n))), (i + 1) % n)
          for i in range(n)]
    name = sx.choice('name', ['Title', 'Body Text', 'Outline 1'])
    which = p['style']
    mine = sx.choice('own', [None, 0, 1, 2])
    pid, cid = (mine, mine) if mine is not None else of[which]
    x, w = simple(sx, shape=cid)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(
        parashapes=[xdoc.parashape(doubled_margin_top=m) for m in margins],
        charshapes=[xdoc.charshape(text_color=c) for c in colors],
        styles=[xdoc.style([name, 'Other', 'Third One'][i], 'L%d' % i,
                           *of[i]) for i in range(n)]),
        [body.section(0, [[par(x, style=which, para=pid)]])])
    e, = page.all('p', page.body)
    is_len(sx, page.style(e), 'margin-top', Num.of(margins[pid]) / 200,
           'paragraph')
    is_text(sx, page.style(page.all('span', e)[0])['color'], colors[cid],
            'color')
    sx.cover('ok')


# characters ---------------------------------------------------------------

def chardoc(sx, shapes, which, lang='ko', faces=None, own=False):
    """the style in force of a text"""
    x, w = simple(sx, shape=which, lang=lang)
    y, v = simple(sx, 'o', shape=1 - which, lang=lang)
    a, b = [x, y] if sx.choice('order', [0, 1]) else [y, x]
    inner = ('field', '%hlk', [a]) if own else a
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(
        faces=faces, charshapes=shapes,
        styles=[xdoc.style('Body', 'B', 0, 0),
                xdoc.style('More', 'M', 0, 1)]),
        [body.section(0, [[par(inner, b, style=sx.choice(
            'style', [0, 1]))]])])
    e, = page.all('p', page.body)
    spans = text_spans(page, e)
    sx.check(len(spans) == 2, 'texts')
    s = spans[0 if a is x else 1]
    is_text(sx, s.string(), w, 'text')
    return page.style(s)


def char(sx, p):
    """colors, weights, slants"""
    flags = [dict((k, sx.int('%s %d' % (k, i), 0, 1))
                  for k in ('bold', 'italic')) for i in (0, 1)]
    colors = [color(sx, 'c%d' % i) for i in (0, 1)]
    which = sx.choice('shape', [0, 1])
    s = chardoc(sx, [xdoc.charshape(text_color=c, **f)
                     for c, f in zip(colors, flags)], which, own=p['own'])
    f = flags[which]
    is_word(sx, s, 'font-weight', 'bold' if f['bold'] == 1 else 'normal',
            'text')
    is_word(sx, s, 'font-style', 'italic' if f['italic'] == 1 else 'normal',
            'text')
    is_text(sx, s['color'], colors[which], 'color')
    sx.cover('ok')


def line(sx, p):
    """lines under, over and through texts"""
    which = sx.choice('shape', [0, 1])
    kind = sx.choice('kind', sorted(LINES)) if p['underline'] != 'none' \
        else 'solid'
    other = sx.choice('other', ['none', 'underline', 'line_through'])
    c = color(sx, 'c')
    shapes = [xdoc.charshape(underline=other, underline_style='dotted',
                             underline_color='#123456')] * 2
    shapes = [xdoc.charshape(underline=p['underline'], underline_style=kind,
                             underline_color=c) if i == which else x
              for i, x in enumerate(shapes)]
    s = chardoc(sx, shapes, which, own=p['own'])
    is_word(sx, s, 'text-decoration-line',
            p['underline'].replace('_', '-'), 'text')
    if p['underline'] != 'none':
        is_word(sx, s, 'text-decoration-style', LINES[kind], 'text')
        is_text(sx, s['text-decoration-color'], c, 'color of a line')
    sx.cover('ok')


def fonts(sx, p):
    """fonts and sizes, by language"""
    lang = xdoc.LANGS[p['lang']]
    faces = {}
    names = {}
    for k in xdoc.LANGS:
        n = sx.choice('fonts ' + k, [1, 2])
        names[k] = [word(sx, '%s %d ' % (k, i), 1) for i in range(n)]
        faces[k] = [xdoc.face(x) for x in names[k]]
    which = sx.choice('face', list(range(len(names[lang]))))
    size = number(sx, 'size', 100, 400000)
    rel = number(sx, 'rel', 10, 250)
    shapes = [xdoc.charshape(), xdoc.charshape(
        {lang: which}, {lang: rel}, basesize=size)]
    x, w = simple(sx, shape=1, lang=lang)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(
        faces=faces, charshapes=shapes, styles=[xdoc.style(
            'Body', 'B', 0, sx.choice('style', [0, 1]))]),
        [body.section(0, [[par(x)]])])
    s = page.style(page.all('span', page.body)[0])
    first = css.split(s['font-family'], ',')[0]
    is_text(sx, first, chars('"') + names[lang][which] + chars('"'), 'font')
    is_len(sx, s, 'font-size', Num.of(size) * rel / 10000, 'text')
    sx.cover('ok')


# borders and fills --------------------------------------------------------

def tabledoc(sx, infos, cells, **table):
    body = xdoc.Body()
    t = dict({'rows': cells}, **table)
    return page_of(sx, infos, [body.section(0, [[par(('table', t))]])])


def borders(sx, p):
    """borders of tables and of their cells"""
    sides = {}
    for s in css.SIDES + ['diagonal']:
        if s == p['side']:
            sides[s] = (sx.choice('stroke', sorted(STROKES)), '0.4mm',
                        color(sx, 'color'))
        elif p['side'] is None and s == 'left':
            sides[s] = ('solid', sx.choice('width', WIDTHS), '#010203')
        else:
            sides[s] = (('dotted', '0.5mm', '#070809') if s == 'top'
                        else ('double', '1.0mm', '#0a0b0c'))
    plain = dict((s, ('solid', '0.12mm', '#000000')) for s in sides)
    at = sx.choice('at', [1, 2])
    fills = [xdoc.borderfill(sides if at == 1 else plain),
             xdoc.borderfill(sides if at == 2 else plain)]
    x, w = simple(sx)
    other = 3 - at
    of = sx.choice('of', ['table', 'cell'])
    page = tabledoc(sx, xdoc.docinfo(borderfills=fills), [[{
        'paragraphs': [par(x)],
        'attrs': {'borderfill-id': at if of == 'cell' else other}}]],
        borderfill=at if of == 'table' else other)
    e = page.all('td' if of == 'cell' else 'table', page.body)[0]
    st = page.style(e)
    for s in css.SIDES:
        stroke, width, c = sides[s]
        if 'border-' + s not in st:
            sx.check(False, 'no border at the ' + s)
        v = css.words(st['border-' + s])
        sx.check(len(v) == 3, 'border')
        sx.check(concrete_text(v[1]) in STROKES[stroke], 'stroke at the ' + s)
        if stroke != 'none':
            want = Fraction(width[:-2]) * MM
            got = css.length(v[0])
            sx.check(css.close(got, want, Fraction(1, 2)),
                     'width at the ' + s)
            sx.check(got.compare(0, '>'), 'width of nothing')
            is_text(sx, v[2], chars(c) if isinstance(c, str) else c,
                    'color at the ' + s)
    sx.cover('ok')


def fills(sx, p):
    """backgrounds of cells"""
    c1, c2 = color(sx, 'a'), color(sx, 'b')
    kind = p['fill']
    datas = [xdoc.bindata('BIN000%d' % i, e)
             for i, e in ((1, 'png'), (2, 'jpg'))]
    n = sx.choice('image', [1, 2])
    more = []
    if kind in ('color', 'pattern'):
        pat = 'none' if kind == 'color' else sx.choice(
            'pattern', ['horizontal', 'vertical', 'backslash', 'slash',
                        'grid', 'cross'])
        more = [xdoc.E('FillColorPattern', [
            ('attribute-name', 'fill_colorpattern'),
            ('background-color', c1), ('pattern-color', c2),
            ('pattern-type', pat), ('pattern-type-flags', '0')])]
    elif kind == 'gradation':
        angle = sx.int('angle', 0, 359)
        more = [xdoc.E('FillGradation', [
            ('attribute-name', 'fill_gradation'), ('blur', 40),
            ('gradation-type', 'linear'), ('shear', angle),
            ('type', '01')], xdoc.E('Coord32', [
                ('attribute-name', 'center'), ('x', 0), ('y', 0)]),
            xdoc.E('colors', [('alpha', 0), ('hex', c1)]),
            xdoc.E('colors', [('alpha', 0), ('hex', c2)]))]
    elif kind == 'image':
        more = [xdoc.E('FillImage', [
            ('attribute-name', 'fill_image'), ('bindata-id', n),
            ('brightness', 0), ('contrast', 0), ('effect', 0),
            ('fillimage-type', 'resize'), ('flags', '05')])]
    at = sx.choice('at', [1, 2])
    other = xdoc.borderfill({}, [xdoc.E('FillColorPattern', [
        ('attribute-name', 'fill_colorpattern'),
        ('background-color', '#abcdef'), ('pattern-color', '#000000'),
        ('pattern-type', 'none'), ('pattern-type-flags', '0')])])
    mine = xdoc.borderfill({}, more)
    x, w = simple(sx)
    page = tabledoc(sx, xdoc.docinfo(
        borderfills=[mine, other] if at == 1 else [other, mine],
        bindatas=datas), [[{'paragraphs': [par(x)],
                            'attrs': {'borderfill-id': at}}]],
        borderfill=3 - at)
    st = page.style(page.all('td', page.body)[0])
    bg = st.get('background-color', chars('transparent'))
    img = st.get('background-image', chars('none'))
    if kind in ('color', 'pattern'):
        is_text(sx, bg, c1, 'background')
    else:
        is_text(sx, bg, chars('transparent'), 'background')
    if kind in ('none', 'color'):
        is_text(sx, img, chars('none'), 'image')
    elif kind == 'pattern':
        sx.check(concrete_text(img).startswith('url('), 'pattern')
    elif kind == 'image':
        is_text(sx, img, chars('url(bindata/BIN000%d.%s)' % (
            n, ['png', 'jpg'][n - 1])), 'image')
    else:
        seen = []
        for sel, d in page.rules:
            if css.matches(sel, page.chain(page.all('td', page.body)[0])):
                seen += [v for k, v in d if k == 'background-image']
        sx.check(seen, 'gradient')
        for v in seen:
            i = v.index(ord('('))
            sx.check(concrete_text(v[:i]) in (
                'linear-gradient', '-webkit-linear-gradient',
                '-moz-linear-gradient'), 'gradient')
            a = css.split(v[i + 1:-1], ',')
            sx.check(len(a) == 3, 'gradient')
            k, u = css.quantity(a[0])
            sx.check(u == 'deg', 'angle')
            sx.check(css.close(k, Num.of(angle)), 'angle')
            is_text(sx, a[1], c1, 'first color')
            is_text(sx, a[2], c2, 'second color')
    sx.cover('ok')


# tables -------------------------------------------------------------------

def tables(sx, p):
    """rows, cells, their sizes and texts"""
    rows = []
    want = []
    for r in range(sx.choice('rows', [1, 2])):
        row = []
        for c in range(sx.choice('cells %d' % r, [0, 1, 2])):
            k = '%d.%d ' % (r, c)
            a = dict((x, number(sx, k + x)) for x in (
                'width', 'height', 'padding-top', 'padding-right',
                'padding-bottom', 'padding-left'))
            a['colspan'] = number(sx, k + 'colspan', 1, 99)
            a['rowspan'] = number(sx, k + 'rowspan', 1, 99)
            ps = []
            texts = []
            for i in range(1 + (r == 0 and c == 0)):
                x, w = simple(sx, k + 'p%d ' % i)
                ps.append(par(x))
                texts.append(w)
            row.append({'paragraphs': ps, 'attrs': a})
            want.append((r, a, texts))
        rows.append(row)
    n = len(rows)
    width = number(sx, 'width')
    before, w1 = simple(sx, 'before')
    after, w2 = simple(sx, 'after')
    body = xdoc.Body()
    where = sx.choice('where', ['page', 'cell'])
    t = ('table', {'rows': rows, 'attrs': {'inline': p['inline'],
                                           'width': width},
                   'cellspacing': 7})
    if where == 'cell':
        outer = par(('table', {'rows': [[{'paragraphs': [par(t)]}]]}))
    else:
        outer = par(before, t, after)
    page = page_of(sx, xdoc.docinfo(borderfills=[xdoc.borderfill()]),
                   [body.section(0, [[outer]])])
    ts = page.all('table', page.body)
    sx.check(len(ts) == (2 if where == 'cell' else 1), 'tables')
    e = ts[-1]
    is_len(sx, page.style(e), 'width', mm(width), 'table')
    trs = [x for x in page.all('tr', e)]
    sx.check(len(trs) == n, 'rows')
    i = 0
    for r, tr in enumerate(trs):
        tds = [x for x in tr.children if x.name == XH + 'td']
        sx.check(len(tds) == len(rows[r]), 'cells')
        for td in tds:
            _, a, texts = want[i]
            i += 1
            st = page.style(td)
            for k in ('width', 'height') + tuple(
                    'padding-' + s for s in css.SIDES):
                is_len(sx, st, k, mm(a[k]), 'cell')
            for k in ('colspan', 'rowspan'):
                is_text(sx, td.attr(k) or chars('1'), [Num.of(a[k])], k)
            ps = page.all('p', td)
            sx.check(len(ps) == len(texts), 'paragraphs of a cell')
            for x, w in zip(ps, texts):
                is_text(sx, x.string(), w, 'text of a cell')
    if where == 'page' and p['inline']:
        inner = []
        for _, _, texts in want:
            for w in texts:
                inner = inner + w
        is_text(sx, page.body.string(), w1 + inner + w2, 'place of a table')
    elif where == 'page':
        inner = []
        for _, _, texts in want:
            for w in texts:
                inner = inner + w
        is_text(sx, page.body.string(), w1 + w2 + inner, 'place of a table')
    sx.cover('ok')


def caption(sx, p):
    """captions of tables"""
    x, w = simple(sx)
    y, v = simple(sx, 'c')
    z, u = simple(sx, 'd')
    pos = sx.choice('position', ['top', 'bottom', 'left', 'right'])
    width = number(sx, 'width')
    sep = number(sx, 'sep')
    page = tabledoc(
        sx, xdoc.docinfo(borderfills=[xdoc.borderfill()]),
        [[{'paragraphs': [par(x)]}]], attrs={'inline': p['inline']},
        caption={'position': pos, 'separation': sep, 'width': width,
                 'paragraphs': [par(y), par(z)]})
    e, = page.all('caption', page.body)
    sx.check(e.parent.name == XH + 'table', 'caption of a table')
    ps = page.all('p', e)
    sx.check(len(ps) == 2, 'paragraphs of a caption')
    is_text(sx, ps[0].string(), v, 'caption')
    is_text(sx, ps[1].string(), u, 'caption')
    st = page.style(e)
    if pos in ('top', 'bottom'):
        is_word(sx, st, 'caption-side', pos, 'caption')
        is_len(sx, st, 'margin-' + ('bottom' if pos == 'top' else 'top'),
               mm(sep), 'caption')
        is_len(sx, st, 'width', mm(width), 'caption')
    is_text(sx, page.all('td', page.body)[0].string(), w, 'text of a cell')
    sx.cover('ok')


# pages --------------------------------------------------------------------

OFFSETS = ['top-offset', 'right-offset', 'bottom-offset', 'left-offset']


def sections(sx, p):
    """sizes and margins of the pages of sections, and what is on them"""
    defs = []
    secs = []
    body = xdoc.Body()
    n = sx.choice('sections', [1, 2])
    for s in range(n):
        d = dict((k, number(sx, '%s %d' % (k, s))) for k in OFFSETS + [
            'width', 'height', 'header-offset', 'footer-offset'])
        d['orientation'] = sx.choice('orientation %d' % s,
                                     ['portrait', 'landscape'])
        cols = []
        texts = []
        for c in range(sx.choice('columns %d' % s, [1, 2])):
            x, w = simple(sx, 's%dc%d' % (s, c))
            cols.append([par(x)])
            texts.append(w)
        secs.append(body.section(s, cols, d))
        defs.append((d, texts))
    page = page_of(sx, xdoc.docinfo(), secs)
    es = page.by_class('Section', page.body)
    sx.check(len(es) == n, 'sections')
    for e, (d, texts) in zip(es, defs):
        w = d['width'] if d['orientation'] == 'portrait' else d['height']
        is_len(sx, page.style(e), 'width', mm(w), 'page')
        h, = page.by_class('HeaderPageFooter', e)
        st = page.style(h)
        for k, side in zip(OFFSETS, css.SIDES):
            is_len(sx, st, 'margin-' + side, mm(d[k]), 'page')
        g, = page.by_class('Page', e)
        st = page.style(g)
        is_len(sx, st, 'padding-top', mm(d['header-offset']), 'page')
        is_len(sx, st, 'padding-bottom', mm(d['footer-offset']), 'page')
        ps = page.all('p', g)
        sx.check(len(ps) == len(texts), 'paragraphs of a section')
        for x, t in zip(ps, texts):
            is_text(sx, x.string(), t, 'text of a section')
    sx.cover('ok')


def headers(sx, p):
    """headers and footers of a section"""
    items = []
    want = {}
    for k in ('Header', 'Footer'):
        if sx.choice(k, [0, 1]):
            a, v = simple(sx, k + '0')
            b, w = simple(sx, k + '1')
            size = (number(sx, k + 'w'), number(sx, k + 'h'))
            items.append(('header', k, [par(a), par(b)]) + size)
            want[k] = ([v, w], size)
    x, w = simple(sx)
    items.append(x)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(), [body.section(0, [[par(*items)]])])
    for k, c in (('Header', 'HeaderArea'), ('Footer', 'FooterArea')):
        es = page.by_class(c, page.body)
        sx.check(len(es) == (k in want), k)
        if k in want:
            texts, size = want[k]
            ps = page.all('p', es[0])
            sx.check(len(ps) == 2, 'paragraphs of a ' + k)
            for e, t in zip(ps, texts):
                is_text(sx, e.string(), t, 'text of a ' + k)
            st = page.style(es[0])
            is_len(sx, st, 'width', mm(size[0]), k)
            is_len(sx, st, 'height', mm(size[1]), k)
    g, = page.by_class('Page', page.body)
    is_text(sx, g.string(), w, 'text of the page')
    sx.cover('ok')


# things -------------------------------------------------------------------

def images(sx, p):
    """images: which, and how big"""
    datas = [xdoc.bindata('BIN000%d' % i, e)
             for i, e in ((1, 'png'), (3, 'jpg'), (10, 'bmp'))]
    names = ['BIN0001.png', 'BIN0003.jpg', 'BIN00010.bmp']
    n = sx.choice('image', [1, 2, 3])
    size = (number(sx, 'w'), number(sx, 'h'))
    shape = {'chid': '$pic', 'bindata': n, 'size': size}
    if sx.choice('group', [0, 1]):
        shape = {'chid': '$con', 'shapes': [
            {'chid': '$pic', 'bindata': 1 + n % 3}, shape]}
    x, w = simple(sx)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(bindatas=datas), [body.section(0, [[
        par(('gso', {'shapes': [shape], 'attrs': {
            'inline': p['inline']}}), x)]])])
    imgs = page.all('img', page.body)
    sx.check(len(imgs) == (2 if shape['chid'] == '$con' else 1), 'images')
    e = imgs[-1]
    is_text(sx, e.attr('src'), chars('bindata/' + names[n - 1]), 'image')
    st = page.style(e)
    is_len(sx, st, 'width', mm(size[0]), 'image')
    is_len(sx, st, 'height', mm(size[1]), 'image')
    is_text(sx, page.body.string(), w, 'text')
    sx.cover('ok')


def bullets(sx, p):
    """bullets of paragraphs which have them"""
    marks = [[sx.int('mark %d' % i, 0x2000, 0xd7ff)] for i in (0, 1)]
    kinds = [sx.choice('head %d' % i, ['none', 'outline', 'number',
                                       'bullet']) for i in (0, 1)]
    ids = [sx.choice('bullet %d' % i, [0, 1, 2]) for i in (0, 1)]
    which = sx.choice('shape', [0, 1])
    x, w = simple(sx)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(
        bullets=[xdoc.bullet(m) for m in marks],
        parashapes=[xdoc.parashape(head_shape=k, numbering_bullet_id=i)
                    for k, i in zip(kinds, ids)],
        styles=[xdoc.style('Body', 'B', 0, 0)]),
        [body.section(0, [[par(x, para=which)]])])
    e, = page.all('p', page.body)
    st = css.cascade(page.rules, page.chain(e), '::before')
    if kinds[which] == 'bullet' and ids[which]:
        if 'content' not in st:
            sx.check(False, 'bullet')
        is_text(sx, st['content'], chars('"') + marks[ids[which] - 1] +
                chars('"'), 'bullet')
    else:
        sx.check('content' not in st, 'bullet of a paragraph without one')
    sx.cover('ok')


def position(sx, p):
    """how far from the left are tables and drawings"""
    d = dict((k, number(sx, k, 0, 200000)) for k in (
        'width', 'left-offset', 'right-offset'))
    d['orientation'] = sx.choice('orientation', ['portrait', 'landscape']) \
        if False else 'portrait'
    a = dict((k, number(sx, 'o' + k, 0, 200000)) for k in (
        'margin-left', 'margin-right', 'width'))
    a['x'] = number(sx, 'x', -200000, 200000)
    a['hrelto'] = p['hrelto']
    a['halign'] = sx.choice('halign', ['left', 'center', 'right'])
    margins = [(number(sx, 'l%d' % i), number(sx, 'r%d' % i))
               for i in (0, 1)]
    which = sx.choice('shape', [0, 1])
    x, w = simple(sx)
    thing = ('table', {'rows': [[{'paragraphs': [par(x)]}]], 'attrs': a}) \
        if p['what'] == 'table' else \
        ('gso', {'shapes': [{'chid': '$rec'}], 'attrs': a})
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(
        borderfills=[xdoc.borderfill()],
        parashapes=[xdoc.parashape(doubled_margin_left=l,
                                   doubled_margin_right=r)
                    for l, r in margins]),
        [body.section(0, [[par(thing, para=which)]], d)])
    e = page.by_class('TableControl' if p['what'] == 'table'
                      else 'GShapeObjectControl', page.body)[0]
    # where the area begins and ends, from the left margin of the page
    lo = Num.of(0)
    hi = Num.of(d['width']) - d['left-offset'] - d['right-offset']
    if p['hrelto'] == 'paper':
        lo = -Num.of(d['left-offset'])
        hi = lo + d['width']
    elif p['hrelto'] == 'paragraph':
        lo = Num.of(margins[which][0]) / 2
        hi = hi - Num.of(margins[which][1]) / 2
    if a['halign'] == 'left':
        want = lo + a['margin-left'] + a['x']
    elif a['halign'] == 'right':
        want = hi - a['x'] - a['margin-right'] - a['width']
    else:
        want = (lo + hi - a['width']) / 2 + a['x']
    is_len(sx, page.style(e), 'margin-left', want / 100, 'thing')
    is_len(sx, page.style(e), 'width', mm(a['width']), 'thing')
    sx.cover('ok')


def title(sx, p):
    """the title of a document"""
    t = sx.choice('title', [None, '', 'some'])
    want = xdoc.symtext(sx, 't', 2) if t == 'some' else []
    x, w = simple(sx)
    body = xdoc.Body()
    page = page_of(sx, xdoc.docinfo(), [body.section(0, [[par(x)]])],
                   None if t is None else want)
    e, = page.all('title')
    sx.check(sx.Or(items_eq(e.string(), want), e.string() == []), 'title')
    sx.cover('ok')
    is_text(sx, e.string(), want, 'title of the summary left out')
