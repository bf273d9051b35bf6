# -*- coding: utf-8 -*-
"""Documents as the XML conversion gives them, for the stylesheets: small
ones, whose texts, ids and numbers may be symbolic.

A paragraph is described by a dict: items (a list of lines, each a list of
items), style, para, new_page, new_section. An item is one of
    ('text', code points, charshape, lang)
    ('char', name)                          a control character
    ('field', chid, [items])
    ('auto', kind, number, prefix, suffix)
    ('note', 'FootNote' or 'EndNote', number, [paragraphs])
    ('header', 'Header' or 'Footer', [paragraphs], width, height)
    ('table', dict: inline, rows, caption, attrs ...)
    ('gso', dict: inline, shapes ...)
"""
from sx.xslt import E, document

CHARS = {'TAB': (9, 'INLINE'), 'LINE_BREAK': (10, 'CHAR'),
         'PARAGRAPH_BREAK': (13, 'CHAR'), 'HYPHEN': (24, 'CHAR'),
         'NONBREAK_SPACE': (30, 'CHAR')}
FIELDS = {'%hlk': 'FieldHyperLink', '%clk': 'FieldClickHere',
          '%unk': 'FieldUnknown', '%dte': 'FieldDate',
          '%bmk': 'FieldBookmark', '%fmu': 'FieldFormula'}
LANGS = ['ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user']


def merged(base, more):
    d = dict(base)
    d.update((k.replace('_', '-'), v) for k, v in more.items())
    return sorted(d.items())


# things of DocInfo ---------------------------------------------------------

def face(name, panose=None, **kw):
    kids = []
    if panose:
        names = ['family-type', 'serif-style', 'weight', 'proportion',
                 'contrast', 'stroke-variation', 'arm-style', 'letterform',
                 'midline', 'x-height']
        kids.append(E('Panose1', [('attribute-name', 'panose1')] + [
            (n, panose.get(n, 0)) for n in names]))
    return E('FaceName', merged({'name': name, 'flags': '61',
                                 'default': 1, 'metric': 1,
                                 'alternate': 0,
                                 'font-file-type': 'ttf'}, kw), *kids)


def charshape(faces=None, sizes=None, **kw):
    base = {'basesize': 1000, 'bold': 0, 'italic': 0, 'outline': 0,
            'shadow': 0, 'charshapeflags': '00000000',
            'shade-color': '#ffffff', 'shadow-color': '#b2b2b2',
            'text-color': '#000000', 'underline': 'none',
            'underline-color': '#000000', 'underline-style': 'solid'}
    kids = [E('FontFace', [('attribute-name', 'font_face')] +
              [(k, (faces or {}).get(k, 0)) for k in LANGS])]
    for n, v in (('LetterWidthExpansion', 100), ('LetterSpacing', 0)):
        kids.append(E(n, [(k, v) for k in LANGS]))
    kids.append(E('RelativeSize', [('attribute-name', 'relative_size')] +
                  [(k, (sizes or {}).get(k, 100)) for k in LANGS]))
    kids.append(E('Position', [(k, 0) for k in LANGS]))
    kids.append(E('ShadowSpace', {'x': 10, 'y': 10}))
    return E('CharShape', merged(base, kw), *kids)


def parashape(**kw):
    base = {'align': 'both', 'indent': 0, 'linespacing': 160,
            'linespacing-type': 'ratio', 'doubled-margin-left': 0,
            'doubled-margin-right': 0, 'doubled-margin-top': 0,
            'doubled-margin-bottom': 0, 'numbering-bullet-id': 0,
            'head-shape': 'none', 'level': 0, 'tabdef-id': 0,
            'borderfill-id': 0, 'parashapeflags': '00000080',
            'valign': 'font', 'start-new-page': 0}
    return E('ParaShape', merged(base, kw))


def style(name, local, para, char, kind='paragraph', **kw):
    base = {'name': name, 'local-name': local, 'parashape-id': para,
            'charshape-id': char, 'kind': kind, 'flags': '00',
            'lang-id': 1042, 'next-style-id': 0, 'unknown': 0}
    return E('Style', merged(base, kw))


SIDES = ['left', 'right', 'top', 'bottom', 'diagonal']


def border(side, stroke='solid', width='0.12mm', color='#000000'):
    return E('Border', [('attribute-name', side), ('color', color),
                        ('stroke-flags', '01'), ('stroke-type', stroke),
                        ('width', width), ('width-flags', '01')])


def borderfill(borders=None, fills=()):
    """borders: {side: (stroke, width, color)}"""
    kids = [border(s, *(borders or {}).get(s, ())) for s in SIDES]
    return E('BorderFill', {'backslash': 0, 'borderflags': '0000',
                            'fillflags': '00000000'},
             *(kids + list(fills)))


def bullet(char, **kw):
    return E('Bullet', merged({'align': 'left', 'auto-indent': 1,
                               'char': char, 'charshape-id': -1,
                               'flags': '00000008', 'space': 50,
                               'width': 0}, kw))


def bindata(storage_id, ext):
    return E('BinData', {'access': 'never',
                         'compression': 'storage_default',
                         'flags': '0001', 'storage': 'embedding'},
             E('BinDataEmbedding', [('attribute-name', 'bindata'),
                                    ('ext', ext),
                                    ('storage-id', storage_id)]))


def docinfo(faces=None, charshapes=None, parashapes=None, styles=None,
            borderfills=None, bullets=None, bindatas=None, counts=None):
    """faces: {lang: [face...]}"""
    faces = faces or dict((k, [face('F' + k)]) for k in LANGS)
    attrs = [(k + '-fonts', len(faces[k])) for k in LANGS]
    charshapes = charshapes or [charshape()]
    parashapes = parashapes or [parashape()]
    styles = styles or [style('Normal', 'Normal', 0, 0)]
    kids = list(bindatas or [])
    for k in LANGS:
        kids += faces[k]
    kids += borderfills or []
    kids += charshapes
    kids.append(E('TabDef', {'flags': '00000000'}, E('Array', {
        'name': 'tabs'})))
    kids += bullets or []
    kids += parashapes
    kids += styles
    attrs += [('bindata', len(bindatas or [])),
              ('borderfills', len(borderfills or [])),
              ('charshapes', len(charshapes)),
              ('parashapes', len(parashapes)), ('styles', len(styles)),
              ('bullets', len(bullets or []))]
    return E('DocInfo', {}, E('DocumentProperties', {
        'section-count': 1}), E('IdMappings', attrs, *kids))


# things of BodyText --------------------------------------------------------

class Body(object):
    """numbers paragraphs, tables and shapes, as they come"""

    def __init__(self):
        self.paragraphs = 0
        self.tables = 0
        self.gshapes = 0
        self.shapes = 0

    def number(self, name):
        n = getattr(self, name)
        setattr(self, name, n + 1)
        return n

    def paragraph(self, p):
        p['id'] = self.number('paragraphs')
        lines = []
        for i, line in enumerate(p['items']):
            lines.append(E('LineSeg', {
                'bullet': 0, 'chpos': 0, 'height': 1000, 'width': 0,
                'x': 0, 'y': 0, 'space-below': 600,
                'lineseg-flags': '00060000'},
                *[self.item(x) for x in line]))
        return E('Paragraph', {
            'chars': 9, 'charshapes': 1, 'control': 0, 'new-column': 0,
            'new-columnsdef': 0, 'new-number': 0,
            'new-page': p.get('new_page', 0),
            'new-section': p.get('new_section', 0),
            'paragraph-id': p['id'], 'parashape-id': p.get('para', 0),
            'style-id': p.get('style', 0), 'split': '00',
            'linesegs': len(lines), 'unknown': 0}, *lines)

    def paragraphs_of(self, ps):
        return [self.paragraph(p) for p in ps]

    def item(self, x):
        kind = x[0]
        if kind == 'text':
            return E('Text', [('charshape-id', x[2]), ('lang', x[3])],
                     x[1])
        if kind == 'char':
            code, k = CHARS[x[1]]
            return E('ControlChar', [('char', chr(code) if code in (9, 10, 13)
                                      else ''),
                                     ('charshape-id', 0), ('code', code),
                                     ('kind', k), ('name', x[1])])
        if kind == 'field':
            return E(FIELDS[x[1]], {'chid': x[1], 'command': ''},
                     *[self.item(y) for y in x[2]])
        if kind == 'auto':
            return E('AutoNumbering', {
                'chid': 'atno', 'kind': x[1], 'number': x[2],
                'prefix': x[3], 'suffix': x[4], 'superscript': 0,
                'usersymbol': '', 'footnoteshape': 0})
        if kind == 'note':
            return E(x[1], {'chid': {'FootNote': 'fn  ',
                                     'EndNote': 'en  '}[x[1]],
                            'number': x[2]},
                     E('ListHeader', {'paragraphs': len(x[3]),
                                      'valign': 'top'},
                       *self.paragraphs_of(x[3])))
        if kind == 'header':
            return E(x[1], {'chid': {'Header': 'head',
                                     'Footer': 'foot'}[x[1]],
                            'places': 'both_pages'},
                     E(x[1] + 'ParagraphList', {
                         'paragraphs': len(x[2]), 'width': x[3],
                         'height': x[4]}, *self.paragraphs_of(x[2])))
        if kind == 'cold':
            return E('ColumnsDef', {'chid': 'cold', 'count': 1},
                     border('splitter'))
        if kind == 'bookmark':
            return E('BookmarkControl', {'chid': 'bokm'})
        if kind == 'table':
            return self.table(x[1])
        if kind == 'gso':
            return self.gso(x[1])
        raise ValueError(kind)

    COMMON = {'affect-line-spacing': 0, 'description': '',
              'flags': '282A2210', 'flow': 'block', 'halign': 'left',
              'height': 1282, 'height-relto': 'absolute',
              'hrelto': 'column', 'inline': 0, 'instance-id': 17,
              'margin-bottom': 0, 'margin-left': 0, 'margin-right': 0,
              'margin-top': 0, 'number-category': 'table',
              'overlap-others': 0, 'restrict-in-page': 1,
              'text-side': 'both', 'valign': 'top', 'vrelto': 'paragraph',
              'width': 20976, 'width-relto': 'absolute', 'x': 0, 'y': 0,
              'z-order': 0}

    def table(self, t):
        t['id'] = self.number('tables')
        kids = []
        cap = t.get('caption')
        if cap:
            kids.append(E('TableCaption', {
                'position': cap['position'],
                'separation': cap.get('separation', 850),
                'width': cap.get('width', 8504), 'max-width': 20976,
                'paragraphs': len(cap['paragraphs'])},
                *self.paragraphs_of(cap['paragraphs'])))
        rows = []
        for r, row in enumerate(t['rows']):
            cells = []
            for c, cell in enumerate(row):
                cells.append(E('TableCell', merged({
                    'borderfill-id': 1, 'col': c, 'row': r, 'colspan': 1,
                    'rowspan': 1, 'width': 20976, 'height': 282,
                    'padding-left': 141, 'padding-right': 142,
                    'padding-top': 143, 'padding-bottom': 144,
                    'valign': 'middle'}, cell.get('attrs', {})),
                    *self.paragraphs_of(cell['paragraphs'])))
            rows.append(E('TableRow', {}, *cells))
        kids.append(E('TableBody', {
            'borderfill-id': t.get('borderfill', 1),
            'cellspacing': t.get('cellspacing', 0),
            'cols': t.get('cols', max([len(r) for r in t['rows']] + [0])),
            'rows': len(rows), 'repeat-header': 1, 'split-page': 'split'},
            E('Array', {'name': 'validZones'}), *rows))
        return E('TableControl', merged(
            dict(self.COMMON, chid='tbl ', **{'table-id': t['id']}),
            t.get('attrs', {})), *kids)

    def gso(self, g):
        kids = []
        cap = g.get('caption')
        if cap:
            kids.append(E('GShapeObjectCaption', {
                'position': cap['position'], 'separation': 850},
                *self.paragraphs_of(cap['paragraphs'])))
        g['id'] = self.number('gshapes')
        kids += [self.shape(s) for s in g['shapes']]
        return E('GShapeObjectControl', merged(
            dict(self.COMMON, chid='gso ', **{'gshape-id': g['id'],
                                              'number-category': 'figure'}),
            g.get('attrs', {})), *kids)

    def matrix(self, name, m=None):
        m = m or ('1.0', '0.0', '0.0', '1.0', '0.0', '0.0')
        return E('Matrix', [('a', m[0]), ('attribute-name', name),
                            ('b', m[1]), ('c', m[2]), ('d', m[3]),
                            ('e', m[4]), ('f', m[5])])

    def shape(self, s):
        s['id'] = self.number('shapes')
        kids = [E('Coord', [('attribute-name', 'rotation_center'),
                            ('x', s.get('cx', 100)),
                            ('y', s.get('cy', 50))]),
                self.matrix('translation'),
                E('Array', {'name': 'scalerotations'}, E(
                    'ScaleRotationMatrix', {}, self.matrix('scaler'),
                    self.matrix('rotator')))]
        chid = s['chid']
        if chid not in ('$con', '$pic'):
            kids.append(E('BorderLine', [
                ('attribute-name', 'border'),
                ('color', s.get('color', '#000000')),
                ('stroke', s.get('stroke', 'solid')),
                ('width', s.get('stroke_width', 33))]))
        kids += s.get('fills', [])
        if chid == '$pic':
            kids.append(E('ShapePicture', {'padding-left': 0},
                          E('BorderLine', [('attribute-name', 'border'),
                                           ('color', '#000000'),
                                           ('stroke', 'none'),
                                           ('width', 0)]),
                          E('PictureInfo', [
                              ('attribute-name', 'picture'),
                              ('bindata-id', s['bindata'])])))
        elif chid == '$rec':
            if 'paragraphs' in s:
                kids.append(E('TextboxParagraphList', {
                    'paragraphs': len(s['paragraphs']), 'maxwidth': 999},
                    *self.paragraphs_of(s['paragraphs'])))
            w, h = s.get('size', (2980, 2855))
            kids.append(E('ShapeRectangle', {'round': 0}, *[
                E('Coord', [('attribute-name', 'p%d' % i), ('x', x),
                            ('y', y)]) for i, (x, y) in enumerate(
                    [(0, 0), (w, 0), (w, h), (0, h)])]))
        elif chid == '$lin':
            kids.append(E('ShapeLine', {'attr': 0}, E(
                'Coord', [('attribute-name', 'p0'), ('x', 0), ('y', 0)]),
                E('Coord', [('attribute-name', 'p1'), ('x', 200),
                            ('y', 100)])))
        elif chid == '$con':
            kids += [self.shape(x) for x in s['shapes']]
        w, h = s.get('size', (2980, 2855))
        return E('ShapeComponent', merged({
            'angle': 0, 'chid': chid, 'width': w, 'height': h,
            'initial-width': s.get('initial', (w, h))[0],
            'initial-height': s.get('initial', (w, h))[1],
            'fill-colorpattern': 0, 'fill-gradation': 0, 'fill-image': 0,
            'flip': 0, 'level-in-group': 0, 'shape-id': s['id'],
            'x-in-group': 0, 'y-in-group': 0}, s.get('attrs', {})), *kids)

    def section(self, n, columns, page=None):
        """columns: lists of paragraphs"""
        attrs = {'attr': '00000000', 'bookbinding': 'left',
                 'bookbinding-offset': 0, 'bottom-offset': 4252,
                 'footer-offset': 4252, 'header-offset': 4252,
                 'height': 84188, 'left-offset': 8504,
                 'orientation': 'portrait', 'right-offset': 8504,
                 'top-offset': 5668, 'width': 59528}
        note = {'flags': '00000000', 'notes-spacing': 283, 'prefix': '',
                'suffix': ')', 'starting-number': 1}
        pbf = {'borderfill-id': 0, 'fill': 'paper', 'margin-left': 1417}
        return E('SectionDef', {'chid': 'secd', 'columnspacing': 1134,
                                'section-id': n, 'flags': '00000000',
                                'text-direction': 0},
                 E('PageDef', merged(attrs, page or {})),
                 E('FootnoteShape', note), E('FootnoteShape', note),
                 E('PageBorderFill', pbf), E('PageBorderFill', pbf),
                 E('PageBorderFill', pbf),
                 *[E('ColumnSet', {}, *self.paragraphs_of(ps))
                   for ps in columns])


def hwpdoc(info, sections, title='', version='5.0.3.4'):
    """title: value of the title in the summary information; None: none"""
    props = []
    if title is not None:
        props.append(E('Property', [('id', 2), ('id-label', 'PIDSI_TITLE'),
                                    ('type', 'VT_LPWSTR'),
                                    ('value', title)]))
    props.append(E('Property', [('id', 3), ('id-label', 'PIDSI_SUBJECT'),
                                ('type', 'VT_LPWSTR'),
                                ('value', 'subject')]))
    return document(E(
        'HwpDoc', {'version': version},
        E('HwpSummaryInfo', {}, E('PropertySetStream', {
            'byte-order': 'fffe'}, E('PropertySet', {'offset': 48},
                                     *props))),
        info, E('BodyText', {}, *sections)))


def symtext(sx, name, n):
    """code points any text may have; no surrogates"""
    return [sx.int('%s%d' % (name, i), 0x20, 0xd7ff) for i in range(n)]


def text(sx, name, n=1, shape=0, lang='ko'):
    return ('text', symtext(sx, name, n), shape, lang)

