# -*- coding: utf-8 -*-
"""Small documents: the records of a section, and the elements they stand
for.  The expected tree is built from the description of the document, never
from the records.

An element is [name, {attribute: value}, [children]].
"""
import io

from . import spec
from .spec import Builder

VERSION = (5, 0, 3, 4)
CODES = {'tbl ': 11, 'gso ': 11, 'secd': 2, 'cold': 2, 'fn  ': 17,
         'en  ': 17, 'atno': 18, 'head': 16, 'foot': 16, 'bokm': 22,
         'pghd': 21, 'tcmt': 15, '%hlk': 3, '%clk': 3}
KIND = dict((k, v[0]) for k, v in spec.CONTROLS.items())


class Doc(object):

    def __init__(self, sx, fresh=''):
        self.sx = sx
        self.records = []
        self.n = 0
        self.fresh = fresh
        self.charshape = 7

    def name(self, s):
        self.n += 1
        return '%s%s%d' % (self.fresh, s, self.n)

    def record(self, level, kind, opts=None, mode='zero'):
        rs = self.sx.mod('hwp5.recordstream')
        tagid, layout = spec.KINDS[kind]
        b = Builder(self.sx, self.name(kind), VERSION, mode,
                    dict(opts or {}))
        content = layout(b)
        self.records.append(rs.Record(tagid, level,
                                      self.sx.from_bytes(b.out)))
        return content

    def paratext(self, level, units):
        rs = self.sx.mod('hwp5.recordstream')
        out = []
        for u in units:
            out.extend([u & 0xff, u >> 8])
        self.records.append(rs.Record(67, level, self.sx.from_bytes(out)))

    # -- paragraphs

    def paragraph(self, level, items, split=0, attrs=None):
        """items: list of
            ('text', [(lang, count)...])
            ('line',)                      starts a new line
            ('break',)                     line break character
            ('control', name, options)     an object
            ('field', name) ... ('fieldend',)
        the element of the paragraph is returned
        """
        sx = self.sx
        units = []
        lines = [[0, []]]
        controls = []
        for it in items:
            kids = lines[-1][1]
            if it[0] == 'text':
                for lang, count in it[1]:
                    cps = []
                    for i in range(count):
                        lo, hi = {'en': (0x41, 0x7e),
                                  'ko': (0xac01, 0xacff),
                                  'cn': (0x4e01, 0x4eff)}[lang]
                        cps.append(sx.int(self.name('ch'), lo, hi))
                    units.extend(cps)
                    kids.append(['Text', {
                        'text': sx.from_codepoints(cps), 'lang': lang,
                        'charshape_id': self.charshape}, []])
            elif it[0] == 'line':
                lines.append([len(units), []])
            elif it[0] == 'break':
                units.append(10)
                kids.append(['ControlChar', {'code': 10, 'char': '\n'}, []])
            elif it[0] == 'fieldend':
                units.extend([4] + [0] * 6 + [4])
                kids.append(['(end)', {}, []])
            else:
                chid = it[1]
                code = CODES[chid]
                c = [ord(x) for x in chid]
                units.extend([code, c[3] | c[2] << 8, c[1] | c[0] << 8, 0, 0,
                              0, 0, code])
                node = [KIND[chid], dict(it[2].get('fields', {}))
                        if it[0] == 'field' and len(it) > 2 else {}, []]
                if it[0] == 'field':
                    kids.append(['(field)', {'node': node}, []])
                else:
                    kids.append(node)
                controls.append((chid, node, it))
        if not units or items[-1] != ('noend',):
            units.append(13)
            lines[-1][1].append(['ControlChar', {'code': 13, 'char': '\r'},
                                 []])
        opts = {'text': len(units), 'charshapes': 1, 'linesegs': len(lines),
                'split': split}
        self.record(level, 'Paragraph', opts)
        self.paratext(level + 1, units)
        rs = sx.mod('hwp5.recordstream')
        self.record(level + 1, 'ParaCharShape',
                    {'n': 1, 'pos': 0, 'id': self.charshape})
        out = []
        for pos, kids in lines:
            b = Builder(sx, 'line', VERSION, 'zero',
                        {'chpos': pos, 'n': 1})
            spec.lineseg(b)
            out.extend(b.out)
        self.records.append(rs.Record(16 + 53, level + 1,
                                      sx.from_bytes(out)))
        for chid, node, it in controls:
            self.control(level + 1, chid, node,
                         it[2] if len(it) > 2 else {})
        return ['Paragraph', dict(attrs or {}), [
            ['LineSeg', {'chpos': pos}, kids]
            for pos, kids in self.fields(lines)], split]

    def fields(self, lines):
        """an open field is repeated in every line it extends to"""
        out = []
        opened = []
        for pos, kids in lines:
            top = []
            stack = [top]
            for name in opened:
                n = [name[0], name[1], []]
                stack[-1].append(n)
                stack.append(n[2])
            for k in kids:
                if k[0] == '(field)':
                    node = k[1]['node']
                    opened.append(node)
                    stack[-1].append(node)
                    stack.append(node[2])
                elif k[0] == '(end)':
                    opened.pop()
                    stack.pop()
                else:
                    stack[-1].append(k)
            out.append((pos, top))
        return out

    # -- controls

    def control(self, level, chid, node, opts):
        name = KIND[chid]
        content = self.record(level, name, opts.get('fields'))
        fn = getattr(self, 'c_' + {
            'tbl ': 'table', 'gso ': 'gshape', 'fn  ': 'note', 'en  ': 'note',
            'head': 'header', 'foot': 'header', 'secd': 'section',
            'tcmt': 'note', }.get(chid, 'leaf'))
        fn(level + 1, node, opts)

    def c_leaf(self, level, node, opts):
        pass

    def paragraphs(self, level, descs):
        return columns([self.paragraph(level, d) if isinstance(d, list)
                        else self.paragraph(level, d[0], d[1])
                        for d in descs])

    def c_note(self, level, node, opts):
        self.record(level, 'ListHeader', {})
        node[2].append(['ListHeader', {},
                        self.paragraphs(level, opts.get('paras', []))])

    def c_header(self, level, node, opts):
        kind = {'Header': 'HeaderParagraphList',
                'Footer': 'FooterParagraphList'}[node[0]]
        self.record(level, kind, {})
        node[2].append([kind, {},
                        self.paragraphs(level, opts.get('paras', []))])

    def c_section(self, level, node, opts):
        self.record(level, 'PageDef', {})
        node[2].append(['PageDef', {}, []])
        for i in range(2):
            self.record(level, 'FootnoteShape', {})
            node[2].append(['FootnoteShape', {}, []])

    def c_gshape(self, level, node, opts):
        if 'caption' in opts:
            self.record(level, 'GShapeObjectCaption', {})
            node[2].append(['GShapeObjectCaption', {},
                            self.paragraphs(level, opts['caption'])])
        self.record(level, 'ShapeComponent',
                    {'under_gso': 1, 'chid0': '$rec', 'chid': '$rec',
                     'nsr': 0, 'fill_flags': 0})
        sc = ['ShapeComponent', {}, []]
        node[2].append(sc)
        if 'paras' in opts:
            self.record(level + 1, 'TextboxParagraphList', {})
            sc[2].append(['TextboxParagraphList', {},
                          self.paragraphs(level + 1, opts['paras'])])
        self.record(level + 1, 'ShapeRectangle', {})
        sc[2].append(['ShapeRectangle', {}, []])

    def c_table(self, level, node, opts):
        """rows: list of lists of cells; a cell is a list of paragraphs"""
        if 'caption' in opts:
            self.record(level, 'TableCaption', {})
            node[2].append(['TableCaption', {},
                            self.paragraphs(level, opts['caption'])])
        rows = opts['rows']
        rs = self.sx.mod('hwp5.recordstream')
        b = Builder(self.sx, 'tb', VERSION, 'zero', {})
        b.u32('flags')
        out = list(b.out)
        out += [len(rows), 0, max([len(r) for r in rows] + [0]), 0]
        out += [0] * 10
        for r in rows:
            out += [len(r), 0]
        out += [0, 0, 0, 0]
        self.records.append(rs.Record(16 + 61, level,
                                      self.sx.from_bytes(out)))
        body = ['TableBody', {}, []]
        node[2].append(body)
        for i, r in enumerate(rows):
            row = ['TableRow', {}, []]
            for j, cell in enumerate(r):
                self.record(level, 'TableCell', {'col': j, 'row': i})
                row[2].append(['TableCell', {'col': j, 'row': i},
                               self.paragraphs(level, cell)])
            if r:
                body[2].append(row)

    # -- a section

    def section(self, paras):
        """the first paragraph holds the section definition"""
        out = []
        for i, d in enumerate(paras):
            items, split = d if isinstance(d, tuple) else (d, 0)
            out.append(self.paragraph(0, items, split))
        # the section definition becomes the root
        root = take(out[0], 'SectionDef')
        root[2].extend(columns(out))
        return root

    def data(self):
        rs = self.sx.mod('hwp5.recordstream')
        f = io.BytesIO()
        for r in self.records:
            rs.dump_record(f, r)
        return f.getvalue()


def take(node, name):
    for i, k in enumerate(node[2]):
        if k[0] == name:
            return node[2].pop(i)
        r = take(k, name)
        if r is not None:
            return r


def columns(paras):
    """paragraphs with new columns start a set of columns"""
    out = []
    cur = out
    for p in paras:
        if p[3] & 2:
            cur = []
            out.append(['ColumnSet', {}, cur])
        cur.append(p[:3])
    return out


def tree_of(sx, xm, events):
    """the elements of a stream of events; checks that it is balanced"""
    root = ['', {}, []]
    stack = [root]
    for ev, (model, attrs, ctx) in events:
        if ev is xm.STARTEVENT:
            n = [model.__name__, attrs, []]
            stack[-1][2].append(n)
            stack.append(n)
        else:
            sx.check(len(stack) > 1 and stack[-1][0] == model.__name__,
                     'elements are properly nested')
            stack.pop()
    sx.check(len(stack) == 1, 'elements are closed')
    return root[2]


def compare(sx, got, want):
    """got has the elements of want, with the attributes of want"""
    sx.check([n[0] for n in got] == [n[0] for n in want],
             'elements: ' + '/'.join(n[0] for n in want[:1]))
    for g, w in zip(got, want):
        for k, v in w[1].items():
            sx.check(k in g[1] and sx.eq(g[1][k], v),
                     'attribute %s of %s' % (k, w[0]))
        compare(sx, g[2], w[2])


class Item(object):
    """a stream of a document"""

    def __init__(self, data, path='BodyText/Section0'):
        self.data = data
        self.path = path

    def open(self):
        return io.BytesIO(self.data)
