# -*- coding: utf-8 -*-
"""The record layouts of the HWP 5 format, transcribed independently of
hwp5.binmodel: every function appends the fields of one record (or part of
one) to a payload and returns the values a reader must report for them.
"""


class Builder(object):
    """payload and expected content, built together

    mode 'sym': every scalar is an arbitrary value of its width
    mode 'zero': every scalar is zero
    mode 'text': every scalar is zero, texts are arbitrary
    """

    def __init__(self, sx, prefix, version, mode='sym', opts=None):
        self.sx = sx
        self.prefix = prefix
        self.v = version
        self.mode = mode
        self.opts = opts or {}
        self.out = []
        self.fields = []
        self.n = 0

    def name(self, hint):
        self.n += 1
        return '%s.%d.%s' % (self.prefix, self.n, hint)

    def raw(self, hint, width, kind='number'):
        """width arbitrary bytes"""
        self.fields.append((len(self.out), width, kind))
        if hint in self.opts:
            v = self.opts[hint]
            bs = [(v >> (8 * i)) & 0xff for i in range(width)]
        elif self.mode in ('zero', 'text'):
            bs = [0] * width
        else:
            nm = self.name(hint)
            bs = [self.sx.u8('%s[%d]' % (nm, i)) for i in range(width)]
        self.out.extend(bs)
        return bs

    def uint(self, hint, width):
        bs = self.raw(hint, width)
        v = 0
        for i, b in enumerate(bs):
            v = v | (b << (8 * i))
        return v

    def sint(self, hint, width):
        v = self.uint(hint, width)
        return self.sx.ite(v >= 1 << (8 * width - 1), v - (1 << (8 * width)),
                           v)

    def u8(self, n):
        return self.uint(n, 1)

    def u16(self, n):
        return self.uint(n, 2)

    def u32(self, n):
        return self.uint(n, 4)

    def i8(self, n):
        return self.sint(n, 1)

    def i16(self, n):
        return self.sint(n, 2)

    def i32(self, n):
        return self.sint(n, 4)

    def f64(self, n):
        bs = self.raw(n, 8)
        # finite numbers only
        self.sx.assume(self.sx.Or((bs[7] & 0x7f) != 0x7f, bs[6] < 0xf0))
        return F64(self.sx.from_bytes(bs))

    def chid(self, n):
        if n in self.opts:
            s = self.opts[n]
            self.fields.append((len(self.out), 4, 'raw'))
            self.out.extend(ord(c) for c in reversed(s))
            return s
        bs = self.raw(n, 4, 'raw')
        return self.sx.from_codepoints(list(reversed(bs)))

    def hex(self, n, width):
        bs = self.raw(n, width, 'raw')
        out = []
        for b in bs:
            for d in (b >> 4, b & 15):
                out.append(self.sx.ite(d < 10, d + 48, d + 87))
        return self.sx.from_bytes(out)

    def count(self, n, width, options=(0, 1, 2)):
        self.fields.append((len(self.out), width, 'number'))
        if n in self.opts:
            c = self.opts[n]
        elif self.mode in ('zero', 'text'):
            c = 0
        else:
            c = self.sx.choice(self.name(n), options)
        self.out.extend((c >> (8 * i)) & 0xff for i in range(width))
        return c

    def bstr(self, n):
        """length-prefixed UTF-16 text"""
        start = len(self.out)
        if self.mode == 'zero':
            self.fields.append((start, 2, 'number'))
            self.out.extend([0, 0])
            return ''
        c = self.sx.choice(self.name(n), self.opts.get('bstr', (0, 2)))
        self.fields.append((start, 2, 'number'))
        if c:
            self.fields.append((start, 2 + 2 * c, 'text'))
        self.out.extend([c, 0])
        units = []
        for i in range(c):
            u = self.sx.u16(self.name(n))
            if c == 3 and i == 1:
                # one character outside the BMP
                self.sx.assume(self.sx.And(u >= 0xd800, u < 0xdc00))
            elif c == 3 and i == 2:
                self.sx.assume(self.sx.And(u >= 0xdc00, u < 0xe000))
                hi = units.pop()
                u2 = 0x10000 + ((hi - 0xd800) << 10) + (u - 0xdc00)
                self.out.extend([u & 0xff, u >> 8])
                units.append(u2)
                continue
            else:
                self.sx.assume(self.sx.Or(u < 0xd800, u >= 0xe000))
            self.out.extend([u & 0xff, u >> 8])
            units.append(u)
        return self.sx.from_codepoints(units)

    def array(self, n, fn):
        return [fn(self) for i in range(n)]


class F64(object):
    """a floating point number, known by its encoding"""

    def __init__(self, raw):
        self.raw = raw


def bit(v, i):
    return (v >> i) & 1


def bits(v, lo, hi):
    return (v >> lo) & ((1 << (hi - lo + 1)) - 1)


# --- shared structures

def margin(b):
    return dict(left=b.i16('left'), right=b.i16('right'), top=b.i16('top'),
                bottom=b.i16('bottom'))


def coord(b):
    return dict(x=b.i32('x'), y=b.i32('y'))


def border(b):
    return dict(stroke_flags=b.u8('stroke'), width_flags=b.u8('width'),
                color=b.i32('color'))


def borderline(b):
    return dict(color=b.i32('color'), width=b.i32('width'),
                flags=b.u32('blflags'))


def fill_colorpattern(b):
    return dict(background_color=b.i32('bg'), pattern_color=b.i32('pc'),
                pattern_type_flags=b.u32('pt'))


def fill_image(b):
    return dict(flags=b.u8('fi'), brightness=b.i8('br'), contrast=b.i8('co'),
                effect=b.u8('ef'), bindata_id=b.u16('bd'))


def fill_gradation(b):
    d = dict(type=b.u8('gt'), shear=b.u32('shear'))
    d['center'] = dict(x=b.u32('cx'), y=b.u32('cy'))
    d['blur'] = b.u32('blur')
    d['colors'] = b.array(b.count('ncolors', 4, (0, 2)),
                          lambda b: b.i32('gcolor'))
    return d


def matrix(b):
    return dict((k, b.f64(k)) for k in ('a', 'c', 'e', 'b', 'd', 'f'))


LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')


def perlang(b, fn):
    return dict((lang, fn(b)) for lang in LANGS)


def seq(**kw):
    return kw


# --- document information records

def document_properties(b):
    d = {}
    for n in ('section_count', 'page_startnum', 'footnote_startnum',
              'endnote_startnum', 'picture_startnum', 'table_startnum',
              'math_startnum'):
        d[n] = b.u16(n)
    for n in ('list_id', 'paragraph_id', 'character_unit_loc_in_paragraph'):
        d[n] = b.u32(n)
    return d


def id_mappings(b):
    d = {}
    for n in ('bindata', 'ko_fonts', 'en_fonts', 'cn_fonts', 'jp_fonts',
              'other_fonts', 'symbol_fonts', 'user_fonts', 'borderfills',
              'charshapes', 'tabdefs', 'numberings', 'bullets', 'parashapes',
              'styles'):
        d[n] = b.u32(n)
    if b.v >= (5, 0, 1, 7):
        d['memoshapes'] = b.u32('memoshapes')
    return d


def bin_data(b):
    flags = b.u16('flags')
    d = dict(flags=flags)
    kind = bits(flags, 0, 3)
    if kind == 0:
        d['bindata'] = dict(abspath=b.bstr('abspath'),
                            relpath=b.bstr('relpath'))
    elif kind == 1:
        d['bindata'] = dict(storage_id=b.u16('storage_id'), ext=b.bstr('ext'))
    elif kind == 2:
        d['bindata'] = dict(storage_id=b.u16('storage_id'))
    return d


PANOSE = ('family_type', 'serif_style', 'weight', 'proportion', 'contrast',
          'stroke_variation', 'arm_style', 'letterform', 'midline',
          'x_height')


def face_name(b):
    flags = b.u8('flags')
    d = dict(flags=flags, name=b.bstr('name'))
    if bit(flags, 7):
        d['alternate_font'] = dict(kind=b.u8('kind'), name=b.bstr('alt'))
    if bit(flags, 6):
        d['panose1'] = dict((n, b.u8(n)) for n in PANOSE)
    if bit(flags, 5):
        d['default_font'] = b.bstr('default')
    return d


def border_fill(b):
    d = dict(borderflags=b.u16('borderflags'))
    for n in ('left', 'right', 'top', 'bottom', 'diagonal'):
        d[n] = border(b)
    flags = d['fillflags'] = b.u32('fillflags')
    if bit(flags, 0):
        d['fill_colorpattern'] = fill_colorpattern(b)
    if bit(flags, 2):
        d['fill_gradation'] = fill_gradation(b)
    if bit(flags, 1):
        d['fill_image'] = fill_image(b)
    if bit(flags, 2):
        d['shape'] = b.u32('shape')
        d['blur_center'] = b.u8('blur_center')
    return d


def char_shape(b):
    d = dict(font_face=perlang(b, lambda b: b.u16('face')))
    d['letter_width_expansion'] = perlang(b, lambda b: b.u8('lwe'))
    for n in ('letter_spacing', 'relative_size', 'position'):
        d[n] = perlang(b, lambda b: b.i8(n))
    d['basesize'] = b.i32('basesize')
    d['charshapeflags'] = b.u32('flags')
    d['shadow_space'] = dict(x=b.i8('sx'), y=b.i8('sy'))
    for n in ('text_color', 'underline_color', 'shade_color',
              'shadow_color'):
        d[n] = b.i32(n)
    return d


def tab_def(b):
    d = dict(flags=b.u32('flags'))
    d['tabs'] = b.array(b.count('ntabs', 4),
                        lambda b: dict(pos=b.u32('pos'),
                                       flags=b.u32('tabflags')))
    return d


def numbering_level(b):
    return dict(flags=b.u32('lflags'), width_correction=b.i16('wc'),
                space=b.u16('space'), charshape_id=b.i32('cs'),
                numbering_format=b.bstr('fmt'))


def numbering(b):
    lens = b.opts.get('bstr')
    b.opts['bstr'] = (0,)
    levels = b.array(6, numbering_level)
    b.opts['bstr'] = lens or (0, 2)
    levels.insert(0, None)
    levels[0] = levels[1]
    levels = levels[1:] + [numbering_level(b)]
    d = dict(levels=levels, starting_number=b.u16('start'))
    if b.v >= (5, 0, 3, 0):
        d['unknown'] = b.array(7, lambda b: b.u32('unk'))
    return d


def bullet(b):
    return dict(flags=b.u32('flags'), width=b.i16('width'),
                space=b.u16('space'), charshape_id=b.i32('cs'),
                char=b.u16('char'))


def para_shape(b):
    d = dict(parashapeflags=b.u32('flags'))
    for n in ('doubled_margin_left', 'doubled_margin_right', 'indent',
              'doubled_margin_top', 'doubled_margin_bottom', 'linespacing'):
        d[n] = b.i32(n)
    for n in ('tabdef_id', 'numbering_bullet_id', 'borderfill_id'):
        d[n] = b.u16(n)
    for n in ('border_left', 'border_right', 'border_top', 'border_bottom'):
        d[n] = b.i16(n)
    if b.v >= (5, 0, 1, 7):
        d['flags2'] = b.u32('flags2')
    return d


def style(b):
    return dict(local_name=b.bstr('local'), name=b.bstr('name'),
                flags=b.u8('flags'), next_style_id=b.u8('next'),
                lang_id=b.i16('lang'), parashape_id=b.u16('ps'),
                charshape_id=b.u16('cs'), unknown=b.u16('unk'))


def compatible_document(b):
    return dict(flags=b.u32('flags'))


def layout_compatibility(b):
    return dict((n, b.u32(n)) for n in ('char', 'paragraph', 'section',
                                        'object', 'field'))


def nothing(b):
    return {}


# --- section records

def para_header(b):
    d = dict(text=b.u32('text'), controlmask=b.u32('controlmask'),
             parashape_id=b.u16('ps'), style_id=b.u8('style'),
             split=b.u8('split'))
    d['charshapes'] = b.u16('charshapes')
    d['rangetags'] = b.u16('rangetags')
    d['linesegs'] = b.u16('linesegs')
    d['instance_id'] = b.u32('instance')
    return d


def para_char_shape(b):
    return dict(charshapes=b.array(
        b.opts['n'], lambda b: [b.u32('pos'), b.u32('id')]))


def lineseg(b):
    d = {}
    for n in ('chpos', 'y', 'height', 'height_text', 'height_baseline',
              'space_below', 'x', 'width'):
        d[n] = b.i32(n)
    d['lineseg_flags'] = b.u32('flags')
    return d


def para_line_seg(b):
    return dict(linesegs=b.array(b.opts['n'], lineseg))


def para_range_tag(b):
    return dict(range_tags=b.array(
        b.opts['n'], lambda b: dict(start=b.u32('start'), end=b.u32('end'),
                                    tag=b.u32('tag'))))


def list_header(b):
    return dict(paragraphs=b.u16('paragraphs'), unknown1=b.u16('unk'),
                listflags=b.u32('listflags'))


def caption(b):
    d = list_header(b)
    d.update(flags=b.u32('flags'), width=b.u32('width'),
             separation=b.i16('sep'), max_width=b.u32('max'))
    return d


def table_cell(b):
    d = list_header(b)
    for n in ('col', 'row', 'colspan', 'rowspan'):
        d[n] = b.u16(n)
    d['width'] = b.i32('width')
    d['height'] = b.i32('height')
    d['padding'] = margin(b)
    d['borderfill_id'] = b.u16('bf')
    d['unknown_width'] = b.i32('uw')
    return d


def textbox_list(b):
    d = list_header(b)
    d['padding'] = margin(b)
    d['maxwidth'] = b.u32('maxwidth')
    return d


def headerfooter_list(b):
    d = list_header(b)
    d.update(width=b.u32('width'), height=b.u32('height'),
             textrefsbitmap=b.u8('t'), numberrefsbitmap=b.u8('n'))
    return d


def page_def(b):
    d = {}
    for n in ('width', 'height', 'left_offset', 'right_offset', 'top_offset',
              'bottom_offset', 'header_offset', 'footer_offset',
              'bookbinding_offset'):
        d[n] = b.u32(n)
    d['attr'] = b.u32('attr')
    return d


def footnote_shape(b):
    d = dict(flags=b.u32('flags'))
    for n in ('usersymbol', 'prefix', 'suffix', 'starting_number'):
        d[n] = b.u16(n)
    for n in ('splitter_length', 'splitter_unknown', 'splitter_margin_top',
              'splitter_margin_bottom', 'notes_spacing'):
        d[n] = b.i16(n)
    d['splitter_stroke_type'] = b.u8('st')
    d['splitter_width'] = b.u8('sw')
    d['splitter_color'] = b.i32('sc')
    return d


def page_border_fill(b):
    return dict(flags=b.u32('flags'), margin=margin(b),
                borderfill_id=b.u16('bf'))


def shape_component(b):
    d = {}
    if b.opts.get('under_gso'):
        d['chid0'] = b.chid('chid0')
    chid = d['chid'] = b.chid('chid')
    d['x_in_group'] = b.i32('xg')
    d['y_in_group'] = b.i32('yg')
    d['level_in_group'] = b.u16('lg')
    d['local_version'] = b.u16('lv')
    for n in ('initial_width', 'initial_height', 'width', 'height'):
        d[n] = b.i32(n)
    d['flags'] = b.u32('flags')
    d['angle'] = b.u16('angle')
    d['rotation_center'] = coord(b)
    n = d['scalerotations_count'] = b.count('nsr', 2, (0, 1))
    d['translation'] = matrix(b)
    d['scalerotations'] = b.array(
        n, lambda b: dict(scaler=matrix(b), rotator=matrix(b)))
    if chid == '$con':
        d['controls'] = b.array(b.count('ncontrols', 2),
                                lambda b: b.chid('child'))
    elif chid == '$rec':
        d['border'] = borderline(b)
        fl = d['fill_flags'] = b.u16('fill_flags')
        d['unknown'] = b.u16('unk')
        d['unknown1'] = b.u8('unk1')
        if bit(fl, 8):
            d['fill_colorpattern'] = fill_colorpattern(b)
        if bit(fl, 10):
            d['fill_gradation'] = fill_gradation(b)
        if bit(fl, 9):
            d['fill_image'] = fill_image(b)
        d['fill_shape'] = b.u32('shape')
        if bit(fl, 10):
            d['fill_blur_center'] = b.u8('blurc')
        if b.v >= (5, 0, 2, 4):
            d['unknown2'] = b.hex('unk2', 5)
            d['unknown3'] = b.hex('unk3', 16)
    elif chid == '$lin':
        d['line'] = borderline(b)
    return d


def table_body(b):
    d = dict(flags=b.u32('flags'))
    d['rows'] = n = b.count('rows', 2)
    d['cols'] = b.u16('cols')
    d['cellspacing'] = b.i16('cs')
    d['padding'] = margin(b)
    d['rowcols'] = b.array(n, lambda b: b.u16('rowcols'))
    d['borderfill_id'] = b.u16('bf')
    if b.v >= (5, 0, 0, 7):
        d['validZones'] = b.array(
            b.count('nzones', 2),
            lambda b: dict((n, b.u16(n)) for n in
                           ('starting_column', 'starting_row', 'end_column',
                            'end_row', 'borderfill_id')))
    return d


def shape_line(b):
    return dict(p0=coord(b), p1=coord(b), attr=b.u16('attr'))


def shape_rectangle(b):
    return dict(round=b.u8('round'), p0=coord(b), p1=coord(b), p2=coord(b),
                p3=coord(b))


def shape_ellipse(b):
    d = dict(flags=b.u32('flags'))
    for n in ('center', 'axis1', 'axis2', 'start1', 'end1', 'start2',
              'end2'):
        d[n] = coord(b)
    return d


def shape_arc(b):
    return dict(center=coord(b), axis1=coord(b), axis2=coord(b))


def shape_points(b):
    return dict(points=b.array(b.count('npoints', 2), coord))


def shape_ole(b):
    return dict(flags=b.u32('flags'), extent_x=b.i32('ex'),
                extent_y=b.i32('ey'), storage_id=b.u16('sid'),
                border=borderline(b))


def shape_picture(b):
    d = dict(border=borderline(b))
    d['rect'] = dict(p0=coord(b), p1=coord(b), p2=coord(b), p3=coord(b))
    d['clip'] = dict((n, b.i32(n)) for n in ('left', 'top', 'right',
                                             'bottom'))
    d['padding'] = margin(b)
    d['picture'] = dict(brightness=b.i8('br'), contrast=b.i8('co'),
                        effect=b.u8('ef'), bindata_id=b.u16('bd'))
    if b.v >= (5, 0, 2, 2):
        d['border_transparency'] = b.u8('bt')
    if b.v >= (5, 0, 2, 5):
        d['instance_id'] = b.u32('iid')
    if b.v >= (5, 0, 3, 4):
        d['picture_effect'] = dict(flags=b.u32('pe'))
    return d


# --- controls

def control(chid, fn):
    def f(b):
        b.opts['chid'] = chid
        d = dict(chid=b.chid('chid'))
        d.update(fn(b))
        return d
    return f


def common_control(b):
    d = dict(flags=b.u32('flags'), y=b.i32('y'), x=b.i32('x'),
             width=b.u32('width'), height=b.u32('height'),
             z_order=b.i16('z'), unknown1=b.i16('unk1'))
    d['margin'] = margin(b)
    d['instance_id'] = b.u32('iid')
    if b.v >= (5, 0, 0, 5):
        d['unknown2'] = b.i16('unk2')
        d['description'] = b.bstr('descr')
    return d


def columns_def(b):
    flags = b.u16('flags')
    d = dict(flags=flags, spacing=b.i16('spacing'))
    if not bit(flags, 12):
        n = bits(flags, 2, 9)
        d['column0'] = dict(width=b.u16('w0'))
        b.sx.assume(n <= 3)
        k = 0
        for i in (0, 1, 2):
            if n > i + 1:
                k = i + 1
        d['columns'] = b.array(k, lambda b: dict(spacing=b.u16('sp'),
                                                 width=b.u16('w')))
    d['attr2'] = b.u16('attr2')
    d['splitter'] = border(b)
    return d


def dutmal(b):
    d = dict(maintext=b.bstr('main'), subtext=b.bstr('sub'))
    d['position-flags'] = b.u32('pf')
    for n in ('fsizeratio', 'option', 'stylenumber'):
        d[n] = b.u32(n)
    d['align-flags'] = b.u32('af')
    return d


def field(b):
    return dict(flags=b.u32('flags'), extra_attr=b.u8('extra'),
                command=b.bstr('command'), id=b.u32('id'))


def flags32(b):
    return dict(flags=b.u32('flags'))


def index_marker(b):
    return dict(keyword1=b.bstr('k1'), keyword2=b.bstr('k2'),
                dummy=b.u16('dummy'))


def note(b):
    d = dict(number=b.u32('number'), unknown0=b.u32('u0'),
             unknown1=b.u32('u1'))
    if b.v >= (5, 0, 3, 0):
        d['unknown2'] = b.u16('u2')
        d['unknown3'] = b.u16('u3')
    return d


def auto_numbering(b):
    d = new_numbering(b)
    for n in ('usersymbol', 'prefix', 'suffix'):
        d[n] = b.u16(n)
    return d


def new_numbering(b):
    return dict(flags=b.u32('flags'), number=b.u16('number'))


def page_number_position(b):
    d = dict(flags=b.u32('flags'))
    for n in ('usersymbol', 'prefix', 'suffix', 'dash'):
        d[n] = b.u16(n)
    return d


def section_def(b):
    d = dict(flags=b.u32('flags'))
    for n in ('columnspacing', 'grid_vertical', 'grid_horizontal'):
        d[n] = b.i16(n)
    d['defaultTabStops'] = b.u32('tabs')
    for n in ('numbering_shape_id', 'starting_pagenum',
              'starting_picturenum', 'starting_tablenum',
              'starting_equationnum'):
        d[n] = b.u16(n)
    if b.v >= (5, 0, 1, 7):
        d['unknown1'] = b.u32('u1')
        d['unknown2'] = b.u32('u2')
    return d


def tcps(b):
    return dict(textlength=b.bstr('tl'))


def bookmark_data(b):
    return dict(unknown1=b.u32('u1'), unknown2=b.u32('u2'),
                unknown3=b.u16('u3'), name=b.bstr('name'))


def sectiondef_data(b):
    return dict(unknown=b.hex('unk', 280))


def any_control(b):
    """a control whose id is none of the known ones"""
    cs = b.chid('chid')
    for known in CONTROL_IDS:
        b.sx.assume(b.sx.Not(b.sx.eq(cs, known)))
    return dict(chid=cs)


FIELDS = {
    '%unk': 'FieldUnknown', '%dte': 'FieldDate', '%ddt': 'FieldDocDate',
    '%pat': 'FieldPath', '%bmk': 'FieldBookmark', '%mmg': 'FieldMailMerge',
    '%xrf': 'FieldCrossRef', '%fmu': 'FieldFormula',
    '%clk': 'FieldClickHere', '%smr': 'FieldSummary',
    '%usr': 'FieldUserInfo', '%hlk': 'FieldHyperLink',
    '%sig': 'FieldRevisionSign', '%%*d': 'FieldRevisionDelete',
    '%%*a': 'FieldRevisionAttach', '%%*C': 'FieldRevisionClipping',
    '%%*S': 'FieldRevisionSawtooth', '%%*T': 'FieldRevisionThinking',
    '%%*P': 'FieldRevisionPraise', '%%*L': 'FieldRevisionLine',
    '%%*c': 'FieldRevisionSimpleChange', '%%*h': 'FieldRevisionHyperlink',
    '%%*A': 'FieldRevisionLineAttach', '%%*i': 'FieldRevisionLineLink',
    '%%*t': 'FieldRevisionLineTransfer', '%%*r': 'FieldRevisionRightMove',
    '%%*l': 'FieldRevisionLeftMove', '%%*n': 'FieldRevisionTransfer',
    '%%*e': 'FieldRevisionSimpleInsert', '%spl': 'FieldRevisionSplit',
    '%%mr': 'FieldRevisionChange', '%%me': 'FieldMemo',
    '%cpr': 'FieldPrivateInfoSecurity',
}

CONTROLS = {
    'gso ': ('GShapeObjectControl', common_control),
    'tbl ': ('TableControl', common_control),
    'secd': ('SectionDef', section_def),
    'cold': ('ColumnsDef', columns_def),
    'head': ('Header', flags32),
    'foot': ('Footer', flags32),
    'fn  ': ('FootNote', note),
    'en  ': ('EndNote', note),
    'atno': ('AutoNumbering', auto_numbering),
    'nwno': ('NewNumbering', new_numbering),
    'pghd': ('PageHide', flags32),
    'pgct': ('PageOddEven', flags32),
    'pgnp': ('PageNumberPosition', page_number_position),
    'idxm': ('IndexMarker', index_marker),
    'bokm': ('BookmarkControl', nothing),
    'tcps': ('TCPSControl', tcps),
    'tdut': ('Dutmal', dutmal),
    'tcmt': ('HiddenComment', nothing),
}
for _k, _v in FIELDS.items():
    CONTROLS[_k] = (_v, field)
CONTROL_IDS = sorted(CONTROLS)

B = 0x10
# kind: (tag number, model name, layout)
KINDS = {
    'DocumentProperties': (B + 0, document_properties),
    'IdMappings': (B + 1, id_mappings),
    'BinData': (B + 2, bin_data),
    'FaceName': (B + 3, face_name),
    'BorderFill': (B + 4, border_fill),
    'CharShape': (B + 5, char_shape),
    'TabDef': (B + 6, tab_def),
    'Numbering': (B + 7, numbering),
    'Bullet': (B + 8, bullet),
    'ParaShape': (B + 9, para_shape),
    'Style': (B + 10, style),
    'DocData': (B + 11, nothing),
    'DistributeDocData': (B + 12, nothing),
    'CompatibleDocument': (B + 14, compatible_document),
    'LayoutCompatibility': (B + 15, layout_compatibility),
    'TagModel32': (B + 16, nothing),
    'Paragraph': (B + 50, para_header),
    'ParaCharShape': (B + 52, para_char_shape),
    'ParaLineSeg': (B + 53, para_line_seg),
    'ParaRangeTag': (B + 54, para_range_tag),
    'Control': (B + 55, any_control),
    'ListHeader': (B + 56, list_header),
    'TableCaption': (B + 56, caption),
    'TableCell': (B + 56, table_cell),
    'GShapeObjectCaption': (B + 56, caption),
    'TextboxParagraphList': (B + 56, textbox_list),
    'HeaderParagraphList': (B + 56, headerfooter_list),
    'FooterParagraphList': (B + 56, headerfooter_list),
    'PageDef': (B + 57, page_def),
    'FootnoteShape': (B + 58, footnote_shape),
    'PageBorderFill': (B + 59, page_border_fill),
    'ShapeComponent': (B + 60, shape_component),
    'TableBody': (B + 61, table_body),
    'ShapeLine': (B + 62, shape_line),
    'ShapeRectangle': (B + 63, shape_rectangle),
    'ShapeEllipse': (B + 64, shape_ellipse),
    'ShapeArc': (B + 65, shape_arc),
    'ShapePolygon': (B + 66, shape_points),
    'ShapeCurve': (B + 67, shape_points),
    'ShapeOLE': (B + 68, shape_ole),
    'ShapePicture': (B + 69, shape_picture),
    'ShapeContainer': (B + 70, nothing),
    'ControlData': (B + 71, nothing),
    'BookmarkControlData': (B + 71, bookmark_data),
    'SectionDefData': (B + 71, sectiondef_data),
    'FieldClickHereData': (B + 71, nothing),
    'EqEdit': (B + 72, nothing),
    'ShapeTextArt': (B + 74, nothing),
    'FormObject': (B + 75, nothing),
    'MemoShape': (B + 76, nothing),
    'MemoList': (B + 77, nothing),
    'ForbiddenChar': (B + 78, nothing),
    'ChartData': (B + 79, nothing),
    'ShapeUnknown': (B + 99, nothing),
}
for _k, (_n, _f) in CONTROLS.items():
    KINDS[_n] = (B + 55, control(_k, _f))

KNOWN_TAGS = sorted(set(t for t, f in KINDS.values()) | {B + 51})


# --- bit fields: (record kind, path to the field, base width) ->
#     {name: (lowest bit, highest bit, {value: name} or None)}

STROKE = ['none', 'solid', 'dashed', 'dotted', 'dash-dot', 'dash-dot-dot',
          'long-dash', 'large-dot', 'double', 'double-2', 'double-3',
          'triple', 'wave', 'double-wave', 'inset', 'outset', 'groove',
          'ridge']
WIDTHS = ['0.1mm', '0.12mm', '0.15mm', '0.2mm', '0.25mm', '0.3mm', '0.4mm',
          '0.5mm', '0.6mm', '0.7mm', '1.0mm', '1.5mm', '2.0mm', '3.0mm',
          '4.0mm', '5.0mm']
ARROW = ['none', 'arrow', 'arrow2', 'diamond', 'circle', 'rect',
         'diamondfilled', 'disc', 'rectfilled']
ARROWSIZE = ['smallest', 'smaller', 'small', 'abitsmall', 'normal',
             'abitlarge', 'large', 'larger', 'largest']
BORDERLINE = {
    'stroke': (0, 5, STROKE), 'line_end': (6, 9, ['round', 'flat']),
    'arrow_start': (10, 15, ARROW), 'arrow_end': (16, 21, ARROW),
    'arrow_start_size': (22, 25, ARROWSIZE),
    'arrow_end_size': (26, 29, ARROWSIZE),
    'arrow_start_fill': (30, 30, None), 'arrow_end_fill': (31, 31, None),
}
FIELDFLAGS = {'editableInReadOnly': (0, 0, None),
              'visitedType': (11, 14, None), 'modified': (15, 15, None)}
LISTFLAGS = {'textdirection': (0, 2, None), 'linebreak': (3, 4, None),
             'valign': (5, 6, ['TOP', 'MIDDLE', 'BOTTOM'])}
CAPTION = {'position': (0, 1, ['LEFT', 'RIGHT', 'TOP', 'BOTTOM']),
           'expand_to_margin': (2, 2, None)}
COMMON = {
    'inline': (0, 0, None), 'affect_line_spacing': (2, 2, None),
    'vrelto': (3, 4, ['PAPER', 'PAGE', 'PARAGRAPH']),
    'valign': (5, 7, ['TOP', 'MIDDLE', 'BOTTOM']),
    'hrelto': (8, 9, ['PAPER', 'PAGE', 'COLUMN', 'PARAGRAPH']),
    'halign': (10, 12, ['LEFT', 'CENTER', 'RIGHT', 'INSIDE', 'OUTSIDE']),
    'restrict_in_page': (13, 13, None), 'overlap_others': (14, 14, None),
    'width_relto': (15, 17, ['PAPER', 'PAGE', 'COLUMN', 'PARAGRAPH',
                             'ABSOLUTE']),
    'height_relto': (18, 19, ['PAPER', 'PAGE', 'ABSOLUTE']),
    'protect_size_when_vrelto_paragraph': (20, 20, None),
    'flow': (21, 23, ['FLOAT', 'BLOCK', 'BACK', 'FRONT']),
    'text_side': (24, 25, ['BOTH', 'LEFT', 'RIGHT', 'LARGER']),
    'number_category': (26, 27, ['NONE', 'FIGURE', 'TABLE', 'EQUATION']),
}
NUMFLAGS = {
    'kind': (0, 3, ['PAGE', 'FOOTNOTE', 'ENDNOTE', 'PICTURE', 'TABLE',
                    'EQUATION', 'UNKNOWN6']),
    'footnoteshape': (4, 11, None), 'superscript': (12, 12, None)}
PLACES = {'places': (0, 1, ['BOTH_PAGES', 'EVEN_PAGE', 'ODD_PAGE'])}
COLORPATTERN = {'pattern_type': (0, 7, {
    255: 'NONE', 0: 'HORIZONTAL', 1: 'VERTICAL', 2: 'BACKSLASH', 3: 'SLASH',
    4: 'GRID', 5: 'CROSS'})}
FILLIMAGE = {'fillimage_type': (0, 16, [
    'TILE_ALL', 'TILE_HORIZONTAL_TOP', 'TILE_HORIZONTAL_BOTTOM',
    'TILE_VERTICAL_LEFT', 'TILE_VERTICAL_RIGHT', 'RESIZE', 'CENTER',
    'CENTER_TOP', 'CENTER_BOTTOM', 'LEFT_MIDDLE', 'LEFT_TOP', 'LEFT_BOTTOM',
    'RIGHT_MIDDLE', 'RIGHT_TOP', 'RIGHT_BOTTOM', 'NONE'])}
EFFECT = {'effect_type': (0, 8, ['REAL_PIC', 'GRAY_SCALE', 'BLACK_WHITE',
                                 'PATTERN8x8'])}
GRADATION = {'gradation_type': (0, 8, {1: 'LINEAR', 2: 'CIRCULAR',
                                       3: 'CONICAL', 4: 'RECTANGULAR'})}
NUMLEVEL = {'align': (0, 1, ['LEFT', 'CENTER', 'RIGHT', 'UNKNOWN']),
            'auto_width': (2, 2, None), 'auto_indent': (3, 3, None),
            'space_type': (4, 4, ['RATIO', 'VALUE'])}

# (kind, options for the other fields, hint of the raw field, path, width,
#  bit fields)
BITFIELDS = [
    ('BinData', {}, 'flags', ['flags'], 2, {
        'storage': (0, 3, ['LINK', 'EMBEDDING', 'STORAGE']),
        'compression': (4, 5, ['STORAGE_DEFAULT', 'YES', 'NO']),
        'access': (8, 9, ['NEVER', 'OK', 'FAILED', 'FAILED_IGNORED'])}),
    ('FaceName', {}, 'flags', ['flags'], 1, {
        'font_file_type': (0, 1, ['UNKNOWN', 'TTF', 'HFT']),
        'default': (5, 5, None), 'metric': (6, 6, None),
        'alternate': (7, 7, None)}),
    ('BorderFill', {}, 'borderflags', ['borderflags'], 2, {
        'effect_3d': (0, 0, None), 'effect_shadow': (1, 1, None),
        'slash': (2, 4, None), 'backslash': (5, 6, None)}),
    ('BorderFill', {}, 'fillflags', ['fillflags'], 4, {
        'colorpattern': (0, 0, None), 'image': (1, 1, None),
        'gradation': (2, 2, None)}),
    ('BorderFill', {}, 'stroke', ['left', 'stroke_flags'], 1, {
        'stroke_type': (0, 4, STROKE)}),
    ('BorderFill', {}, 'width', ['diagonal', 'width_flags'], 1, {
        'width': (0, 4, WIDTHS)}),
    ('BorderFill', {'fillflags': 1}, 'pt',
     ['fill_colorpattern', 'pattern_type_flags'], 4, COLORPATTERN),
    ('BorderFill', {'fillflags': 2}, 'fi', ['fill_image', 'flags'], 1,
     FILLIMAGE),
    ('BorderFill', {'fillflags': 2}, 'ef', ['fill_image', 'effect'], 1,
     EFFECT),
    ('BorderFill', {'fillflags': 4}, 'gt', ['fill_gradation', 'type'], 1,
     GRADATION),
    ('CharShape', {}, 'flags', ['charshapeflags'], 4, {
        'italic': (0, 0, None), 'bold': (1, 1, None),
        'underline': (2, 3, ['NONE', 'UNDERLINE', 'LINE_THROUGH',
                             'OVERLINE']),
        'underline_style': (4, 7, [
            'SOLID', 'DASHED', 'DOTTED', 'DASH_DOT', 'DASH_DOT_DOT',
            'LONG_DASHED', 'LARGE_DOTTED', 'DOUBLE', 'LOWER_WEIGHTED',
            'UPPER_WEIGHTED', 'MIDDLE_WEIGHTED']),
        'outline': (8, 10, None), 'shadow': (11, 13, None)}),
    ('TabDef', {}, 'flags', ['flags'], 4, {
        'autotab_left': (0, 0, None), 'autotab_right': (1, 1, None)}),
    ('TabDef', {'ntabs': 1}, 'tabflags', ['tabs', 0, 'flags'], 4, {
        'kind': (0, 7, ['LEFT', 'RIGHT', 'CENTER', 'FLOAT']),
        'fill_type': (8, 15, None)}),
    ('Numbering', {}, 'lflags', ['levels', 6, 'flags'], 4, NUMLEVEL),
    ('Bullet', {}, 'flags', ['flags'], 4, {
        'align': (0, 1, ['LEFT', 'CENTER', 'RIGHT']),
        'auto_indent': (3, 3, None)}),
    ('ParaShape', {}, 'flags', ['parashapeflags'], 4, {
        'linespacing_type': (0, 1, ['RATIO', 'FIXED', 'SPACEONLY',
                                    'MINIMUM']),
        'align': (2, 4, ['BOTH', 'LEFT', 'RIGHT', 'CENTER', 'DISTRIBUTE',
                         'DISTRIBUTE_SPACE']),
        'linebreak_alphabet': (5, 6, ['WORD', 'HYPHEN', 'CHAR']),
        'linebreak_hangul': (7, 7, ['WORD', 'CHAR']),
        'use_paper_grid': (8, 8, None), 'minimum_space': (9, 15, None),
        'protect_single_line': (16, 16, None),
        'with_next_paragraph': (17, 17, None), 'protect': (18, 18, None),
        'start_new_page': (19, 19, None),
        'valign': (20, 21, ['FONT', 'TOP', 'CENTER', 'BOTTOM']),
        'lineheight_along_fontsize': (22, 22, None),
        'head_shape': (23, 24, ['NONE', 'OUTLINE', 'NUMBER', 'BULLET']),
        'level': (25, 27, None), 'linked_border': (28, 28, None),
        'ignore_margin': (29, 29, None), 'tail_shape': (30, 30, None)}),
    ('ParaShape', {}, 'flags2', ['flags2'], 4, {
        'in_single_line': (0, 1, None), 'reserved': (2, 3, None),
        'autospace_alphabet': (4, 4, None), 'autospace_number': (5, 5, None)
    }),
    ('Style', {}, 'flags', ['flags'], 1, {
        'kind': (0, 1, ['PARAGRAPH', 'CHAR'])}),
    ('CompatibleDocument', {}, 'flags', ['flags'], 4, {
        'target': (0, 1, None)}),
    ('Paragraph', {}, 'text', ['text'], 4, {
        'unknown': (31, 31, None), 'chars': (0, 30, None)}),
    ('Paragraph', {}, 'controlmask', ['controlmask'], 4, {
        'unknown1': (2, 2, None), 'control': (11, 11, None),
        'new_number': (21, 21, None)}),
    ('Paragraph', {}, 'split', ['split'], 1, {
        'new_section': (0, 0, None), 'new_columnsdef': (1, 1, None),
        'new_page': (2, 2, None), 'new_column': (3, 3, None)}),
    ('ParaLineSeg', {'n': 1}, 'flags', ['linesegs', 0, 'lineseg_flags'], 4, {
        'line_head': (17, 17, None), 'line_tail': (18, 18, None),
        'indented': (20, 20, None), 'bullet': (21, 21, None)}),
    ('ParaRangeTag', {'n': 1}, 'tag', ['range_tags', 0, 'tag'], 4, {
        'data': (0, 23, None), 'kind': (24, 31, None)}),
    ('ListHeader', {}, 'listflags', ['listflags'], 4, LISTFLAGS),
    ('TableCaption', {}, 'flags', ['flags'], 4, CAPTION),
    ('GShapeObjectCaption', {}, 'flags', ['flags'], 4, CAPTION),
    ('PageDef', {}, 'attr', ['attr'], 4, {
        'orientation': (0, 0, ['PORTRAIT', 'LANDSCAPE']),
        'bookbinding': (1, 2, ['LEFT', 'RIGHT', 'TOP', 'BOTTOM'])}),
    ('FootnoteShape', {}, 'st', ['splitter_stroke_type'], 1, {
        'stroke_type': (0, 4, STROKE)}),
    ('FootnoteShape', {}, 'sw', ['splitter_width'], 1, {
        'width': (0, 4, WIDTHS)}),
    ('PageBorderFill', {}, 'flags', ['flags'], 4, {
        'relative_to': (0, 0, ['BODY', 'PAPER']),
        'include_header': (1, 1, None), 'include_footer': (2, 2, None),
        'fill': (3, 4, ['PAPER', 'PAGE', 'BORDER'])}),
    ('ShapeComponent', {'chid': '$ell'}, 'flags', ['flags'], 4, {
        'flip': (0, 0, None)}),
    ('ShapeComponent', {'chid': '$rec'}, 'fill_flags', ['fill_flags'], 2, {
        'fill_colorpattern': (8, 8, None), 'fill_image': (9, 9, None),
        'fill_gradation': (10, 10, None)}),
    ('ShapeComponent', {'chid': '$lin'}, 'blflags', ['line', 'flags'], 4,
     BORDERLINE),
    ('TableBody', {}, 'flags', ['flags'], 4, {
        'split_page': (0, 1, ['NONE', 'BY_CELL', 'SPLIT']),
        'repeat_header': (2, 2, None)}),
    ('ShapeEllipse', {}, 'flags', ['flags'], 4, {
        'arc_recalc_required': (0, 0, None), 'arc': (1, 1, None),
        'arc_kind': (2, 9, None)}),
    ('ShapeOLE', {}, 'flags', ['flags'], 4, {
        'dvaspect': (0, 7, None), 'moniker': (8, 8, None),
        'baseline': (9, 15, None)}),
    ('ShapeOLE', {}, 'blflags', ['border', 'flags'], 4, BORDERLINE),
    ('GShapeObjectControl', {}, 'flags', ['flags'], 4, COMMON),
    ('TableControl', {}, 'flags', ['flags'], 4, COMMON),
    ('ColumnsDef', {}, 'flags', ['flags'], 2, {
        'kind': (0, 1, ['normal', 'distribute', 'parallel']),
        'count': (2, 9, None),
        'direction': (10, 11, ['l2r', 'r2l', 'both']),
        'same_widths': (12, 12, None)}),
    ('Dutmal', {}, 'pf', ['position-flags'], 4, {
        'position': (0, 31, ['ABOVE', 'BELOW', 'CENTER'])}),
    ('Dutmal', {}, 'af', ['align-flags'], 4, {
        'align': (0, 31, ['BOTH', 'LEFT', 'RIGHT', 'CENTER', 'DISTRIBUTE',
                          'DISTRIBUTE_SPACE'])}),
    ('FieldHyperLink', {}, 'flags', ['flags'], 4, FIELDFLAGS),
    ('FieldClickHere', {}, 'flags', ['flags'], 4, FIELDFLAGS),
    ('Header', {}, 'flags', ['flags'], 4, PLACES),
    ('Footer', {}, 'flags', ['flags'], 4, PLACES),
    ('AutoNumbering', {}, 'flags', ['flags'], 4, NUMFLAGS),
    ('NewNumbering', {}, 'flags', ['flags'], 4, NUMFLAGS),
    ('PageHide', {}, 'flags', ['flags'], 4, {
        'header': (0, 0, None), 'footer': (1, 1, None),
        'basepage': (2, 2, None), 'pageborder': (3, 3, None),
        'pagefill': (4, 4, None), 'pagenumber': (5, 5, None)}),
    ('PageNumberPosition', {}, 'flags', ['flags'], 4, {
        'shape': (0, 7, None),
        'position': (8, 11, [
            'NONE', 'TOP_LEFT', 'TOP_CENTER', 'TOP_RIGHT', 'BOTTOM_LEFT',
            'BOTTOM_CENTER', 'BOTTOM_RIGHT', 'OUTSIDE_TOP',
            'OUTSIDE_BOTTOM', 'INSIDE_TOP', 'INSIDE_BOTTOM'])}),
    ('PageOddEven', {}, 'flags', ['flags'], 4, {
        'pages': (0, 1, ['BOTH_PAGES', 'EVEN_PAGE', 'ODD_PAGE'])}),
    ('SectionDef', {}, 'flags', ['flags'], 4, {
        'hide_header': (0, 0, None), 'hide_footer': (1, 1, None),
        'hide_page': (2, 2, None), 'hide_border': (3, 3, None),
        'hide_background': (4, 4, None), 'hide_pagenumber': (5, 5, None),
        'show_border_on_first_page_only': (8, 8, None),
        'show_background_on_first_page_only': (9, 9, None),
        'text_direction': (16, 18, None), 'hide_blank_line': (19, 19, None),
        'pagenum_on_split_section': (20, 21, None),
        'squared_manuscript_paper': (22, 22, None)}),
]

# the parents a kind has to be read under
PARENTS = {
    'ParaCharShape': ['Paragraph'], 'ParaLineSeg': ['Paragraph'],
    'ParaRangeTag': ['Paragraph'],
    'TableCaption': ['TableControl'],
    'GShapeObjectCaption': ['GShapeObjectControl'],
    'TextboxParagraphList': ['ShapeComponent'],
    'HeaderParagraphList': ['Header'], 'FooterParagraphList': ['Footer'],
    'BookmarkControlData': ['BookmarkControl'],
    'SectionDefData': ['SectionDef'],
    'FieldClickHereData': ['FieldClickHere'],
}
