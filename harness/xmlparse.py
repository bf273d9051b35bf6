# -*- coding: utf-8 -*-
"""A small strict XML reader, written from the XML 1.0 recommendation; it
works on lists of code points, which may be symbolic."""


DECL = '<?xml version="1.0" encoding="utf-8"?>\n'


class NotWellFormed(Exception):
    pass


def legal(sx, c):
    return sx.Or(sx.eq(c, 9), sx.eq(c, 10), sx.eq(c, 13),
                 sx.And(c >= 0x20, c <= 0xd7ff),
                 sx.And(c >= 0xe000, c <= 0xfffd), c >= 0x10000)


def name_start(sx, c):
    return sx.Or(sx.And(c >= 97, c <= 122), sx.And(c >= 65, c <= 90),
                 sx.eq(c, 95), sx.eq(c, 58))


def name_char(sx, c):
    return sx.Or(name_start(sx, c), sx.And(c >= 48, c <= 57), sx.eq(c, 45),
                 sx.eq(c, 46))


ENTITIES = {'lt': 60, 'gt': 62, 'amp': 38, 'quot': 34, 'apos': 39}


class Reader(object):

    def __init__(self, sx, cps):
        self.sx = sx
        self.s = cps
        self.i = 0

    def peek(self):
        if self.i >= len(self.s):
            raise NotWellFormed('unexpected end')
        return self.s[self.i]

    def at(self, c):
        return self.i < len(self.s) and self.s[self.i] == ord(c)

    def expect(self, c):
        if not self.at(c):
            raise NotWellFormed('expected %s' % c)
        self.i += 1

    def name(self):
        start = self.i
        if not name_start(self.sx, self.peek()):
            raise NotWellFormed('name')
        while name_char(self.sx, self.peek()):
            self.i += 1
        return self.sx.from_codepoints(self.s[start:self.i])

    def reference(self):
        """after the &"""
        if self.at('#'):
            self.i += 1
            n = 0
            k = 0
            while not self.at(';'):
                d = self.peek()
                if not self.sx.And(d >= 48, d <= 57):
                    raise NotWellFormed('character reference')
                n = n * 10 + (d - 48)
                k += 1
                self.i += 1
            self.i += 1
            if not k:
                raise NotWellFormed('character reference')
            if not legal(self.sx, n):
                raise NotWellFormed('illegal character reference')
            return n
        name = self.name()
        self.expect(';')
        if name not in ENTITIES:
            raise NotWellFormed('entity')
        return ENTITIES[name]

    def attvalue(self):
        q = self.peek()
        if not (q == 34 or q == 39):
            raise NotWellFormed('attribute value')
        self.i += 1
        out = []
        while True:
            c = self.peek()
            self.i += 1
            if c == q:
                return out
            if c == 38:
                out.append(self.reference())
                continue
            if c == 60:
                raise NotWellFormed('< in attribute')
            if not legal(self.sx, c):
                raise NotWellFormed('illegal character')
            # white space is normalised
            if self.sx.Or(self.sx.eq(c, 9), self.sx.eq(c, 10),
                          self.sx.eq(c, 13)):
                c = 32
            out.append(c)

    def space(self):
        n = 0
        while self.at(' ') or self.at('\n'):
            self.i += 1
            n += 1
        return n

    def element(self):
        """[name, {attribute: code points}, [child or code points]]"""
        self.expect('<')
        name = self.name()
        attrs = {}
        while True:
            sp = self.space()
            if self.at('>'):
                self.i += 1
                break
            if self.at('/'):
                self.i += 1
                self.expect('>')
                return [name, attrs, []]
            if not sp:
                raise NotWellFormed('space before an attribute')
            k = self.name()
            self.space()
            self.expect('=')
            self.space()
            if k in attrs:
                raise NotWellFormed('duplicate attribute')
            attrs[k] = self.attvalue()
        kids = []
        text = []
        while True:
            c = self.peek()
            if c == 60:
                if text:
                    kids.append(text)
                    text = []
                if self.i + 1 < len(self.s) and self.s[self.i + 1] == 47:
                    self.i += 2
                    if self.name() != name:
                        raise NotWellFormed('end tag')
                    self.space()
                    self.expect('>')
                    return [name, attrs, kids]
                kids.append(self.element())
                continue
            self.i += 1
            if c == 38:
                text.append(self.reference())
                continue
            if not legal(self.sx, c):
                raise NotWellFormed('illegal character')
            if c == 62:
                # ]]> must not occur
                if len(text) > 1 and self.sx.And(
                        self.sx.eq(self.s[self.i - 2], 93),
                        self.sx.eq(self.s[self.i - 3], 93)):
                    raise NotWellFormed(']]>')
            text.append(c)

    def document(self, declaration=None):
        if declaration is not None:
            for c in declaration:
                self.expect(c)
        self.space()
        root = self.element()
        self.space()
        if self.i != len(self.s):
            raise NotWellFormed('text after the root element')
        return root


def parse(sx, text, declaration=None):
    return Reader(sx, sx.codepoints(text)).document(declaration)
