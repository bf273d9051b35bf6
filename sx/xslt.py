# -*- coding: utf-8 -*-
"""XSLT 1.0, as far as the stylesheets of the converters use it, over trees
whose texts and numbers are symbolic.

The stylesheets are read from the repository on every run. Strings are lists
of code points and numbers: a number which is symbolic stays a number when it
is turned into text. Numbers are polynomials with rational coefficients over
symbolic integers: the doubles of XPath are taken for reals.
"""
import io
import os
import re
import subprocess
import tempfile
from fractions import Fraction
from xml.dom import minidom
from xml.etree import ElementTree

from . import core

XSL = 'http://www.w3.org/1999/XSL/Transform'
XMLNS = 'http://www.w3.org/2000/xmlns/'


def repo():
    return os.environ.get('SX_REPO', '/repo')


def path_of(name):
    return os.path.join(repo(), 'src', 'hwp5', 'xsl', name)


def unencodable(what):
    raise core.Unencodable('xslt: ' + what)


# numbers ------------------------------------------------------------------

class Num(object):
    """polynomial: {tuple of sorted keys of atoms: coefficient}; None: NaN"""

    def __init__(self, poly):
        self.poly = poly

    @classmethod
    def of(cls, v):
        if isinstance(v, Num):
            return v
        if v is None:
            return cls(None)
        if type(v) is core.SymInt:
            k = 'a%d' % id(v)
            core.engine().data[k] = v
            return cls({(k,): Fraction(1)})
        if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
            v = Fraction(v)
            return cls({(): v} if v else {})
        raise TypeError(v)

    @property
    def nan(self):
        return self.poly is None

    @property
    def const(self):
        """its value, if it is known"""
        if self.poly is None:
            return None
        if not self.poly:
            return Fraction(0)
        if list(self.poly) == [()]:
            return self.poly[()]
        return None

    def _bin(self, o, sign):
        o = Num.of(o)
        if self.nan or o.nan:
            return Num(None)
        p = dict(self.poly)
        for k, c in o.poly.items():
            p[k] = p.get(k, 0) + sign * c
        return Num(dict((k, c) for k, c in p.items() if c))

    def __add__(self, o):
        return self._bin(o, 1)

    def __sub__(self, o):
        return self._bin(o, -1)

    def __mul__(self, o):
        o = Num.of(o)
        if self.nan or o.nan:
            return Num(None)
        p = {}
        for k1, c1 in self.poly.items():
            for k2, c2 in o.poly.items():
                k = tuple(sorted(k1 + k2))
                p[k] = p.get(k, 0) + c1 * c2
        return Num(dict((k, c) for k, c in p.items() if c))

    def __truediv__(self, o):
        o = Num.of(o)
        if self.nan or o.nan:
            return Num(None)
        c = o.const
        if not c:
            unencodable('division')
        return Num(dict((k, v / c) for k, v in self.poly.items()))

    def __neg__(self):
        return self * -1

    def scaled(self):
        """(integer, positive constant): their quotient is the number"""
        d = 1
        for c in self.poly.values():
            d = d * c.denominator // gcd(d, c.denominator)
        n = 0
        for k, c in sorted(self.poly.items()):
            t = int(c * d)
            for a in k:
                a = core.engine().data[a]
                if isinstance(a, Floor):
                    a = a.value()
                t = a * t
            n = n + t
        return n, d

    def compare(self, o, op):
        o = Num.of(o)
        if self.nan or o.nan:
            return op == '!='
        n, d = (self - o).scaled()
        return {'=': n == 0, '!=': n != 0, '<': n < 0, '<=': n <= 0,
                '>': n > 0, '>=': n >= 0}[op]

    def floor(self):
        if self.nan:
            return self
        d = 1
        for c in self.poly.values():
            d = d * c.denominator // gcd(d, c.denominator)
        if d == 1:
            return self
        if self.const is not None:
            return Num.of(self.const.numerator // self.const.denominator)
        data = core.engine().data
        key = ('floor', tuple(sorted(self.poly.items())))
        if key not in data:
            atom = 'f%d' % len(data)
            data[key] = atom
            data[atom] = Floor(self)
        return Num({(data[key],): Fraction(1)})

    def round(self):
        return (self + Fraction(1, 2)).floor()

    def render(self):
        """code points, or the number itself"""
        if self.nan:
            return chars('NaN')
        c = self.const
        if c is None:
            return [self]
        if c.denominator == 1:
            return chars(str(int(c)))
        s = repr(float(c))
        if 'e' in s:
            unencodable('number %s' % s)
        return chars(s)



    def between(self, lo, hi):
        """whether it is; by the errors of floors, if they are enough"""
        if self.nan:
            return False
        a, b = self.interval()
        if a is not None and lo <= a and b <= hi:
            return True
        return core.sx_and(self.compare(hi, '<='), self.compare(lo, '>='))

    def interval(self):
        """bounds, or (None, None): every floor is its argument, and an error
        between -1 and 0"""
        if self.const is not None:
            return self.const, self.const
        data = core.engine().data
        p = self
        lo = hi = Fraction(0)
        while True:
            ks = [k for k in p.poly if any(isinstance(data[a], Floor)
                                           for a in k)]
            if not ks:
                break
            if len(ks[0]) != 1:
                return None, None
            k = max(ks, key=lambda k: int(k[0][1:]))
            c = p.poly[k]
            rest = dict(p.poly)
            del rest[k]
            p = Num(rest) + data[k[0]].arg * c
            if c > 0:
                lo -= c
            else:
                hi -= c
        for k, c in p.poly.items():
            a, b = 1, 1
            for x in k:
                v = core.rng(data[x])
                m = [a * v[0], a * v[1], b * v[0], b * v[1]]
                a, b = min(m), max(m)
            lo += min(c * a, c * b)
            hi += max(c * a, c * b)
        return lo, hi


class Floor(object):
    """an integer, which is only known to the solver if it has to be"""

    def __init__(self, arg):
        self.arg = arg
        self.v = None

    def value(self):
        if self.v is None:
            n, d = self.arg.scaled()
            lo, hi = core.rng(n)
            e = core.engine()
            self.v = e.new_int('floor%d' % len(e.data), lo // d, hi // d)
            e.data[self] = True
            if type(self.v) is core.SymInt:
                e.assume(core.sx_and(self.v * d <= n, n < self.v * d + d))
        return self.v


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def chars(s):
    return [ord(c) for c in s]


def isnum(x):
    return isinstance(x, Num)


DIGITS = re.compile(r'\s*(-?(\d+(\.\d*)?|\.\d+))\s*$')


def concrete_text(items):
    """str, or None if there is something symbolic"""
    out = []
    for x in items:
        if isinstance(x, int):
            out.append(chr(x))
        elif isnum(x) and x.const is not None:
            out += [chr(c) for c in x.render()]
        else:
            return None
    return ''.join(out)


def to_number(items):
    if len(items) == 1 and isnum(items[0]):
        return items[0]
    s = concrete_text(items)
    if s is None:
        unencodable('number of a symbolic text')
    m = DIGITS.match(s)
    return Num.of(Fraction(m.group(1)) if m else None)


def items_eq(a, b):
    """whether two strings are the same"""
    a, b = flat(a), flat(b)
    if len(a) == len(b) and all(isnum(x) == isnum(y) for x, y in zip(a, b)):
        cs = []
        for x, y in zip(a, b):
            c = x.compare(y, '=') if isnum(x) else x == y
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return core.sx_and(*cs) if cs else True
    if not any(isnum(x) for x in a + b):
        return False
    if len(b) == 1 and isnum(b[0]):
        a, b = b, a
    if len(a) == 1 and isnum(a[0]):
        s = concrete_text(b)
        if s is not None:
            m = DIGITS.match(s)
            if not m:
                return False
            v = Num.of(Fraction(m.group(1)))
            if concrete_text(v.render()) != s:
                return False
            return a[0].compare(v, '=')
    # what is in common
    k = 0
    while k < min(len(a), len(b)) and not isnum(a[k]) and not isnum(b[k]):
        if a[k] is not b[k] and not (isinstance(a[k], int) and
                                     a[k] == b[k]):
            if isinstance(a[k], int) and isinstance(b[k], int):
                return False
            break
        k += 1
    if k:
        return items_eq(a[k:], b[k:])
    unencodable('comparison of texts')


def flat(items):
    out = []
    for x in items:
        if isnum(x):
            out += x.render()
        else:
            out.append(x)
    return out


# trees --------------------------------------------------------------------

class Node(object):
    kind = 'element'

    def __init__(self, kind, name=None, value=None, parent=None):
        self.kind = kind
        self.name = name
        self.value = value
        self.parent = parent
        self.children = []
        self.attrs = []

    def add(self, child):
        child.parent = self
        self.children.append(child)
        return child

    def attr(self, name):
        for a in self.attrs:
            if a.name == name:
                return a.value

    def string(self):
        if self.kind in ('text', 'attribute'):
            return self.value
        out = []
        for c in self.children:
            out = out + c.string()
        return out

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


def order(nodes):
    """without duplicates, in document order"""
    out = {}
    for n in nodes:
        out[id(n)] = n
    if len(out) < 2:
        return list(out.values())
    root = nodes[0].root()
    res = []

    def walk(n):
        if id(n) in out:
            res.append(n)
        for a in n.attrs:
            if id(a) in out:
                res.append(a)
        for c in n.children:
            walk(c)
    walk(root)
    return res


def E(name, attrs=(), *children):
    """an element: attributes and texts are str, numbers or lists of code
    points"""
    n = Node('element', name)
    for k, v in (attrs.items() if isinstance(attrs, dict) else attrs):
        if v is None:
            continue
        n.attrs.append(Node('attribute', k, to_items(v), n))
    for c in children:
        if not isinstance(c, Node):
            c = Node('text', None, to_items(c))
        n.add(c)
    return n


def to_items(v):
    if isinstance(v, str):
        return chars(v)
    if isinstance(v, list):
        return v
    return [Num.of(v)]


def document(root):
    r = Node('root')
    r.add(root)
    return r


def serialize(node, out=None):
    """concrete trees"""
    top = out is None
    if top:
        out = []

    def esc(items, attr=False):
        s = concrete_text(items)
        s = s.replace('&', '&amp;').replace('<', '&lt;')\
            .replace('>', '&gt;').replace('\r', '&#13;')
        if attr:
            s = s.replace('"', '&quot;').replace('\n', '&#10;')\
                .replace('\t', '&#9;')
        return s
    if node.kind == 'text':
        out.append(esc(node.value))
    elif node.kind == 'root':
        for c in node.children:
            serialize(c, out)
    else:
        out.append('<' + node.name)
        for a in node.attrs:
            out.append(' %s="%s"' % (a.name, esc(a.value, True)))
        out.append('>')
        for c in node.children:
            serialize(c, out)
        out.append('</%s>' % node.name)
    if top:
        return ''.join(out)


# XPath --------------------------------------------------------------------

TOKEN = re.compile(r'''\s*(?:
    (?P<num>\d+(?:\.\d*)?|\.\d+) |
    (?P<str>"[^"]*"|'[^']*') |
    (?P<var>\$[\w.-]+(?::[\w.-]+)?) |
    (?P<op>::|//|\.\.|!=|<=|>=|[()\[\].@,/|+=<>*-]) |
    (?P<name>[^\W\d][\w.-]*(?::(?!:)(?:[^\W\d][\w.-]*|\*))?)
    )''', re.X)

FUNCTIONS = {}


def tokens(s):
    out = []
    pos = 0
    s = s.strip()
    while pos < len(s):
        m = TOKEN.match(s, pos)
        if not m:
            raise ValueError('xpath %r' % s)
        pos = m.end()
        kind = m.lastgroup
        text = m.group(kind)
        prev = out[-1] if out else None
        if prev is not None and not (
                prev[0] == 'oper' or
                prev[0] == 'op' and prev[1] in ('::', '@', '(', '[', ',',
                                                '/', '//', '|', '+', '-',
                                                '=', '!=', '<', '<=', '>',
                                                '>=')):
            if text == '*' or text in ('and', 'or', 'div', 'mod'):
                kind = 'oper'
        if kind == 'op' and text in ('|', '+', '-', '=', '!=', '<', '<=',
                                     '>', '>='):
            kind = 'oper'
        out.append((kind, text))
    out.append(('end', ''))
    return out


class Parser(object):

    LEVELS = [('or',), ('and',), ('=', '!='), ('<', '<=', '>', '>='),
              ('+', '-'), ('*', 'div', 'mod')]

    def __init__(self, text):
        self.text = text
        self.toks = tokens(text)
        self.i = 0

    def peek(self, *texts):
        k, t = self.toks[self.i]
        return k != 'str' and t in texts

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def expect(self, text):
        if not self.peek(text):
            raise ValueError('xpath %r: %r expected' % (self.text, text))
        self.next()

    def parse(self):
        e = self.binary(0)
        if self.toks[self.i][0] != 'end':
            raise ValueError('xpath %r' % self.text)
        return e

    def binary(self, level):
        if level == len(self.LEVELS):
            return self.unary()
        e = self.binary(level + 1)
        while self.toks[self.i][0] == 'oper' and \
                self.peek(*self.LEVELS[level]):
            op = self.next()[1]
            e = ('bin', op, e, self.binary(level + 1))
        return e

    def unary(self):
        if self.peek('-'):
            self.next()
            return ('neg', self.unary())
        e = self.path()
        while self.peek('|'):
            self.next()
            e = ('union', e, self.path())
        return e

    def path(self):
        k, t = self.toks[self.i]
        start = None
        if k in ('num', 'str', 'var') or t == '(' or (
                k == 'name' and self.toks[self.i + 1] == ('op', '(') and
                t not in ('text', 'node', 'comment',
                          'processing-instruction')):
            start = self.primary()
            preds = self.predicates()
            if preds:
                start = ('filter', start, preds)
            if not self.peek('/', '//'):
                return start
            steps = []
        elif self.peek('/'):
            start = ('root',)
            steps = []
            nk, nt = self.toks[self.i + 1]
            if not (nk == 'name' or nt in ('.', '..', '@', '*')):
                self.next()
                return start
        elif self.peek('//'):
            start = ('root',)
            steps = []
        else:
            steps = [self.step()]
        while self.peek('/', '//'):
            if self.next()[1] == '//':
                steps.append(('descendant-or-self', ('type', 'node'), []))
            steps.append(self.step())
        return ('path', start, steps)

    def predicates(self):
        out = []
        while self.peek('['):
            self.next()
            out.append(self.binary(0))
            self.expect(']')
        return out

    def step(self):
        if self.peek('.'):
            self.next()
            return ('self', ('type', 'node'), [])
        if self.peek('..'):
            self.next()
            return ('parent', ('type', 'node'), [])
        axis = 'child'
        if self.peek('@'):
            self.next()
            axis = 'attribute'
        elif self.toks[self.i + 1] == ('op', '::'):
            axis = self.next()[1]
            self.next()
        k, t = self.next()
        if t == '*':
            test = ('any',)
        elif k == 'name' and self.peek('('):
            self.next()
            self.expect(')')
            test = ('type', t)
        elif k == 'name':
            test = ('name', t)
        else:
            raise ValueError('xpath %r at %r' % (self.text, t))
        return (axis, test, self.predicates())

    def primary(self):
        k, t = self.next()
        if k == 'num':
            return ('lit', Num.of(Fraction(t)))
        if k == 'str':
            return ('lit', chars(t[1:-1]))
        if k == 'var':
            return ('var', t[1:])
        if t == '(':
            e = self.binary(0)
            self.expect(')')
            return e
        self.expect('(')
        args = []
        while not self.peek(')'):
            args.append(self.binary(0))
            if self.peek(','):
                self.next()
        self.expect(')')
        return ('call', t, args)


PARSED = {}


def xpath(text):
    if text not in PARSED:
        PARSED[text] = Parser(text).parse()
    return PARSED[text]


class Context(object):

    def __init__(self, node, pos, size, vars, sheet, current=None):
        self.node = node
        self.pos = pos
        self.size = size
        self.vars = vars
        self.sheet = sheet
        self.current = current or node

    def at(self, node, pos, size, current=None):
        return Context(node, pos, size, self.vars, self.sheet,
                       current or self.current)


class Fragment(object):
    """a result tree fragment"""

    def __init__(self, node):
        self.node = node


def string(v):
    if isinstance(v, Fragment):
        return v.node.string()
    if isinstance(v, Num):
        return v.render()
    if isinstance(v, (bool, core.SymBool)):
        return chars('true' if v else 'false')
    if isinstance(v, Nodes):
        return v[0].string() if v else []
    return v


class Nodes(list):
    pass


def number(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, (bool, core.SymBool)):
        return Num.of(1 if v else 0)
    return to_number(string(v))


def boolean(v):
    """may be symbolic"""
    if isinstance(v, (bool, core.SymBool)):
        return v
    if isinstance(v, Num):
        return False if v.nan else v.compare(0, '!=')
    if isinstance(v, Nodes):
        return bool(v)
    if isinstance(v, Fragment):
        return True
    return bool(v)


def compare(op, a, b):
    if isinstance(a, Fragment):
        a = string(a)
    if isinstance(b, Fragment):
        b = string(b)
    if isinstance(a, Nodes) and not isinstance(b, (bool, core.SymBool)):
        return core.sx_or(*[compare(op, n.string(), b) for n in a]) \
            if a else False
    if isinstance(b, Nodes) and not isinstance(a, (bool, core.SymBool)):
        return core.sx_or(*[compare(op, a, n.string()) for n in b]) \
            if b else False
    if op in ('=', '!='):
        if isinstance(a, (bool, core.SymBool)) or \
                isinstance(b, (bool, core.SymBool)):
            r = bool(boolean(a)) == bool(boolean(b))
        elif isinstance(a, Num) or isinstance(b, Num):
            return number(a).compare(number(b), op)
        else:
            r = items_eq(a, b)
        return r if op == '=' else core.sx_not(r)
    return number(a).compare(number(b), op)


def evaluate(e, c):
    kind = e[0]
    if kind == 'lit':
        return e[1]
    if kind == 'var':
        return c.vars.get(e[1], c)
    if kind == 'neg':
        return -number(evaluate(e[1], c))
    if kind == 'union':
        a, b = evaluate(e[1], c), evaluate(e[2], c)
        return Nodes(order(list(a) + list(b)))
    if kind == 'bin':
        op = e[1]
        if op in ('and', 'or'):
            a = bool(boolean(evaluate(e[2], c)))
            if a == (op == 'or'):
                return a
            return boolean(evaluate(e[3], c))
        a, b = evaluate(e[2], c), evaluate(e[3], c)
        if op in ('=', '!=', '<', '<=', '>', '>='):
            return compare(op, a, b)
        a, b = number(a), number(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == 'div':
            return a / b
        if a.const is None or not b.const:
            unencodable('mod')
        x, y = a.const, b.const
        q = abs(x) // abs(y)
        return Num.of((abs(x) - q * abs(y)) * (-1 if x < 0 else 1))
    if kind == 'call':
        return call(e[1], e[2], c)
    if kind == 'root':
        return Nodes([c.node.root()])
    if kind == 'filter':
        return select(evaluate(e[1], c), e[2], c)
    if kind == 'path':
        nodes = Nodes([c.node]) if e[1] is None else evaluate(e[1], c)
        if not isinstance(nodes, Nodes):
            unencodable('path from a value')
        for axis, test, preds in e[2]:
            out = []
            for n in nodes:
                out += select(walk(n, axis, test, c), preds, c)
            nodes = Nodes(order(out))
        return nodes
    raise ValueError(e)


def select(nodes, preds, c):
    for p in preds:
        out = Nodes()
        for i, n in enumerate(nodes):
            v = evaluate(p, c.at(n, i + 1, len(nodes)))
            if isinstance(v, Num):
                v = v.compare(i + 1, '=')
            if boolean(v):
                out.append(n)
        nodes = out
    return nodes


def descendants(n):
    for x in n.children:
        yield x
        for y in descendants(x):
            yield y


def axis_nodes(n, axis):
    if axis == 'child':
        return n.children
    if axis == 'attribute':
        return n.attrs
    if axis == 'self':
        return [n]
    if axis == 'parent':
        return [n.parent] if n.parent is not None else []
    if axis == 'descendant':
        return list(descendants(n))
    if axis == 'descendant-or-self':
        return [n] + list(descendants(n))
    if axis in ('ancestor', 'ancestor-or-self'):
        out = [n] if axis == 'ancestor-or-self' else []
        while n.parent is not None:
            n = n.parent
            out.append(n)
        return out
    if axis in ('following-sibling', 'preceding-sibling'):
        if n.parent is None or n.kind == 'attribute':
            return []
        ss = n.parent.children
        i = [k for k, s in enumerate(ss) if s is n][0]
        return ss[i + 1:] if axis[0] == 'f' else ss[:i][::-1]
    unencodable('axis ' + axis)


def test_node(n, axis, test):
    if test[0] == 'type':
        return {'node': True, 'text': n.kind == 'text'}[test[1]]
    principal = 'attribute' if axis == 'attribute' else 'element'
    if n.kind != principal:
        return False
    if test[0] == 'any':
        return True
    return n.name == test[1]


def walk(n, axis, test, c):
    if test[0] == 'type' and test[1] not in ('node', 'text'):
        unencodable('node test')
    return Nodes(x for x in axis_nodes(n, axis) if test_node(x, axis, test))


def concrete(items, what):
    s = concrete_text(items)
    if s is None:
        unencodable(what)
    return s


def call(name, args, c):
    if name == 'position':
        return Num.of(c.pos)
    if name == 'last':
        return Num.of(c.size)
    if name == 'current':
        return Nodes([c.current])
    vs = [evaluate(a, c) for a in args]
    if name == 'number':
        return number(vs[0] if vs else Nodes([c.node]))
    if name == 'string':
        return string(vs[0] if vs else Nodes([c.node]))
    if name == 'boolean':
        return boolean(vs[0])
    if name == 'not':
        return core.sx_not(boolean(vs[0]))
    if name in ('true', 'false'):
        return name == 'true'
    if name == 'floor':
        return number(vs[0]).floor()
    if name == 'ceiling':
        return -((-number(vs[0])).floor())
    if name == 'round':
        return number(vs[0]).round()
    if name == 'count':
        return Num.of(len(vs[0]))
    if name == 'sum':
        t = Num.of(0)
        for n in vs[0]:
            t = t + number(n.string())
        return t
    if name in ('local-name', 'name'):
        ns = vs[0] if vs else Nodes([c.node])
        n = ns[0].name if ns else None
        return chars(n or '')
    if name == 'concat':
        out = []
        for v in vs:
            out = out + string(v)
        return out
    if name == 'string-length':
        s = flat(string(vs[0] if vs else Nodes([c.node])))
        if any(isnum(x) for x in s):
            unencodable('length of a number')
        return Num.of(len(s))
    if name == 'translate':
        a, f, t = [string(v) for v in vs]
        f, t = chars(concrete(f, 'translate')), chars(concrete(t, name))
        table = {}
        for i, x in enumerate(f):
            if x not in table:
                table[x] = t[i] if i < len(t) else None
        out = []
        for x in flat(a):
            if isinstance(x, int):
                x = table.get(x, x)
            elif isnum(x):
                # digits, point and minus may not be concerned
                if any(chr(k) in '0123456789.-' for k in table):
                    unencodable('translate of a number')
            else:
                if None in table.values():
                    if any([bool(x == k) for k, v in table.items()
                            if v is None]):
                        continue
                y = x
                for k, v in table.items():
                    if v is not None:
                        y = core.sx_ite(x == k, v, y)
                x = y
            if x is not None:
                out.append(x)
        return out
    if name in ('contains', 'starts-with'):
        a, b = flat(string(vs[0])), flat(string(vs[1]))
        if any(isnum(x) for x in a + b):
            sa, sb = concrete_text(a), concrete_text(b)
            if sa is None or sb is None:
                unencodable(name)
        last = max(len(a) - len(b), -1) if name == 'contains' else \
            (0 if len(a) >= len(b) else -1)
        cs = [items_eq(a[i:i + len(b)], b) for i in range(last + 1)]
        return core.sx_or(*cs) if cs else False
    if name in ('substring-before', 'substring-after', 'substring',
                'normalize-space'):
        ss = [concrete(string(v), name) for v in vs[:2]] if name != \
            'substring' else None
        if name == 'substring-before':
            return chars(ss[0].split(ss[1], 1)[0] if ss[1] in ss[0] else '')
        if name == 'substring-after':
            return chars(ss[0].split(ss[1], 1)[1] if ss[1] in ss[0] else '')
        if name == 'normalize-space':
            s = ss[0] if ss else concrete(c.node.string(), name)
            return chars(' '.join(s.split()))
        a = flat(string(vs[0]))
        ns = [number(v).const for v in vs[1:]]
        if any(isnum(x) for x in a) or any(n is None or n.denominator != 1
                                           for n in ns):
            unencodable(name)
        lo = int(ns[0])
        hi = lo + int(ns[1]) if len(ns) > 1 else len(a) + 1
        return [x for i, x in enumerate(a, 1) if lo <= i < hi]
    unencodable('function ' + name)


# stylesheets --------------------------------------------------------------

class Vars(object):
    """variables of a scope"""

    def __init__(self, sheet, parent=None):
        self.sheet = sheet
        self.parent = parent
        self.d = {}

    def get(self, name, c):
        v = self
        while v is not None:
            if name in v.d:
                return v.d[name]
            v = v.parent
        return self.sheet.global_var(name, c)


class Template(object):
    pass


class Sheet(object):

    def __init__(self, path):
        self.templates = []
        self.named = {}
        self.globals = {}
        self.count = 0
        self.level = 0
        self.load(path)

    def load(self, path):
        with io.open(path, 'rb') as f:
            doc = minidom.parseString(f.read())
        root = doc.documentElement
        kids = [n for n in root.childNodes if n.nodeType == n.ELEMENT_NODE]
        for n in kids:
            if is_xsl(n, 'import'):
                self.load(os.path.join(os.path.dirname(path),
                                       n.getAttribute('href')))
        self.level += 1
        for n in kids:
            if is_xsl(n, 'template'):
                self.add(n)
            elif is_xsl(n, 'variable') or is_xsl(n, 'param'):
                self.globals[n.getAttribute('name')] = n
            elif is_xsl(n, 'import') or is_xsl(n, 'output'):
                pass
            elif n.namespaceURI == XSL:
                unencodable(n.localName)

    def add(self, n):
        self.count += 1
        name = n.getAttribute('name')
        if name:
            self.named[name] = n
        match = n.getAttribute('match')
        if not match:
            return
        for alt in alternatives(xpath(match)):
            t = Template()
            t.node = n
            t.mode = n.getAttribute('mode') or None
            t.pattern = alt
            p = n.getAttribute('priority')
            t.rank = (self.level, float(p) if p else priority(alt),
                      self.count)
            self.templates.append(t)
        self.sorted = None

    def global_var(self, name, c):
        if name not in self.globals:
            raise ValueError('variable ' + name)
        if name not in self.cache:
            root = c.node.root()
            gc = Context(root, 1, 1, Vars(self), self)
            self.cache[name] = value_of_var(self.globals[name], gc)
        return self.cache[name]

    def transform(self, doc):
        self.cache = {}
        result = Node('root')
        c = Context(doc, 1, 1, Vars(self), self)
        apply_to(c, Nodes([doc]), None, {}, result)
        return result


def alternatives(e):
    if e[0] == 'union':
        return alternatives(e[1]) + alternatives(e[2])
    return [e]


def priority(e):
    if e == ('root',):
        return 0.5
    if e[0] == 'path' and e[1] is None and len(e[2]) == 1:
        axis, test, preds = e[2][0]
        if not preds:
            return {'name': 0.0, 'any': -0.5, 'type': -0.5}[test[0]]
    return 0.5


def is_xsl(n, name):
    return n.nodeType == n.ELEMENT_NODE and n.namespaceURI == XSL and \
        n.localName == name


def matches(pattern, node, c):
    if pattern == ('root',):
        return node.kind == 'root'
    if pattern[0] != 'path':
        unencodable('pattern')
    start, steps = pattern[1], pattern[2]

    def up(n, i):
        axis, test, preds = steps[i]
        if axis not in ('child', 'attribute', 'descendant-or-self'):
            unencodable('pattern')
        if axis == 'descendant-or-self':
            # '//'
            x = n
            while x is not None:
                if (i == 0 and (start is None or x.kind == 'root')) or \
                        (i > 0 and up(x, i - 1)):
                    return True
                x = x.parent
            return False
        if not test_node(n, axis, test) or n.kind == 'root':
            return False
        if preds:
            sibs = Nodes(x for x in axis_nodes(n.parent, axis)
                         if test_node(x, axis, test))
            if not any(x is n for x in select_one(sibs, preds, n, c)):
                return False
        if i == 0:
            return start is None or n.parent.kind == 'root'
        return up(n.parent, i - 1)
    return up(node, len(steps) - 1)


def positional(e):
    if isinstance(e, tuple):
        if e[:1] == ('call',) and e[1] in ('position', 'last'):
            return True
        return any(positional(x) for x in e)
    if isinstance(e, list):
        return any(positional(x) for x in e)
    return False


def select_one(sibs, preds, node, c):
    if all(p[0] == 'bin' and p[1] in ('=', '!=', 'and', 'or') and
           not positional(p) for p in preds):
        # no need to look at the others
        return select(Nodes([node]), preds, c)
    return select(sibs, preds, c)


def find_template(c, node, mode):
    sheet = c.sheet
    if sheet.sorted is None:
        sheet.sorted = sorted(sheet.templates, key=lambda t: t.rank,
                              reverse=True)
        sheet.index = {}
        for t in sheet.sorted:
            name = None
            if t.pattern[0] == 'path':
                axis, test, preds = t.pattern[2][-1]
                name = test[1] if test[0] == 'name' else '*'
            else:
                name = '/'
            sheet.index.setdefault(t.mode, []).append((name, t))
    key = {'root': '/', 'text': '#'}.get(node.kind, node.name)
    for name, t in sheet.index.get(mode, ()):
        if name == key or name == '*':
            if matches(t.pattern, node, c):
                return t.node


def apply_to(c, nodes, mode, params, out):
    for i, n in enumerate(nodes):
        t = find_template(c, n, mode)
        nc = Context(n, i + 1, len(nodes), Vars(c.sheet), c.sheet)
        if t is not None:
            instantiate(t, nc, params, out)
        elif n.kind in ('element', 'root'):
            apply_to(nc, Nodes(n.children), mode, {}, out)
        elif n.kind in ('text', 'attribute'):
            put_text(out, n.value)


def put_text(out, items):
    if not items:
        return
    if out.children and out.children[-1].kind == 'text':
        out.children[-1].value = out.children[-1].value + items
    else:
        out.add(Node('text', None, list(items)))


def put_attr(out, name, items):
    if out.children:
        # ignored by processors
        return
    out.attrs = [a for a in out.attrs if a.name != name]
    out.attrs.append(Node('attribute', name, items, out))


def children(n):
    """instructions and texts of an element of a stylesheet"""
    if not hasattr(n, 'sx_children'):
        out = []
        for x in n.childNodes:
            if x.nodeType in (x.TEXT_NODE, x.CDATA_SECTION_NODE):
                if x.data.strip() or is_xsl(n, 'text'):
                    out.append(x)
            elif x.nodeType == x.ELEMENT_NODE:
                out.append(x)
        n.sx_children = out
    return n.sx_children


def instantiate(t, c, params, out):
    body(children(t), c, out, params)


def value_of_var(n, c):
    if n.hasAttribute('select'):
        return evaluate(xpath(n.getAttribute('select')), c)
    kids = children(n)
    if not kids:
        return []
    r = Node('root')
    body(kids, Context(c.node, c.pos, c.size, Vars(c.sheet, c.vars),
                       c.sheet), r)
    return Fragment(r)


def avt(text, c):
    out = []
    pos = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^}]*)\}', text):
        out += chars(text[pos:m.start()])
        if m.group(1) is None:
            out += chars(m.group(0)[0])
        else:
            out += string(evaluate(xpath(m.group(1)), c))
        pos = m.end()
    return out + chars(text[pos:])


def qname(n, name, attribute=False):
    """{uri}local of a name used in an element of a stylesheet"""
    prefix, _, local = name.rpartition(':')
    if not prefix and attribute:
        return local
    attr = 'xmlns:' + prefix if prefix else 'xmlns'
    while n is not None and n.nodeType == n.ELEMENT_NODE:
        if n.hasAttribute(attr):
            uri = n.getAttribute(attr)
            return '{%s}%s' % (uri, local) if uri else local
        n = n.parentNode
    if prefix:
        raise ValueError('prefix ' + prefix)
    return local


def with_params(n, c):
    out = {}
    for x in children(n):
        if is_xsl(x, 'with-param'):
            out[x.getAttribute('name')] = value_of_var(x, c)
        else:
            unencodable(x.nodeName)
    return out


def body(kids, c, out, params=None):
    c = Context(c.node, c.pos, c.size, Vars(c.sheet, c.vars), c.sheet)
    for n in kids:
        if n.nodeType != n.ELEMENT_NODE:
            put_text(out, chars(n.data))
        elif n.namespaceURI == XSL:
            instruction(n, c, out, params)
        else:
            e = out.add(Node('element', qname(n, n.nodeName)))
            for i in range(n.attributes.length):
                a = n.attributes.item(i)
                if a.namespaceURI == XMLNS or a.name.startswith('xmlns'):
                    continue
                put_attr(e, qname(n, a.name, True), avt(a.value, c))
            body(children(n), c, e)


def instruction(n, c, out, params):
    name = n.localName

    def ev(attr):
        return evaluate(xpath(n.getAttribute(attr)), c)
    if name == 'value-of':
        put_text(out, string(ev('select')))
    elif name == 'text':
        for x in children(n):
            put_text(out, chars(x.data))
    elif name == 'apply-templates':
        nodes = ev('select') if n.hasAttribute('select') else \
            Nodes(c.node.children)
        apply_to(c, nodes, n.getAttribute('mode') or None,
                 with_params(n, c), out)
    elif name == 'call-template':
        t = c.sheet.named[n.getAttribute('name')]
        instantiate(t, Context(c.node, c.pos, c.size, Vars(c.sheet),
                               c.sheet), with_params(n, c), out)
    elif name == 'param':
        p = n.getAttribute('name')
        c.vars.d[p] = params[p] if params and p in params else \
            value_of_var(n, c)
    elif name == 'variable':
        c.vars.d[n.getAttribute('name')] = value_of_var(n, c)
    elif name == 'element':
        v = concrete(avt(n.getAttribute('name'), c), 'name')
        e = out.add(Node('element', qname(n, v)))
        body(children(n), c, e)
    elif name == 'attribute':
        v = concrete(avt(n.getAttribute('name'), c), 'name')
        r = Node('root')
        body(children(n), c, r)
        put_attr(out, qname(n, v, True), r.string())
    elif name == 'choose':
        for x in children(n):
            if is_xsl(x, 'otherwise') or boolean(evaluate(
                    xpath(x.getAttribute('test')), c)):
                body(children(x), c, out)
                break
    elif name == 'if':
        if boolean(ev('test')):
            body(children(n), c, out)
    elif name == 'for-each':
        nodes = ev('select')
        for i, x in enumerate(nodes):
            body(children(n), Context(x, i + 1, len(nodes), c.vars,
                                      c.sheet), out)
    elif name == 'number':
        if not n.hasAttribute('value') or n.hasAttribute('format'):
            unencodable('number')
        put_text(out, number(ev('value')).round().render())
    elif name == 'copy-of':
        v = ev('select')
        if isinstance(v, Fragment):
            v = v.node.children
        elif not isinstance(v, Nodes):
            put_text(out, string(v))
            return
        for x in v:
            copy(x, out)
    elif name in ('comment', 'message', 'processing-instruction'):
        pass
    else:
        unencodable(name)


def copy(x, out):
    if x.kind == 'text':
        put_text(out, x.value)
    elif x.kind == 'attribute':
        put_attr(out, x.name, x.value)
    elif x.kind == 'element':
        e = out.add(Node('element', x.name))
        for a in x.attrs:
            put_attr(e, a.name, a.value)
        for k in x.children:
            copy(k, e)
    else:
        for k in x.children:
            copy(k, out)


# conversions --------------------------------------------------------------

SHEETS = {}


def convert(sx, name, doc):
    """the result of a stylesheet: a tree whose root is a node of kind
    'root'; concrete documents are converted by xsltproc"""
    path = path_of(name)
    if sx.symbolic:
        if path not in SHEETS:
            SHEETS[path] = Sheet(path)
        return SHEETS[path].transform(doc)
    return by_xsltproc(path, serialize(doc))


def by_xsltproc(path, text):
    fd, src = tempfile.mkstemp(suffix='.xml')
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(text.encode('utf-8'))
        p = subprocess.run(['xsltproc', '--nonet', '--novalid', path, src],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    finally:
        os.unlink(src)
    if p.returncode != 0:
        raise AssertionError('xsltproc: %s' % p.stderr.decode(
            'utf-8', 'replace'))
    out = Node('root')
    if path.endswith('plaintext.xsl') or path.endswith('hwp5css.xsl'):
        put_text(out, chars(p.stdout.decode('utf-8')))
        return out

    def build(e, parent):
        n = parent.add(Node('element', e.tag))
        for k, v in e.attrib.items():
            n.attrs.append(Node('attribute', k, chars(v), n))
        put_text(n, chars(e.text or ''))
        for k in e:
            build(k, n)
            put_text(n, chars(k.tail or ''))
    build(ElementTree.fromstring(p.stdout), out)
    return out
