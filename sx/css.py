# -*- coding: utf-8 -*-
"""The part of CSS which the converted documents use: rules of classes, and
which of their declarations are in force. Texts are lists of code points and
numbers, see xslt."""
import re
from fractions import Fraction

from . import core
from .xslt import Num, chars, concrete_text, flat, isnum


class Malformed(Exception):
    pass


def known(x, c):
    return type(x) is int and x == ord(c)


def strip(items):
    items = list(items)
    while items and type(items[0]) is int and items[0] in (9, 10, 13, 32):
        items.pop(0)
    while items and type(items[-1]) is int and items[-1] in (9, 10, 13, 32):
        items.pop()
    return items


def uncommented(items):
    out = []
    i = 0
    quote = None
    while i < len(items):
        x = items[i]
        if quote:
            if known(x, quote):
                quote = None
        elif known(x, '"') or known(x, "'"):
            quote = chr(x)
        elif known(x, '/') and i + 1 < len(items) and \
                known(items[i + 1], '*'):
            j = i + 2
            while not (known(items[j], '*') and known(items[j + 1], '/')):
                j += 1
            i = j + 2
            out.append(32)
            continue
        out.append(x)
        i += 1
    return out


def split(items, sep):
    """at separators, which are not in strings or parentheses"""
    out = [[]]
    quote = None
    depth = 0
    for x in items:
        if quote:
            if known(x, quote):
                quote = None
        elif known(x, '"') or known(x, "'"):
            quote = chr(x)
        elif known(x, '('):
            depth += 1
        elif known(x, ')'):
            depth -= 1
        elif depth == 0 and (
                known(x, sep) if sep != ' '
                else type(x) is int and x in (9, 10, 13, 32)):
            out.append([])
            continue
        out[-1].append(x)
    if quote or depth:
        raise Malformed('string or parenthesis not closed')
    return [strip(x) for x in out]


def words(items):
    return [x for x in split(items, ' ') if x]


def declarations(items):
    """[(property, value)]"""
    out = []
    for d in split(uncommented(flat_known(items)), ';'):
        if not d:
            continue
        i = 0
        while not known(d[i], ':'):
            i += 1
            if i == len(d):
                raise Malformed('declaration: %s' % shown(d))
        name = concrete_text(strip(d[:i]))
        if name is None or not re.match(r'-?[a-z-]+$', name):
            raise Malformed('property: %s' % shown(d))
        value = strip(d[i + 1:])
        if not value:
            raise Malformed('no value: %s' % name)
        out.append((name, value))
    return out


def flat_known(items):
    """numbers which are known as their digits"""
    return flat(items)


def shown(items):
    return ''.join(chr(x) if type(x) is int else '?' for x in items)


def rules(items):
    """[(selector, [(property, value)])]"""
    items = uncommented(flat(items))
    out = []
    i = 0
    while True:
        j = i
        while j < len(items) and not known(items[j], '{'):
            j += 1
        if j == len(items):
            if strip(items[i:]):
                raise Malformed('rule: %s' % shown(items[i:]))
            return out
        k = j
        quote = False
        while quote or not known(items[k], '}'):
            if known(items[k], '"'):
                quote = not quote
            k += 1
            if k == len(items):
                raise Malformed('rule not closed')
        sel = concrete_text(strip(items[i:j]))
        if sel is None:
            raise core.Unencodable('css: selector')
        for s in sel.split(','):
            out.append((selector(s.strip()), declarations(
                items[j + 1:k])))
        i = k + 1


COMPOUND = re.compile(r'([a-z][a-z0-9]*)?((?:\.[^\s.:#>+~\[\]]+)*)'
                      r'((?:::?[a-z-]+)?)$')


def selector(s):
    """[(combinator, tag, classes, pseudo)]"""
    out = []
    comb = None
    for w in s.split():
        if w == '>':
            comb = '>'
            continue
        m = COMPOUND.match(w)
        if not m or not w:
            raise Malformed('selector: %s' % s)
        cl = [c for c in m.group(2).split('.') if c]
        for c in cl:
            if not re.match(r'-?[^\W\d][\w-]*$', c):
                raise Malformed('class: %s' % c)
        out.append((comb or ' ', m.group(1), cl, m.group(3)))
        comb = None
    return out


def fits(compound, el, pseudo):
    comb, tag, classes, ps = compound
    if ps != pseudo:
        return False
    return (not tag or tag == el[0]) and all(c in el[1] for c in classes)


def matches(sel, chain, pseudo=''):
    """chain: (tag, classes) of the element and those around it, the
    outermost first"""
    if not fits(sel[-1], chain[-1], pseudo):
        return False
    if len(sel) == 1:
        return True
    if sel[-1][0] == '>':
        return len(chain) > 1 and matches(sel[:-1], chain[:-1])
    return any(matches(sel[:-1], chain[:n]) for n in range(1, len(chain)))


def weight(sel):
    a = sum(len(c[2]) for c in sel)
    b = sum(1 for c in sel if c[1]) + sum(1 for c in sel
                                          if c[3].startswith('::'))
    return (a, b)


SHORT = {'margin': 'margin-%s', 'padding': 'padding-%s'}
SIDES = ['top', 'right', 'bottom', 'left']


def expanded(decls):
    out = []
    for name, v in decls:
        if name in SHORT:
            w = words(v)
            w = {1: w * 4, 2: w * 2, 3: w + w[1:2], 4: w}.get(len(w))
            if w is None:
                raise Malformed(name)
            out += [(SHORT[name] % s, x) for s, x in zip(SIDES, w)]
        elif name == 'border':
            out += [('border-' + s, v) for s in SIDES]
        elif name == 'text-decoration':
            out += [('text-decoration-line', v),
                    ('text-decoration-color', chars('currentcolor')),
                    ('text-decoration-style', chars('solid'))]
        else:
            out.append((name, v))
    return out


def cascade(rs, chain, pseudo='', inline=()):
    """{property: value} of an element"""
    found = []
    for i, (sel, decls) in enumerate(rs):
        if matches(sel, chain, pseudo):
            found.append((weight(sel), i, decls))
    out = {}
    for _, _, decls in sorted(found, key=lambda x: x[:2]):
        out.update(expanded(decls))
    out.update(expanded(inline))
    return out


PT = {'pt': Fraction(1), 'mm': Fraction(720, 254), 'cm': Fraction(7200, 254),
      'px': Fraction(3, 4), 'in': Fraction(72), '': Fraction(1)}


def quantity(items):
    """(number, unit)"""
    items = strip(items)
    if items and isnum(items[0]):
        n, rest = items[0], items[1:]
    else:
        i = 0
        while i < len(items) and type(items[i]) is int and \
                chr(items[i]) in '+-.0123456789':
            i += 1
        s = concrete_text(items[:i])
        if not re.match(r'[+-]?(\d+(\.\d*)?|\.\d+)$', s):
            raise Malformed('number: %s' % shown(items))
        n, rest = Num.of(Fraction(s)), items[i:]
    unit = concrete_text(rest)
    if unit is None:
        raise Malformed('unit: %s' % shown(items))
    return n, unit


def length(items):
    """points"""
    n, unit = quantity(items)
    if unit not in PT or unit == '' and n.const != 0:
        raise Malformed('length: %s' % shown(items))
    return n * PT[unit]


def close(a, b, tolerance=Fraction(3, 100)):
    """whether two numbers are almost the same"""
    return (Num.of(a) - b).between(-tolerance, tolerance)
