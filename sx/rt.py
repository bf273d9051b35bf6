# -*- coding: utf-8 -*-
"""Runtime of the instrumented code: models of builtins and C functions."""
import array
import base64
import binascii
import builtins
import collections
import codecs
import functools
import io
import itertools
import json
import logging
import operator
import os
import re
import struct
import sys
import types

import z3

from . import core
from . import values as V
from .core import (SymBool, SymFloat, SymInt, Unencodable, mkbool, mkint,
                   rng, sx_and, sx_ite, sx_not, sx_or, term_of)
from .values import (FmtAtom, OpaqueAtom, SymArray, SymByteArray, SymBytes,
                     SymBytesIO, SymSeq, SymStr, SymStringIO, SYMTYPES,
                     belems, deep_sym, hexdigit, hexdigits, is_sym, isbytes,
                     mkbytes, mkstr, pytype)

FUNCS = set()           # functions of the code under test that were entered


def sx_enter(name):
    FUNCS.add(name)


def E():
    return core.ENGINE


# --------------------------------------------------------------------------
# dictionaries / sets with symbolic keys

_symkeyed = {}          # id(container) -> container


def reset_path():
    _symkeyed.clear()


class _raw(object):
    def __enter__(self):
        self.old = E().raw_hash
        E().raw_hash = True

    def __exit__(self, *a):
        E().raw_hash = self.old


def _scan(d, key):
    """the stored key equal to `key`, or None (forks)"""
    for k in list(d):
        if k is key:
            return (k,)
        if not deep_sym(k) and not deep_sym(key):
            if k == key:
                return (k,)
            continue
        if _keytype_differs(k, key):
            continue
        if deep_eq(k, key):
            return (k,)
    return None


def _keytype_differs(a, b):
    ta, tb = pytype(a), pytype(b)
    if issubclass(ta, (int, float)) and issubclass(tb, (int, float)):
        return False
    if issubclass(ta, tb) or issubclass(tb, ta):
        return False
    return True


def _keyed(d, key):
    return id(d) in _symkeyed or deep_sym(key)


_NODEF = object()


def _lookup_grouped(d, key, default=_NODEF):
    """value of d[key] for a symbolic int key over concrete int keys, forking
    once per distinct value rather than once per key"""
    groups = []
    byid = {}
    for k, v in d.items():
        g = byid.get(id(v))
        if g is not None:
            g[0].append(k)
        else:
            g = byid[id(v)] = ([k], v)
            groups.append(g)
    if len(groups) > 1 and all(isinstance(g[1], (str, SymStr))
                               for g in groups):
        # texts: keep the selection symbolic
        if isinstance(default, (str, SymStr)):
            def thunk():
                out = []
                for ks, v in groups:
                    cs = [key == k for k in ks
                          if not _keytype_differs(k, key)]
                    c = sx_or(*cs) if cs else False
                    if c is not False:
                        out.append((c, v))
                return out
            return (SymStr([V.ChoiceAtom(thunk, default)]),)
        alts = []
        for ks, v in groups:
            cs = [key == k for k in ks if not _keytype_differs(k, key)]
            c = sx_or(*cs) if cs else False
            if c is True:
                return (v,)
            if c is not False:
                alts.append((c, v))
        if not alts:
            return None
        if sx_or(*[c for c, v in alts]):
            if len(alts) == 1:
                return (alts[0][1],)
            return (SymStr([V.ChoiceAtom(alts[:-1], alts[-1][1])]),)
        return None
    for ks, v in groups:
        cs = [key == k for k in ks if not _keytype_differs(k, key)]
        if cs and sx_or(*cs):
            return (v,)
    return None


def dict_find(d, key):
    """(value,) or None"""
    if isinstance(key, (SymInt, SymStr)) and id(d) not in _symkeyed:
        return _lookup_grouped(d, key)
    k = _scan(d, key)
    if k is None:
        return None
    return (_rawget(d, k[0]),)


def _rawget(d, k):
    with _raw():
        for kk, v in d.items():
            if kk is k:
                return v
    raise KeyError(k)


def dict_set(d, key, value):
    k = _scan(d, key)
    if k is not None:
        with _raw():
            if not deep_sym(k[0]):
                dict.__setitem__(d, k[0], value)
            else:
                # same object: hash is constant, identity matches
                dict.__setitem__(d, k[0], value)
        return
    _symkeyed[id(d)] = d
    with _raw():
        # constant hash, never equal to another key on this path
        dict.__setitem__(d, _Frozen.wrap(key), value)


class _Frozen(object):
    @staticmethod
    def wrap(key):
        return key


def dict_del(d, key):
    k = _scan(d, key)
    if k is None:
        raise KeyError('<symbolic>')
    with _raw():
        dict.__delitem__(d, k[0])


def deep_eq(a, b):
    """equality as a (possibly symbolic) truth value, without forking"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if not isinstance(b, list if isinstance(a, list) else tuple):
            return False
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = deep_eq(x, y)
            if c is False:
                return False
            cs.append(c)
        return sx_and(*cs)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        for k, x in a.items():
            if k not in b:
                return False
            c = deep_eq(x, b[k])
            if c is False:
                return False
            cs.append(c)
        return sx_and(*cs)
    r = (a == b)
    return r


# --------------------------------------------------------------------------
# operators

def sx_getitem(obj, i):
    t = type(obj)
    if isinstance(obj, dict):
        if (is_sym(i) or type(i) is tuple and deep_sym(i) or
                (_symkeyed and id(obj) in _symkeyed)):
            r = dict_find(obj, i)
            if r is not None:
                return r[0]
            m = getattr(type(obj), '__missing__', None)
            if m is not None and not isinstance(obj, collections.Counter):
                if isinstance(obj, collections.defaultdict):
                    v = obj.default_factory()
                    dict_set(obj, i, v)
                    return v
                return m(obj, i)
            raise KeyError(i)
        return obj[i]
    if type(i) is slice:
        if is_sym(i.start) or is_sym(i.stop) or is_sym(i.step):
            i = V.norm_slice(i, len(obj))
        return obj[i]
    if type(i) is SymInt and isinstance(obj, (list, tuple, str, bytes)):
        n = len(obj)
        if sx_or(i >= n, i < -n):
            raise IndexError('%s index out of range' % t.__name__)
        if isinstance(obj, (str, bytes)) and sx_and(i >= 0):
            el = [ord(c) for c in obj] if isinstance(obj, str) else list(obj)
            r = el[-1]
            for k in range(n - 2, -1, -1):
                r = sx_ite(i == k, el[k], r)
            return mkstr([r]) if isinstance(obj, str) else r
        return obj[E().concretize(i)]
    return obj[i]


def sx_setitem(obj, i, v):
    if isinstance(obj, dict):
        if is_sym(i) or type(i) is tuple and deep_sym(i) or \
                id(obj) in _symkeyed:
            if type(obj).__setitem__ is dict.__setitem__ or \
                    isinstance(obj, collections.OrderedDict):
                dict_set(obj, i, v)
                return
    if type(i) is slice:
        i = V.norm_slice(i, len(obj))
    if type(obj) is bytearray and (is_sym(v) or deep_sym(v)):
        raise Unencodable('symbolic store into a bytearray')
    obj[i] = v


def sx_delitem(obj, i):
    if isinstance(obj, dict) and (deep_sym(i) or id(obj) in _symkeyed):
        dict_del(obj, i)
        return
    if type(i) is slice:
        i = V.norm_slice(i, len(obj))
    del obj[i]


def sx_contains(item, coll, neg=False):
    r = _contains(item, coll)
    return sx_not(r) if neg else r


def _contains(item, coll):
    if isinstance(coll, (dict, set, frozenset)):
        if deep_sym(item) or id(coll) in _symkeyed:
            if isinstance(item, (SymInt, SymStr)) and \
                    id(coll) not in _symkeyed:
                return sx_or(*[item == k for k in coll
                               if not _keytype_differs(k, item)])
            return _scan(coll, item) is not None
        return item in coll
    if isinstance(coll, (type({}.keys()),)) and deep_sym(item):
        return sx_or(*[deep_eq(item, k) for k in coll
                       if not _keytype_differs(k, item)])
    if isinstance(coll, (list, tuple)):
        if deep_sym(item) or deep_sym(coll):
            return sx_or(*[deep_eq(item, k) for k in coll
                           if not _keytype_differs(k, item)])
        return item in coll
    if isinstance(coll, str) and isinstance(item, SymStr):
        e = item._e
        if len(e) == 1:
            return sx_or(*[e[0] == ord(c) for c in set(coll)])
        return V.SymStr([ord(c) for c in coll]).find(item) >= 0
    if isinstance(coll, SymStr):
        if isinstance(item, (str, SymStr)) and len(item) == 1:
            return coll.contains_term(item)
        return item in coll
    if isinstance(coll, SymBytes) and isinstance(item, (int, SymInt)):
        return sx_or(*[e == item for e in coll._e])
    if isinstance(coll, (bytes, bytearray)) and is_sym(item):
        if isinstance(item, SymInt):
            return sx_or(*[item == c for c in set(coll)])
        return SymBytes(coll).find(item) >= 0
    if isinstance(coll, range) and isinstance(item, SymInt):
        if len(coll) == 0:
            return False
        lo, hi = min(coll), max(coll)
        st = abs(coll.step)
        c = [item >= lo, item <= hi]
        if st != 1:
            c.append((item - lo) % st == 0)
        return sx_and(*c)
    return item in coll


def sx_mod(a, b):
    if isinstance(a, str) and deep_sym(b):
        return percent_format(a, b)
    if isinstance(a, bytes) and deep_sym(b):
        raise Unencodable('bytes % formatting')
    return a % b


_pct = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)'
                  r'(?P<width>\*|\d+)?(?:\.(?P<prec>\d+))?[hlL]?'
                  r'(?P<conv>[a-zA-Z%])')


def text_of(x):
    """str(x)"""
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymInt):
        f = getattr(x._sx_cls, '__str__', None)
        if f is not int.__str__ and f is not object.__str__ and \
                isinstance(f, types.FunctionType):
            return f(x)
        f = getattr(x._sx_cls, '__repr__', None)
        if isinstance(f, types.FunctionType):
            return f(x)
        return SymStr([FmtAtom('d', x)])
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, SymFloat):
        return SymStr([OpaqueAtom(('float', x._sx_key))])
    if deep_sym(x):
        return repr_of(x)
    f = getattr(type(x), '__str__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, BaseException) and deep_sym(x.args):
        if len(x.args) == 1:
            return text_of(x.args[0])
        return repr_of(x.args)
    return str(x)


def repr_of(x):
    if isinstance(x, SymInt):
        f = getattr(x._sx_cls, '__repr__', None)
        if isinstance(f, types.FunctionType):
            return f(x)
        return SymStr([FmtAtom('d', x)])
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, (SymBytes, SymStr)):
        return SymStr([OpaqueAtom(('repr', tuple(x._e)))])
    if isinstance(x, SymFloat):
        return SymStr([OpaqueAtom(('float', x._sx_key))])
    if deep_sym(x):
        if isinstance(x, (tuple, list)):
            parts = [repr_of(y) for y in x]
            r = sjoin(', ', parts)
            if isinstance(x, list):
                return '[' + r + ']'
            return '(' + r + (',)' if len(x) == 1 else ')')
        if isinstance(x, dict):
            return '{' + sjoin(', ', [sjoin(': ', [repr_of(k), repr_of(v)])
                                      for k, v in x.items()]) + '}'
        return SymStr([OpaqueAtom(('repr', id(x)))])
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def sjoin(sep, parts):
    parts = list(parts)
    if any(isinstance(p, SymStr) for p in parts) or isinstance(sep, SymStr):
        items = []
        s = SymStr.raw_items(sep)
        for i, p in enumerate(parts):
            if i:
                items.extend(s)
            items.extend(SymStr.raw_items(p))
        return mkstr(items)
    return sep.join(parts)


def fmt_int(v, spec):
    """format(v, spec) for an int type spec"""
    if isinstance(v, SymBool):
        v = v._int()
    if not isinstance(v, SymInt):
        return format(v, spec)
    m = re.match(r'^(0?)(\d*)([dxXob]?)$', spec)
    if not m:
        raise Unencodable('format spec %r' % spec)
    z, w, t = m.groups()
    t = t or 'd'
    w = int(w) if w else 0
    lo, hi = rng(v)
    if t in 'xX' and z and lo >= 0 and hi < 16 ** w:
        digs = [hexdigit((v >> (4 * i)) & 15, t == 'X')
                for i in range(w - 1, -1, -1)]
        return mkstr(digs)
    if w == 0:
        return SymStr([FmtAtom(t, v)])
    return SymStr([FmtAtom('%s%d%s' % (z, w, t), v)])


def percent_format(fmt, args):
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    out = []
    pos = 0
    ai = 0
    for m in _pct.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        if m.group('width') == '*':
            raise Unencodable('%* format')
        if m.group('key') is not None:
            a = args[m.group('key')]
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            a = args[ai]
            ai += 1
        flags, width = m.group('flags') or '', m.group('width') or ''
        if not deep_sym(a):
            spec = m.group(0)
            if m.group('key') is not None:
                spec = '%' + spec[spec.index(')') + 1:]
            out.append(spec % (a,))
            continue
        if conv in 'sr':
            t = text_of(a) if conv == 's' else repr_of(a)
            if width:
                t = t.ljust(int(width)) if '-' in flags \
                    else t.rjust(int(width))
            out.append(t)
        elif conv in 'dxXiuo':
            if not isinstance(a, (SymInt, SymBool)):
                if isinstance(a, SymFloat):
                    out.append(SymStr([OpaqueAtom(('int', a))]))
                    continue
                raise TypeError('%%%s format: a number is required' % conv)
            if set(flags) - {'0'}:
                raise Unencodable('format flags %r' % flags)
            c = 'd' if conv in 'iu' else conv
            out.append(fmt_int(a, ('0' if '0' in flags else '') + width + c))
        elif conv == 'c':
            out.append(V.chr_of(a) if isinstance(a, SymInt) else a)
        else:
            out.append(SymStr([OpaqueAtom((m.group(0), a))]))
    out.append(fmt[pos:])
    if not isinstance(args, dict) and ai < len(args):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return sjoin('', out)


def sx_format(v, spec):
    if not deep_sym(v) and not deep_sym(spec):
        f = getattr(type(v), '__str__', None)
        if spec == '' and isinstance(f, types.FunctionType) and \
                type(v).__format__ is object.__format__:
            return f(v)
        return format(v, spec)
    if isinstance(spec, SymStr):
        raise Unencodable('symbolic format spec')
    if spec == '' or spec == 's':
        return text_of(v)
    if isinstance(v, (SymInt, SymBool)):
        return fmt_int(v, spec)
    if isinstance(v, SymFloat):
        return SymStr([OpaqueAtom((spec, v))])
    raise Unencodable('format spec %r' % spec)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 'r':
                v = repr_of(v)
            elif conv == 's':
                v = text_of(v)
            elif conv == 'a':
                v = repr_of(v)
            out.append(sx_format(v, spec))
        else:
            out.append(p)
    return sjoin('', out)


def str_format(fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = _string_split(field)
        if first == '':
            first = auto
            auto += 1
        v = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, name in rest:
            v = getattr(v, name) if is_attr else sx_getitem(v, name)
        if spec and '{' in spec:
            spec = str_format(spec, args, kwargs)
        if conv == 'r':
            v = repr_of(v)
        elif conv == 's':
            v = text_of(v)
        out.append(sx_format(v, spec or ''))
    return sjoin('', out)


def _string_split(field):
    import _string
    return _string.formatter_field_name_split(field)


# --------------------------------------------------------------------------
# struct

_codes = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False),
          'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
          'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if isinstance(fmt, struct.Struct):
        fmt = fmt.format
    order = '@'
    if fmt and fmt[0] in '<>=!@':
        order, fmt = fmt[0], fmt[1:]
    little = order in '<=@'
    out = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', fmt):
        n = int(m.group(1)) if m.group(1) else None
        c = m.group(2)
        if order == '@' and c not in 'bBcsx?' and \
                len(re.sub(r'[\d\s]', '', fmt)) > 1:
            raise Unencodable('native struct alignment')
        if order == '@' and c in 'lL':
            raise Unencodable('native long')
        if c in 'sp':
            out.append((c, 1 if n is None else n))
        else:
            for _ in range(1 if n is None else n):
                out.append((c, 1))
    return little, out


def int_from_elems(e, little, signed):
    e = list(e)
    if not little:
        e = e[::-1]
    if not e:
        return 0
    if all(isinstance(x, int) for x in e):
        return int.from_bytes(bytes(e), 'little', signed=signed)
    n = len(e)
    t = z3.Concat(*[term_of(x, 8) for x in reversed(e)]) if n > 1 \
        else term_of(e[0], 8)
    if signed:
        return mkint(t, True, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return mkint(t, False, 0, (1 << (8 * n)) - 1)


def m_unpack(fmt, data):
    little, items = parse_fmt(fmt)
    need = struct.calcsize(fmt if not isinstance(fmt, struct.Struct)
                           else fmt.format)
    e = belems(data)
    if len(e) != need:
        raise struct.error('unpack requires a buffer of %d bytes' % need)
    return _unpack_items(little, items, e)


def _unpack_items(little, items, e):
    out = []
    p = 0
    for c, n in items:
        if c == 'x':
            p += 1
        elif c == 's':
            out.append(mkbytes(e[p:p + n]))
            p += n
        elif c == 'c':
            out.append(mkbytes(e[p:p + 1]))
            p += 1
        elif c == '?':
            out.append(e[p] != 0)
            p += 1
        elif c in 'df':
            k = 8 if c == 'd' else 4
            x = e[p:p + k]
            p += k
            if all(isinstance(y, int) for y in x):
                out.append(struct.unpack(('<' if little else '>') + c,
                                         bytes(x))[0])
            else:
                out.append(SymFloat(('bits', c, little) + tuple(x)))
        elif c in _codes:
            k, s = _codes[c]
            out.append(int_from_elems(e[p:p + k], little, s))
            p += k
        else:
            raise Unencodable('struct code %s' % c)
    return tuple(out)


def m_unpack_from(fmt, data, offset=0):
    little, items = parse_fmt(fmt)
    need = struct.calcsize(fmt if not isinstance(fmt, struct.Struct)
                           else fmt.format)
    e = belems(data)
    offset = V.idx(offset)
    if len(e) - offset < need:
        raise struct.error('unpack_from requires a buffer of at least %d '
                           'bytes' % need)
    return _unpack_items(little, items, e[offset:offset + need])


def m_iter_unpack(fmt, data):
    n = struct.calcsize(fmt)
    e = belems(data)
    if len(e) % n:
        raise struct.error('iterative unpacking requires a buffer of a '
                           'multiple of %d bytes' % n)
    return iter([m_unpack(fmt, mkbytes(e[i:i + n]))
                 for i in range(0, len(e), n)])


def m_pack(fmt, *vals):
    little, items = parse_fmt(fmt)
    out = []
    vi = 0
    for c, n in items:
        if c == 'x':
            out.append(0)
            continue
        if vi >= len(vals):
            raise struct.error('pack expected more items')
        v = vals[vi]
        vi += 1
        if c == 's':
            x = list(belems(v))[:n]
            out.extend(x + [0] * (n - len(x)))
        elif c == 'c':
            out.extend(belems(v))
        elif c == '?':
            out.append(sx_ite(v, 1, 0))
        elif c in 'df':
            if isinstance(v, SymFloat):
                k = v._sx_key
                if k[0] == 'bits' and k[1] == c and k[2] == little:
                    out.extend(k[3:])
                    continue
                raise Unencodable('pack of symbolic float')
            out.extend(struct.pack(('<' if little else '>') + c, v))
        elif c in _codes:
            k, s = _codes[c]
            if isinstance(v, SymBool):
                v = v._int()
            if not isinstance(v, (int, SymInt)):
                raise struct.error('required argument is not an integer')
            if isinstance(v, int):
                out.extend(struct.pack(('<' if little else '>') +
                                       {4: 'i' if s else 'I'}.get(k, c), v))
                continue
            lo, hi = (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1) if s \
                else (0, (1 << (8 * k)) - 1)
            if sx_or(v < lo, v > hi):
                raise struct.error("'%s' format requires %d <= number <= %d"
                                   % (c, lo, hi))
            t = term_of(v, 8 * k)
            b = [mkint(z3.Extract(8 * i + 7, 8 * i, t), False, 0, 255)
                 for i in range(k)]
            out.extend(b if little else b[::-1])
        else:
            raise Unencodable('struct code %s' % c)
    if vi != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)'
                           % (vi, len(vals)))
    return mkbytes(out)


def m_from_bytes(data, byteorder='big', signed=False):
    e = belems(data) if isbytes(data) else list(data)
    return int_from_elems(e, byteorder == 'little', signed)


# --------------------------------------------------------------------------
# builtins

def m_isinstance(x, t):
    pt = pytype(x)
    if isinstance(x, SymBytesIO):
        ts = t if isinstance(t, tuple) else (t,)
        if io.BytesIO in ts:
            return True
        return isinstance(x, t)
    if isinstance(x, SYMTYPES):
        if isinstance(t, tuple):
            return any(m_isinstance(x, y) for y in t)
        if isinstance(t, types.UnionType):
            return any(m_isinstance(x, y) for y in t.__args__)
        if t is type(x):
            return True
        return issubclass(pt, t)
    return isinstance(x, t)


def m_type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return pytype(a[0])
    return type(*a)


def m_int(x=0, *base):
    if isinstance(x, SymInt):
        if x._sx_cls is int:
            return x
        return mkint(x._sx_t, x._sx_s, x._sx_lo, x._sx_hi)
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymStr):
        return int_of_text(x, base[0] if base else 10)
    if isinstance(x, SymFloat):
        return _SymIntOfFloat(x)
    if isinstance(x, SymBytes):
        return int_of_text(x.decode('latin-1'), base[0] if base else 10)
    return int(x, *base)


def _SymIntOfFloat(x):
    # opaque: int(float) only ever compared structurally
    return SymFloat(('int', x))


def int_of_text(s, base):
    if base != 10 and base != 16:
        raise Unencodable('int base %r' % base)
    if len(s._items) == 1 and isinstance(s._items[0], FmtAtom) and \
            s._items[0].spec == 'd' and base == 10:
        return s._items[0].value
    e = s.strip()
    if isinstance(e, str):
        return int(e, base)
    e = e._e
    neg = False
    if e and sx_or(e[0] == 45, e[0] == 43):
        neg = bool(e[0] == 45)
        e = e[1:]
    if not e:
        raise ValueError('invalid literal for int()')
    v = 0
    for x in e:
        if isinstance(x, SymInt) and x > 127:
            raise Unencodable('int() of non-ascii text')
        dig = sx_and(x >= 48, x <= 57)
        if base == 10:
            if sx_not(dig):
                if x == 95:
                    raise Unencodable('underscore in int()')
                raise ValueError('invalid literal for int()')
            v = v * 10 + (x - 48)
        else:
            if dig:
                d = x - 48
            elif sx_and(x >= 97, x <= 102):
                d = x - 87
            elif sx_and(x >= 65, x <= 70):
                d = x - 55
            else:
                raise ValueError('invalid literal for int()')
            v = v * 16 + d
    # non-negative digits: clip the lower bound of the range
    if isinstance(v, SymInt) and v._sx_lo < 0:
        v = mkint(v._sx_t, v._sx_s, 0, v._sx_hi)
    return -v if neg else v


def m_str(*a, **k):
    if len(a) == 1 and not k:
        return text_of(a[0])
    if a and isbytes(a[0]):
        return SymBytes(belems(a[0])).decode(*a[1:], **k)
    return str(*a, **k)


def m_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return b'\0' * E().concretize(x)
        if isbytes(x):
            return mkbytes(belems(x))
        if isinstance(x, SymArray):
            return x.tobytes()
        if isinstance(x, (int, str, SymStr)):
            return bytes(x)
        if isinstance(x, (list, tuple)) or hasattr(x, '__iter__'):
            if hasattr(type(x), '__bytes__'):
                return bytes(x)
            x = list(x)
            out = []
            for v in x:
                if isinstance(v, SymInt):
                    if sx_or(v < 0, v > 255):
                        raise ValueError('bytes must be in range(0, 256)')
                    out.append(v & 255)
                else:
                    out.append(bytes([v])[0])
            return mkbytes(out)
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    return bytes(*a, **k)


def m_bytearray(*a, **k):
    if not a:
        return SymByteArray([])
    r = m_bytes(*a, **k)
    return SymByteArray(belems(r))


def m_ord(x):
    if isinstance(x, SymSeq):
        if len(x._e) != 1:
            raise TypeError('ord() expected a character')
        return x._e[0]
    return ord(x)


def m_chr(x):
    return V.chr_of(x)


def m_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def m_range(*a):
    if not any(is_sym(x) for x in a):
        return range(*a)
    a = [x._int() if isinstance(x, SymBool) else x for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    return SymRange(start, stop, step)


class SymRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if isinstance(step, SymInt):
            self.step = E().concretize(step)

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 4000:
                raise core.BudgetExceeded('symbolic range iterations')

    def _len(self):
        if self.step > 0:
            d = self.stop - self.start + (self.step - 1)
        else:
            d = self.start - self.stop + (-self.step - 1)
        return sx_ite(d > 0, d // abs(self.step), 0)

    def __len__(self):
        return E().concretize(self._len())

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unencodable('slice of symbolic range')
        return self.start + i * self.step

    def __contains__(self, x):
        return bool(sx_and(x >= self.start, x < self.stop,
                           (x - self.start) % self.step == 0))


def m_len(x):
    if isinstance(x, SymRange):
        return x._len()
    return len(x)


def m_minmax(lt):
    def f(*a, **k):
        key = k.pop('key', None)
        default = k.pop('default', f)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if default is not f:
                return default
            raise ValueError('empty sequence')
        r = xs[0]
        for x in xs[1:]:
            kx, kr = (sx_call(key, x), sx_call(key, r)) if key else (x, r)
            c = (kx < kr) if lt else (kx > kr)
            if isinstance(c, SymBool) and not key and isinstance(
                    x, (int, SymInt)) and isinstance(r, (int, SymInt)):
                r = sx_ite(c, x, r)
            elif c:
                r = x
        return r
    return f


def m_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def m_any(xs):
    for x in xs:
        if x:
            return True
    return False


def m_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def m_map(f, *its):
    for a in zip(*its):
        yield sx_call(f, *a)


def m_filter(f, it):
    for x in it:
        if (x if f is None else sx_call(f, x)):
            yield x


def m_reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        try:
            r = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty iterable')
    for x in it:
        r = sx_call(f, r, x)
    return r


def m_sorted(it, key=None, reverse=False):
    xs = list(it)
    keys = [sx_call(key, x) if key else x for x in xs]
    if not deep_sym(keys):
        o = sorted(range(len(xs)), key=lambda i: keys[i], reverse=reverse)
        return [xs[i] for i in o]
    # stable insertion sort with forking comparisons
    out = []
    for k, x in zip(keys, xs):
        i = len(out)
        while i > 0 and (_lt(k, out[i - 1][0]) if not reverse
                         else _lt(out[i - 1][0], k)):
            i -= 1
        out.insert(i, (k, x))
    return [x for k, x in out]


def _lt(a, b):
    if isinstance(a, (tuple, list)):
        for x, y in zip(a, b):
            if deep_eq(x, y):
                continue
            return bool(_lt(x, y))
        return len(a) < len(b)
    return bool(a < b)


def m_hash(x):
    return hash(x)


def m_repr(x):
    return repr_of(x)


def m_hex(x):
    if isinstance(x, SymInt):
        if x < 0:
            return '-0x' + SymStr([FmtAtom('x', -x)])
        return '0x' + SymStr([FmtAtom('x', x)])
    return hex(x)


def m_abs(x):
    return abs(x)


def m_divmod(a, b):
    return divmod(a, b)


def m_float(x=0.0):
    if isinstance(x, (SymInt, SymFloat)):
        return SymFloat(('float', x)) if isinstance(x, SymInt) else x
    return float(x)


def m_round(x, *n):
    if isinstance(x, SymFloat):
        return SymFloat(('round', x) + n)
    return round(x, *n)


def m_pow(a, b, *m):
    if m:
        return (a ** b) % m[0]
    return a ** b


def m_memoryview(x):
    return mkbytes(belems(x))


def m_hexlify(x, *a):
    return mkbytes(hexdigits(belems(x)))


_B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def _b64(v):
    r = v - 4
    r = sx_ite(v < 52, v + 71, r)
    r = sx_ite(v < 26, v + 65, r)
    r = sx_ite(v == 62, 43, r)
    return sx_ite(v == 63, 47, r)


def m_b64encode(data, altchars=None):
    e = belems(data)
    out = []
    for i in range(0, len(e), 3):
        c = e[i:i + 3]
        n = len(c)
        c = c + [0] * (3 - n)
        w = (c[0] << 16) | (c[1] << 8) | c[2]
        q = [_b64((w >> s) & 63) for s in (18, 12, 6, 0)]
        if n < 3:
            q[3] = 61
        if n < 2:
            q[2] = 61
        out.extend(q)
    return mkbytes(out)


def m_b2a_base64(data, newline=True):
    r = m_b64encode(data)
    return r + b'\n' if newline else r


def m_encodestring(data):
    e = belems(data)
    out = b''
    for i in range(0, len(e), 57):
        out = out + m_b2a_base64(mkbytes(e[i:i + 57]))
    return out


def m_array(typecode, init=()):
    if isbytes(init):
        e = belems(init)
        a = SymArray(typecode, [])
        k = a.itemsize
        if len(e) % k:
            raise ValueError('bytes length not a multiple of item size')
        a._e = [int_from_elems(e[i:i + k], True, typecode.islower())
                for i in range(0, len(e), k)]
        return a
    return SymArray(typecode, list(init))


def m_getattr(o, name, *d):
    if isinstance(name, SymStr):
        name = ''.join(map(chr, name._concrete_elems()))
    return getattr(o, name, *d)


def m_zip_longest(*a, **k):
    return itertools.zip_longest(*a, **k)


def m_takewhile(p, it):
    for x in it:
        if sx_call(p, x):
            yield x
        else:
            return


def m_dropwhile(p, it):
    it = iter(it)
    for x in it:
        if not sx_call(p, x):
            yield x
            break
    for x in it:
        yield x


def m_islice(it, *a):
    if not any(is_sym(x) for x in a):
        return itertools.islice(it, *a)
    return _islice(it, a)


def _islice(it, a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else 1
    start = 0 if start is None else start
    if step not in (None, 1):
        raise Unencodable('islice step')
    i = 0
    it = iter(it)
    while stop is None or i < stop:
        try:
            x = next(it)
        except StopIteration:
            return
        if i >= start:
            yield x
        i += 1


def m_repeat(x, *n):
    if n and isinstance(n[0], SymInt):
        return (x for _ in m_range(n[0]))
    return itertools.repeat(x, *n)


def m_accumulate(it, func=operator.add, **k):
    r = None
    first = True
    if k.get('initial') is not None:
        r, first = k['initial'], False
        yield r
    for x in it:
        r = x if first else sx_call(func, r, x)
        first = False
        yield r


def m_groupby(it, key=None):
    it = iter(it)
    cur = None
    buf = None
    first = True
    for x in it:
        k = sx_call(key, x) if key else x
        if first or not deep_eq(k, cur):
            if not first:
                yield cur, iter(buf)
            cur, buf, first = k, [], False
        buf.append(x)
    if not first:
        yield cur, iter(buf)


def m_starmap(f, it):
    for a in it:
        yield sx_call(f, *a)


def m_chain_from(it):
    for x in it:
        for y in x:
            yield y


def m_deepcopy(x, memo=None):
    import copy
    if is_sym(x):
        return SymByteArray(x._e) if isinstance(x, SymByteArray) else x
    if type(x) is dict:
        return dict((k, m_deepcopy(v)) for k, v in x.items())
    if type(x) is list:
        return [m_deepcopy(v) for v in x]
    if type(x) is tuple:
        return tuple(m_deepcopy(v) for v in x)
    return copy.deepcopy(x)


def m_copy(x):
    import copy
    if isinstance(x, SymByteArray):
        return SymByteArray(x._e)
    if is_sym(x):
        return x
    return copy.copy(x)


def m_print(*a, **k):
    f = k.get('file')
    if f is None:
        f = sys.stdout
        if f is None or f is sys.__stdout__:
            return None
    sep = k.get('sep') or ' '
    end = k.get('end', '\n')
    end = '\n' if end is None else end
    f.write(sjoin(sep, [text_of(x) for x in a]) + end)


def m_BytesIO(initial=b''):
    return SymBytesIO(initial if initial is not None else b'')


def m_StringIO(initial='', *a):
    return SymStringIO(initial or '')


def m_json_dumps(obj, **k):
    if not deep_sym(obj, 8):
        return json.dumps(obj, **k)
    k = dict(k)
    k['_esc'] = k.pop('ensure_ascii', True)
    if set(k) - {'sort_keys', 'indent', 'default', 'cls', 'separators',
                 '_esc'}:
        raise Unencodable('json options')
    return jdump(obj, k)


def jdump(o, k, level=0):
    indent = k.get('indent')
    if isinstance(indent, int):
        indent = ' ' * indent
    seps = k.get('separators') or (
        (', ', ': ') if indent is None else (',', ': '))

    def wrap(left, items, right):
        if not items:
            return left + right
        if indent is None:
            return left + sjoin(seps[0], items) + right
        nl = '\n' + indent * (level + 1)
        return left + nl + sjoin(seps[0] + nl, items) + \
            '\n' + indent * level + right
    if isinstance(o, SymBool):
        return 'true' if o else 'false'
    if isinstance(o, SymInt):
        return SymStr([FmtAtom('d', m_int(o))])
    if isinstance(o, SymFloat):
        return SymStr([OpaqueAtom(('json', o))])
    if isinstance(o, (list, tuple)):
        return wrap('[', [jdump(x, k, level + 1) for x in o], ']')
    if isinstance(o, dict):
        it = list(o.items())
        if k.get('sort_keys'):
            it.sort(key=lambda x: x[0])
        ps = []
        for a, b in it:
            if not isinstance(a, (str, SymStr)):
                if isinstance(a, SymInt):
                    a = text_of(m_int(a))
                else:
                    a = list(json.loads(json.dumps({a: 0})))[0]
            ps.append(jdump(a, {'_esc': k.get('_esc', True)}) + seps[1] +
                      jdump(b, k, level + 1))
        return wrap('{', ps, '}')
    if isinstance(o, SymStr) and not k.get('_esc', True):
        raise Unencodable('json without escapes')
    if isinstance(o, SymStr):
        out = [34]
        for x in o._e:
            if isinstance(x, int):
                out.extend(ord(c) for c in json.dumps(chr(x))[1:-1])
                continue
            if x == 34:
                out.extend([92, 34])
            elif x == 92:
                out.extend([92, 92])
            elif sx_and(x >= 32, x < 127):
                out.append(x)
            else:
                done = False
                for code, c in ((10, 'n'), (13, 'r'), (9, 't'), (8, 'b'),
                                (12, 'f')):
                    if x == code:
                        out.extend([92, ord(c)])
                        done = True
                        break
                if done:
                    continue
                if x < 0x10000:
                    us = [x]
                else:
                    y = x - 0x10000
                    us = [0xd800 | ((y >> 10) & 0x3ff),
                          0xdc00 | (y & 0x3ff)]
                for u in us:
                    out.extend([92, 117] + [hexdigit((u >> s) & 15)
                                            for s in (12, 8, 4, 0)])
        out.append(34)
        return mkstr(out)
    if isinstance(o, (str, int, float)) or o is None:
        return json.dumps(o, ensure_ascii=k.get('_esc', True))
    cls = k.get('cls')
    if k.get('default') is not None:
        return jdump(sx_call(k['default'], o), k, level)
    if cls is not None:
        return jdump(sx_call(cls().default, o), k, level)
    raise TypeError('Object of type %s is not JSON serializable'
                    % V.pytypename(o))


def m_bytes_fromhex(s):
    if isinstance(s, SymStr):
        raise Unencodable('fromhex')
    return bytes.fromhex(s)


MODELS = {
    isinstance: m_isinstance,
    type: m_type,
    int: m_int,
    str: m_str,
    bytes: m_bytes,
    bytearray: m_bytearray,
    bool: m_bool,
    float: m_float,
    ord: m_ord,
    chr: m_chr,
    len: m_len,
    range: m_range,
    min: m_minmax(True),
    max: m_minmax(False),
    sum: m_sum,
    any: m_any,
    all: m_all,
    map: m_map,
    filter: m_filter,
    sorted: m_sorted,
    repr: m_repr,
    hex: m_hex,
    round: m_round,
    pow: m_pow,
    memoryview: m_memoryview,
    getattr: m_getattr,
    print: m_print,
    format: lambda v, s='': sx_format(v, s),
    functools.reduce: m_reduce,
    struct.pack: m_pack,
    struct.unpack: m_unpack,
    struct.unpack_from: m_unpack_from,
    struct.iter_unpack: m_iter_unpack,
    binascii.hexlify: m_hexlify,
    binascii.b2a_hex: m_hexlify,
    binascii.b2a_base64: m_b2a_base64,
    base64.b64encode: m_b64encode,
    base64.standard_b64encode: m_b64encode,
    base64.encodebytes: m_encodestring,
    array.array: m_array,
    itertools.takewhile: m_takewhile,
    itertools.dropwhile: m_dropwhile,
    itertools.islice: m_islice,
    itertools.repeat: m_repeat,
    itertools.accumulate: m_accumulate,
    itertools.groupby: m_groupby,
    itertools.starmap: m_starmap,
    io.BytesIO: m_BytesIO,
    io.StringIO: m_StringIO,
    json.dumps: m_json_dumps,
    operator.getitem: lambda a, b: sx_getitem(a, b),
    operator.contains: lambda a, b: sx_contains(b, a),
    operator.index: lambda a: E().concretize(a),
    os.fspath: lambda p: p if isinstance(p, (SymStr, SymBytes))
    else os.fspath(p),
}
import copy as _copy  # noqa
MODELS[_copy.deepcopy] = m_deepcopy
MODELS[_copy.copy] = m_copy
if hasattr(base64, 'encodestring'):
    MODELS[base64.encodestring] = m_encodestring

# models used whether or not an argument is symbolic (laziness or identity
# matters, or callbacks are involved)
ALWAYS = {map, filter, functools.reduce, itertools.takewhile,
          itertools.dropwhile, itertools.accumulate, itertools.groupby,
          itertools.starmap, io.BytesIO, io.StringIO, bytearray,
          isinstance, sorted, min, max, any, all, sum, getattr, print,
          repr, str, format}

# pure-python library functions replaced by an instrumented twin when an
# argument is symbolic: module prefixes
TWINS = ('xml.sax.saxutils', 'posixpath', 'genericpath', 'ntpath')
_twin_loader = None


def set_twin_loader(f):
    global _twin_loader
    _twin_loader = f


BOUND_STR = set()


def _m_join(sep, it):
    parts = list(it)
    if isinstance(sep, (bytes, bytearray)):
        if any(isinstance(p, SymBytes) for p in parts):
            return SymBytes(sep).join(parts)
        return sep.join(parts)
    return sjoin(sep, parts)


def call_bound_builtin(f, slf, name, a, k):
    """bound method of a builtin container; returns (result,) or None"""
    if isinstance(slf, dict):
        if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__',
                    '__setitem__', '__delitem__') and a and \
                (deep_sym(a[0]) or id(slf) in _symkeyed):
            key = a[0]
            if name == 'get':
                dflt = a[1] if len(a) > 1 else None
                if isinstance(key, (SymInt, SymStr)) and \
                        id(slf) not in _symkeyed:
                    r = _lookup_grouped(slf, key, dflt)
                else:
                    r = dict_find(slf, key)
                if r is None:
                    return (dflt,)
                return r
            if name == '__getitem__':
                return (sx_getitem(slf, key),)
            if name == '__contains__':
                return (sx_contains(key, slf),)
            if name == '__setitem__':
                return (dict_set(slf, key, a[1]),)
            if name == '__delitem__':
                return (dict_del(slf, key),)
            if name == 'setdefault':
                r = dict_find(slf, key)
                if r is None:
                    v = a[1] if len(a) > 1 else None
                    dict_set(slf, key, v)
                    return (v,)
                return r
            if name == 'pop':
                r = dict_find(slf, key)
                if r is None:
                    if len(a) > 1:
                        return (a[1],)
                    raise KeyError('<symbolic>')
                dict_del(slf, key)
                return r
        if name == 'update' and a and (deep_sym(list(a[0])
                                                if isinstance(a[0], dict)
                                                else 0)):
            for kk in a[0]:
                dict_set(slf, kk, _rawget(a[0], kk))
            slf.update(**k)
            return (None,)
        return None
    if isinstance(slf, (set, frozenset)):
        if name in ('add', 'discard', 'remove', '__contains__') and \
                (deep_sym(a[0]) or id(slf) in _symkeyed):
            key = a[0]
            if name == '__contains__':
                return (sx_contains(key, slf),)
            r = _scan(slf, key)
            if name == 'add':
                if r is None:
                    _symkeyed[id(slf)] = slf
                    with _raw():
                        set.add(slf, key)
                return (None,)
            if r is None:
                if name == 'remove':
                    raise KeyError('<symbolic>')
                return (None,)
            with _raw():
                set.discard(slf, r[0])
            return (None,)
        return None
    if isinstance(slf, (str, bytes, bytearray)):
        if name == 'join':
            return (_m_join(slf, a[0]),)
        if name == 'format':
            if deep_sym(a) or deep_sym(k) or any(
                    isinstance(getattr(type(x), '__str__', None),
                               types.FunctionType) for x in a):
                return (str_format(slf, a, k),)
            return None
        if deep_sym(a) or deep_sym(k):
            if isinstance(slf, str):
                w = SymStr([ord(c) for c in slf])
            elif isinstance(slf, bytearray):
                if name in ('append', 'extend', '__iadd__'):
                    raise Unencodable('native bytearray mutation')
                w = SymByteArray(slf)
            else:
                w = SymBytes(slf)
            m = getattr(w, name, None)
            if m is None:
                raise Unencodable('%s.%s' % (type(slf).__name__, name))
            return (m(*a, **k),)
        if name == 'translate' and isinstance(slf, str):
            return None
        return None
    if isinstance(slf, list):
        if name == 'sort':
            slf[:] = m_sorted(slf, **k)
            return (None,)
        if name in ('index', 'count', 'remove') and (deep_sym(a) or
                                                     deep_sym(slf)):
            for i, x in enumerate(slf):
                if deep_eq(x, a[0]):
                    if name == 'index':
                        return (i,)
                    if name == 'remove':
                        del slf[i]
                        return (None,)
                    raise Unencodable('list.count')
            raise ValueError('not in list')
        return None
    if isinstance(slf, (int,)) and not isinstance(slf, type):
        if name == 'to_bytes' and deep_sym(a):
            raise Unencodable('to_bytes')
        return None
    return None


NEW_BUILTINS = {int: m_int, str: m_str, bytes: m_bytes, float: m_float}


def make_instance(cls, a):
    """int subclass instance from a symbolic int"""
    x = a[0]
    if isinstance(x, SymBool):
        x = x._int()
    if isinstance(x, SymInt):
        r = mkint(x._sx_t, x._sx_s, x._sx_lo, x._sx_hi, cls)
        return r
    raise Unencodable('construction of %s' % cls.__name__)


_BuiltinMethod = type(b''.join)
_MethodDescr = type(str.join)
_WrapperDescr = type(int.__add__)
_ClassMethodDescr = type(int.__dict__['from_bytes'])
_lru = functools._lru_cache_wrapper

_native_ok = {'append', 'extend', 'appendleft', 'extendleft', 'insert',
              'send', 'put', 'write', 'add', '__next__', '__init__', 'set',
              'items', 'values', 'keys', 'setattr', 'next', 'iter', 'tuple',
              'list', 'dict', 'enumerate', 'zip', 'hasattr', 'id',
              'callable', 'reversed', 'chain', 'issubclass', 'deque',
              'partial', 'throw', 'close', 'pop', 'popleft', 'update',
              'setdefault', 'slice', 'property', 'OrderedDict',
              'defaultdict', 'count', 'tee', 'zip_longest', 'object', 'set',
              'frozenset', 'abs', 'divmod', 'hash', 'super', 'namedtuple',
              'get', 'fromkeys', 'rotate', 'copy', 'index', '__setattr__',
              '__new__', 'from_iterable', 'cycle', 'compress', 'product',
              'get_data', 'attrgetter', 'itemgetter', 'push'}


_BuiltinMethod = type(re.compile('').search)


def sx_call(f, *a, **k):
    tf = type(f)
    # python-level functions of instrumented modules: straight call
    if tf is types.FunctionType:
        m = PYMODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f.__module__ in TWINS and (deep_sym(a) or deep_sym(k)):
            return _twin_loader(f)(*a, **k)
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None and (deep_sym(a) or deep_sym(k) or f in ALWAYS):
            return m(*a, **k)
        return f(*a, **k)
    if tf is types.MethodType:
        slf = f.__self__
        if isinstance(slf, (logging.Logger, logging.LoggerAdapter)):
            if f.__func__.__name__ in ('setLevel', 'addHandler',
                                       'removeHandler', 'getEffectiveLevel',
                                       'isEnabledFor', 'hasHandlers'):
                return f(*a, **k)
            return None
        m = PYMODELS.get(f.__func__)
        if m is not None:
            return m(slf, *a, **k)
        if f.__func__.__module__ == 'logging':
            return None
        if f.__func__.__module__ == 'decimal':
            raise Unencodable('decimal')
        return f(*a, **k)
    if isinstance(f, type):
        if f in MODELS:
            if f in ALWAYS or (deep_sym(a) or deep_sym(k)):
                return MODELS[f](*a, **k)
            return f(*a, **k)
        if a and is_sym(a[0]) and issubclass(f, (int, str, bytes, float)):
            if type(f).__call__ is type.__call__:
                n = f.__new__
                if n is int.__new__:
                    return make_instance(f, a)
                if n in (str.__new__, bytes.__new__):
                    raise Unencodable('str subclass')
        if f in (dict, collections.OrderedDict) and a and \
                isinstance(a[0], dict) and id(a[0]) in _symkeyed:
            with _raw():
                r = f(a[0], **k)
            _symkeyed[id(r)] = r
            return r
        if f is dict and a and not isinstance(a[0], dict):
            items = [(kk, a[0][kk]) for kk in a[0].keys()] \
                if hasattr(a[0], 'keys') else list(a[0])
            if any(deep_sym(x[0]) for x in items):
                r = {}
                for kk, v in items:
                    dict_set(r, kk, v)
                r.update(**k)
                return r
            return dict(items, **k)
        if f in (set, frozenset) and a:
            items = list(a[0])
            if any(deep_sym(x) for x in items):
                r = set()
                for x in items:
                    if _scan(r, x) is None:
                        with _raw():
                            r.add(x)
                _symkeyed[id(r)] = r
                return r
            return f(items)
        if f is struct.Struct:
            return f(*a)
        return f(*a, **k)
    if tf is _lru:
        if deep_sym(a) or deep_sym(k):
            return f.__wrapped__(*a, **k)
        return f(*a, **k)
    if tf is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return sx_call(f.func, *(f.args + a), **kk)
    if tf is types.BuiltinFunctionType or tf is _BuiltinMethod:
        slf = getattr(f, '__self__', None)
        if slf is not None and not isinstance(slf, types.ModuleType):
            name = f.__name__
            if name == '__new__' and isinstance(slf, type):
                cls = a[0]
                if deep_sym(a[1:]) and slf in (int, str, bytes, float):
                    if cls is slf:
                        return NEW_BUILTINS[slf](*a[1:], **k)
                    if slf is int:
                        return make_instance(cls, a[1:])
                    raise Unencodable('%s.__new__' % slf.__name__)
                return f(*a, **k)
            if isinstance(slf, type):
                if name == 'from_bytes' and deep_sym(a):
                    return m_from_bytes(*a, **k)
                if name == 'from_iterable':
                    return m_chain_from(*a)
                if name == 'maketrans' or name == 'fromkeys':
                    return f(*a, **k)
                if deep_sym(a) and name == 'fromhex':
                    return m_bytes_fromhex(*a)
            if isinstance(slf, struct.Struct):
                if name == 'unpack':
                    return m_unpack(slf.format, *a)
                if name == 'pack':
                    return m_pack(slf.format, *a)
                if name == 'unpack_from':
                    return m_unpack_from(slf.format, *a, **k)
            if isinstance(slf, re.Pattern):
                if any(isinstance(x, (SymSeq)) for x in a):
                    from . import rex
                    return rex.call(slf, name, a, k)
                return f(*a, **k)
            r = call_bound_builtin(f, slf, name, a, k)
            if r is not None:
                return r[0]
            return native(f, a, k)
        m = MODELS.get(f)
        if m is not None and (f in ALWAYS or deep_sym(a) or deep_sym(k)):
            return m(*a, **k)
        return native(f, a, k)
    if tf in (_MethodDescr, _WrapperDescr):
        if a:
            cls = f.__objclass__
            if is_sym(a[0]):
                return getattr(a[0], f.__name__)(*a[1:], **k)
            if isinstance(a[0], cls) and tf is _MethodDescr:
                r = call_bound_builtin(f, a[0], f.__name__, a[1:], k)
                if r is not None:
                    return r[0]
        return native(f, a, k)
    return native(f, a, k)


# models for python-level library functions, filled by the context
PYMODELS = {}


def _re_fn(name):
    def f(pattern, string, *a, **k):
        if isinstance(string, SymSeq):
            flags = k.pop('flags', 0)
            if name in ('search', 'match', 'fullmatch', 'findall',
                        'finditer') and a:
                flags, a = a[0], a[1:]
            from . import rex
            return rex.call(re.compile(pattern, flags), name, (string,) + a,
                            k)
        return getattr(re, name)(pattern, string, *a, **k)
    return f


for _n in ('search', 'match', 'fullmatch', 'findall', 'finditer'):
    PYMODELS[getattr(re, _n)] = _re_fn(_n)


def _m_re_sub(pattern, repl, string, count=0, flags=0):
    if isinstance(string, SymSeq):
        from . import rex
        return rex.call(re.compile(pattern, flags), 'sub',
                        (repl, string, count), {})
    return re.sub(pattern, repl, string, count, flags)


PYMODELS[re.sub] = _m_re_sub


def _m_tempfile(*a, **k):
    mode = a[0] if a else k.get('mode', 'w+b')
    if 'b' not in mode:
        raise Unencodable('text mode temporary file')
    return SymBytesIO(b'')


import tempfile as _tempfile  # noqa
PYMODELS[_tempfile.TemporaryFile] = _m_tempfile


class StreamRecoder(object):
    """codecs.StreamRecoder, reading all of it"""

    def __init__(self, stream, encode, decode, Reader, Writer,
                 errors='strict'):
        self.stream = stream
        self._frontend = encode.__name__.replace('_encode', '')
        self._backend = Reader.__module__.split('.')[-1]
        self._errors = errors

    def read(self, size=-1):
        if size is not None and size >= 0:
            raise Unencodable('partial read of recoded stream')
        d = self.stream.read()
        return d.decode(self._backend, self._errors).encode(
            self._frontend, self._errors)

    def close(self):
        self.stream.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


import codecs as _codecs  # noqa
MODELS[_codecs.StreamRecoder] = StreamRecoder
ALWAYS.add(_codecs.StreamRecoder)


def _m_struct_py(*a):
    raise Unencodable('struct')


def native(f, a, k):
    """a C-implemented callable without a model"""
    sym = any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values())
    if not sym:
        return f(*a, **k)
    name = getattr(f, '__name__', type(f).__name__)
    if name in _native_ok or not isinstance(
            f, (types.BuiltinFunctionType, _BuiltinMethod, _MethodDescr, _WrapperDescr)):
        return f(*a, **k)
    try:
        return f(*a, **k)
    except (TypeError, ValueError, AttributeError) as e:
        raise Unencodable('%s over symbolic data: %s' % (name, e))


from . import zmodel  # noqa
zmodel.install(MODELS, ALWAYS)
zmodel.install_dates(MODELS)
