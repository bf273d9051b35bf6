# -*- coding: utf-8 -*-
"""Symbolic bytes and text: concrete length, symbolic elements."""
import z3

from . import core
from .core import (SymBool, SymFloat, SymInt, Unencodable, mkbool, mkint,
                   rng, sx_and, sx_ite, sx_not, sx_or, term_of)


def E():
    return core.ENGINE


def idx(x):
    return E().concretize(x) if isinstance(x, SymInt) else x


def norm_slice(s, n):
    def f(v):
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, SymBool):
            return int(v)
        # clamp symbolic bounds to the length first (keeps forks few)
        if v >= n:
            return n
        if v < -n:
            return -n
        return E().concretize(v)
    return slice(f(s.start), f(s.stop), f(s.step))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        c = (x == y)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return sx_and(*cs)


def mkbytes(items):
    for x in items:
        if not isinstance(x, int):
            return SymBytes(items)
    return bytes(items)


def belems(x):
    """elements of a bytes-like"""
    if isinstance(x, SymBytes):
        return x._e
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(x)
    if isinstance(x, SymArray):
        return x.elems_bytes()
    raise TypeError("a bytes-like object is required, not '%s'"
                    % pytypename(x))


def isbytes(x):
    return isinstance(x, (bytes, bytearray, memoryview, SymBytes))


class SymSeq(object):
    """shared pieces of bytes and text"""

    def __len__(self):
        return len(self._e)

    def __bool__(self):
        return len(self._e) > 0

    def __iter__(self):
        for i in range(len(self._e)):
            yield self[i]

    def _find(self, sub, start=0, end=None, rev=False):
        s = self._coerce(sub)
        n, m = len(self._e), len(s)
        if end is None or end > n:
            end = n
        if end < 0:
            end = max(0, end + n)
        if start < 0:
            start = max(0, start + n)
        r = range(start, end - m + 1)
        if rev:
            r = reversed(r)
        for i in r:
            if seq_eq(self._e[i:i + m], s):
                return i
        return -1

    def find(self, sub, start=0, end=None):
        return self._find(sub, idx(start), idx(end))

    def rfind(self, sub, start=0, end=None):
        return self._find(sub, idx(start), idx(end), True)

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, sub):
        s = self._coerce(sub)
        if not s:
            return len(self._e) + 1
        n = i = 0
        while i + len(s) <= len(self._e):
            if seq_eq(self._e[i:i + len(s)], s):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            for q in p:
                if self.startswith(q, start, end):
                    return True
            return False
        s = self._coerce(p)
        e = self._e[start:end]
        if len(s) > len(e):
            return False
        return seq_eq(e[:len(s)], s)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            for q in p:
                if self.endswith(q, start, end):
                    return True
            return False
        s = self._coerce(p)
        e = self._e[start:end]
        if len(s) > len(e):
            return False
        return seq_eq(e[len(e) - len(s):], s)

    def __add__(self, other):
        try:
            o = self._coerce(other)
        except TypeError:
            return NotImplemented
        return self._mk(self._e + o)

    def __radd__(self, other):
        try:
            o = self._coerce(other)
        except TypeError:
            return NotImplemented
        return self._mk(o + self._e)

    def __mul__(self, n):
        return self._mk(self._e * idx(n))

    __rmul__ = __mul__

    def _in(self, chars, x):
        return sx_or(*[x == c for c in chars])

    def _strip_default(self):
        raise NotImplementedError

    def lstrip(self, chars=None):
        cs = self._strip_default() if chars is None else self._coerce(chars)
        i = 0
        while i < len(self._e) and self._in(cs, self._e[i]):
            i += 1
        return self._mk(self._e[i:])

    def rstrip(self, chars=None):
        cs = self._strip_default() if chars is None else self._coerce(chars)
        n = len(self._e)
        while n > 0 and self._in(cs, self._e[n - 1]):
            n -= 1
        return self._mk(self._e[:n])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        if not isinstance(r, SymSeq):
            return r.rstrip(chars if chars is None or not
                            isinstance(chars, SymSeq) else None)
        return r.rstrip(chars)

    def replace(self, old, new, count=-1):
        o, nw = self._coerce(old), self._coerce(new)
        if not o:
            raise Unencodable('replace of empty')
        out = []
        i = 0
        n = 0
        while i < len(self._e):
            if (count < 0 or n < count) and i + len(o) <= len(self._e) and \
                    seq_eq(self._e[i:i + len(o)], o):
                out.extend(nw)
                i += len(o)
                n += 1
            else:
                out.append(self._e[i])
                i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            ws = self._strip_default()
            cur = None
            i = 0
            n = 0
            for i, x in enumerate(self._e):
                if self._in(ws, x):
                    if cur is not None:
                        out.append(self._mk(cur))
                        cur = None
                        n += 1
                else:
                    if cur is None:
                        if 0 <= maxsplit <= n:
                            rest = self._mk(self._e[i:])
                            out.append(rest.rstrip())
                            return out
                        cur = []
                    cur.append(x)
            if cur is not None:
                out.append(self._mk(cur))
            return out
        s = self._coerce(sep)
        if not s:
            raise ValueError('empty separator')
        cur = []
        i = 0
        while i < len(self._e):
            if (maxsplit < 0 or len(out) < maxsplit) and \
                    i + len(s) <= len(self._e) and \
                    seq_eq(self._e[i:i + len(s)], s):
                out.append(self._mk(cur))
                cur = []
                i += len(s)
            else:
                cur.append(self._e[i])
                i += 1
        out.append(self._mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 and sep is not None:
            return self.split(sep)
        if sep is None:
            raise Unencodable('rsplit')
        out = []
        cur = self
        while maxsplit > 0:
            i = cur.rfind(sep)
            if i < 0:
                break
            out.append(cur[i + len(sep):])
            cur = cur[:i]
            maxsplit -= 1
        out.append(cur)
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self._mk([]), self._mk([])
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        raise Unencodable('splitlines')

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self._e)
            out.extend(self._coerce(p))
        return self._mk(out)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self._e[norm_slice(i, len(self._e))])
        if isinstance(i, SymInt):
            n = len(self._e)
            if sx_or(i >= n, i < -n):
                raise IndexError('index out of range')
            if sx_and(i >= 0):
                r = self._e[n - 1]
                for k in range(n - 2, -1, -1):
                    r = sx_ite(i == k, self._e[k], r)
            else:
                return self[E().concretize(i)]
            return self._one(r)
        return self._one(self._e[i])

    def _cmp(self, other):
        raise Unencodable('ordering of symbolic sequences')

    def _lt(self, other, orequal):
        a, b = self._e, self._coerce(other)
        r = (len(a) <= len(b)) if orequal else (len(a) < len(b))
        for i in range(min(len(a), len(b)) - 1, -1, -1):
            r = sx_or(a[i] < b[i], sx_and(a[i] == b[i], r))
        return r

    def __lt__(self, other):
        return self._lt(other, False)

    def __le__(self, other):
        return self._lt(other, True)

    def __gt__(self, other):
        return sx_not(self._lt(other, True))

    def __ge__(self, other):
        return sx_not(self._lt(other, False))

    def _concrete_elems(self):
        return [E().concretize(x) if isinstance(x, SymInt) else x
                for x in self._e]


class SymBytes(SymSeq):
    __slots__ = ('_e',)
    pytype = bytes

    def __init__(self, items):
        self._e = list(items)

    def _mk(self, items):
        return mkbytes(items)

    def _one(self, x):
        return x

    def _coerce(self, x):
        if isinstance(x, (int, SymInt)):
            return [x]
        return list(belems(x))

    def _strip_default(self):
        return list(b' \t\n\r\x0b\x0c')

    def __eq__(self, other):
        if not isbytes(other):
            return False
        return seq_eq(self._e, belems(other))

    def __ne__(self, other):
        return sx_not(self == other)

    def __hash__(self):
        if E().raw_hash:
            return 0
        return hash(bytes(self._concrete_elems()))

    def __contains__(self, x):
        if isinstance(x, (int, SymInt)):
            return bool(sx_or(*[e == x for e in self._e]))
        return self.find(x) >= 0

    def decode(self, encoding='utf-8', errors='strict'):
        from .codecs_ import decode
        return decode(self, encoding, errors)

    def hex(self):
        return SymStr(hexdigits(self._e))

    def tobytes(self):
        return self

    def lower(self):
        return mkbytes([sx_ite(sx_and(x >= 65, x <= 90), x + 32, x)
                        for x in self._e])

    def upper(self):
        return mkbytes([sx_ite(sx_and(x >= 97, x <= 122), x - 32, x)
                        for x in self._e])

    def translate(self, table):
        raise Unencodable('bytes.translate')

    def __bytes__(self):
        raise Unencodable('bytes() of symbolic bytes in native code')

    def __repr__(self):
        return '<SymBytes %d>' % len(self._e)

    def __str__(self):
        return E().fallback_str(self)


class SymByteArray(SymBytes):
    __slots__ = ()
    pytype = bytearray

    def _mk(self, items):
        return SymByteArray(items)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self._e[norm_slice(i, len(self._e))] = list(belems(v))
            return
        self._e[idx(i)] = v

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = norm_slice(i, len(self._e))
        else:
            i = idx(i)
        del self._e[i]

    def append(self, x):
        self._e.append(x)

    def extend(self, xs):
        self._e.extend(belems(xs) if isbytes(xs) else list(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def pop(self, i=-1):
        return self._e.pop(i)

    def clear(self):
        del self._e[:]

    def reverse(self):
        self._e.reverse()


class SymArray(object):
    """array.array of symbolic integers"""

    def __init__(self, typecode, items):
        self.typecode = typecode
        self._e = list(items)
        self.itemsize = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4,
                         'l': 8, 'L': 8, 'q': 8, 'Q': 8}[typecode]

    def __len__(self):
        return len(self._e)

    def __iter__(self):
        return iter(list(self._e))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymArray(self.typecode, self._e[i])
        return self._e[idx(i)]

    def __setitem__(self, i, v):
        self._e[idx(i)] = v

    def elems_bytes(self):
        out = []
        for x in self._e:
            t = term_of(x, 8 * self.itemsize)
            for k in range(self.itemsize):
                out.append(mkint(z3.Extract(8 * k + 7, 8 * k, t), False, 0,
                                 255))
        return out

    def tobytes(self):
        return mkbytes(self.elems_bytes())

    tostring = tobytes

    def byteswap(self):
        out = []
        n = self.itemsize
        for x in self._e:
            t = term_of(x, 8 * n)
            parts = [z3.Extract(8 * k + 7, 8 * k, t) for k in range(n)]
            lo, hi = ((0, (1 << 8 * n) - 1) if self.typecode.isupper() else
                      (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1))
            out.append(mkint(z3.Concat(*parts), lo < 0, lo, hi))
        self._e = out

    def tolist(self):
        return list(self._e)

    def append(self, x):
        self._e.append(x)


def hexdigits(elems, upper=False):
    out = []
    for x in elems:
        for nib in (x >> 4, x & 15):
            out.append(hexdigit(nib, upper))
    return out


def hexdigit(nib, upper=False):
    return sx_ite(nib < 10, nib + 48, nib + ((65 if upper else 97) - 10))


# --------------------------------------------------------------------------
# text

class FmtAtom(object):
    """decimal / hexadecimal rendering of an integer whose number of digits
    is not fixed"""
    __slots__ = ('spec', 'value', '_m')

    def __init__(self, spec, value):
        self.spec = spec
        self.value = value
        self._m = None

    def materialise(self):
        """code points; forks on sign and number of digits"""
        v = self.value
        base = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[self.spec[-1]]
        width = self.spec[:-1]
        zero = width.startswith('0') and width != '0'
        width = int(width) if width else 0
        neg = bool(v < 0)
        if neg:
            v = -v
        _, hi = rng(v)
        n = 1
        while base ** n <= hi and (v >= base ** n):
            n += 1
        digs = []
        if base in (16, 8, 2):
            k = {16: 4, 8: 3, 2: 1}[base]
            for i in range(n - 1, -1, -1):
                digs.append(hexdigit((v >> (k * i)) & (base - 1),
                                     self.spec[-1] == 'X'))
        else:
            for i in range(n - 1, -1, -1):
                digs.append((v // (10 ** i)) % 10 + 48)
        if zero:
            digs = [48] * (width - n - neg) + digs
        if neg:
            digs = [45] + digs
        if len(digs) < width:
            digs = [32] * (width - len(digs)) + digs
        return digs


class ChoiceAtom(object):
    """one of several texts, selected by mutually exclusive conditions; the
    last alternative is the default"""
    __slots__ = ('_alts', 'default', '_m')
    spec = None

    def __init__(self, alts, default):
        self._alts = alts           # [(condition, text)], or a thunk of it
        self.default = default      # text
        self._m = None

    @property
    def alts(self):
        if callable(self._alts):
            self._alts = self._alts()
        return self._alts

    def materialise(self):
        if self._m is None:
            for c, t in self.alts:
                if c:
                    break
            else:
                t = self.default
            self._m = [ord(x) for x in t] if isinstance(t, str) else t._e
        return self._m

    def eq_text(self, other):
        """equality with a str / SymStr, without forking where possible"""
        none = sx_not(sx_or(*[c for c, t in self.alts]))
        r = [sx_and(c, t == other) for c, t in self.alts]
        r.append(False if none is False else
                 sx_and(none, self.default == other))
        return sx_or(*r)


class OpaqueAtom(object):
    """text whose characters are not modelled (repr of odd things)"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def materialise(self):
        raise Unencodable('text of an opaque value')


ATOMS = (FmtAtom, OpaqueAtom, ChoiceAtom)


def mkstr(items):
    ok = True
    for x in items:
        if not isinstance(x, int):
            ok = False
            break
    if ok:
        return ''.join(map(chr, items))
    return SymStr(items)


class SymStr(SymSeq):
    __slots__ = ('_items', '_lazy')
    pytype = str

    def __init__(self, items):
        self._items = list(items)
        self._lazy = any(isinstance(x, ATOMS)
                         for x in self._items)

    @property
    def _e(self):
        if self._lazy:
            out = []
            for x in self._items:
                if isinstance(x, ATOMS):
                    out.extend(x.materialise())
                else:
                    out.append(x)
            self._items = out
            self._lazy = False
        return self._items

    def _mk(self, items):
        return mkstr(items)

    def _one(self, x):
        return mkstr([x])

    def _coerce(self, x):
        if isinstance(x, SymStr):
            return list(x._e)
        if isinstance(x, str):
            return [ord(c) for c in x]
        raise TypeError('must be str, not %s' % pytypename(x))

    @staticmethod
    def raw_items(x):
        if isinstance(x, SymStr):
            return list(x._items)
        if isinstance(x, str):
            return [ord(c) for c in x]
        raise TypeError('sequence item: expected str instance, %s found'
                        % pytypename(x))

    def __add__(self, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        return mkstr(self._items + self.raw_items(other))

    def __radd__(self, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        return mkstr(self.raw_items(other) + self._items)

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self._items)
            out.extend(self.raw_items(p))
        return mkstr(out)

    def __bool__(self):
        if any(not isinstance(x, OpaqueAtom) for x in self._items):
            return True
        return len(self._e) > 0

    def _strip_default(self):
        return [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680,
                0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006,
                0x2007, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x202f,
                0x205f, 0x3000]

    def __eq__(self, other):
        if not isinstance(other, (str, SymStr)):
            return False
        if other is self:
            return True
        oi = self.raw_items(other)
        return items_eq(self, other, self._items, oi)

    def __ne__(self, other):
        return sx_not(self == other)

    def __hash__(self):
        if E().raw_hash:
            return 0
        return hash(''.join(map(chr, self._concrete_elems())))

    def __contains__(self, x):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        if not self._lazy and len(x) == 1:
            return bool(self.contains_term(x))
        return self.find(x) >= 0

    def contains_term(self, x):
        c = self._coerce(x)[0]
        return sx_or(*[e == c for e in self._e])

    def encode(self, encoding='utf-8', errors='strict'):
        from .codecs_ import encode
        return encode(self, encoding, errors)

    def _ascii_map(self, fn):
        out = []
        for x in self._e:
            if isinstance(x, int):
                out.append(x)
            else:
                if x >= 128:
                    raise Unencodable('case mapping of non-ascii text')
                out.append(x)
        return fn(out)

    def lower(self):
        return self._ascii_map(lambda e: mkstr(
            [sx_ite(sx_and(x >= 65, x <= 90), x + 32, x) for x in e]))

    def upper(self):
        return self._ascii_map(lambda e: mkstr(
            [sx_ite(sx_and(x >= 97, x <= 122), x - 32, x) for x in e]))

    def isdigit(self):
        return self._ascii_map(lambda e: bool(len(e) and sx_and(
            *[sx_and(x >= 48, x <= 57) for x in e])))

    def _isspace_term(self):
        return sx_and(*[self._in(self._strip_default(), x)
                        for x in self._e])

    def isspace(self):
        return len(self._e) > 0 and bool(self._isspace_term())

    def translate(self, table):
        out = []
        from . import rt
        for x in self._e:
            try:
                v = rt.sx_getitem(table, x)
            except (LookupError, KeyError):
                out.append(x)
                continue
            if v is None:
                continue
            if isinstance(v, (int, SymInt)):
                out.append(v)
            else:
                out.extend(self._coerce(v))
        return mkstr(out)

    def format(self, *a, **k):
        raise Unencodable('symbolic format string')

    def ljust(self, n, fill=' '):
        return mkstr(self._e + [ord(fill)] * max(0, n - len(self._e)))

    def rjust(self, n, fill=' '):
        return mkstr([ord(fill)] * max(0, n - len(self._e)) + self._e)

    def zfill(self, n):
        return self.rjust(n, '0')

    def __mod__(self, args):
        raise Unencodable('symbolic format string')

    def __str__(self):
        return E().fallback_str(self)

    def __repr__(self):
        return '<SymStr %s>' % ''.join(
            chr(x) if isinstance(x, int) else '?' for x in self._items)

    def __format__(self, spec):
        return E().fallback_str(self)


def items_eq(sa, sb, a, b):
    """equality of item lists that may contain formatted integers, without
    forking where the structure allows it"""
    la = any(isinstance(x, ATOMS) for x in a)
    lb = any(isinstance(x, ATOMS) for x in b)
    if not la and not lb:
        return seq_eq(a, b)
    if len(a) == len(b):
        cs = []
        for x, y in zip(a, b):
            fx = isinstance(x, ATOMS)
            fy = isinstance(y, ATOMS)
            if fx != fy:
                break
            if fx:
                if x is y:
                    continue
                if type(x) is not type(y):
                    break
                if isinstance(x, ChoiceAtom):
                    if len(a) == 1:
                        cs.append(x.eq_text(sb))
                        continue
                    break
                if isinstance(x, OpaqueAtom):
                    cs.append(core.key_eq(x.key, y.key))
                    continue
                if x.spec != y.spec:
                    break
                cs.append(x.value == y.value)
            else:
                # literal text adjacent to atoms must match exactly for the
                # structural comparison to be complete
                if x is y:
                    continue
                if not (isinstance(x, int) and isinstance(y, int)
                        and x == y):
                    break
        else:
            return sx_and(*cs)
    # a single choice against anything
    for s, p, o in ((sa, a, sb), (sb, b, sa)):
        if len(p) == 1 and isinstance(p[0], ChoiceAtom):
            return p[0].eq_text(o)
    # a single decimal atom against literal text
    for p, q in ((a, b), (b, a)):
        if len(p) == 1 and isinstance(p[0], FmtAtom) and \
                p[0].spec == 'd' and all(isinstance(x, int) for x in q):
            t = ''.join(map(chr, q))
            try:
                v = int(t)
            except ValueError:
                return False
            if str(v) != t:
                return False
            return p[0].value == v
    ea = sa._e if isinstance(sa, SymStr) else a
    eb = sb._e if isinstance(sb, SymStr) else b
    return seq_eq(ea, eb)


def chr_of(x):
    if isinstance(x, SymInt):
        if sx_or(x < 0, x > 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr([x])
    return chr(x)


def pytype(x):
    if isinstance(x, SymInt):
        return x._sx_cls
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, (SymBytes, SymStr)):
        return x.pytype
    if isinstance(x, SymFloat):
        return float
    if isinstance(x, SymArray):
        import array
        return array.array
    return type(x)


def pytypename(x):
    return pytype(x).__name__


# --------------------------------------------------------------------------

class SymBytesIO(object):
    """io.BytesIO over possibly symbolic content"""

    def __init__(self, initial=b''):
        self._d = list(belems(initial))
        self._p = 0
        self.closed = False

    def _ck(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, size=-1):
        self._ck()
        n = len(self._d)
        rem = max(0, n - self._p)
        if size is None:
            k = rem
        elif isinstance(size, SymInt):
            if size < 0:
                k = rem
            elif size >= rem:
                k = rem
            else:
                k = E().concretize(size)
        else:
            k = rem if size < 0 else min(size, rem)
        r = self._d[self._p:self._p + k]
        self._p += k
        return mkbytes(r)

    read1 = read

    def readinto(self, b):
        raise Unencodable('readinto')

    def readline(self, size=-1):
        self._ck()
        out = []
        while self._p < len(self._d):
            c = self._d[self._p]
            self._p += 1
            out.append(c)
            if c == 10:
                break
        return mkbytes(out)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def tell(self):
        self._ck()
        return self._p

    def seek(self, pos, whence=0):
        self._ck()
        n = len(self._d)
        if whence == 0:
            if pos < 0:
                raise ValueError('negative seek value')
            p = pos
        elif whence == 1:
            p = self._p + pos
        else:
            p = n + pos
        if isinstance(p, SymInt):
            if p >= n:
                # beyond the end: position matters only for tell/write
                p = E().concretize(p) if E().must(p <= n) else p
                if isinstance(p, SymInt):
                    self._p = n
                    return p
            else:
                if p < 0:
                    p = 0
                p = E().concretize(p)
        self._p = max(0, p)
        return self._p

    def write(self, data):
        self._ck()
        e = belems(data)
        if self._p > len(self._d):
            self._d.extend([0] * (self._p - len(self._d)))
        self._d[self._p:self._p + len(e)] = e
        self._p += len(e)
        return len(e)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        self._ck()
        return mkbytes(self._d)

    def getbuffer(self):
        return self.getvalue()

    def truncate(self, size=None):
        if size is None:
            size = self._p
        del self._d[size:]
        return size

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymStringIO(object):

    def __init__(self, initial='', newline='\n'):
        self._d = SymStr.raw_items(initial)
        self.closed = False
        self._p = 0

    def write(self, s):
        items = SymStr.raw_items(s)
        if self._p != len(self._d):
            raise Unencodable('StringIO overwrite')
        self._d.extend(items)
        self._p = len(self._d)
        return len(s) if not isinstance(s, SymStr) else len(items)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        return mkstr(self._d)

    def read(self, n=-1):
        e = SymStr(self._d)._e
        self._d = e
        r = e[self._p:] if n is None or n < 0 else e[self._p:self._p + n]
        self._p += len(r)
        return mkstr(r)

    def seek(self, p, w=0):
        self._p = p if w == 0 else len(self._d)
        return self._p

    def tell(self):
        return self._p

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        s = self.read()
        for l in s.split('\n'):
            yield l + '\n'


SYMTYPES = (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymArray)


def is_sym(x):
    return isinstance(x, SYMTYPES)


def deep_sym(x, depth=3):
    if isinstance(x, SYMTYPES):
        return True
    if depth and type(x) in (tuple, list):
        for y in x:
            if deep_sym(y, depth - 1):
                return True
    elif depth and isinstance(x, (tuple, list)):
        for y in x:
            if deep_sym(y, depth - 1):
                return True
    elif depth and type(x) is dict:
        for k, y in x.items():
            if deep_sym(y, depth - 1) or deep_sym(k, depth - 1):
                return True
    return False
