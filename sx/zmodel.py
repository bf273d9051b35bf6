# -*- coding: utf-8 -*-
"""zlib over symbolic data.

Inflating is modelled exactly for streams made of stored blocks (RFC 1951,
3.2.4) and for reserved block types; other block types leave the encoding.
Deflating is modelled by its contract: the output is a zlib stream (of stored
blocks here) of the input, the header being handed out first.
"""
import zlib

from .core import Unencodable
from .values import belems, mkbytes


class Inflater(object):
    """incremental; error: None, 'type', 'lengths'"""

    def __init__(self, wbits):
        self.wrapped = wbits > 0
        self.skip = 2 if self.wrapped else 0
        self.pending = []
        self.left = 0
        self.last = False
        self.inblock = False
        self.eof = False
        self.trailer = 0
        self.unused = []
        self.error = None

    def feed(self, xs):
        out = []
        p = self.pending
        p.extend(xs)
        i = 0
        while not self.eof:
            if self.skip:
                if i >= len(p):
                    break
                i += 1
                self.skip -= 1
                continue
            if self.trailer:
                if i >= len(p):
                    break
                i += 1
                self.trailer -= 1
                if not self.trailer:
                    self.eof = True
                continue
            if not self.inblock:
                if self.last:
                    if self.wrapped:
                        self.trailer = 4
                        continue
                    self.eof = True
                    break
                if i >= len(p):
                    break
                h = p[i]
                kind = (h >> 1) & 3
                if kind == 3:
                    self.error = 'invalid block type'
                    break
                if not kind == 0:
                    raise Unencodable('inflate: compressed block')
                if len(p) - i < 5:
                    break
                n = p[i + 1] | p[i + 2] << 8
                m = p[i + 3] | p[i + 4] << 8
                if n != m ^ 0xffff:
                    self.error = 'invalid stored block lengths'
                    break
                if not isinstance(n, int):
                    raise Unencodable('inflate: symbolic length')
                self.last = bool(h & 1)
                self.left = n
                self.inblock = True
                i += 5
            k = min(self.left, len(p) - i)
            out.extend(p[i:i + k])
            i += k
            self.left -= k
            if self.left:
                break
            self.inblock = False
        self.pending = p[i:]
        if self.eof:
            self.unused.extend(self.pending)
            self.pending = []
        return out


def m_decompress(data, wbits=zlib.MAX_WBITS, bufsize=0):
    inf = Inflater(wbits)
    out = inf.feed(belems(data))
    if inf.error:
        raise zlib.error('Error -3 while decompressing data: ' + inf.error)
    if not inf.eof:
        raise zlib.error('Error -5 while decompressing data: incomplete or '
                         'truncated stream')
    return mkbytes(out)


def stored(xs, chunk=7):
    out = []
    while len(xs) > chunk:
        out += [0, chunk, 0, 255 - chunk, 255] + xs[:chunk]
        xs = xs[chunk:]
    out += [1, len(xs), 0, 255 - len(xs), 255] + xs
    return out


def m_compress(data, *a, **k):
    return mkbytes([0x78, 0x9c] + stored(list(belems(data))) + [1, 2, 3, 4])


class Decompress(object):

    def __init__(self, wbits=zlib.MAX_WBITS, *a):
        if a:
            raise Unencodable('decompressobj options')
        self._wbits = wbits
        self._native = zlib.decompressobj(wbits)
        self._log = []
        self._m = None

    def _model(self):
        if self._m is None:
            self._m = Inflater(self._wbits)
            for d in self._log:
                self._m.feed(belems(d))
        return self._m

    def decompress(self, data, max_length=0):
        if max_length:
            raise Unencodable('max_length')
        if self._m is None and isinstance(data, (bytes, bytearray)):
            self._log.append(bytes(data))
            return self._native.decompress(data)
        m = self._model()
        if m.eof:
            m.unused.extend(belems(data))
            return b''
        out = m.feed(belems(data))
        if m.error:
            raise zlib.error('Error -3 while decompressing data: ' + m.error)
        return mkbytes(out)

    def flush(self, length=None):
        if self._m is None:
            return self._native.flush()
        return b''

    @property
    def unused_data(self):
        if self._m is None:
            return self._native.unused_data
        return mkbytes(self._m.unused)

    @property
    def unconsumed_tail(self):
        return b''

    @property
    def eof(self):
        return self._native.eof if self._m is None else self._m.eof


class Compress(object):

    def __init__(self, *a, **k):
        self._d = []
        self._started = False

    def compress(self, data):
        self._d.extend(belems(data))
        if not self._started:
            self._started = True
            return b'\x78\x9c'
        return b''

    def flush(self, mode=zlib.Z_FINISH):
        if mode != zlib.Z_FINISH:
            raise Unencodable('flush mode')
        h = [] if self._started else [0x78, 0x9c]
        return mkbytes(h + stored(self._d) + [1, 2, 3, 4])


def install(models, always):
    models[zlib.decompress] = m_decompress
    models[zlib.compress] = m_compress
    models[zlib.decompressobj] = Decompress
    models[zlib.compressobj] = Compress
    always.add(zlib.decompressobj)
    always.add(zlib.compressobj)


# --- date arithmetic ---------------------------------------------------------

import datetime as _dt  # noqa


class SymTimedelta(object):

    def __init__(self, us):
        self.us = us

    def __add__(self, other):
        if isinstance(other, _dt.datetime):
            d = other - _dt.datetime(1, 1, 1)
            return SymDatetime((d.days * 86400 + d.seconds) * 10 ** 6 +
                               d.microseconds + self.us)
        return NotImplemented

    __radd__ = __add__


class SymDatetime(object):
    """microseconds since 0001-01-01"""

    def __init__(self, us):
        self.us = us

    def __eq__(self, other):
        if isinstance(other, SymDatetime):
            return self.us == other.us
        if isinstance(other, _dt.datetime):
            d = other - _dt.datetime(1, 1, 1)
            return self.us == ((d.days * 86400 + d.seconds) * 10 ** 6 +
                               d.microseconds)
        return NotImplemented

    __hash__ = None


def m_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0,
                hours=0, weeks=0):
    from .core import SymInt
    us = 0
    for v, k in ((days, 86400 * 10 ** 6), (seconds, 10 ** 6),
                 (microseconds, 1), (milliseconds, 1000),
                 (minutes, 60 * 10 ** 6), (hours, 3600 * 10 ** 6),
                 (weeks, 7 * 86400 * 10 ** 6)):
        if isinstance(v, (int, SymInt)):
            us = us + v * k
        else:
            raise Unencodable('timedelta over real numbers')
    return SymTimedelta(us)


def install_dates(models):
    models[_dt.timedelta] = m_timedelta
