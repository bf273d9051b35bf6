# -*- coding: utf-8 -*-
"""Text codecs over symbolic bytes/text (strict + the common error modes)."""
from .core import SymInt, Unencodable, sx_and, sx_or, sx_ite
from .values import SymBytes, SymStr, belems, mkbytes, mkstr


def norm(enc):
    e = enc.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'utf-8': 'utf-8', 'u8': 'utf-8',
            'utf-16le': 'utf-16-le', 'utf-16-le': 'utf-16-le',
            'utf16le': 'utf-16-le',
            'utf-16be': 'utf-16-be', 'utf-16-be': 'utf-16-be',
            'ascii': 'ascii', 'us-ascii': 'ascii',
            'latin1': 'latin-1', 'latin-1': 'latin-1',
            'iso-8859-1': 'latin-1', 'iso8859-1': 'latin-1'}.get(e, e)


class _Partial(list):
    """elements are symbolic, so the bytes object inside a UnicodeError is
    a stand-in of the same length"""


def _derr(enc, n, start, end, reason):
    return UnicodeDecodeError(enc, b'?' * n, start, end, reason)


def _eerr(enc, n, start, end, reason):
    return UnicodeEncodeError(enc, '?' * n, start, end, reason)


def _handle(errors, err, out):
    if errors == 'strict':
        raise err
    if errors == 'ignore':
        return
    if errors == 'replace':
        out.append(0xfffd)
        return
    raise Unencodable('codec error handler %s' % errors)


def decode(data, encoding, errors='strict'):
    e = belems(data)
    enc = norm(encoding)
    n = len(e)
    out = []
    if enc == 'latin-1':
        return mkstr(e)
    if enc in ('unicode-escape', 'unicodeescape'):
        return _unescape(e, errors)
    if enc == 'ascii':
        for i, b in enumerate(e):
            if b >= 128:
                _handle(errors, _derr('ascii', n, i, i + 1,
                                      'ordinal not in range(128)'), out)
            else:
                out.append(b)
        return mkstr(out)
    if enc in ('utf-16-le', 'utf-16-be'):
        i = 0
        le = enc == 'utf-16-le'

        def unit(i):
            a, b = e[i], e[i + 1]
            return (a | (b << 8)) if le else (b | (a << 8))
        while i < n:
            if i + 1 >= n:
                _handle(errors, _derr(enc, n, i, n, 'truncated data'), out)
                break
            u = unit(i)
            if sx_and(u >= 0xd800, u <= 0xdfff):
                if u >= 0xdc00:
                    _handle(errors, _derr(enc, n, i, i + 2,
                                          'illegal encoding'), out)
                    i += 2
                    continue
                if i + 3 >= n:
                    _handle(errors, _derr(enc, n, i, n,
                                          'unexpected end of data'), out)
                    break
                v = unit(i + 2)
                if sx_and(v >= 0xdc00, v <= 0xdfff):
                    out.append(0x10000 + (((u & 0x3ff) << 10) | (v & 0x3ff)))
                    i += 4
                else:
                    _handle(errors, _derr(enc, n, i, i + 2,
                                          'illegal UTF-16 surrogate'), out)
                    i += 2
                continue
            out.append(u)
            i += 2
        return mkstr(out)
    if enc == 'utf-8':
        i = 0
        while i < n:
            b = e[i]
            if b < 0x80:
                out.append(b)
                i += 1
                continue
            if b < 0xc2 or b > 0xf4:
                _handle(errors, _derr('utf-8', n, i, i + 1,
                                      'invalid start byte'), out)
                i += 1
                continue
            if b < 0xe0:
                need, cp = 1, b & 0x1f
                lo, hi = 0x80, 0xbf
            elif b < 0xf0:
                need, cp = 2, b & 0x0f
                lo = sx_ite(b == 0xe0, 0xa0, 0x80)
                hi = sx_ite(b == 0xed, 0x9f, 0xbf)
            else:
                need, cp = 3, b & 0x07
                lo = sx_ite(b == 0xf0, 0x90, 0x80)
                hi = sx_ite(b == 0xf4, 0x8f, 0xbf)
            k = 1
            bad = None
            while k <= need:
                if i + k >= n:
                    bad = 'unexpected end of data'
                    break
                c = e[i + k]
                if sx_and(c >= lo, c <= hi):
                    cp = (cp << 6) | (c & 0x3f)
                    lo, hi = 0x80, 0xbf
                    k += 1
                else:
                    bad = 'invalid continuation byte'
                    break
            if bad:
                _handle(errors, _derr('utf-8', n, i, i + k, bad), out)
            else:
                out.append(cp)
            i += k
        return mkstr(out)
    raise Unencodable('codec %s' % encoding)


def encode(text, encoding, errors='strict'):
    enc = norm(encoding)
    e = text._e if isinstance(text, SymStr) else [ord(c) for c in text]
    n = len(e)
    out = []

    def bad(i, reason, cp):
        if errors == 'strict':
            raise _eerr(enc, n, i, i + 1, reason)
        if errors == 'ignore':
            return
        if errors == 'replace':
            if enc.startswith('utf-16'):
                out.extend([63, 0])
            else:
                out.append(63)
            return
        if errors == 'xmlcharrefreplace':
            from .values import FmtAtom
            out.extend([38, 35])
            v = cp
            out.extend(FmtAtom('d', v).materialise()
                       if isinstance(v, SymInt)
                       else [ord(c) for c in '%d' % v])
            out.append(59)
            return
        if errors == 'surrogatepass' and enc == 'utf-8':
            out.extend([0xe0 | (cp >> 12), 0x80 | ((cp >> 6) & 0x3f),
                        0x80 | (cp & 0x3f)])
            return
        if errors == 'surrogatepass' and enc == 'utf-16-le':
            out.extend([cp & 255, cp >> 8])
            return
        if errors == 'backslashreplace':
            out.extend(_escaped(cp))
            return
        raise Unencodable('codec error handler %s' % errors)
    if enc in ('ascii', 'latin-1'):
        lim = 128 if enc == 'ascii' else 256
        for i, x in enumerate(e):
            if x < lim:
                out.append(x)
            else:
                bad(i, 'ordinal not in range(%d)' % lim, x)
        return mkbytes(out)
    if enc == 'utf-8':
        for i, x in enumerate(e):
            if x < 0x80:
                out.append(x)
            elif x < 0x800:
                out.extend([0xc0 | (x >> 6), 0x80 | (x & 0x3f)])
            elif x < 0x10000:
                if sx_and(x >= 0xd800, x <= 0xdfff):
                    bad(i, 'surrogates not allowed', x)
                else:
                    out.extend([0xe0 | (x >> 12), 0x80 | ((x >> 6) & 0x3f),
                                0x80 | (x & 0x3f)])
            else:
                out.extend([0xf0 | (x >> 18), 0x80 | ((x >> 12) & 0x3f),
                            0x80 | ((x >> 6) & 0x3f), 0x80 | (x & 0x3f)])
        return mkbytes([_byte(x) for x in out])
    if enc in ('utf-16-le', 'utf-16-be'):
        def put(u):
            p = [u & 255, (u >> 8) & 255]
            out.extend(p if enc == 'utf-16-le' else p[::-1])
        for i, x in enumerate(e):
            if x < 0x10000:
                if sx_and(x >= 0xd800, x <= 0xdfff):
                    bad(i, 'surrogates not allowed', x)
                else:
                    put(x)
            else:
                y = x - 0x10000
                put(0xd800 | ((y >> 10) & 0x3ff))
                put(0xdc00 | (y & 0x3ff))
        return mkbytes(out)
    if enc in ('unicode-escape', 'unicodeescape'):
        for x in e:
            if sx_and(x >= 32, x < 127):
                out.extend([92, 92] if x == 92 else [x])
            elif x == 9:
                out.extend([92, 116])
            elif x == 10:
                out.extend([92, 110])
            elif x == 13:
                out.extend([92, 114])
            else:
                out.extend(_escaped(x))
        return mkbytes(out)
    raise Unencodable('codec %s' % encoding)


def _escaped(x):
    """as \\xNN, \\uNNNN or \\UNNNNNNNN"""
    if x < 0x100:
        k, n = 120, 2
    elif x < 0x10000:
        k, n = 117, 4
    else:
        k, n = 85, 8
    out = [92, k]
    for i in reversed(range(n)):
        d = (x >> (4 * i)) & 15
        out.append(d + 48 + sx_ite(d > 9, 39, 0))
    return out


def _unescape(e, errors):
    n = len(e)
    out = []
    i = 0

    def bad(start, end, reason):
        raise _derr('unicodeescape', n, start, end, reason)
    while i < n:
        b = e[i]
        i += 1
        if b != 92:
            out.append(b)
            continue
        if i >= n:
            bad(i - 1, i, '\\ at end of string')
        c = e[i]
        i += 1
        done = False
        for k, v in ((92, 92), (39, 39), (34, 34), (98, 8), (102, 12),
                     (116, 9), (110, 10), (114, 13), (118, 11), (97, 7)):
            if c == k:
                out.append(v)
                done = True
                break
        if done or c == 10:
            continue
        count = 0
        for k, m in ((120, 2), (117, 4), (85, 8)):
            if c == k:
                count = m
        if count:
            v = 0
            for j in range(count):
                h = e[i + j] if i + j < n else 0
                if sx_and(h >= 48, h <= 57):
                    h = h - 48
                elif sx_and(h >= 97, h <= 102):
                    h = h - 87
                elif sx_and(h >= 65, h <= 70):
                    h = h - 55
                else:
                    bad(i - 2, i + j, 'truncated escape')
                v = v * 16 + h
            if v > 0x10ffff:
                bad(i - 2, i + count, 'illegal Unicode character')
            out.append(v)
            i += count
            continue
        if sx_and(c >= 48, c <= 55):
            v = c - 48
            for j in range(2):
                if i < n and sx_and(e[i] >= 48, e[i] <= 55):
                    v = v * 8 + (e[i] - 48)
                    i += 1
                else:
                    break
            out.append(v)
            continue
        if c == 78:
            raise Unencodable('named characters')
        out.extend([92, c])
    return mkstr(out)


def _byte(x):
    return x & 255 if isinstance(x, SymInt) else x
