# -*- coding: utf-8 -*-
"""A backtracking regular expression matcher over symbolic sequences."""
import re

try:
    from re import _parser as sre_parse
    from re import _constants as C
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as C

from .core import Unencodable, sx_and, sx_not, sx_or
from .values import SymBytes, SymStr, mkbytes, mkstr

_cache = {}


class Pat(object):
    def __init__(self, pattern):
        self.flags = pattern.flags
        self.tree = sre_parse.parse(pattern.pattern,
                                    pattern.flags & ~re.UNICODE
                                    if isinstance(pattern.pattern, bytes)
                                    else pattern.flags)
        self.groups = pattern.groups
        self.index = dict(pattern.groupindex)
        self.isbytes = isinstance(pattern.pattern, bytes)


def compiled(p):
    r = _cache.get(p)
    if r is None:
        r = _cache[p] = Pat(p)
    return r


class Match(object):
    def __init__(self, pat, pattern, string, elems, start, end, groups, mk):
        self.re = pattern
        self.string = string
        self._e = elems
        self._s = start
        self._t = end
        self._g = groups
        self._pat = pat
        self._mk = mk
        self.pos = 0

    def _idx(self, g):
        return self._pat.index[g] if isinstance(g, str) else g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._s, self._t
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            s, e = self.span(g)
            r.append(None if s < 0 else self._mk(self._e[s:e]))
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        r = []
        for g in range(1, self._pat.groups + 1):
            v = self.group(g)
            r.append(default if v is None else v)
        return tuple(r)

    def groupdict(self, default=None):
        return dict((k, self.group(k)) for k in self._pat.index)

    def __bool__(self):
        return True


def _cat(x, cat, isbytes):
    def rng(*rs):
        return sx_or(*[sx_and(x >= a, x <= b) for a, b in rs])
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = rng((48, 57))
        neg = cat == C.CATEGORY_NOT_DIGIT
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = rng((9, 13), (32, 32))
        neg = cat == C.CATEGORY_NOT_SPACE
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        r = rng((48, 57), (65, 90), (95, 95), (97, 122))
        neg = cat == C.CATEGORY_NOT_WORD
    else:
        raise Unencodable('regex category %s' % cat)
    if not isbytes and not isinstance(x, int):
        if x > 127:
            raise Unencodable('unicode regex category')
    return sx_not(r) if neg else r


def charcond(op, av, x, pat):
    ic = pat.flags & re.IGNORECASE
    if ic:
        raise Unencodable('IGNORECASE')
    if op is C.LITERAL:
        return x == av
    if op is C.NOT_LITERAL:
        return x != av
    if op is C.ANY:
        return True if pat.flags & re.DOTALL else x != 10
    if op is C.IN:
        neg = False
        cs = []
        for o, v in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                cs.append(x == v)
            elif o is C.RANGE:
                cs.append(sx_and(x >= v[0], x <= v[1]))
            elif o is C.CATEGORY:
                cs.append(_cat(x, v, pat.isbytes))
            else:
                raise Unencodable('regex set %s' % o)
        r = sx_or(*cs)
        return sx_not(r) if neg else r
    return None


_SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


def m(pat, ops, i, e, pos, end, groups):
    """yield (pos, groups) for each way to match ops[i:] at pos"""
    # run of single-character tests: one conjunction
    j = i
    conds = []
    p = pos
    while j < len(ops) and ops[j][0] in _SINGLE:
        if p >= end:
            return
        c = charcond(ops[j][0], ops[j][1], e[p], pat)
        if c is False:
            return
        conds.append(c)
        p += 1
        j += 1
    if conds:
        if not sx_and(*conds):
            return
        for r in m(pat, ops, j, e, p, end, groups):
            yield r
        return
    if i >= len(ops):
        yield pos, groups
        return
    op, av = ops[i]
    if op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if pat.flags & re.MULTILINE and av is C.AT_BEGINNING:
                if not (pos == 0 or bool(e[pos - 1] == 10)):
                    return
            elif pos != 0:
                return
        elif av in (C.AT_END, C.AT_END_STRING):
            ok = pos == len(e)
            if not ok and av is C.AT_END:
                if pat.flags & re.MULTILINE:
                    ok = bool(e[pos] == 10)
                else:
                    ok = pos == len(e) - 1 and bool(e[pos] == 10)
            if not ok:
                return
        else:
            raise Unencodable('regex anchor %s' % av)
        for r in m(pat, ops, i + 1, e, pos, end, groups):
            yield r
        return
    if op is C.SUBPATTERN:
        g, af, df, sub = av
        if af or df:
            raise Unencodable('regex inline flags')
        for p, gr in m(pat, list(sub), 0, e, pos, end, groups):
            if g is not None:
                gr = dict(gr)
                gr[g] = (pos, p)
            for r in m(pat, ops, i + 1, e, p, end, gr):
                yield r
        return
    if op is C.BRANCH:
        for alt in av[1]:
            for p, gr in m(pat, list(alt), 0, e, pos, end, groups):
                for r in m(pat, ops, i + 1, e, p, end, gr):
                    yield r
        return
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        hi = 1 << 30 if hi is C.MAXREPEAT else hi
        for p, gr in _rep(pat, sub, lo, hi, e, pos, end, groups, 0,
                          op is C.MAX_REPEAT):
            for r in m(pat, ops, i + 1, e, p, end, gr):
                yield r
        return
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, sub = av
        if direction < 0:
            raise Unencodable('lookbehind')
        hit = None
        for p, gr in m(pat, list(sub), 0, e, pos, end, groups):
            hit = gr
            break
        if (hit is not None) == (op is C.ASSERT):
            for r in m(pat, ops, i + 1, e, pos, end,
                       hit if hit is not None else groups):
                yield r
        return
    raise Unencodable('regex op %s' % op)


def _rep(pat, sub, lo, hi, e, pos, end, groups, n, greedy):
    if n < hi and not greedy and n >= lo:
        yield pos, groups
    if n < hi:
        for p, gr in m(pat, sub, 0, e, pos, end, groups):
            if p == pos and n >= lo:
                continue
            for r in _rep(pat, sub, lo, hi, e, p, end, gr, n + 1, greedy):
                yield r
    if greedy and n >= lo:
        yield pos, groups
    elif not greedy and n >= hi:
        yield pos, groups


def _prep(pattern, string):
    pat = compiled(pattern)
    if isinstance(string, (SymBytes, bytes, bytearray)):
        e = list(string._e) if isinstance(string, SymBytes) else list(string)
        mk = mkbytes
        if not pat.isbytes:
            raise TypeError('cannot use a string pattern on a bytes-like')
    else:
        e = list(string._e) if isinstance(string, SymStr) \
            else [ord(c) for c in string]
        mk = mkstr
        if pat.isbytes:
            raise TypeError('cannot use a bytes pattern on a string-like')
    return pat, e, mk


def match_at(pattern, string, pos, end=None, full=False):
    pat, e, mk = _prep(pattern, string)
    end = len(e) if end is None else min(end, len(e))
    for p, gr in m(pat, list(pat.tree), 0, e, pos, end, {}):
        if full and p != end:
            continue
        return Match(pat, pattern, string, e, pos, p, gr, mk)
    return None


def search(pattern, string, pos=0, end=None):
    pat, e, mk = _prep(pattern, string)
    n = len(e) if end is None else min(end, len(e))
    ops = list(pat.tree)
    for s in range(pos, n + 1):
        for p, gr in m(pat, ops, 0, e, s, n, {}):
            return Match(pat, pattern, string, e, s, p, gr, mk)
    return None


def finditer(pattern, string, pos=0, end=None):
    n = len(string)
    while pos <= n:
        r = search(pattern, string, pos, end)
        if r is None:
            return
        yield r
        pos = r.end() if r.end() > r.start() else r.end() + 1


def call(pattern, name, a, k):
    from .values import idx
    a = [a[0]] + [idx(x) if name != 'sub' else x for x in a[1:]] \
        if name in ('search', 'match', 'fullmatch', 'finditer', 'findall') \
        else a
    if name == 'search':
        return search(pattern, *a, **k)
    if name == 'match':
        return match_at(pattern, a[0], a[1] if len(a) > 1 else 0)
    if name == 'fullmatch':
        return match_at(pattern, a[0], a[1] if len(a) > 1 else 0, full=True)
    if name == 'finditer':
        return finditer(pattern, *a, **k)
    if name == 'findall':
        out = []
        for r in finditer(pattern, *a, **k):
            if pattern.groups == 0:
                out.append(r.group())
            elif pattern.groups == 1:
                out.append(r.group(1))
            else:
                out.append(r.groups())
        return out
    if name == 'sub':
        repl, string = a[0], a[1]
        from . import rt
        out = []
        pos = 0
        count = a[2] if len(a) > 2 else k.get('count', 0)
        n = 0
        for r in finditer(pattern, string):
            if count and n >= count:
                break
            out.append(string[pos:r.start()])
            if callable(repl):
                out.append(rt.sx_call(repl, r))
            else:
                if '\\' in (repl if isinstance(repl, str) else
                            repl.decode('latin-1')):
                    raise Unencodable('regex template')
                out.append(repl)
            pos = r.end()
            n += 1
        out.append(string[pos:])
        j = b'' if isinstance(string, SymBytes) else ''
        return rt._m_join(j, out)
    if name == 'split':
        out = []
        pos = 0
        for r in finditer(pattern, a[0]):
            out.append(a[0][pos:r.start()])
            pos = r.end()
        out.append(a[0][pos:])
        return out
    raise Unencodable('regex %s' % name)
