# -*- coding: utf-8 -*-
"""Symbolic values and the path explorer.

Integers are exact (Python semantics): every SymInt is a z3 bit-vector whose
width is large enough for its tracked range [lo, hi]; operators widen.
"""
import sys
import time

import z3


# --------------------------------------------------------------------------
# control flow of the explorer (BaseException: `except Exception` in the code
# under test cannot swallow them)

class PathStop(BaseException):
    """path ends (assumption violated / infeasible)"""


class Unencodable(BaseException):
    """an operation that the encoding does not cover was reached"""


class BudgetExceeded(BaseException):
    """a bound on decisions / time was reached within a path"""


ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


# --------------------------------------------------------------------------

def _swidth(lo, hi):
    """signed width needed for [lo, hi]"""
    return max(hi.bit_length() if hi >= 0 else (-hi - 1).bit_length(),
               (-lo - 1).bit_length() if lo < 0 else lo.bit_length()) + 1


def _rep(lo, hi):
    """(signed, width) canonical representation of a range"""
    if lo >= 0:
        return False, max(hi.bit_length(), 1)
    return True, _swidth(lo, hi)


def _resize(t, signed, w):
    cw = t.size()
    if cw == w:
        return t
    if cw > w:
        return z3.Extract(w - 1, 0, t)
    if signed:
        return z3.SignExt(w - cw, t)
    return z3.ZeroExt(w - cw, t)


def term_of(x, w):
    """the value as a w-bit term, modulo 2**w"""
    if isinstance(x, SymInt):
        return _resize(x._sx_t, x._sx_s, w)
    if isinstance(x, SymBool):
        return z3.If(x._sx_t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.BitVecVal(int(x), w)


def rng(x):
    if isinstance(x, SymInt):
        return x._sx_lo, x._sx_hi
    if isinstance(x, SymBool):
        return 0, 1
    return int(x), int(x)


def mkint(t, signed, lo, hi, cls=int):
    """build a SymInt; collapse to a constant when the term is one"""
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        v = t.as_signed_long() if signed else t.as_long()
        if cls is int:
            return v
        return int.__new__(cls, v)
    if lo == hi:
        return lo if cls is int else int.__new__(cls, lo)
    r = SymInt.__new__(SymInt)
    s = object.__setattr__
    w = t.size()
    # keep width consistent with the range
    rs, rw = _rep(lo, hi)
    if rw < w:
        t = z3.simplify(z3.Extract(rw - 1, 0, t))
        signed = rs
    elif rs != signed:
        t = z3.simplify(_resize(t, signed, rw))
        signed = rs
    s(r, '_sx_t', t)
    s(r, '_sx_s', signed)
    s(r, '_sx_lo', lo)
    s(r, '_sx_hi', hi)
    s(r, '_sx_cls', cls)
    s(r, '_sx_fields', None)
    return r


def _isnum(x):
    return isinstance(x, (int, SymInt, SymBool))


def _arith(fn, lo, hi, a, b):
    s, w = _rep(lo, hi)
    return mkint(fn(term_of(a, w), term_of(b, w)), s, lo, hi)


class SymBool(object):
    __slots__ = ('_sx_t',)

    def __init__(self, t):
        self._sx_t = t

    def __bool__(self):
        return ENGINE.decide(self._sx_t)

    def __hash__(self):
        return hash(bool(self))

    def _int(self):
        return mkint(z3.If(self._sx_t, z3.BitVecVal(1, 1),
                           z3.BitVecVal(0, 1)), False, 0, 1)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return mkbool(self._sx_t == other._sx_t)
        if other is True or other is False:
            return self if other else mkbool(z3.Not(self._sx_t))
        if _isnum(other):
            return self._int() == other
        return False

    def __ne__(self, other):
        return sx_not(self == other)

    def __and__(self, other):
        if isinstance(other, (bool, SymBool)):
            return sx_and(self, other)
        return self._int() & other

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, SymBool)):
            return sx_or(self, other)
        return self._int() | other

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, (bool, SymBool)):
            return sx_not(self == other)
        return self._int() ^ other

    def __lshift__(self, o):
        return self._int() << o

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __repr__(self):
        return '<SymBool %s>' % str(self._sx_t)[:60]


def mkbool(t):
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    """z3 Bool of a truth value (bool, SymBool, or anything with truth)"""
    if isinstance(x, SymBool):
        return x._sx_t
    if isinstance(x, SymInt):
        return (x != 0)._sx_t if isinstance(x != 0, SymBool) \
            else z3.BoolVal(bool(x != 0))
    return z3.BoolVal(bool(x))


def sx_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x._sx_t))
    if isinstance(x, SymInt):
        return x == 0
    return not x


def sx_and(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SymBool, SymInt)):
            ts.append(bterm(x))
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts))


def sx_or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SymBool, SymInt)):
            ts.append(bterm(x))
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts))


def sx_ite(c, a, b):
    """non forking if-then-else over integers / booleans"""
    if isinstance(c, SymInt):
        c = c != 0
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c._sx_t, bterm(a), bterm(b)))
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    s, w = _rep(lo, hi)
    return mkint(z3.If(c._sx_t, term_of(a, w), term_of(b, w)), s, lo, hi)


class SymInt(object):
    __slots__ = ('_sx_t', '_sx_s', '_sx_lo', '_sx_hi', '_sx_cls',
                 '_sx_fields')

    # --- identity as an instance of (a subclass of) int
    def __getattr__(self, name):
        if name.startswith('_sx_'):
            raise AttributeError(name)
        cls = self._sx_cls
        for c in cls.__mro__:
            d = c.__dict__
            if name in d:
                v = d[name]
                if c in (int, object):
                    m = INT_METHODS.get(name)
                    if m is not None:
                        return m.__get__(self)
                    raise Unencodable('int.%s' % name)
                g = getattr(type(v), '__get__', None)
                if g is not None:
                    return g(v, self, cls)
                return v
        for c in cls.__mro__:
            if '__getattr__' in c.__dict__:
                return c.__dict__['__getattr__'](self, name)
        raise AttributeError("'%s' object has no attribute '%s'"
                             % (cls.__name__, name))

    def __setattr__(self, name, value):
        raise AttributeError(name)

    def __repr__(self):
        return '<SymInt %s[%d..%d] %s>' % (
            self._sx_cls.__name__, self._sx_lo, self._sx_hi,
            str(self._sx_t)[:60])

    def __str__(self):
        return ENGINE.fallback_str(self)

    def __format__(self, spec):
        return ENGINE.fallback_str(self)

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __index__(self):
        return ENGINE.concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(ENGINE.concretize(self))

    def __hash__(self):
        if ENGINE.raw_hash:
            return 0
        return hash(ENGINE.concretize(self))

    # --- comparison
    def _cmp(self, other, kind):
        if isinstance(other, SymBool):
            other = other._int()
        if not isinstance(other, (int, SymInt)):
            return NotImplemented
        la, ha = self._sx_lo, self._sx_hi
        lb, hb = rng(other)
        if kind == 'eq':
            if ha < lb or hb < la:
                return False
            if la == ha == lb == hb:
                return True
        elif kind == 'lt':
            if ha < lb:
                return True
            if la >= hb:
                return False
        elif kind == 'le':
            if ha <= lb:
                return True
            if la > hb:
                return False
        lo, hi = min(la, lb), max(ha, hb)
        s, w = _rep(lo, hi)
        a, b = term_of(self, w), term_of(other, w)
        if kind == 'eq':
            return mkbool(a == b)
        if kind == 'lt':
            return mkbool(a < b if s else z3.ULT(a, b))
        return mkbool(a <= b if s else z3.ULE(a, b))

    def __eq__(self, other):
        # fast path used very often: byte/word equal to constant
        return self._cmp(other, 'eq')

    def __ne__(self, other):
        r = self._cmp(other, 'eq')
        if r is NotImplemented:
            return r
        return sx_not(r)

    def __lt__(self, other):
        return self._cmp(other, 'lt')

    def __le__(self, other):
        return self._cmp(other, 'le')

    def __gt__(self, other):
        r = self._cmp(other, 'le')
        return r if r is NotImplemented else sx_not(r)

    def __ge__(self, other):
        r = self._cmp(other, 'lt')
        return r if r is NotImplemented else sx_not(r)

    # --- arithmetic
    def __add__(self, other):
        if not _isnum(other):
            return NotImplemented
        lb, hb = rng(other)
        return _arith(lambda a, b: a + b, self._sx_lo + lb, self._sx_hi + hb,
                      self, other)

    __radd__ = __add__

    def __sub__(self, other):
        if not _isnum(other):
            return NotImplemented
        lb, hb = rng(other)
        return _arith(lambda a, b: a - b, self._sx_lo - hb, self._sx_hi - lb,
                      self, other)

    def __rsub__(self, other):
        if not _isnum(other):
            return NotImplemented
        lb, hb = rng(other)
        return _arith(lambda a, b: a - b, lb - self._sx_hi, hb - self._sx_lo,
                      other, self)

    def __mul__(self, other):
        if not _isnum(other):
            if isinstance(other, (str, bytes, list, tuple)):
                return other * ENGINE.concretize(self)
            return NotImplemented
        lb, hb = rng(other)
        c = [self._sx_lo * lb, self._sx_lo * hb, self._sx_hi * lb,
             self._sx_hi * hb]
        return _arith(lambda a, b: a * b, min(c), max(c), self, other)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self._sx_lo >= 0:
            return mkint(self._sx_t, self._sx_s, self._sx_lo, self._sx_hi)
        return sx_ite(self < 0, -self, self)

    def __invert__(self):
        return -1 - self

    def _divmod(self, a, b):
        """floor division and modulo"""
        la, ha = rng(a)
        lb, hb = rng(b)
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if b > 0 and (b & (b - 1)) == 0:
                k = b.bit_length() - 1
                return a >> k, a & (b - 1)
        else:
            if b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        if la >= 0 and lb >= 0:
            w = max(_rep(la, ha)[1], _rep(lb, hb)[1])
            x, y = term_of(a, w), term_of(b, w)
            q = mkint(z3.UDiv(x, y), False, 0, ha // max(lb, 1))
            r = mkint(z3.URem(x, y), False, 0, min(ha, hb - 1))
            return q, r
        w = max(_swidth(la, ha), _swidth(lb, hb)) + 1
        x, y = term_of(a, w), term_of(b, w)
        m = max(abs(la), abs(ha))
        q0 = x / y            # truncated
        r0 = z3.SRem(x, y)    # sign follows dividend
        adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
        q = z3.If(adj, q0 - 1, q0)
        r = z3.If(adj, r0 + y, r0)
        mb = max(abs(lb), abs(hb))
        lo_r = 0 if lb >= 0 else -mb
        hi_r = mb if hb > 0 else 0
        return (mkint(q, True, -m - 1, m),
                mkint(r, True, lo_r, hi_r))

    def __floordiv__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self._divmod(self, other)[0]

    def __rfloordiv__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self._divmod(other, self)[0]

    def __mod__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self._divmod(self, other)[1]

    def __rmod__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self._divmod(other, self)[1]

    def __divmod__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self._divmod(self, other)

    def __rdivmod__(self, other):
        if not _isnum(other):
            return NotImplemented
        return self._divmod(other, self)

    def __truediv__(self, other):
        return SymFloat(('/', self, other))

    def __rtruediv__(self, other):
        return SymFloat(('/', other, self))

    def __pow__(self, other):
        if isinstance(other, int) and other >= 0:
            r = 1
            for _ in range(other):
                r = self * r
            return r
        raise Unencodable('symbolic exponent')

    def __rpow__(self, other):
        if other == 2:
            return 1 << self
        raise Unencodable('symbolic exponent')

    def __lshift__(self, other):
        if isinstance(other, (SymInt, SymBool)):
            return _var_shift(self, other, True)
        if not isinstance(other, int):
            return NotImplemented
        if other < 0:
            raise ValueError('negative shift count')
        if other == 0:
            return self
        return mkint(z3.Concat(self._sx_t, z3.BitVecVal(0, other)),
                     self._sx_s, self._sx_lo << other, self._sx_hi << other)

    def __rlshift__(self, other):
        return _var_shift(other, self, True)

    def __rshift__(self, other):
        if isinstance(other, (SymInt, SymBool)):
            return _var_shift(self, other, False)
        if not isinstance(other, int):
            return NotImplemented
        if other < 0:
            raise ValueError('negative shift count')
        if other == 0:
            return self
        w = self._sx_t.size()
        lo, hi = self._sx_lo >> other, self._sx_hi >> other
        if other >= w:
            if not self._sx_s:
                return 0
            other = w - 1
        return mkint(z3.Extract(w - 1, other, self._sx_t), self._sx_s, lo, hi)

    def __rrshift__(self, other):
        return _var_shift(other, self, False)

    def __and__(self, other):
        if not _isnum(other):
            return NotImplemented
        la, ha = self._sx_lo, self._sx_hi
        lb, hb = rng(other)
        if isinstance(other, int) and other >= 0:
            if other == 0:
                return 0
            n = other.bit_length()
            if la >= 0:
                n = min(n, self._sx_t.size())
            t = _resize(self._sx_t, self._sx_s, n)
            m = other & ((1 << n) - 1)
            hi = m if la < 0 else min(m, ha)
            if m != (1 << n) - 1:
                t = t & z3.BitVecVal(m, n)
            return mkint(t, False, 0, hi)
        if la >= 0 or lb >= 0:
            if la >= 0 and lb >= 0:
                hi = min(ha, hb)
            else:
                hi = ha if la >= 0 else hb
            lo = 0
        else:
            w = max(_swidth(la, ha), _swidth(lb, hb))
            lo, hi = -(1 << (w - 1)), max(ha, hb, 0)
        s, w = _rep(min(la, lb, lo), max(ha, hb, hi))
        return _narrow(term_of(self, w) & term_of(other, w), s, lo, hi)

    __rand__ = __and__

    def _orx(self, other, fn):
        if not _isnum(other):
            return NotImplemented
        la, ha = self._sx_lo, self._sx_hi
        lb, hb = rng(other)
        if la >= 0 and lb >= 0:
            w = max(_rep(la, ha)[1], _rep(lb, hb)[1])
            return mkint(fn(term_of(self, w), term_of(other, w)), False, 0,
                         (1 << w) - 1)
        w = max(_swidth(la, ha), _swidth(lb, hb))
        return mkint(fn(term_of(self, w), term_of(other, w)), True,
                     -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __or__(self, other):
        return self._orx(other, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, other):
        return self._orx(other, lambda a, b: a ^ b)

    __rxor__ = __xor__


def _narrow(t, s, lo, hi):
    rs, rw = _rep(lo, hi)
    if rw <= t.size():
        return mkint(z3.Extract(rw - 1, 0, t), rs, lo, hi)
    return mkint(_resize(t, s, rw), rs, lo, hi)


def _var_shift(a, n, left):
    ln, hn = rng(n)
    if hn > 4096:
        n = ENGINE.concretize(n)
        return a << n if left else a >> n
    if n < 0:
        raise ValueError('negative shift count')
    la, ha = rng(a)
    if left:
        lo = min(la, la << hn)
        hi = max(ha, ha << hn)
        s, w = _rep(lo, hi)
        w2 = max(w, hn.bit_length() + 1)
        t = term_of(a, w2) << term_of(n, w2)
        return _narrow(t, s, lo, hi)
    lo, hi = min(la, la >> hn if la < 0 else 0), max(ha, 0 if ha >= 0 else -1)
    s, w = _rep(min(la, lo), max(ha, hi))
    w2 = max(w, hn.bit_length() + 1)
    x = term_of(a, w2)
    t = (x >> term_of(n, w2)) if s else z3.LShR(x, term_of(n, w2))
    return _narrow(t, s, lo, hi)


def _m_bit_length(self):
    x = abs(self)
    if isinstance(x, int):
        return x.bit_length()
    hi = x._sx_hi.bit_length()
    r = 0
    for k in range(hi):
        r = sx_ite(x >= (1 << k), k + 1, r)
    return r


def _m_to_bytes(self, length=1, byteorder='big', signed=False):
    if not signed:
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= (1 << (8 * length)):
            raise OverflowError('int too big to convert')
    else:
        h = 1 << (8 * length - 1)
        if sx_or(self < -h, self >= h):
            raise OverflowError('int too big to convert')
    t = term_of(self, 8 * length)
    items = [mkint(z3.Extract(8 * i + 7, 8 * i, t), False, 0, 255)
             for i in range(length)]
    if byteorder == 'big':
        items.reverse()
    from .values import mkbytes
    return mkbytes(items)


def _m_conjugate(self):
    return self


INT_METHODS = {
    'bit_length': _m_bit_length,
    'to_bytes': _m_to_bytes,
    'conjugate': _m_conjugate,
    '__index__': SymInt.__index__,
    '__int__': SymInt.__index__,
    '__hash__': SymInt.__hash__,
    '__repr__': SymInt.__repr__,
    '__str__': SymInt.__str__,
}


class _RealImag(object):
    pass


class SymFloat(object):
    """opaque float: only structural equality is known"""
    __slots__ = ('_sx_key',)

    def __init__(self, key):
        self._sx_key = key

    def _op(self, name, *args):
        return SymFloat((name, self) + args)

    def __mul__(self, o):
        return self._op('*', o)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._op('+', o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op('-', o)

    def __truediv__(self, o):
        return self._op('/', o)

    def __repr__(self):
        return '<SymFloat>'

    def __str__(self):
        return ENGINE.fallback_str(self)

    def __eq__(self, other):
        return float_eq(self, other)

    def __ne__(self, other):
        return sx_not(float_eq(self, other))

    def __hash__(self):
        if ENGINE.raw_hash:
            return 0
        raise Unencodable('hash of a symbolic float')

    def __bool__(self):
        raise Unencodable('truth of a symbolic float')

    def _no(self, *a):
        raise Unencodable('float operation')

    __lt__ = __le__ = __gt__ = __ge__ = _no
    __int__ = __float__ = _no


def float_eq(a, b):
    if not isinstance(b, SymFloat):
        a, b = b, a
    if not isinstance(a, SymFloat):
        raise Unencodable('float comparison')
    return key_eq(a._sx_key, b._sx_key)


def key_eq(a, b):
    if isinstance(a, SymFloat) and isinstance(b, SymFloat):
        return key_eq(a._sx_key, b._sx_key)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            raise Unencodable('float comparison')
        return sx_and(*[key_eq(x, y) for x, y in zip(a, b)])
    return a == b


# --------------------------------------------------------------------------

class Entry(object):
    __slots__ = ('kind', 'val', 'alt', 'pushed', 'altmodel')

    def __init__(self, kind, val, alt=False, pushed=False):
        self.kind = kind
        self.val = val
        self.alt = alt
        self.pushed = pushed
        self.altmodel = None


class Violation(object):
    def __init__(self, label, values, kind='check'):
        self.label = label
        self.values = values
        self.kind = kind


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_const = 0
        self.incomplete = []


class Engine(object):

    def __init__(self, max_decisions=20000, query_timeout_ms=60000,
                 concretize_limit=48):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trace = []
        self.pos = 0
        self.stats = Stats()
        self.model = None
        self.raw_hash = False
        self.max_decisions = max_decisions
        self.concretize_limit = concretize_limit
        self.deadline = None
        self.inputs = {}        # name -> (kind, term, signed...) this path
        self.input_order = []
        self.known = {}         # ast id -> (term, bool) on this path
        self.fallbacks = 0
        self.path_incomplete = None
        self.on_violation = None
        self.strict = True

    # --- solver
    def _check(self, *extra):
        t0 = time.time()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
            if self.path_incomplete is None:
                self.path_incomplete = 'solver unknown'
        return r, m

    def get_model(self):
        if self.model is None:
            r, m = self._check()
            if r != z3.sat:
                raise PathStop()
            self.model = m
        return self.model

    def _assert(self, t):
        self.solver.push()
        self.solver.add(t)

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time')
        if self.pos > self.max_decisions:
            raise BudgetExceeded('decisions')

    def decide(self, t):
        if t is True or t is False:
            return t
        k = self.known.get(t.get_id())
        if k is not None:
            return k[1]
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'd':
                raise RuntimeError('nondeterministic re-execution: %s' %
                                   e.kind)
            self.pos += 1
            if e.pushed is None:    # flipped: not asserted yet
                self._assert(t if e.val else z3.Not(t))
                e.pushed = True
                self.model = e.altmodel
                e.altmodel = None
        else:
            self._tick()
            self.stats.decisions += 1
            m = self.get_model()
            v = z3.is_true(m.eval(t, model_completion=True))
            r, om = self._check(z3.Not(t) if v else t)
            if r == z3.unsat:
                e = Entry('d', v)
            else:
                e = Entry('d', v, True, True)
                e.altmodel = om
                self._assert(t if v else z3.Not(t))
            self.trace.append(e)
            self.pos += 1
        self.known[t.get_id()] = (t, e.val)
        return e.val

    def assume(self, c):
        if isinstance(c, SymInt):
            c = c != 0
        if not isinstance(c, SymBool):
            if not c:
                raise PathStop()
            return
        t = c._sx_t
        if self.pos < len(self.trace):
            self.pos += 1
            return
        self._tick()
        m = self.get_model()
        if not z3.is_true(m.eval(t, model_completion=True)):
            r, om = self._check(t)
            if r == z3.unsat:
                raise PathStop()
            self.model = om
        e = Entry('a', None, False, True)
        self._assert(t)
        self.trace.append(e)
        self.pos += 1

    def pick(self, x):
        """a value x can take on this path (recorded)"""
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            return e.val
        m = self.get_model()
        v = m.eval(x._sx_t, model_completion=True)
        v = v.as_signed_long() if x._sx_s else v.as_long()
        self.trace.append(Entry('v', v))
        self.pos += 1
        return v

    def concretize(self, x, limit=None):
        if not isinstance(x, SymInt):
            return int(x)
        if limit is None:
            limit = self.concretize_limit
        n = 0
        while True:
            v = self.pick(x)
            if (x == v):
                return v
            n += 1
            if n >= limit:
                raise BudgetExceeded('more than %d values' % limit)

    def maybe(self, c):
        """c with a fork, as a bool"""
        return bool(c)

    def must(self, c):
        """does c hold on every model of the path? (no fork; recorded)"""
        if not isinstance(c, SymBool):
            return bool(c)
        t = c._sx_t
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            return e.val
        r, _ = self._check(z3.Not(t))
        v = (r == z3.unsat)
        self.trace.append(Entry('v', v))
        self.pos += 1
        return v

    def check(self, c, label, info=None):
        """assert c on the current path"""
        self.stats.checks += 1
        if isinstance(c, SymInt):
            c = c != 0
        if not isinstance(c, SymBool):
            if c:
                self.stats.checks_const += 1
                return
            if self.pos < len(self.trace):
                e = self.trace[self.pos]
                self.pos += 1
                raise PathStop()
            m = self.get_model()
            self.trace.append(Entry('c', None))
            self.pos += 1
            self.on_violation(label, self.values(m), info)
            raise PathStop()
        t = c._sx_t
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            if e.val:
                raise PathStop()
            return
        self._tick()
        r, m = self._check(z3.Not(t))
        if r == z3.unsat:
            self.trace.append(Entry('c', False))
            self.pos += 1
            return
        if r == z3.sat:
            self.on_violation(label, self.values(m), info)
            # continue under the assertion if possible
            r2, m2 = self._check(t)
            if r2 == z3.unsat:
                self.trace.append(Entry('c', True))
                self.pos += 1
                raise PathStop()
            self.model = m2
        e = Entry('c', False, False, True)
        self._assert(t)
        self.trace.append(e)
        self.pos += 1

    # --- inputs
    def new_int(self, name, lo, hi, width=None):
        s, w = _rep(lo, hi)
        t = z3.BitVec(name, w)
        self.inputs[name] = ('int', t, s)
        x = SymInt.__new__(SymInt)
        st = object.__setattr__
        st(x, '_sx_t', t)
        st(x, '_sx_s', s)
        st(x, '_sx_lo', lo)
        st(x, '_sx_hi', hi)
        st(x, '_sx_cls', int)
        st(x, '_sx_fields', None)
        if s:
            full = lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1
        else:
            full = lo == 0 and hi == (1 << w) - 1
        if not full:
            cs = []
            if s:
                cs = [t >= lo, t <= hi]
            else:
                if lo > 0:
                    cs.append(z3.UGE(t, lo))
                if hi != (1 << w) - 1:
                    cs.append(z3.ULE(t, hi))
            self.assume(SymBool(z3.And(*cs)))
        return x

    def new_bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = ('bool', t, False)
        return SymBool(t)

    def values(self, m):
        r = {}
        for name, (kind, t, s) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if kind == 'bool':
                r[name] = z3.is_true(v)
            else:
                r[name] = v.as_signed_long() if s else v.as_long()
        return r

    def fallback_str(self, x):
        # str() demanded by code outside of the instrumentation
        raise Unencodable('str() of a symbolic value in native code')

    # --- path driver
    def begin(self):
        self.pos = 0
        self.inputs = {}
        self.known = {}
        self.data = {}          # of those who need some, for this path
        self.raw_hash = False
        self.path_incomplete = None

    def backtrack(self):
        """prepare the next path; False when exploration is finished"""
        self.model = None
        while self.trace:
            e = self.trace[-1]
            if e.kind == 'd' and e.alt:
                if e.pushed:
                    self.solver.pop()
                e.val = not e.val
                e.alt = False
                e.pushed = None
                return True
            if e.pushed:
                self.solver.pop()
            self.trace.pop()
        return False
