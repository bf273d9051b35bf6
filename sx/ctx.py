# -*- coding: utf-8 -*-
"""Harness contexts.  A harness is written once and runs in two modes:

* symbolic: inputs are solver variables, the code under test is instrumented;
* concrete: inputs come from a solver model, the code under test is the
  ordinary, uninstrumented module (used for replay and for validating the
  encoding).
"""
import importlib


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Base(object):

    def mod(self, name):
        return importlib.import_module(name)

    def u8(self, name):
        return self.int(name, 0, 0xff)

    def u16(self, name):
        return self.int(name, 0, 0xffff)

    def u32(self, name):
        return self.int(name, 0, 0xffffffff)

    def i32(self, name):
        return self.int(name, -0x80000000, 0x7fffffff)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        for k, o in enumerate(options[:-1]):
            if i == k:
                return o
        return options[-1]

    def implies(self, a, b):
        return self.Or(self.Not(a), b)


class Symbolic(Base):
    symbolic = True

    def __init__(self, eng, params, known=()):
        self.eng = eng
        self.params = params
        self.covers = set()
        self.observed = []
        self.known = known
        self.known_hits = set()

    # inputs
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.eng.new_int(name, lo, hi)

    def bool(self, name):
        return self.eng.new_bool(name)

    def bytes(self, name, n):
        from .values import mkbytes
        return mkbytes([self.eng.new_int('%s[%d]' % (name, i), 0, 255)
                        for i in range(n)])

    def text(self, name, n, lo=0, hi=0x10ffff, surrogates=False):
        from .values import mkstr
        from .core import sx_or
        out = []
        for i in range(n):
            c = self.eng.new_int('%s[%d]' % (name, i), lo, hi)
            if not surrogates and hi >= 0xd800 and lo <= 0xdfff:
                self.eng.assume(sx_or(c < 0xd800, c > 0xdfff))
            out.append(c)
        return mkstr(out)

    # logic without forking
    def eq(self, a, b):
        from .rt import deep_eq
        return deep_eq(a, b)

    def And(self, *a):
        from .core import sx_and
        return sx_and(*a)

    def Or(self, *a):
        from .core import sx_or
        return sx_or(*a)

    def Not(self, a):
        from .core import sx_not
        return sx_not(a)

    def ite(self, c, a, b):
        from .core import sx_ite
        return sx_ite(c, a, b)

    def assume(self, c):
        self.eng.assume(c)

    def check(self, c, label):
        self.eng.check(c, label)

    def fail(self, label):
        self.eng.check(False, label)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def concrete(self, x):
        """fork until x is concrete"""
        from .core import SymInt, SymBool
        from .values import SymBytes, SymStr
        if isinstance(x, SymInt):
            return self.eng.concretize(x)
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymBytes):
            return bytes(x._concrete_elems())
        if isinstance(x, SymStr):
            return ''.join(map(chr, x._concrete_elems()))
        return x

    def codepoints(self, s):
        """code points / byte values of text or bytes"""
        from .values import SymSeq
        if isinstance(s, SymSeq):
            return list(s._e)
        if isinstance(s, str):
            return [ord(c) for c in s]
        return list(s)

    def from_codepoints(self, cps):
        from .values import mkstr
        return mkstr(list(cps))

    def from_bytes(self, xs):
        from .values import mkbytes
        return mkbytes(list(xs))

    def is_sym(self, x):
        from .values import deep_sym
        return deep_sym(x)

    def is_bytes(self, x):
        from .values import isbytes
        return isbytes(x)

    def is_text(self, x):
        from .values import SymStr
        return isinstance(x, (str, SymStr))


class Concrete(Base):
    symbolic = False

    def __init__(self, values, params, known=()):
        self.values = values
        self.params = params
        self.covers = set()
        self.observed = []
        self.known = known
        self.known_hits = set()

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.values.get(name)
        if v is None:
            v = lo if not lo <= 0 <= hi else 0
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def bytes(self, name, n):
        return bytes([self.values.get('%s[%d]' % (name, i), 0)
                      for i in range(n)])

    def text(self, name, n, lo=0, hi=0x10ffff, surrogates=False):
        return ''.join(chr(self.values.get('%s[%d]' % (name, i), lo))
                       for i in range(n))

    def eq(self, a, b):
        return deep_eq(a, b)

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        if not c:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, label, value):
        self.observed.append((label, value))

    def concrete(self, x):
        return x

    def codepoints(self, s):
        if isinstance(s, str):
            return [ord(c) for c in s]
        return list(s)

    def from_codepoints(self, cps):
        return ''.join(map(chr, cps))

    def from_bytes(self, xs):
        return bytes(xs)

    def is_sym(self, x):
        return False

    def is_bytes(self, x):
        return isinstance(x, (bytes, bytearray, memoryview))

    def is_text(self, x):
        return isinstance(x, str)


def deep_eq(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return isinstance(a, list) == isinstance(b, list) and \
            len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and deep_eq(x, b[k])
                                        for k, x in a.items())
    return a == b


def canon(v, m=None, depth=6):
    """JSON-able canonical form of an observed value, under model m"""
    t = type(v)
    if v is None or t in (bool, str):
        return v if t is not str else _s(v)
    if isinstance(v, float):
        return 'float:%r' % v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray)):
        return 'b:' + bytes(v).hex()
    if m is not None:
        import z3
        from .core import SymInt, SymBool, SymFloat
        from .values import (SymBytes, SymStr, FmtAtom, OpaqueAtom,
                             ChoiceAtom)
        if isinstance(v, SymInt):
            x = m.eval(v._sx_t, model_completion=True)
            return x.as_signed_long() if v._sx_s else x.as_long()
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v._sx_t, model_completion=True))
        if isinstance(v, SymBytes):
            return 'b:' + bytes(canon(x, m) for x in v._e).hex()
        if isinstance(v, SymStr):
            out = ''
            for x in v._items:
                if isinstance(x, FmtAtom):
                    out += format(canon(x.value, m), x.spec)
                elif isinstance(x, OpaqueAtom):
                    return '<opaque>'
                elif isinstance(x, ChoiceAtom):
                    t = x.default
                    for c, y in x.alts:
                        if canon(c, m):
                            t = y
                            break
                    t = canon(t, m)
                    if t == '<opaque>':
                        return t
                    out += bytes.fromhex(t[2:]).decode('utf-16-le',
                                                       'surrogatepass')
                else:
                    out += chr(canon(x, m))
            return _s(out)
        if isinstance(v, SymFloat):
            return '<opaque>'
    if depth <= 0:
        return '...'
    if isinstance(v, (list, tuple)):
        return [canon(x, m, depth - 1) for x in v]
    if isinstance(v, dict):
        return sorted([[canon(k, m, depth - 1), canon(x, m, depth - 1)]
                       for k, x in v.items()], key=repr)
    return '<%s>' % t.__name__


def _s(x):
    return 's:' + x.encode('utf-16-le', 'surrogatepass').hex()
