# -*- coding: utf-8 -*-
"""Stand-ins for what is below the code under test: a storage in memory,
raw deflate streams, and the block cipher of distribution documents."""
import io
import sys
import types


class Stream(object):
    """item of a storage"""

    def __init__(self, data):
        self.data = data
        self.opened = 0

    def open(self):
        self.opened += 1
        return io.BytesIO(self.data)


class Storage(object):

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(list(self.items))

    def __getitem__(self, name):
        x = self.items[name]
        if isinstance(x, dict):
            return Storage(x)
        return x


def deflate(xs, cut=None):
    """raw deflate stream of stored blocks"""
    out = []
    if cut is not None and 0 <= cut < len(xs):
        a, xs = xs[:cut], xs[cut:]
        out += [0, len(a), 0, 255 - len(a), 255] + a
    return out + [1, len(xs) & 255, len(xs) >> 8, 255 - (len(xs) & 255),
                  255 - (len(xs) >> 8)] + xs


SIGNATURE = [ord(c) for c in 'HWP Document File'] + [0] * 15


def fileheader(sx, flags, version=(4, 3, 0, 5), signature=SIGNATURE):
    """version in file order"""
    return sx.from_bytes(list(signature) + list(version) +
                         [(flags >> (8 * i)) & 0xff for i in range(4)] +
                         [0] * 216)


class Cipher(object):
    """in place of AES-128 in ECB mode: every block is combined with the key;
    lengths are checked as the real one does"""

    def __init__(self, algorithm, mode, backend=None):
        self.algorithm = algorithm
        self.mode = mode

    def decryptor(self):
        return Context(self.algorithm.key, self.mode)

    encryptor = decryptor


class Context(object):

    def __init__(self, key, mode):
        if not isinstance(mode, ECB):
            raise ValueError('mode')
        self.key = key
        self.pending = []

    def update(self, data):
        self.pending.extend(list(data))
        n = len(self.pending) // 16 * 16
        out = toy_decrypt(list(self.key), self.pending[:n])
        self.pending = self.pending[n:]
        return FROM_BYTES[0](out)

    def finalize(self):
        if self.pending:
            raise ValueError('The length of the provided data is not a '
                             'multiple of the block length.')
        return b''


FROM_BYTES = [bytes]


def toy_decrypt(key, xs):
    out = []
    for i in range(0, len(xs), 16):
        block = xs[i:i + 16]
        # rotate and combine
        block = block[1:] + block[:1]
        out += [a ^ b for a, b in zip(block, key)]
    return out


def toy_encrypt(key, xs):
    out = []
    for i in range(0, len(xs), 16):
        block = [a ^ b for a, b in zip(xs[i:i + 16], key)]
        out += block[-1:] + block[:-1]
    return out


class AES(object):

    def __init__(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError('Invalid key size')
        self.key = key


class ECB(object):
    pass


class toy_cipher(object):
    """puts the stand-in where the library is looked up"""

    NAMES = ['cryptography', 'cryptography.hazmat',
             'cryptography.hazmat.primitives',
             'cryptography.hazmat.primitives.ciphers',
             'cryptography.hazmat.backends']

    def __init__(self, sx):
        self.sx = sx

    def __enter__(self):
        FROM_BYTES[0] = self.sx.from_bytes
        self.saved = dict((k, sys.modules.get(k)) for k in self.NAMES)
        ms = {}
        for n in self.NAMES:
            ms[n] = types.ModuleType(str(n))
            ms[n].__path__ = []
            if '.' in n:
                a, b = n.rsplit('.', 1)
                setattr(ms[a], b, ms[n])
        c = ms['cryptography.hazmat.primitives.ciphers']
        c.Cipher = Cipher
        c.algorithms = types.SimpleNamespace(AES=AES)
        c.modes = types.SimpleNamespace(ECB=ECB)
        ms['cryptography.hazmat.backends'].default_backend = lambda: None
        sys.modules.update(ms)

    def __exit__(self, *a):
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# the key of a distribution document, as published by Changwoo Ryu

def dist_key(payload, seed=None):
    """256 bytes -> 80 bytes of key material"""
    if seed is None:
        seed = (payload[0] | payload[1] << 8 | payload[2] << 16 |
                payload[3] << 24)
    state = seed
    stream = []
    while len(stream) < 256:
        state = (state * 214013 + 2531011) % (1 << 32)
        value = (state >> 16) % 256
        state = (state * 214013 + 2531011) % (1 << 32)
        run = ((state >> 16) % 16) + 1
        stream += [value] * run
    start = 4 + seed % 16
    return [payload[i] ^ stream[i] for i in range(start, start + 80)]
