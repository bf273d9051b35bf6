# -*- coding: utf-8 -*-
"""The file header tells HWP 5 documents from others, and their flags."""
from .cfb import SIGNATURE, Storage, Stream, fileheader

PRELOAD = ['hwp5.filestructure', 'hwp5.xmlmodel', 'hwp5.storage.ole']

COVERS = {
    'identify': ['yes', 'no'],
    'truncated': ['no'],
    'missing': ['no'],
    'flags': ['ok'],
    'text': ['ok'],
    'views': ['ok'],
}
BOUNDS = {
    'quick': 'every signature of 32 bytes, every truncation of the header, '
             'every version and all flag words',
}
BOUNDS['thorough'] = BOUNDS['quick']
OUTSIDE = 'the 216 reserved bytes cut short'
FLAGS = ['compressed', 'password', 'distributable', 'script', 'drm',
         'xmltemplate_storage', 'history', 'cert_signed', 'cert_encrypted',
         'cert_signature_extra', 'cert_drm', 'ccl']


def tasks(tier):
    out = []
    for k in ('storage', 'file', 'text', 'model'):
        out.append(dict(fn='identify', params={'via': k}))
    for n in range(0, 40):
        out.append(dict(fn='truncated', params={'n': n}))
    out.append(dict(fn='missing', params={}))
    out.append(dict(fn='flags', params={}))
    out.append(dict(fn='text', params={}))
    out.append(dict(fn='views', params={}))
    return out


def minimal(header):
    return Storage({'FileHeader': Stream(header),
                    'DocInfo': Stream(b''),
                    'BodyText': {'Section0': Stream(b'')}})


def opens(sx, via, stg):
    fs = sx.mod('hwp5.filestructure')
    if via == 'storage':
        return bool(fs.storage_is_hwp5file(stg))
    cls = {'file': fs.Hwp5File, 'text': sx.mod('hwp5.xmlmodel').Hwp5File,
           'model': sx.mod('hwp5.binmodel').Hwp5File}[via]
    try:
        cls(stg)
    except sx.mod('hwp5.errors').InvalidHwp5FileError:
        return False
    return True


def identify(sx, p):
    sig = [sx.u8('s%d' % i) for i in range(32)]
    flags = sx.u32('flags') if p['via'] == 'storage' else 0
    stg = minimal(fileheader(sx, flags, signature=sig))
    want = sx.And(*[sx.eq(a, b) for a, b in zip(sig, SIGNATURE)])
    if opens(sx, p['via'], stg):
        sx.check(want, 'other signatures are refused')
        sx.cover('yes')
    else:
        sx.check(sx.Not(want), 'the signature is accepted')
        sx.cover('no')


def truncated(sx, p):
    n = p['n']
    good = SIGNATURE + [4, 3, 0, 5, 1, 0, 0, 0]
    data = good[:n] if n < 36 else [sx.u8('b%d' % i) for i in range(n)]
    stg = minimal(sx.from_bytes(data))
    for via in ('storage', 'file'):
        sx.check(not opens(sx, via, stg), 'a truncated header is refused')
    sx.cover('no')


def missing(sx, p):
    stg = Storage({'DocInfo': Stream(b'')})
    for via in ('storage', 'file'):
        sx.check(not opens(sx, via, stg), 'a storage without header')
    sx.cover('no')


def setup(sx, classname='hwp5.filestructure'):
    v = [sx.u8('v%d' % i) for i in range(4)]
    word = sx.u32('flags')
    header = fileheader(sx, word, v)
    return v, word, header


def flags(sx, p):
    fs = sx.mod('hwp5.filestructure')
    v, word, header = setup(sx)
    base = fs.Hwp5FileBase(minimal(header))
    for h in (base.header, base.fileheader, base['FileHeader'],
              fs.HwpFileHeader(Stream(header))):
        sx.check(sx.eq(tuple(h.version), tuple(reversed(v))), 'version')
        sx.check(sx.eq(h.signature, sx.from_bytes(SIGNATURE)), 'signature')
        for i, name in enumerate(FLAGS):
            sx.check(sx.eq(getattr(h.flags, name), (word >> i) & 1),
                     'flag ' + name)
        sx.check(sx.eq(int(h.flags), word), 'flag word')
        d = h.to_dict()
        sx.check(sx.eq(int(d['flags']), word), 'flag word')
        sx.check(sx.eq(h.open().read(), header), 'header stream')
    sx.cover('ok')


def text(sx, p):
    """FileHeader.txt"""
    fs = sx.mod('hwp5.filestructure')
    v, word, header = setup(sx)
    h = fs.Hwp5FileBase(minimal(header)).header
    fmt = h.other_formats()
    sx.check(list(fmt) == ['.txt'], 'formats')
    got = fmt['.txt']().read()
    lines = [(name, str((word >> i) & 1)) for i, name in enumerate(FLAGS)]
    lines += [('signature', 'HWP Document File'),
              ('version', '%d.%d.%d.%d' % tuple(reversed(v)))]
    want = ''
    for k, val in sorted(lines):
        want = want + k + ': ' + val + '\n'
    sx.check(sx.eq(got, want.encode('utf-8')), 'text of the header')
    sx.cover('ok')


def views(sx, p):
    """all views of a document agree on version and flags"""
    v, word, header = setup(sx)
    word = sx.choice('word', [0, 1, 4, 5])
    header = fileheader(sx, word, v)
    for name in ('hwp5.filestructure', 'hwp5.recordstream', 'hwp5.binmodel',
                 'hwp5.xmlmodel'):
        f = sx.mod(name).Hwp5File(minimal(header))
        sx.check(sx.eq(tuple(f.header.version), tuple(reversed(v))),
                 'version')
        sx.check(sx.eq(f.header.flags.compressed, word & 1), 'compressed')
        for item in (f.docinfo, f.bytext if hasattr(f, 'bytext')
                     else f.bodytext, f.bodytext.section(0)):
            sx.check(sx.eq(tuple(item.version), tuple(reversed(v))),
                     'version of a part')
    sx.cover('ok')
