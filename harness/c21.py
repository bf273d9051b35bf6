# -*- coding: utf-8 -*-
"""The commands print exactly what they are asked for."""
import io
import json
import logging
import sys

from .c04 import build
from .c18 import Modules, Out
from .c20 import array, hex_lines, model_value, record_value, ser
from .cfb import deflate, dist_key, fileheader, toy_cipher, toy_encrypt

PRELOAD = ['hwp5.hwp5proc', 'hwp5.proc.records', 'hwp5.proc.models',
           'hwp5.proc.find', 'hwp5.proc.cat', 'hwp5.proc.ls',
           'hwp5.proc.rawunz', 'hwp5.proc.diststream', 'hwp5.proc.header',
           'hwp5.proc.version', 'hwp5.storage.ole', 'hwp5.plat.olefileio',
           'hwp5.xmlmodel', 'hwp5.binmodel', 'hwp5.recordstream',
           'hwp5.filestructure', 'hwp5.cli', 'hwp5.proc.unpack',
           'hwp5.proc.xml', 'hwp5.proc.summaryinfo']

COVERS = {
    'records': ['range', 'group', 'all'],
    'models': ['one', 'group', 'all'],
    'version_option': ['ok'],
    'find': ['found', 'none'],
    'find_errors': ['ok'],
    'cat': ['ok'],
    'ls': ['ok'],
    'rawunz': ['ok'],
    'diststream': ['ok'],
    'header': ['ok'],
    'errors': ['ok'],
}
BOUNDS = {
    'quick': 'streams of up to 3 records of four tags and arbitrary levels '
             '0..2 with arbitrary payloads of up to 3 bytes; every range, '
             'group and number within them and beyond, all output formats, '
             'from files and from the standard input; finding by every '
             'condition and pair of conditions in one or two files, one of '
             'them damaged; printing streams of 0, 1, 4095..4097 and 8193 '
             'bytes, some arbitrary, stored, compressed and as they are; '
             'all versions and flags of file headers',
    'thorough': 'the same with up to 4 records',
}
OUTSIDE = 'argparse (run as it is on concrete options); terminals, pagers '\
    'and other programs output is sent through'
ASSUMPTIONS = ['olefile, the block cipher and zlib are replaced by '
               'stand-ins']


def tasks(tier):
    q = tier == 'quick'
    out = []
    n = 3 if q else 4
    for fmt in ('simple', 'raw', 'raw-header', 'raw-payload', 'json'):
        for src in ('docinfo', 'bodytext/0', 'BodyText/Section0', 'stdin'):
            k = n if fmt in ('simple', 'raw-header') else n - (not q)
            if fmt == 'json':
                k = 2
            out.append(dict(fn='records', params={
                'n': k, 'fmt': fmt, 'src': src}))
    for fmt in ('simple', 'json', 'format', 'events'):
        for src in ('docinfo', 'bodytext/0', 'BodyText/Section0', 'stdin'):
            out.append(dict(fn='models', params={
                'n': 3 if fmt != 'json' else 2, 'fmt': fmt, 'src': src}))
    out.append(dict(fn='version_option', params={}))
    for files in (1, 2):
        for cond in ('none', 'tagname', 'tagid', 'model', 'incomplete',
                     'tagid+incomplete', 'model+incomplete'):
            for dump in (0, 1):
                if dump and (files == 2 or 'incomplete' not in cond):
                    continue
                out.append(dict(fn='find', params={
                    'files': files, 'cond': cond, 'dump': dump}))
    out.append(dict(fn='find_errors', params={}))
    for n in (0, 1, 4095, 4096, 4097, 8193):
        for mode in ('plain', 'ole', 'vstreams'):
            out.append(dict(fn='cat', params={'n': n, 'mode': mode}))
    for mode in ('plain', 'ole', 'vstreams'):
        out.append(dict(fn='ls', params={'mode': mode}))
    for n in (0, 1, 5):
        out.append(dict(fn='rawunz', params={'n': n}))
    for op in ('', 'sha1', 'key'):
        for raw in (0, 1):
            out.append(dict(fn='diststream', params={'op': op, 'raw': raw}))
    for cmd in ('header', 'version'):
        out.append(dict(fn='header', params={'cmd': cmd}))
    out.append(dict(fn='errors', params={}))
    return out


# a stand-in for olefile

class Ole(object):

    def __init__(self, name, files):
        self.tree = files[name]

    def _find(self, path):
        segs = path if isinstance(path, list) else path.split('/')
        node = self.tree
        for s in segs:
            if not isinstance(node, dict) or s not in node:
                raise IOError('file not found')
            node = node[s]
        return node

    def exists(self, path):
        try:
            self._find(path)
        except IOError:
            return False
        return True

    def get_type(self, path):
        try:
            node = self._find(path)
        except IOError:
            return False
        return 1 if isinstance(node, dict) else 2

    def listdir(self, streams=True, storages=False):
        out = []

        def walk(node, prefix):
            for k in node:
                if isinstance(node[k], dict):
                    if storages:
                        out.append(prefix + [k])
                    walk(node[k], prefix + [k])
                elif streams:
                    out.append(prefix + [k])
        walk(self.tree, [])
        return out

    def openstream(self, path):
        node = self._find(path)
        if isinstance(node, dict):
            raise IOError('this file is not a stream')
        return io.BytesIO(node)

    def close(self):
        pass


class In(object):

    def __init__(self, data, lines=()):
        self.buffer = io.BytesIO(data)
        self.lines = lines

    def __iter__(self):
        return iter(self.lines)


def run(sx, argv, files, stdin=b'', lines=(), program=False):
    """texts and bytes the command has written"""
    main = sx.mod('hwp5.hwp5proc')
    mods = Modules()
    old = sys.stdin, sys.stdout, sys.argv
    out = Out()
    log = logging.getLogger('hwp5')
    handlers, level, up = list(log.handlers), log.level, log.propagate
    try:
        mods.module('olefile', OleFileIO=lambda name: Ole(name, files),
                    isOleFile=lambda name: name in files)
        sys.stdin = In(stdin, lines)
        sys.stdout = out
        sys.argv = ['hwp5proc'] + argv
        log.propagate = False
        if program:
            main.main()
        else:
            args = main.main_argparser().parse_args(argv)
            args.func(args)
    finally:
        sys.stdin, sys.stdout, sys.argv = old
        mods.restore()
        log.handlers[:] = handlers
        log.setLevel(level)
        log.propagate = up
    return out.parts


def join(sx, parts, text):
    out = []
    for x in parts:
        if len(x):
            sx.check(bool(sx.is_text(x)) == text, 'kind of output')
            out += sx.codepoints(x)
    return sx.from_codepoints(out) if text else sx.from_bytes(out)


TAGS = [16, 66, 67, 300]
NAMES = {16: 'HWPTAG_DOCUMENT_PROPERTIES', 66: 'HWPTAG_PARA_HEADER',
         67: 'HWPTAG_PARA_TEXT', 300: 'HWPTAG284'}


def source(sx, src, data, version=(4, 3, 0, 5)):
    """files, further arguments and standard input"""
    other = bytes(bytearray([1, 0, 16, 0, 99]))
    if src == 'stdin':
        return {}, [], data
    tree = {'FileHeader': fileheader(sx, 0, version),
            'DocInfo': other, 'BodyText': {'Section1': other,
                                           'Section0': other}}
    if src == 'docinfo':
        tree['DocInfo'] = data
    else:
        tree['BodyText']['Section0'] = data
    return {'a.hwp': tree}, ['a.hwp', src], b''


def head(tag, level, size):
    word = tag | level << 10 | size << 20
    return [(word >> (8 * i)) & 0xff for i in range(4)]


def groups_of(recs):
    out = []
    for r in recs:
        if not out or r['level'] == 0:
            out.append([r])
        else:
            out[-1].append(r)
    return out


def records(sx, p):
    n, fmt = p['n'], p['fmt']
    recs = []
    for i in range(n):
        tag = TAGS[i] if fmt == 'simple' and i != 1 else \
            sx.choice('tag%d' % i, TAGS) if fmt in ('simple', 'json') \
            else sx.int('tag%d' % i, 0, 1023)
        size = i % 4
        # another encoding of the same length would be dumped as this one
        recs.append(dict(
            tagid=tag, tagname=NAMES.get(tag) if fmt in ('simple', 'json')
            else None, level=sx.choice('level%d' % i, [0, 1, 2]) if i else 0,
            size=size, payload=sx.bytes('p%d' % i, size), seqno=i))
    raw = []
    for r in recs:
        raw += head(r['tagid'], r['level'], r['size']) + list(r['payload'])
    files, argv, stdin = source(sx, p['src'], sx.from_bytes(raw))
    groups = groups_of(recs)
    sub = sx.choice('subset', ['all', 'range', 'one', 'group'])
    if sub == 'range':
        a = sx.choice('from', range(n + 2))
        b = sx.choice('to', range(n + 2))
        argv = argv + ['--range', '%d-%d' % (a, b)]
        want = [r for r in recs if a <= r['seqno'] < b]
        if a > b:
            want = None
    elif sub == 'one':
        a = sx.choice('number', range(n + 1))
        argv = argv + ['--range', '%d' % a]
        want = [r for r in recs if r['seqno'] == a]
    elif sub == 'group':
        g = sx.choice('group', range(n))
        sx.assume(g < len(groups))
        argv = argv + ['--treegroup', '%d' % g]
        want = groups[g]
    else:
        want = recs
    if want is None:
        return
    cmd = ['records', '--' + fmt] + argv if fmt != 'json' or \
        sx.choice('default', [0, 1]) else ['records'] + argv
    got = run(sx, cmd, files, stdin)
    if fmt == 'simple':
        got = join(sx, got, True)
        text = u''
        for r in want:
            text += u'%04d %s %s\n' % (r['seqno'], '  ' * r['level'],
                                       r['tagname'])
        sx.check(sx.eq(got, text), 'list of records')
    elif fmt == 'json':
        got = join(sx, got, True)
        text = array([record_value(sx, r) for r in want])
        if want:
            sx.check(sx.eq(got, text), 'records')
        else:
            sx.check(json.loads(got) == [], 'no records')
    else:
        got = join(sx, got, False)
        xs = []
        for r in want:
            if fmt != 'raw-payload':
                xs += head(r['tagid'], r['level'], r['size'])
            if fmt != 'raw-header':
                xs += list(r['payload'])
        sx.check(sx.eq(got, sx.from_bytes(xs)), 'bytes of records')
    sx.cover({'one': 'range'}.get(sub, sub))


def some_models(sx, n, label='m'):
    """trees of paragraphs and records of no known kind; types and bytes left
    of each"""
    bm = sx.mod('hwp5.binmodel')
    recs, kinds, rest = [], [], []
    for i in range(n):
        kind = sx.choice('%skind%d' % (label, i),
                         ['paragraph', 'unknown', 'more'])
        if kind == 'unknown':
            level = sx.choice('%slevel%d' % (label, i), [0, 1]) if i else 0
            payload = sx.bytes('%sp%d' % (label, i), 1)
            recs.append((300, level, list(payload)))
            kinds.append('UnknownTagModel')
            rest.append(list(payload))
        else:
            tail = [sx.u8('%st%d' % (label, i))] if kind == 'more' else []
            recs.append((66, 0, [0] * 22 + tail))
            kinds.append('Paragraph')
            rest.append(tail)
    data = []
    for tag, level, payload in recs:
        data += head(tag, level, len(payload)) + payload
    return recs, kinds, rest, sx.from_bytes(data)


def models(sx, p):
    n, fmt = p['n'], p['fmt']
    recs, kinds, rest, data = some_models(sx, n)
    files, argv, stdin = source(sx, p['src'], data)
    groups = []
    for i, r in enumerate(recs):
        if i == 0 or r[1] == 0:
            groups.append([i])
        else:
            groups[-1].append(i)
    sub = sx.choice('subset', ['all', 'one', 'group']) \
        if fmt != 'events' else 'all'
    if sub == 'one':
        a = sx.choice('number', range(n + 1))
        argv = argv + ['--seqno', '%d' % a]
        want = [a] if a < n else []
    elif sub == 'group':
        g = sx.choice('group', range(n))
        sx.assume(g < len(groups))
        argv = argv + ['--treegroup', '%d' % g]
        want = groups[g]
    else:
        want = list(range(n))
    if fmt == 'json':
        opt = sx.choice('default', [[], ['--json']])
    elif fmt == 'format':
        opt = ['--format', u'%(seqno)s \uac00\xe9 %(type)s\\t%(tagname)s '
               u'%(level)s\\n\\uac01']
    else:
        opt = ['--' + fmt]
    if p['src'] == 'stdin':
        opt = opt + ['-V', '5.0.3.4']
    got = join(sx, run(sx, ['models'] + opt + argv, files, stdin), True)
    if fmt == 'simple':
        text = u''
        for i in want:
            text += u'%04d %s%s\n' % (i, ' ' * recs[i][1], kinds[i])
        sx.check(sx.eq(got, text), 'list of models')
    elif fmt == 'format':
        text = u''
        for i in want:
            text += u'%d \uac00\xe9 %s\t%s %d\n\uac01' % (
                i, kinds[i], NAMES[recs[i][0]], recs[i][1])
        sx.check(sx.eq(got, text), 'formatted models')
    elif fmt == 'events':
        check_events(sx, got, recs, kinds, rest)
    elif not want:
        sx.check(json.loads(got) == [], 'no models')
    else:
        # entries of a model are checked elsewhere
        rs = sx.mod('hwp5.recordstream')
        bm = sx.mod('hwp5.binmodel')
        ms = list(bm.parse_models(dict(version=(5, 0, 3, 4)), [
            rs.Record(t, lv, sx.from_bytes(x), seqno=i)
            for i, (t, lv, x) in enumerate(recs)]))
        sx.check(sx.eq(got, array([model_value(sx, ms[i]) for i in want])),
                 'models')
    sx.cover(sub)


def check_events(sx, got, recs, kinds, rest):
    """each record starts and ends, nested; bytes left are dumped"""
    lines = got.split(u'\n')
    starts, ends = [], []
    k = 0
    stack = []
    while k < len(lines):
        line = lines[k]
        if sx.is_sym(line):
            k += 1
            continue
        w = line.split()
        if w[1:2] == ['Record']:
            i = int(w[2])
            sx.check(w[3:] == ['level=%d' % recs[i][1], NAMES[recs[i][0]]],
                     'record of an event')
            if w[0] == 'STARTEVENT':
                starts.append(i)
                stack.append(i)
            else:
                sx.check(w[0] == 'ENDEVENT' and stack.pop() == i,
                         'nesting of events')
                ends.append(i)
                n = len(recs[i][2]) - len(rest[i])
                sx.check(lines[k + 1] == '%04x' % n, 'position of the rest')
                if rest[i]:
                    sx.check(lines[k + 3] == 'leftover:', 'rest')
                    sx.check(sx.eq(lines[k + 4], hex_lines(sx, rest[i])[0]),
                             'bytes left')
        k += 1
    sx.check(starts == list(range(len(recs))), 'every record starts')
    sx.check(sorted(ends) == starts and not stack, 'every record ends')


def version_option(sx, p):
    """the version of the standard input decides about its fields"""
    recs, want = build(sx, [[0, 'Numbering', 'zero', {}]], (5, 0, 3, 0), p)
    payload = list(recs[0]['payload'])
    payload[-1] = sx.u8('a')
    data = head(23, 0, len(payload)) + payload
    opt, merge = sx.choice('version', [
        ([], False), (['-V', '5.0.2.99'], False), (['-V', '5.0.3.0'], True),
        (['--file-format-version', '5.0.10.0'], True)])
    got = join(sx, run(sx, ['models'] + opt, {}, sx.from_bytes(data)), True)
    sx.check((u'unparsed' in got) == (not merge), 'fields of that version')
    sx.cover('ok')


def file_of(sx, docinfo, sections, version=(4, 3, 0, 5)):
    body = dict(('Section%d' % i, x) for i, x in enumerate(sections))
    return {'FileHeader': fileheader(sx, 0, version), 'DocInfo': docinfo,
            'BodyText': body}


def find(sx, p):
    files = {}
    want = []
    names = [u'a.hwp', u'\uac00 b.hwp'][:p['files']]
    tag = sx.choice('tag', [66, 300]) if 'tag' in p['cond'] else None
    model = sx.choice('model', ['Paragraph', 'UnknownTagModel', 'Para']) \
        if 'model' in p['cond'] else None
    for k, name in enumerate(names):
        streams = []
        for s, stream in enumerate(['DocInfo', 'BodyText/Section0',
                                    'BodyText/Section1']):
            n = [1, 2, 1][s] if p['files'] == 1 else [0, 1, 1][s]
            if k:
                n = 0 if s == 1 else 1
            if p['dump'] and s == 1:
                n = 1
            recs, kinds, rest, data = some_models(sx, n, '%d.%d' % (k, s))
            streams.append(data)
            for i in range(n):
                if tag is not None and recs[i][0] != tag:
                    continue
                if model is not None and kinds[i] != model:
                    continue
                if 'incomplete' in p['cond'] and not rest[i]:
                    continue
                want.append((name, stream, i, NAMES[recs[i][0]], kinds[i],
                             rest[i]))
        files[name] = file_of(sx, streams[0], streams[1:])
    cmd = ['find']
    if tag is not None:
        cmd += ['--tag', '%d' % tag if 'tagid' in p['cond'] else NAMES[tag]]
    if model is not None:
        cmd += ['--model', model]
    if 'incomplete' in p['cond']:
        cmd += ['--incomplete']
    if p['dump']:
        cmd += ['--dump']
    lines = ()
    how = sx.choice('from', ['args', 'stdin', 'stdin, cut'])
    if how == 'args':
        cmd += names
    else:
        cmd += ['--from-stdin']
        lines = [x + u'\n' for x in names]
        if how == 'stdin, cut':
            lines[-1] = names[-1]
    fmt = sx.choice('format', ['', '%(seqno)d|%(type)s|%(filename)s'])
    if fmt:
        cmd += ['--format', fmt]
    got = join(sx, run(sx, cmd, files, lines=lines), True)
    got = got.split(u'\n')
    sx.check(len(got[-1]) == 0, 'complete lines')
    heads = []
    for name, stream, i, tagname, kind, rest in want:
        heads.append(u'%d|%s|%s' % (i, kind, name) if fmt else
                     u'%s %s %d %s %s' % (name, stream, i, tagname, kind))
    if not p['dump']:
        sx.check(len(got) == len(heads) + 1, 'number of records found')
        for a, b in zip(got, heads):
            sx.check(sx.eq(a, b), 'record found')
    else:
        at = [k for k, x in enumerate(got) if not sx.is_sym(x) and
              x in heads]
        sx.check([got[k] for k in at] == heads, 'records found')
        for k, end, w in zip(at, at[1:] + [len(got)], want):
            text = u'\n'.join(got[k + 1:end])
            close = [j for j in range(k, end) if not sx.is_sym(got[j]) and
                     got[j] == u'}']
            sx.check(len(close) == 1 and got[k + 1] == u'{', 'dump')
            sx.check(len(text) > 0, 'dump')
            hexed = hex_lines(sx, w[5])[0]
            sx.check(any(sx.eq(x, u'    "' + hexed + u'"')
                         for x in got[k:close[0]]), 'bytes left')
    sx.cover('found' if want else 'none')


def find_errors(sx, p):
    """a damaged file does not hide what is found in others"""
    good = sx.from_bytes(head(66, 0, 22) + [0] * 22)
    cut = sx.choice('cut', range(4, 26))
    bad = good[:cut]
    where = sx.choice('damaged', [0, 1, 2])
    streams = [good, good, good]
    streams[where] = bad
    files = {'a': file_of(sx, streams[0], streams[1:]),
             'b': file_of(sx, good, [good])}
    order = sx.choice('order', [['a', 'b'], ['b', 'a']])
    got = join(sx, run(sx, ['find', '--tag', '66', '--format',
                            '%(filename)s %(stream)s'] + order, files), True)
    names = ['DocInfo', 'BodyText/Section0', 'BodyText/Section1']
    a = ['a ' + x for x in names[:where]]
    b = ['b ' + x for x in names[:2]]
    want = a + b if order[0] == 'a' else b + a
    sx.check(got.split(u'\n')[:-1] == want, 'records found')
    sx.cover('ok')


def long_bytes(sx, n):
    xs = [(i * 7) & 0xff for i in range(n)]
    for i in (0, 1, 4094, 4095, 4096, 8191, 8192):
        if i < n:
            xs[i] = sx.u8('x%d' % i)
    return xs


def cat(sx, p):
    xs = long_bytes(sx, p['n'])
    raw = []
    for i in range(0, max(1, len(xs)), 255):
        raw += deflate(xs[i:i + 255])
        if i + 255 < len(xs):
            raw[-min(255, len(xs) - i) - 5] = 0
    tree = {'FileHeader': fileheader(sx, 1), 'DocInfo': sx.from_bytes(raw),
            'PrvText': sx.from_bytes(xs), 'BodyText': {},
            'BinData': {'BIN0001.a b': sx.from_bytes(raw),
                        'a': sx.from_bytes(deflate([1]))}}
    tree['BodyText']['Section0'] = sx.from_bytes(raw)
    opt = [] if p['mode'] == 'plain' else ['--' + p['mode']]
    for name, stored in (('PrvText', 0), ('BinData/BIN0001.a b', 1),
                         ('BodyText/Section0', 1), ('DocInfo', 1)):
        got = join(sx, run(sx, ['cat'] + opt + ['a.hwp', name],
                           {'a.hwp': tree}), False)
        sx.check(sx.eq(got, sx.from_bytes(
            raw if stored and p['mode'] == 'ole' else xs)), 'content')
    try:
        run(sx, ['cat'] + opt + ['a.hwp', 'BinData/BIN0002'],
            {'a.hwp': tree})
        sx.fail('streams that are not there are reported')
    except KeyError:
        pass
    sx.cover('ok')


def ls(sx, p):
    empty = sx.from_bytes(deflate([]))
    flags = sx.choice('flags', [0, 1])
    tree = {'FileHeader': fileheader(sx, flags), 'DocInfo': empty,
            u'\x05HwpSummaryInformation': b'', 'PrvText': b'',
            'BodyText': {'Section0': empty, 'Section1': empty},
            'BinData': {'BIN0001.a b': empty, u'\uac00': empty},
            'Scripts': {'a': empty}}
    opt = [] if p['mode'] == 'plain' else ['--' + p['mode']]
    got = join(sx, run(sx, ['ls'] + opt + ['a.hwp'], {'a.hwp': tree}), True)
    want = ['\\x05HwpSummaryInformation', 'BinData/BIN0001.a b',
            'BinData/\\uac00', 'BodyText/Section0', 'BodyText/Section1',
            'DocInfo', 'FileHeader', 'PrvText', 'Scripts/a']
    if p['mode'] == 'vstreams':
        want += ['\\x05HwpSummaryInformation.txt', 'FileHeader.txt',
                 'PrvText.utf8', 'BodyText.xml']
        for x in ('BodyText/Section0', 'BodyText/Section1', 'DocInfo'):
            want += [x + '.models', x + '.records', x + '.xml']
    sx.check(sorted(got.split(u'\n')[:-1]) == sorted(want), 'names listed')
    sx.cover('ok')


def rawunz(sx, p):
    xs = [sx.u8('x%d' % i) for i in range(p['n'])]
    cut = sx.choice('cut', range(p['n'] + 1))
    got = join(sx, run(sx, ['rawunz'], {},
                       sx.from_bytes(deflate(xs, cut))), False)
    sx.check(sx.eq(got, sx.from_bytes(xs)), 'content')
    sx.cover('ok')


def diststream(sx, p):
    seed = 424242
    payload = [(seed >> (8 * i)) & 0xff for i in range(4)] + \
        [(i * 37) & 0xff for i in range(4, 256)]
    # digits of the digest, as text in 16 bit units
    digits = [sx.choice('d%d' % i, [0, 9, 15]) if i in (0, 7, 39) else i % 16
              for i in range(40)]
    start = 4 + seed % 16
    stream = dist_key([0] * 256, seed)
    text = []
    for d in digits:
        text += [ord('%X' % d), 0]
    for i in range(80):
        payload[start + i] = stream[i] ^ text[i]
    key = text[:16]
    plain = [sx.u8('p%d' % i) for i in range(32)]
    data = head(28, 0, 256) + payload + toy_encrypt(key, plain)
    cmd = ['diststream']
    if p['op']:
        cmd += ['--' + p['op']]
    if p['raw']:
        cmd += ['--raw']
    with toy_cipher(sx):
        got = join(sx, run(sx, cmd, {}, sx.from_bytes(data)), False)
    if not p['op']:
        want = plain
    else:
        want = key if p['op'] == 'key' else \
            [digits[i] * 16 + digits[i + 1] for i in range(0, 40, 2)]
        if not p['raw']:
            want = [ord(c) for c in ''.join('%02x' % x for x in want)]
    sx.check(sx.eq(got, sx.from_bytes(want)), 'output')
    sx.cover('ok')


def header(sx, p):
    bits = [sx.choice('f%d' % i, [0, 1]) for i in (0, 3, 5, 11)]
    flags = bits[0] | bits[1] << 3 | bits[2] << 5 | bits[3] << 11
    ver = [sx.choice('v%d' % i, [0, 5, 10, 255]) for i in range(4)]
    tree = {'FileHeader': fileheader(sx, flags, tuple(ver)),
            'DocInfo': b'', 'BodyText': {'Section0': b''}}
    got = join(sx, run(sx, [p['cmd'], 'a.hwp'], {'a.hwp': tree}),
               p['cmd'] == 'version')
    v = '%d.%d.%d.%d' % tuple(reversed(ver))
    if p['cmd'] == 'version':
        sx.check(got == v + '\n', 'version')
    else:
        want = {'signature': 'HWP Document File', 'version': v}
        for i, k in enumerate([
                'compressed', 'password', 'distributable', 'script', 'drm',
                'xmltemplate_storage', 'history', 'cert_signed',
                'cert_encrypted', 'cert_signature_extra', 'cert_drm',
                'ccl']):
            want[k] = str(flags >> i & 1)
        lines = sorted('%s: %s' % (k, want[k]) for k in want)
        sx.check(sorted(got.decode('utf-8').split('\n')) ==
                 sorted(lines + ['']), 'header')
    sx.cover('ok')


def errors(sx, p):
    """files of other formats and damaged ones are reported"""
    what = sx.choice('what', ['no compound file', 'other', 'short',
                              'damaged'])
    tree = file_of(sx, b'', [b''])
    if what == 'other':
        i = sx.choice('i', [0, 16, 31])
        sig = list(tree['FileHeader'])
        sig[i] = sx.u8('c')
        sx.assume(sig[i] != tree['FileHeader'][i])
        tree['FileHeader'] = sx.from_bytes(sig)
    elif what == 'short':
        tree['FileHeader'] = tree['FileHeader'][:sx.choice('n', [0, 31, 35])]
    elif what == 'damaged':
        tree['DocInfo'] = sx.from_bytes(head(66, 0, 22) + [0] * sx.choice(
            'n', range(0, 22)))
    files = {'a.hwp': tree}
    cmd = sx.choice('cmd', [['version'], ['header'], ['ls'], ['records'],
                            ['models'], ['cat']])
    if what == 'damaged':
        sx.assume(cmd[0] in ('records', 'models'))
    if what == 'short':
        # without the rest of the header there is no version
        sx.assume(cmd[0] != 'cat')
    argv = cmd + ['no.hwp' if what == 'no compound file' else 'a.hwp']
    if cmd[0] in ('records', 'models'):
        argv += ['docinfo']
    elif cmd[0] == 'cat':
        argv += ['DocInfo']
    old = sys.stderr
    try:
        sys.stderr = Out()
        run(sx, argv, files, program=True)
        sx.fail('reported')
    except SystemExit as e:
        sx.check(e.code == 1, 'exit status')
    finally:
        sys.stderr = old
    sx.cover('ok')
