# -*- coding: utf-8 -*-
"""Selecting and grouping records."""
import io

PRELOAD = ['hwp5.recordstream']

COVERS = {
    'grouping': ['one', 'several', 'empty'],
    'ranges': ['nonempty', 'empty'],
    'single': ['in', 'out'],
    'links': ['linked'],
}
BOUNDS = {
    'quick': 'streams of 0..6 records with arbitrary 10-bit levels and tags '
             '(payloads of 0..2 arbitrary bytes), every range, index and '
             'group number within and just outside the stream',
    'thorough': 'the same with streams of 0..10 records',
}
OUTSIDE = 'longer streams; ranges with a negative bound'


def tasks(tier):
    out = []
    n1 = 7 if tier == 'quick' else 11
    for n in range(0, n1):
        out.append(dict(fn='grouping', params={'n': n}))
        out.append(dict(fn='treegroup', params={'n': n}))
        out.append(dict(fn='ranges', params={'n': n}))
        out.append(dict(fn='single', params={'n': n}))
    for n in range(1, 5 if tier == 'quick' else 7):
        out.append(dict(fn='links', params={'n': n}))
    return out


class Item(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


def stream(sx, n):
    rs = sx.mod('hwp5.recordstream')
    f = io.BytesIO()
    recs = []
    for i in range(n):
        r = rs.Record(sx.int('tag%d' % i, 0, 1023),
                      sx.int('level%d' % i, 0, 1023),
                      sx.bytes('p%d' % i, i % 3))
        rs.dump_record(f, r)
        recs.append((r['tagid'], r['level'], r['payload'], i))
    return rs.RecordStream(Item(f.getvalue()), (5, 0, 0, 0)), recs


def key(r):
    return (r['tagid'], r['level'], r['payload'], r['seqno'])


def same(sx, got, want, label):
    got = [key(r) for r in got]
    sx.check(len(got) == len(want), label + ': count')
    for a, b in zip(got, want):
        sx.check(sx.eq(a, b), label)


def groups_of(recs):
    out = []
    for r in recs:
        if not out or r[1] == 0:
            out.append([r])
        else:
            out[-1].append(r)
    return out


def grouping(sx, p):
    s, recs = stream(sx, p['n'])
    want = groups_of(recs)
    sx.cover('empty' if not want else
             'one' if len(want) == 1 else 'several')
    same(sx, s.records(), recs, 'all records in order')
    got = list(s.records_treegrouped())
    sx.check(len(got) == len(want), 'number of trees')
    for g, w in zip(got, want):
        same(sx, g, w, 'records of a tree')
    # lazily: a group is consumed before the next is requested
    i = 0
    for g in s.records_treegrouped(group_as_list=False):
        sx.check(i < len(want), 'number of lazy trees')
        same(sx, g, want[i], 'records of a lazy tree')
        i += 1
    sx.check(i == len(want), 'number of lazy trees')


def treegroup(sx, p):
    s, recs = stream(sx, p['n'])
    want = groups_of(recs)
    for k in range(0, p['n'] + 1):
        a = s.records_treegroup(k)
        b = s.records(treegroup=k)
        if k < len(want):
            same(sx, a, want[k], 'tree %d by number' % k)
            same(sx, b, want[k], 'tree %d selected' % k)
        else:
            sx.check(not list(a or ()), 'no such tree')
            sx.check(not list(b or ()), 'no such tree')


def ranges(sx, p):
    n = p['n']
    s, recs = stream(sx, n)
    a = sx.int('a', 0, n + 1)
    b = sx.int('b', 0, n + 2)
    a, b = sx.concrete(a), sx.concrete(b)
    want = [r for r in recs if a <= r[3] < b]
    sx.cover('nonempty' if want else 'empty')
    same(sx, s.records(range=(a, b)), want, 'records of a range')


def single(sx, p):
    n = p['n']
    s, recs = stream(sx, n)
    i = sx.concrete(sx.int('i', 0, n + 1))
    r = s.record(i)
    if i < n:
        sx.cover('in')
        sx.check(r is not None, 'record exists')
        sx.check(sx.eq(key(r), recs[i]), 'record at index')
    else:
        sx.cover('out')
        sx.check(r is None, 'no such record')


def links(sx, p):
    """the optional sister/parent links between neighbouring records"""
    rs = sx.mod('hwp5.recordstream')
    s, recs = stream(sx, p['n'])
    out = list(rs.link_records(s.records()))
    same(sx, out, recs, 'linked records')
    sx.cover('linked')
    for x, y in zip(out, out[1:]):
        if y['level'] == x['level']:
            sx.check(y.get('sister') is x, 'sister')
            sx.check(y.get('parent') is x.get('parent'), 'parent of sister')
        elif y['level'] == x['level'] + 1:
            sx.check(y.get('parent') is x, 'parent')
