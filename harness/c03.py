# -*- coding: utf-8 -*-
"""Level-prefixed sequences, event streams and trees."""

PRELOAD = ['hwp5.treeop']

COVERS = {
    'levels': ['valid', 'jump', 'siblings', 'deep'],
    'forest': ['built'],
}
BOUNDS = {
    'quick': 'sequences of 0..5 items, arbitrary 10-bit levels not below the '
             'first one (valid ones and those that skip a level), the items '
             'distinct or all equal',
    'thorough': 'sequences of 0..7 items',
}
OUTSIDE = 'longer sequences; sequences going below the level of their first '\
    'item'


def tasks(tier):
    top = 6 if tier == 'quick' else 8
    out = []
    for n in range(top):
        for e in (False, True):
            out.append(dict(fn='levels', params={'n': n, 'equal': e}))
            out.append(dict(fn='forest', params={'n': n, 'equal': e}))
    return out


class Item(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Equal(Item):
    """items that all equal each other, as records with equal contents do"""
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other


def make(sx, n, equal=False):
    base = sx.int('base', 0, 1023)
    levels = [base]
    items = [(Equal if equal else Item)('i%d' % i) for i in range(n)]
    for i in range(1, n):
        lv = sx.int('level%d' % i, 0, 1023)
        sx.assume(lv >= base)
        levels.append(lv)
    return base, list(zip(levels, items))


def reference(base, seq):
    """(parents, bad): the index of the parent of each item; bad is the
    position of the first item deeper than a child of its predecessor"""
    parents = []
    path = []               # indexes of the open items
    for i, (level, item) in enumerate(seq):
        d = level - base
        depth = None
        for k in range(len(path) + 1):
            if d == k:
                depth = k
                break
        if depth is None:
            return parents, i
        del path[depth:]
        parents.append(path[-1] if path else None)
        path.append(i)
    return parents, None


def ancestors_of(parents, i):
    out = []
    p = parents[i]
    while p is not None:
        out.insert(0, p)
        p = parents[p]
    return out


def drain(it, limit):
    out = []
    try:
        for x in it:
            out.append(x)
            if len(out) > limit:
                break
    except Exception as e:
        return out, e
    return out, None


def levels(sx, p):
    t = sx.mod('hwp5.treeop')
    n = p['n']
    base, seq = make(sx, n, p['equal'])
    parents, bad = reference(base, seq)
    sx.cover('valid' if bad is None else 'jump')
    if any(q is not None and parents.count(q) > 1 for q in parents):
        sx.cover('siblings')
    if any(len(ancestors_of(parents, i)) > 1 for i in range(len(parents))):
        sx.cover('deep')
    root = (Equal if p['equal'] else Item)('root')
    # -- events
    events, err = drain(t.prefix_event(iter(seq), root), 2 * n + 2)
    ok = n if bad is None else bad
    sx.check((err is None) == (bad is None), 'skipping a level is an error')
    open_ = []
    started = 0
    for ev, item in events:
        if ev is t.STARTEVENT:
            sx.check(started < ok and item is seq[started][1],
                     'items start in order')
            want = parents[started]
            have = open_[-1] if open_ else None
            sx.check(have is (seq[want][1] if want is not None else None),
                     'started inside its parent')
            open_.append(item)
            started += 1
        else:
            sx.check(ev is t.ENDEVENT, 'event kind')
            sx.check(open_ and open_.pop() is item, 'ends match starts')
    sx.check(started == ok, 'every item started')
    if bad is None:
        sx.check(not open_, 'every item ended')
    # -- ancestors from levels
    got = []

    def collect():
        for anc, item in t.prefix_ancestors_from_level(iter(seq), root):
            yield list(anc), item
    got, err = drain(collect(), n + 1)
    sx.check((err is None) == (bad is None), 'skipping a level is an error')
    sx.check(len(got) == ok, 'ancestors for every item')
    for i, (anc, item) in enumerate(got):
        sx.check(item is seq[i][1], 'ancestors in order')
        want = [root] + [seq[k][1] for k in ancestors_of(parents, i)]
        sx.check(len(anc) == len(want) and
                 all(a is b for a, b in zip(anc, want)), 'ancestors')
    if bad is not None:
        return
    # -- ancestors from events
    got = [(list(a), b) for a, b in t.prefix_ancestors(iter(events), root)]
    sx.check(len(got) == n, 'event ancestors for every item')
    for i, (anc, item) in enumerate(got):
        want = [root] + [seq[k][1] for k in ancestors_of(parents, i)]
        sx.check(item is seq[i][1] and len(anc) == len(want) and
                 all(a is b for a, b in zip(anc, want)), 'event ancestors')


def same_tree(tree, i, seq, parents):
    item, childs = tree
    if item is not seq[i][1]:
        return False
    kids = [k for k in range(len(parents)) if parents[k] == i]
    return len(kids) == len(childs) and all(
        same_tree(c, k, seq, parents) for c, k in zip(childs, kids))


def forest(sx, p):
    t = sx.mod('hwp5.treeop')
    n = p['n']
    base, seq = make(sx, n, p['equal'])
    parents, bad = reference(base, seq)
    if bad is not None:
        return
    events = list(t.prefix_event(iter(seq)))
    sx.cover('built')
    # every root, built on its own from the stream
    roots = [k for k in range(n) if parents[k] is None]
    it = iter(events)
    trees = []
    for k in roots:
        ev, item = next(it)
        sx.check(ev is t.STARTEVENT and item is seq[k][1], 'next root')
        tree = t.build_subtree(it)
        sx.check(same_tree(tree, k, seq, parents), 'tree structure')
        trees.append(tree)
    sx.check(next(it, None) is None, 'the whole stream is consumed')
    # and back
    back = list(t.tree_events_multi(trees))
    sx.check(len(back) == len(events) and
             all(a[0] is b[0] and a[1] is b[1]
                 for a, b in zip(back, events)), 'events of the trees')
    back = [e for tree in trees for e in t.tree_events(*tree)]
    sx.check(len(back) == len(events) and
             all(a[0] is b[0] and a[1] is b[1]
                 for a, b in zip(back, events)), 'events of each tree')
    # events inside an item, up to its end, leaving the rest
    depth_end = {}
    for k in range(n):
        pos = [i for i, e in enumerate(events)
               if e[0] is t.STARTEVENT and e[1] is seq[k][1]][0]
        end = [i for i, e in enumerate(events)
               if e[0] is t.ENDEVENT and e[1] is seq[k][1]][0]
        depth_end[k] = end
        it = iter(events[pos + 1:])
        sub = list(t.iter_subevents(it))
        sx.check(len(sub) == end - pos and
                 all(a[0] is b[0] and a[1] is b[1] for a, b in
                     zip(sub, events[pos + 1:end + 1])), 'sub-events')
        rest = list(it)
        sx.check(len(rest) == len(events) - end - 1, 'rest is left')
