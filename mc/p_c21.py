"""C21: all implementations of the label maps agree with their definition."""
import datetime
import imp
import itertools
import os
import sys
import numpy as np
import la
import la.flabel
from la.flabel import flattenlabel, list2index
from la.util.misc import fromlists
from core import Family, Fail, check
from model import raises, nan, veq, flat
from gen import labs

D = datetime.date
DTM = datetime.datetime


def impls():
    """name -> (listmap, listmap_fill)"""
    flabel = sys.modules['la.flabel']
    out = [('built from the pyx', flabel.listmap, flabel.listmap_fill)]
    so = os.path.join(os.environ['LA_SCRATCH'], 'tracked', 'cflabel.so')
    old = sys.modules.get('cflabel')
    mod = imp.load_dynamic('cflabel', so)
    if old is not None:
        sys.modules['cflabel'] = old
    out.append(('committed C file', mod.listmap, mod.listmap_fill))
    # the fallback, as it is defined when the extension cannot be imported
    src = os.path.join(os.environ['LA_SCRATCH'], 'la', 'flabel.py')
    save = sys.modules.get('la.cflabel')
    attr = la.__dict__.pop('cflabel', None)
    sys.modules['la.cflabel'] = None
    try:
        py = imp.load_source('flabel_fallback', src)
    finally:
        sys.modules['la.cflabel'] = save
        if attr is not None:
            la.cflabel = attr
    check(type(py.listmap).__name__ == 'function', 'no Python fallback')
    out.append(('Python fallback', py.listmap, py.listmap_fill))
    return out, py


_cache = []


def get():
    if not _cache:
        _cache.append(impls())
    return _cache[0]


def want_map(a, b, ignore):
    """Definition, by linear search with equality."""
    out = []
    for y in b:
        pos = None
        for i, x in enumerate(a):
            if (x is y or x == y) and hash(x) == hash(y):
                pos = i
        if pos is None:
            if ignore:
                continue
            return KeyError
        out.append(pos)
    return out


def want_fill(a, b, fill):
    out, miss = [], []
    for k, y in enumerate(b):
        r = want_map(a, [y], True)
        out.append(r[0] if r else fill)
        if not r:
            miss.append(k)
    return out, miss


def call(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return type(e)


def compare(ctx, a, b, fills=(0, -1)):
    fast = None
    for name, listmap, listmap_fill in get()[0]:
        for ignore in (None, False, True):
            a1, b1 = list(a), list(b)
            if ignore is None:
                got = call(listmap, a1, b1)
            elif ignore:
                got = call(listmap, a1, b1, ignore_unmappable=True)
            else:
                got = call(listmap, a1, b1, False)
            w = want_map(a, b, bool(ignore))
            check(got == w and type(got) is type(w) and
                  (w is KeyError or [type(i) for i in got] ==
                   [int] * len(w)), lambda:
                  '%s: listmap(%r, %r, %r) = %r, want %r' %
                  (name, a, b, ignore, got, w))
            check([id(i) for i in a1] == [id(i) for i in a] and
                  [id(i) for i in b1] == [id(i) for i in b],
                  '%s: listmap changed its arguments' % name)
        for fill in fills:
            a1, b1 = list(a), list(b)
            if fill == 0:
                got = call(listmap_fill, a1, b1)
                w = want_fill(a, b, 0)
                check(got == w, lambda: '%s: listmap_fill(%r, %r) = %r, want '
                      '%r' % (name, a, b, got, w))
            got = call(listmap_fill, a1, b1, fill=fill)
            w = want_fill(a, b, fill)
            check(got == w and type(got) is tuple and
                  [type(i) for i in got] == [list, list] and
                  [type(i) for i in got[0] + got[1]] ==
                  [int] * (len(w[0]) + len(w[1])), lambda:
                  '%s: listmap_fill(%r, %r, %r) = %r, want %r' %
                  (name, a, b, fill, got, w))
            check([id(i) for i in a1] == [id(i) for i in a] and
                  [id(i) for i in b1] == [id(i) for i in b],
                  '%s: listmap_fill changed its arguments' % name)
        ctx.step(3 + len(fills))


NAN2 = float('nan')
ALPHA = {
    'ints': [0, 1, 2],
    'strings': ['a', 'b', ''],
    'equal': [1, 1.0, True, 1L],
    'mixed': [1, '1', None, (1,)],
    'dates': [D(2010, 1, 1), DTM(2010, 1, 1), 733773],
    'text': ['a', u'a', u'\xe9'],
    'nan': [nan, NAN2, 0.0, -0.0],
    'numpy': [np.float64(1.5), 1.5, np.int64(2), 2, np.str_('a'), 'a'],
    'big': [2 ** 62, -2 ** 62, 2 ** 80, -1, -2],
    'nested': [(1, (2, 'a')), (1, (2, 'b')), ()],
}


def pair_cases(tier):
    big = tier != 'quick'
    for name in sorted(ALPHA):
        A = ALPHA[name]
        n = 4 if len(A) == 3 else 3
        if len(A) > 4:
            n = 2
        n += big
        for la_ in range(n + 1):
            for a in itertools.product(range(len(A)), repeat=la_):
                yield name, a, n


def pair_run(ctx, case):
    name, a, n = case
    A = ALPHA[name]
    la_ = [A[i] for i in a]
    ctx.state(case)
    for lb in range(n + 1):
        for b in itertools.product(range(len(A)), repeat=lb):
            compare(ctx, la_, [A[i] for i in b],
                    (0, -1) if len(a) < 4 else (-1,))
            ctx.outcome((name, a, b))


def fill_cases(tier):
    for fill in [0, 1, -1, 5, -99, 2 ** 31 - 1, -2 ** 31, 1000000]:
        for a in itertools.product(range(3), repeat=2):
            for b in itertools.product(range(4), repeat=3):
                yield fill, a, b


def fill_run(ctx, case):
    fill, a, b = case
    ctx.state(case)
    compare(ctx, list(a), list(b), (fill,))


def bad_cases(tier):
    for a in [[[1]], [{}], [set()], [1, []], [[], 1]]:
        for b in [[1], [], [1, 2]]:
            yield repr(a), repr(b)


def bad_run(ctx, case):
    """Labels that cannot be looked up: an error from all of them."""
    a, b = eval(case[0]), eval(case[1])
    ctx.state(case)
    for name, listmap, listmap_fill in get()[0]:
        e = raises(lambda: listmap(a, b), '%s: %r' % (name, case))
        check(isinstance(e, TypeError), lambda: '%s: %r' % (name, e))
        e = raises(lambda: listmap_fill(a, b), '%s: %r' % (name, case))
        check(isinstance(e, TypeError), lambda: '%s: %r' % (name, e))
        for ign in (False, True):
            e = raises(lambda: listmap([1, 2], [1, a[-1] if isinstance(
                a[-1], (list, dict, set)) else a[0]], ign), name)
            check(isinstance(e, TypeError), lambda: '%s: %r' % (name, e))
        e = raises(lambda: listmap_fill([1, 2], [a[0] if isinstance(
            a[0], (list, dict, set)) else a[-1]]), name)
        check(isinstance(e, TypeError), lambda: '%s: %r' % (name, e))
        ctx.step(5)


def size_cases(tier):
    for n in [5, 8, 16, 17, 63, 64, 100, 128, 255, 256, 257, 511, 1000, 1024,
              4095, 5000, 9999]:
        for lk in 'isdf':
            for how in ('same', 'rev', 'every', 'more', 'dup', 'swap', 'tail',
                        'dupb'):
                yield n, lk, how
    for n in [32767, 32768, 65535, 65536, 65537, 70000, 131073]:
        for how in ('same', 'rev', 'every', 'more', 'dup', 'swap', 'tail',
                    'dupb'):
            yield n, 'n', how


def size_run(ctx, case):
    n, lk, how = case
    a = labs(lk, n) if lk != 'n' else [i ^ 1 for i in range(n)]
    a = list(a)
    pos = {}
    b = list(a)
    if how == 'rev':
        b.reverse()
    elif how == 'every':
        b = b[::3]
    elif how == 'more':
        b = b[:n // 2] + ['missing'] + b[n // 2:] + [None]
    elif how == 'dup':
        a = a + a[:n // 2]
    elif how == 'swap':
        b[0], b[-1] = b[-1], b[0]
    elif how == 'tail':
        b = ['x'] * 3 + b[-2:]
    elif how == 'dupb':
        b = b + b
    for i, x in enumerate(a):
        pos[x] = i
    ctx.state(case)
    w = [pos[y] for y in b if y in pos]
    miss = [k for k, y in enumerate(b) if y not in pos]
    wf = [pos.get(y, -7) for y in b]
    for name, listmap, listmap_fill in get()[0]:
        got = call(listmap, a, b, True)
        check(got == w, lambda: '%s: listmap of %r' % (name, case))
        got = call(listmap, a, b)
        check(got == (w if not miss else KeyError), lambda:
              '%s: listmap of %r' % (name, case))
        got = call(listmap_fill, a, b, -7)
        check(got == (wf, miss), lambda: '%s: listmap_fill of %r' %
              (name, case))
        ctx.step(3)


def ref_cases(tier):
    for ignore in (False, True):
        for k in range(4):
            yield ignore, k


class Label(object):
    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v)

    def __eq__(self, other):
        return isinstance(other, Label) and self.v == other.v


def ref_run(ctx, case):
    """Labels are neither copied nor kept."""
    ignore, k = case
    ctx.state(case)
    for name, listmap, listmap_fill in get()[0]:
        a = [Label(i) for i in range(5)]
        b = [a[3], Label(2), Label(k + 3), a[0]]
        before = [sys.getrefcount(x) for x in a + b]
        for rep in range(50):
            call(listmap, a, b, ignore)
            r = call(listmap_fill, a, b)
        del r
        sys.exc_clear()
        after = [sys.getrefcount(x) for x in a + b]
        check(before == after, lambda: '%s keeps references: %r -> %r' %
              (name, before, after))
        compare(ctx, a, b)
        ctx.step(100)


# helper maps --------------------------------------------------------------------

def flat_cases(tier):
    kinds = 'isdm'
    top = [4, 4, 3, 2] if tier == 'quick' else [6, 5, 4, 3]
    for nd in range(1, 5):
        for s in itertools.product(range(top[nd - 1] + 1), repeat=nd):
            for lk in kinds:
                if max(s) > 5:
                    continue
                yield s, lk


def flat_run(ctx, case):
    s, lk = case
    label = [labs(lk if k % 2 == 0 else 's', n) for k, n in enumerate(s)]
    was = repr(label)
    ctx.state(case)
    for mod in (flattenlabel, get()[1].flattenlabel):
        for order in ('C', 'F', None):
            got = mod(label) if order is None else mod(label, order)
            w = list(itertools.product(*label))
            if order == 'F':
                w = [t[::-1] for t in itertools.product(*label[::-1])]
            check(got == [w] and type(got[0]) is list and
                  [type(t) for t in got[0]] == [tuple] * len(w),
                  lambda: 'flattenlabel(%r, %r) = %r, want %r' %
                  (label, order, got, [w]))
            check(repr(label) == was, 'flattenlabel changed its argument')
            check(mod(tuple(label), order or 'C') == [w], 'tuple of labels')
            ctx.step(1)
        for bad in ('c', 'A', None, 1):
            raises(lambda: mod(label, bad), 'order %r' % bad)


def uniq_cases(tier):
    n = 5 if tier == 'quick' else 7
    for k in range(n + 1):
        for p in itertools.product(range(4 if k < 6 else 3), repeat=k):
            yield p


UALPHA = [['b', 'a', 'c', ''], [2, 0.5, -1, True],
          [D(2010, 1, 2), D(2009, 1, 1), D(2011, 1, 1), D(2010, 1, 1)],
          [('a', 2), ('a', 1), (), ('b',)]]


def ulong_cases(tier):
    for n in (7, 10, 16, 33, 64, 65, 100, 129, 257, 500, 512, 1000, 1025,
              4097):
        for step in (1, 7, 13):
            yield n, step


def ulong_run(ctx, case):
    n, step = case
    ctx.state(case)
    for f in (lambda i: i, lambda i: '%d' % i, lambda i: -i * .5,
              lambda i: (i % 3, str(i)),
              lambda i: D(2000, 1, 1) + datetime.timedelta(i),
              lambda i: [i, str(i)][i % 2]):
        for top in (n, n // 3 + 1):
            L = [f(i * step % n % top) for i in range(n)]
            was = list(L)
            u = sorted(set(L))
            at = dict([(z, i) for i, z in enumerate(u)])
            got = list2index(L)
            check(got[1] == u and got[0] == [at[z] for z in L], lambda:
                  'list2index of %d labels %r...' % (n, L[:9]))
            check(L == was, 'list2index changed its argument')
            ctx.step(1)


def uniq_run(ctx, p):
    ctx.state(p)
    for A in UALPHA:
        L = [A[i] for i in p]
        got = list2index(L)
        u = sorted(set(L))
        want = ([u.index(x) for x in L], u)
        check(tuple(got) == want, lambda: 'list2index(%r) = %r, want %r' %
              (L, got, want))
        check(L == [A[i] for i in p], 'list2index changed its argument')
        ctx.step(1)


def from_cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for nd in (1, 2, 3):
            for p in itertools.product(range(3), repeat=k * nd):
                if k * nd > 6 and tier == "quick":
                    continue
                yield nd, p


def from_run(ctx, case):
    nd, p = case
    k = len(p) // nd
    coords = [p[i * nd:(i + 1) * nd] for i in range(k)]
    if len(set(coords)) < k:
        return
    A = [['b', 'a', 'c'], [3, 1, 2], [D(2011, 1, 1), D(2010, 1, 1),
                                      D(2012, 1, 1)]]
    labels = [[A[ax][c[ax]] for c in coords] for ax in range(nd)]
    xs = [1.5 * (i + 1) for i in range(k)]
    ctx.state(case)
    x, label = fromlists(list(xs), [list(l) for l in labels])
    want = [sorted(set(l)) for l in labels]
    check(label == want, lambda: 'fromlists labels %r, want %r' %
          (label, want))
    check(x.shape == tuple([len(l) for l in want]), 'fromlists shape')
    d = dict(zip(zip(*labels), xs))
    for idx in itertools.product(*[range(n) for n in x.shape]):
        key = tuple([l[i] for l, i in zip(want, idx)])
        check(veq(float(x[idx]), d.get(key, nan)), lambda:
              'fromlists(%r, %r) at %r: %r' % (xs, labels, key, x[idx]))
    ctx.step(1)


FAMILIES = [
    Family('pairs', pair_cases, pair_run, 'all pairs of label lists'),
    Family('fill values', fill_cases, fill_run),
    Family('unhashable', bad_cases, bad_run),
    Family('sizes', size_cases, size_run),
    Family('references', ref_cases, ref_run),
    Family('flattenlabel', flat_cases, flat_run),
    Family('list2index', uniq_cases, uniq_run),
    Family('list2index, long', ulong_cases, ulong_run),
    Family('fromlists', from_cases, from_run),
]
BOUNDS = {'quick': 'all pairs of lists of up to 4 (3 for 4 labels) over 10 '
                   'alphabets, 8 fill values, lists of up to 131073 labels',
          'thorough': 'lists one longer'}
ASSUMPTIONS = ['fill values fit into a C int; arguments are lists']
RULE = 'the three implementations equal a linear search'
