"""C23: constructors produce what was asked for."""
import datetime
import itertools
import numpy as np
import la
from la import larry
from core import Family, check
from model import M, mk, arr, snap, same, raises, nan, inf, prod, veq, flat, \
    wellformed, labels_eq, relayout
from gen import mkm, labs, shapes

SHAPES = ([0, 1, 2, 3, 5, (0,), (1,), (2,), (4,), (0, 0), (2, 0), (0, 3),
           (1, 1), (2, 3), (3, 2), (2, 2, 2), (1, 2, 3), (2, 0, 2),
           (1, 1, 1, 1), (2, 1, 2, 3), (1, 2, 1, 2, 2)] +
          [17, 100, 257, (33, 2), (2, 129), 1000])


def norm(s):
    return (s,) if isinstance(s, int) else tuple(s)


def ints(s):
    return [range(n) for n in s]


DTYPES = [None, float, np.float32, int, np.int32, np.int8, np.uint8, bool,
          complex, np.complex64, object, str, 'S3', 'f8', 'i4', '>f8',
          np.dtype('float16')]


def fill_cases(tier):
    for s in SHAPES:
        for d in range(len(DTYPES)):
            for order in (None, 'C', 'F'):
                yield s, d, order


def fill_run(ctx, case):
    s, d, order = case
    dtype = DTYPES[d]
    shape = norm(s)
    ctx.state(case)
    kw = {}
    if dtype is not None:
        kw['dtype'] = dtype
    if order is not None:
        kw['order'] = order
    wd = np.dtype(float if dtype is None else dtype)
    for name, val in (('ones', 1), ('zeros', 0), ('empty', None)):
        f = getattr(la, name)
        # shapes that disagree with the labels, also with as many cells
        wrong = [shape[::-1], shape[1:] + shape[:1], [prod(shape)],
                 (1,) * (len(shape) - 1) + (prod(shape),),
                 tuple([n + 1 for n in shape]), prod(shape), (), 0, -1]
        for how in range(5 + len(wrong)):
            # junk for the allocator to hand out again
            junk = np.empty(prod(shape) + 3)
            junk.fill(-7)
            del junk
            label = None
            if how == 0:
                got = f(s, **kw)
            elif how == 1:
                got = f(shape=list(shape), **kw)
            elif how == 2:
                label = [labs('i' if n > 8 else 'smd'[k % 3], n)
                         if n <= 5 else labs('i', n)
                         for k, n in enumerate(shape)]
                got = f(label=[list(l) for l in label], **kw)
            elif how == 3:
                label = [labs('s', n) for n in shape]
                got = f(shape, [list(l) for l in label], **kw)
            else:
                # labels decide
                label = [labs('s', n) for n in shape]
                got = f(([(7, 7)] + wrong)[how - 4],
                        [list(l) for l in label], **kw)
            what = '%s(%r, %r) way %d' % (name, s, kw, how)
            wellformed(got, what)
            check(got.x.shape == shape, lambda: '%s: shape %r' %
                  (what, got.x.shape))
            check(labels_eq(got.label, label or ints(shape)),
                  lambda: '%s: label %r' % (what, got.label))
            check(got.x.dtype == wd or wd.kind == 'S' and
                  wd.itemsize in (0, 1) and got.x.dtype.kind == 'S',
                  lambda: '%s: dtype %s' % (what, got.x.dtype))
            if order == 'F':
                check(got.x.flags.f_contiguous, what + ': order')
            else:
                check(got.x.flags.c_contiguous, what + ': order')
            if val is not None:
                w = str(val) if wd.kind == 'S' else val
                check(all([v == w and (wd.kind != 'O' or type(v) is int)
                           for v in flat(got.x)]), lambda:
                      '%s: values %r' % (what, got.x))
            check(got.x.flags.writeable and (got.x.flags.owndata or
                  got.x.base is not None), what)
            # the next call must not see what is done to this one
            if got.x.size:
                got.x[...] = 1 - (val or 0) if wd.kind != 'S' else 'q'
                got.label[-1][0] = 'changed'
            ctx.step(1)
    for name in ('ones', 'zeros', 'empty'):
        f = getattr(la, name)
        raises(lambda: f(**kw), name + ' without a shape')
        if isinstance(s, tuple) or s:
            raises(lambda: f(tuple([-n - 1 for n in shape]), **kw),
                   name + ' negative')
        raises(lambda: f((), **kw), name + ' 0d')
        raises(lambda: f(label=[], **kw), name + ' no axes')
        if shape[0] > 1:
            raises(lambda: f(label=[['a'] * n for n in shape], **kw),
                   name + ' duplicate labels')
            raises(lambda: f(label=[tuple(range(n)) for n in shape], **kw),
                   name + ' tuples of labels')


RANGES = [(0, 1), (0, 2), (5, 1), (5, -2), (-3, 3), (0, -1), (100, 7), (-1, 1),
          (-100, 200), (100, -100), (0, 255), (1000, 1), (-20000, 40000),
          (70000, 1), (np.int64(5), np.int64(300))]
RDTYPES = [None, float, int, np.int32, np.float32, np.int16, complex, object,
           np.int8, np.uint8, 'f2', '>i4']


def range_cases(tier):
    for s in SHAPES:
        for r in RANGES + ([(a, b) for a in range(-4, 5)
                            for b in range(-4, 5) if b] if tier != 'quick'
                           else []):
            for d in range(len(RDTYPES)):
                yield s, r, d


BIGSHAPES = [300, (129,), (257, 2), (2, 130, 1), 33000, (200, 200), (66000,),
             (300, 1, 300), (20, 30, 40, 3)]


def rangebig_cases(tier):
    for s in BIGSHAPES:
        for r in [(0, 1), (5, -2), (-1, 1), (70000, 1), (0, 100000)]:
            for d in (0, 1, 2, 3, 5, 8):
                yield s, r, d


def llabs(kind, n):
    if n <= 10000:
        return labs(kind, n)
    return [(n - k, kind) for k in range(n)]


def fits(cells, dtype):
    dt = np.dtype(dtype)
    if dt.kind in 'iu' and cells:
        i = np.iinfo(dt)
        return min(cells) >= i.min and max(cells) <= i.max
    if dt.kind == 'f' and dt.itemsize == 2 and cells:
        return max([abs(c) for c in cells]) <= 2048
    return True


def range_run(ctx, case):
    s, (start, step), d = case
    dtype = RDTYPES[d]
    shape = norm(s)
    ctx.state((s, int(start), int(step), d))
    kw = {}
    if dtype is not None:
        kw['dtype'] = dtype
    n = prod(shape)
    cells = [start + i * step for i in range(n)]
    inside = dtype is None or fits(cells, dtype)
    for how in range(4):
        label = None
        if how == 0:
            got = la.lrange(s, start=start, step=step, **kw)
        elif how == 1:
            got = la.lrange(list(shape), None, start, step, **kw)
        elif how == 2:
            label = [llabs('s', k) for k in shape]
            got = la.lrange(label=[list(l) for l in label], start=start,
                            step=step, **kw)
        else:
            label = [llabs('d', k) for k in shape]
            got = la.lrange((9,), [list(l) for l in label], start, step, **kw)
        what = 'lrange(%r, start=%r, step=%r, %r) way %d' % (
            s, start, step, kw, how)
        wellformed(got, what)
        check(got.x.shape == shape and labels_eq(got.label,
                                                 label or ints(shape)),
              lambda: '%s: %r %r' % (what, got.x.shape, got.label))
        if dtype is None:
            check(got.x.dtype.kind in 'if', what)
        else:
            check(got.x.dtype == np.dtype(dtype), what)
        # values outside the dtype only keep the shape, labels and dtype
        check(not inside or flat(got.x) == cells,
              lambda: '%s: %r' % (what, got.x))
        if got.x.size:
            got.x[...] = 9
            got.label[0][0] = 'changed'
        ctx.step(1)
    if (start, step) == (0, 1):
        got = la.lrange(s, **kw)
        check((not inside or flat(got.x) == cells) and got.x.shape == shape,
              'default lrange')
        raises(lambda: la.lrange(**kw), 'lrange without a shape')
        raises(lambda: la.lrange((), **kw), '0d lrange')
        raises(lambda: la.lrange(label=[], **kw), '0d lrange')
        raises(lambda: la.lrange(-1, **kw), 'negative lrange')
        raises(lambda: la.lrange((2, -1), **kw), 'negative lrange')
        if shape[0] > 1:
            raises(lambda: la.lrange(label=[['a'] * k for k in shape], **kw),
                   'lrange: duplicate labels')


class Source(object):
    """A random number function that says what it was asked."""

    def __init__(self):
        self.calls = []
        self.n = 0

    def __call__(self, *shape):
        self.calls.append(shape)
        if not shape:
            self.n += 1
            return self.n / 64.0
        k = prod(shape)
        x = (np.arange(self.n, self.n + k) / 64.0).reshape(shape)
        self.n += k
        return x


def rand_cases(tier):
    for s in SHAPES:
        if isinstance(s, tuple) or s < 6:
            yield s,


def rand_run(ctx, case):
    shape = norm(case[0])
    ctx.state(case)
    n = prod(shape)
    for name in ('rand', 'randn'):
        f = getattr(la, name)
        src = Source()
        base = 0
        label = [llabs('s', k) for k in shape]
        for how in range(6):
            kw = {}
            args = ()
            want = ints(shape)
            if how in (0, 2, 3, 5):
                args = shape
            if how in (1, 2, 3):
                kw['label'] = [list(l) for l in label]
                want = label
            if how == 3:
                kw['validate'] = True
            if how == 4:
                kw['label'] = [range(k)[::-1] for k in shape]
                want = kw['label']
                kw['validate'] = False
            if how == 5:
                kw['dtype'] = np.float32
            was = dict(kw)
            kw[name] = src
            src.calls = []
            got = f(*args, **kw)
            what = '%s(*%r, **%r)' % (name, args, kw)
            wellformed(got, what)
            check(got.x.shape == shape and labels_eq(got.label, want),
                  lambda: '%s: %r %r' % (what, got.x.shape, got.label))
            check(got.x.dtype == (np.float32 if how == 5 else np.float64),
                  what)
            check(src.calls == [shape], lambda: '%s asked for %r' %
                  (what, src.calls))
            check(flat(got.x) == [(base + i) / 64.0 for i in range(n)],
                  lambda: '%s: %r' % (what, got.x))
            base += n
            check(kw.pop(name) is src and sorted(kw) == sorted(was),
                  what + ': keywords changed')
            ctx.step(1)
            # the global generator: same state, same larry; its stream moves
            np.random.seed(7)
            ref = getattr(np.random, name)(*shape)
            after = np.random.get_state()[1].tolist(), np.random.get_state()[2]
            np.random.seed(7)
            got = f(*args, **was)
            check(np.array_equal(got.x, ref.astype(got.x.dtype)) and
                  got.x.shape == shape and labels_eq(got.label, want), what)
            check((np.random.get_state()[1].tolist(),
                   np.random.get_state()[2]) == after,
                  what + ': the generator was asked for something else')
            rs = np.random.RandomState(7)
            was[name] = getattr(rs, name)
            g2 = f(*args, **was)
            check(np.array_equal(g2.x, got.x), what)
            if got.x.size:
                got.label[0][0] = 'changed'
        # contradictions
        src = Source()
        bad = [list(l) for l in label]
        bad[-1] = bad[-1] + ['one more']
        raises(lambda: f(*shape, **{'label': bad, name: src}),
               name + ' with labels of another length')
        raises(lambda: f(*shape, **{'label': label + [['x']], name: src}),
               name + ' with one axis too many')
        if shape[0] > 1:
            raises(lambda: f(label=[['a'] * k for k in shape]),
                   name + ' with duplicate labels')
        raises(lambda: f(*[-1 - k for k in shape]), name + ' negative')
        raises(lambda: f(dtype=float), name + ' without a shape')
        raises(lambda: f(label=[]), name + ' 0d')
        raises(lambda: f(validate=False), name + ' without a shape')
        raises(lambda: f(nonsense=3, *shape), name + ' unknown keyword')
        v = f(**{name: Source()})
        check(v == 1 / 64.0 and not isinstance(v, (larry, np.ndarray)), name)
        np.random.seed(3)
        ref = getattr(np.random, name)()
        np.random.seed(3)
        check(f() == ref, name + '()')


# larry(...) itself -----------------------------------------------------------------

def new_cases(tier):
    for s in shapes([4, 3, 2, 1]) + [(2, 1, 2, 2)]:
        for dt in 'fgijbSOc':
            for lay in 'CFRN':
                if lay != 'C' and prod(s) < 2:
                    continue
                yield s, dt, lay


def new_run(ctx, case):
    s, dt, lay = case
    m = mkm(s, 's', dt)
    ctx.state(case)
    x = arr(m, lay)
    nd = len(s)
    flags = (x.flags.c_contiguous, x.flags.f_contiguous)
    for how in range(6):
        label = [list(l) for l in m.label] if how % 2 else None
        kw = {} if how < 2 else {'validate': how < 4}
        got = larry(x, label, **kw) if how % 3 or label is None else \
            larry(x=x, label=label, **kw)
        want = m if label else M(ints(s), m.cells, m.dt)
        same(got, want, 'larry of %r layout %s way %d' % (m, lay, how),
             dtype='exact')
        check(got.x is x or np.may_share_memory(got.x, x) or not x.size,
              'larry copied its data')
        check(got.x.dtype == x.dtype and got.x.strides == x.strides,
              'larry changed its data')
        if label is None and x.size:
            got.label[0][0] = 'changed'
        ctx.step(1)
    check((x.flags.c_contiguous, x.flags.f_contiguous) == flags, 'flags')
    # nested lists, other dtypes
    if prod(s) and dt not in 'OS':
        same(larry(x.tolist(), m.label), m, 'larry of nested lists',
             dtype=dt not in 'g')
        same(larry(x.tolist()), M(ints(s), m.cells, m.dt), 'of lists')
    for to in 'fgijbcOS':
        if dt in 'SOc' and to not in dt or dt == 'c' or to == 'S' and \
                dt != 'S':
            continue
        wd = {'f': float, 'g': np.float32, 'i': int, 'j': np.int32, 'b': bool,
              'c': complex, 'O': object, 'S': 'S9'}[to]
        conv = {'f': float, 'g': lambda v: float(np.float32(v)), 'i': int, 'j': int, 'b': bool,
                'c': complex, 'O': lambda v: v, 'S': str}[to]
        want = M(m.label, [conv(v) for v in m.cells], to)
        for src in (x, x.tolist()):
            if type(src) is list and (not prod(s) or dt in 'O'):
                continue
            got = larry(src, [list(l) for l in m.label], dtype=wd)
            same(got, want, 'larry(%r, dtype=%s)' % (m, to), dtype='exact')
            check(got.x.dtype == np.dtype(wd), 'dtype')
            if np.dtype(wd) != x.dtype and prod(s):
                check(not np.may_share_memory(got.x, x), 'shares memory '
                      'after a change of dtype')
        ctx.step(1)
    same(larry(x, m.label), m, 'the data changed')
    # other ways to give an array
    class Sub(np.ndarray):
        pass
    same(larry(x.view(Sub), m.label), m, 'larry of a subclass')
    if nd == 2 and prod(s) and dt != 'O':
        same(larry(np.matrix(x), m.label), m, 'larry of a matrix')
    # refusals
    good = m.label
    bads = [good + [['x']], good[:-1],
            good[:-1] + [good[-1] + ['extra']],
            [good[0] + ['extra']] + good[1:],
            good[:-1] + [tuple(good[-1])], [], None]
    if s[-1]:
        bads.append(good[:-1] + [good[-1][:-1]])
        bads.append(good[:-1] + [good[-1][:-1] + [[1]]])
        bads.append(good[:-1] + [good[-1][:-1] + [{}]])
        bads.append(good[:-1] + ['abcdefgh'[:s[-1]]])
        bads.append(good[:-1] + [np.arange(s[-1])])
        bads.append(good[:-1] + [dict.fromkeys(good[-1])])
        bads.append(good[:-1] + [frozenset(good[-1])])
        bads.append(good[:-1] + [xrange(s[-1])])
    for ax in range(nd):
        for i, j in itertools.combinations(range(s[ax]), 2):
            l = [list(k) for k in good]
            l[ax][j] = l[ax][i]
            bads.append(l)
        if s[ax] > 1:
            for p, q in ((1, 1.0), (0, False), (1, True),
                         (datetime.date(2000, 1, 1),
                          datetime.date(2000, 1, 1)), ('', ''),
                         (('a', 1), ('a', 1)), (None, None), (1, 1L),
                         ('a', u'a'), (np.int64(3), 3),
                         (np.float64(0.5), 0.5), (-0.0, 0.0)):
                l = [list(k) for k in good]
                l[ax][0], l[ax][-1] = p, q
                bads.append(l)
    for bad in bads:
        if bad is None:
            continue
        e = raises(lambda: larry(x, bad), 'larry of shape %r with labels %r' %
                   (s, bad))
        ctx.step(1)
        ctx.outcome(type(e).__name__)
    for sc in (1, 1.5, 'abc', None, np.float64(3), np.array(3), True, object,
               np.array('a'), 1j):
        for l in (None, [], [[1]], [['a']]):
            raises(lambda: larry(sc, l), 'larry(%r, %r)' % (sc, l))
    if prod(s) and dt == 'f':
        for d in ('nonsense', 'no', 3.5):
            raises(lambda: larry(x, dtype=d), 'dtype %r' % (d,))
            raises(lambda: larry(x.tolist(), dtype=d), 'dtype %r' % (d,))
        if nd > 1:
            raises(lambda: larry(['a', 'b'], dtype=float), 'str as float')


SIZES = [7, 8, 9, 16, 17, 63, 64, 65, 100, 128, 129, 255, 256, 257, 999, 1000,
         1001, 4096, 5000, 10001, 70000]


def dup_cases(tier):
    for n in SIZES:
        for nd in (1, 2):
            yield n, nd


def dup_run(ctx, case):
    """A duplicate anywhere in a long axis is found; no false alarm."""
    n, nd = case
    ctx.state(case)
    pos = sorted(set([0, 1, n // 3, n // 2, n - 2, n - 1, 5, 6]))
    if n > 4096:
        pos = [1, n // 2, n - 1]
    for kind in 'isah':
        # a: of two types with the same text; h: with the same hash
        base = [[k // 2, str(k // 2)][k % 2] for k in range(n)] \
            if kind == 'a' else \
            [k * (2 ** 61 - 1) for k in range(n)] if kind == 'h' else \
            labs(kind, n) if n <= 4096 else \
            [n - k if kind == 'i' else 'k%d' % k for k in range(n)]
        x = np.arange(float(n)) if nd == 1 else \
            np.arange(2. * n).reshape(2, n)
        lab0 = [] if nd == 1 else [['p', 'q']]
        got = larry(x, lab0 + [list(base)])
        check(got.label[-1] == base and got.x is x, 'long labels')
        for i, j in itertools.permutations(pos, 2):
            l = list(base)
            l[j] = l[i]
            if kind == 'i' and l[j] % 2:
                l[j] = float(l[j])      # equal is the same
            raises(lambda: larry(x, lab0 + [l]), 'duplicate %d, %d of %d' %
                   (i, j, n))
            ctx.step(1)
        for k in (n - 1, n + 1, 0, n // 2):
            raises(lambda: larry(x, lab0 + [(base + ['z'])[:k]]),
                   '%d labels for %d' % (k, n))


FAMILIES = [
    Family('ones zeros empty', fill_cases, fill_run),
    Family('lrange', range_cases, range_run),
    Family('long lrange', rangebig_cases, range_run),
    Family('rand randn', rand_cases, rand_run,
           'recorded stand-in generator and the real one'),
    Family('larry', new_cases, new_run),
    Family('long labels', dup_cases, dup_run),
]
BOUNDS = {'quick': '27 shapes up to 5d and size 1000 x 17 dtypes x orders x '
                   'ways to pass the arguments; 8 start/step pairs; larry() '
                   'over all shapes up to 4, 3x3, 2x2x2 with 8 dtypes and 4 '
                   'memory layouts; every pair of equal labels; labels up to '
                   '4096',
          'thorough': '80 start/step pairs'}
ASSUMPTIONS = ['the label list is held by reference, as documented',
               'start and step of lrange are ints, as documented']
RULE = 'labels, values, dtype and memory sharing compared'
