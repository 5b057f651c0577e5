"""C17: moving-window statistics equal the statistic of each window."""
import itertools
import numpy as np
import la
from la import larry
import la.farray.move as move
import axkinds
import widths
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, inf, kind, \
    flat
import stat_
from gen import mkm
import lanes


def lastrank(v):
    return stat_.lastrank(v, 0)


def windowed(f, window, skip=0):
    """The statistic of the window of that length ending skip places back."""
    def g(v):
        out = []
        for i in range(len(v)):
            a = i - skip - window + 1
            out.append(f(v[a:a + window]) if a >= 0 else nan)
        return out
    return g


def forward(f, window, skip):
    g = windowed(f, window, skip)
    return lambda v: g(v[::-1])[::-1]


def normsum(window):
    def f(v):
        n = len(stat_.valid(v))
        return stat_.sum_(v) * float(window) / n if n else nan
    return f


BN = [('move_sum', stat_.sum_), ('move_mean', stat_.mean),
      ('move_std', stat_.std), ('move_min', stat_.min_),
      ('move_max', stat_.max_)]


# functions a user may pass to move_func: plain NumPy, shape agnostic
def ufunc_range(x, axis):
    return np.max(x, axis) - np.min(x, axis)


def ufunc_args(x, axis, power=1, shift=0.0, invert=False):
    r = (x ** power).sum(axis) + shift
    return -r if invert else r


def ufunc_first(x, axis):
    return np.rollaxis(x, axis)[0]


def ufunc_weights(x, axis):
    # the order inside the window matters
    n = x.shape[axis]
    w = np.arange(1, n + 1).reshape([n if k == axis % x.ndim else 1
                                     for k in range(x.ndim)])
    return (x * w).sum(axis)


def ufunc_count(x, axis):
    return np.isfinite(x).sum(axis)


def plain_args(power=1, shift=0.0, invert=False):
    def f(v):
        if [x for x in v if x != x]:
            return nan
        r = sum([float(x) ** power for x in v]) + shift
        return -r if invert else r
    return f


def nan_any(f):
    return lambda v: nan if [x for x in v if x != x] else f(v)


USER = [(ufunc_range, {}, nan_any(lambda v: max(v) - min(v))),
        (ufunc_args, {}, plain_args()),
        (ufunc_args, {'power': 2}, plain_args(2)),
        (ufunc_args, {'shift': 0.5, 'invert': True},
         plain_args(1, 0.5, True)),
        (ufunc_first, {}, lambda v: v[0]),
        (ufunc_weights, {}, nan_any(lambda v: sum([(i + 1) * x for i, x in
                                                    enumerate(v)]))),
        (ufunc_count, {}, lambda v: float(len(stat_.valid(v))))]


def all_ops(ctx, m, lay, windows, axes, default=True, tol=1e-9, stdtol=1e-6):
    nd = m.ndim
    g = m.dt == 'g'
    y = mk(m, lay)
    was = snap(y)

    def near(got, f, ax, what, atol=tol):
        t = max(atol, 1e-4) if g else atol
        same(got, m.lanes(f, ax), '%s of %r' % (what, m), rtol=t, atol=t)
        ctx.step()
    for ax in axes:
        for w in windows:
            if w > m.shape[ax]:
                continue
            for n, f in BN:
                near(getattr(y, n)(w, ax), windowed(f, w), ax,
                     '%s(%d, %d)' % (n, w, ax),
                     stdtol if n == 'move_std' else tol)
            for method in ('loop', 'strides'):
                if method == 'strides' and nd > 3:
                    continue
                what = '(%d, %d, %r)' % (w, ax, method)
                near(y.move_median(w, ax, method), windowed(stat_.median, w),
                     ax, 'move_median' + what)
                near(y.move_ranking(w, ax, method), windowed(lastrank, w), ax,
                     'move_ranking' + what)
                for uf, kw, f in USER:
                    near(y.move_func(uf, w, ax, method, **kw),
                         windowed(f, w), ax, 'move_func(%s)' % uf.__name__ +
                         what)
                x = move.move_nanmedian(arr(m, lay), w, ax, method)
                near(larry(x, [list(l) for l in m.label]),
                     windowed(stat_.median, w), ax, 'move_nanmedian')
            for skip in range(0, m.shape[ax] + 1):
                if skip > 3 and skip < m.shape[ax] - 1:
                    continue
                for norm in (False, True):
                    f = normsum(w) if norm else stat_.sum_
                    what = '(%d, %d, %d, %r)' % (w, skip, ax, norm)
                    near(y.movingsum_forward(w, skip, ax, norm),
                         forward(f, w, skip), ax, 'movingsum_forward' + what)
                    x = move.movingsum(arr(m, lay), w, skip, ax, norm)
                    near(larry(x, [list(l) for l in m.label]),
                         windowed(f, w, skip), ax, 'movingsum' + what)
            if default and ax == -1:
                for n, f in BN:
                    near(getattr(y, n)(w), windowed(f, w), -1, n,
                         stdtol if n == 'move_std' else tol)
                near(y.move_median(w), windowed(stat_.median, w), -1,
                     'move_median')
                near(y.move_ranking(w), windowed(lastrank, w), -1,
                     'move_ranking') if nd < 4 else None
                near(y.move_func(ufunc_args, w, power=3),
                     windowed(plain_args(3), w), -1, 'move_func')
                near(y.movingsum_forward(w), forward(stat_.sum_, w, 0), -1,
                     'movingsum_forward')
                near(larry(move.movingsum(arr(m), w), m.label),
                     windowed(stat_.sum_, w), -1, 'movingsum')
    same_snap(snap(y), was, 'an operation changed its larry')


def lane_cases(tier):
    for s, dt, c in lanes.space(tier):
        if 0 in s:
            continue
        # the last values of long pools do not add windows
        if s == (5,) and tier == 'quick' and nan in c and c.count(2.0) > 2:
            continue
        yield s, dt, c


def lane_run(ctx, case):
    s, dt, cells = case
    m = mkm(s, 'sid'[:len(s)], dt, cells=cells)
    ctx.state(m.key())
    axes = range(-len(s), len(s)) if len(s) < 3 or s[0] != 2 else \
        range(-len(s), 0)
    if len(s) == 1:
        axes = [0, -1] if len(cells) < 4 else [-1]
    all_ops(ctx, m, 'C', range(1, max(s) + 1), axes)


def lay_run(ctx, case):
    s, lay, dt, seed = case
    m = lanes.laymodel(s, dt, seed)
    ctx.state(m.key())
    all_ops(ctx, m, lay, (1, 2, 3, 4), range(-len(s), len(s)), stdtol=1e-4)


def size_run(ctx, case):
    n, how, nans = case
    m, ax = lanes.sizemodel(n, how, nans)
    ctx.state(m.key())
    ws = [w for w in (2, 5, 16, 33, 64, 100, n - 1, n) if w <= n]
    if how != '1d':
        ws = [w for w in ws if w in (2, 33, n)]
    if n > 600:
        ws = ws[:4]
    all_ops(ctx, m, 'C', sorted(set(ws)), [ax], False, 1e-7, 1e-4)


def size_cases(tier):
    for n, how, nans in lanes.sizecases(tier):
        if n > 513 and tier == 'quick' and (how != '1d' or not nans):
            continue
        yield n, how, nans


def bad_cases(tier):
    for s in [(1,), (3,), (2, 3), (2, 2, 2), (2, 3, 2, 2), (0,), (2, 0)]:
        for dt in 'fi':
            for lay in 'CF':
                yield s, dt, lay


def bad_run(ctx, case):
    s, dt, lay = case
    m = mkm(s, dt=dt)
    nd = len(s)
    ctx.state(m.key())
    y = mk(m, lay)

    def refuse(w, ax, what):
        for n, f in BN:
            raises(lambda: getattr(y, n)(w, axis=ax), '%s %s' % (n, what))
        for me in ('loop', 'strides'):
            raises(lambda: y.move_median(w, axis=ax, method=me),
                   'move_median ' + what)
            raises(lambda: y.move_ranking(w, axis=ax, method=me),
                   'move_ranking ' + what)
            raises(lambda: y.move_func(np.sum, w, axis=ax, method=me),
                   'move_func ' + what)
        raises(lambda: y.movingsum_forward(w, axis=ax),
               'movingsum_forward ' + what)
        raises(lambda: move.movingsum(y.x, w, axis=ax), 'movingsum ' + what)
        ctx.step(13)
    for ax in range(-nd, nd):
        n = s[ax]
        for w in (0, -1, -2, n + 1, n + 2, n + 10):
            if w > 0 or w < 1:
                refuse(w, ax, 'window %d on %d' % (w, n))
        if n:
            for skip in (n + 1, n + 5):
                raises(lambda: y.movingsum_forward(1, skip, ax), 'skip')
                raises(lambda: move.movingsum(y.x, 1, skip, ax), 'skip')
            raises(lambda: y.move_median(1, ax, 'other'), 'method')
            raises(lambda: y.move_ranking(1, ax, 'Loop'), 'method')
            raises(lambda: y.move_func(np.sum, 1, ax, ''), 'method')
    for ax in (nd, -nd - 1):
        refuse(1, ax, 'axis %d of %dd' % (ax, nd))
    if nd > 3:
        raises(lambda: y.move_median(1, 0, 'strides'), 'strides in 4d')
        raises(lambda: y.move_ranking(1, 0), 'strides in 4d')
    same(y, m, 'operand')


def hist_cases(tier):
    for n in (3, 4, 5):
        for w1 in range(1, n + 1):
            for w2 in range(1, n + 1):
                yield n, w1, w2


def hist_run(ctx, case):
    """Two calls, the data changed in between, other windows in between."""
    n, w1, w2 = case
    c = lanes.spread(2 * n, n)
    m = mkm((2, n), 'si', cells=c)
    y = mk(m)
    ctx.state((m.key(), w1, w2))
    fs = [(lambda y, w, n=n_: getattr(y, n)(w), f) for n_, f in BN]
    fs += [(lambda y, w: y.move_median(w), stat_.median),
           (lambda y, w: y.move_median(w, method='strides'), stat_.median),
           (lambda y, w: y.move_ranking(w), lastrank),
           (lambda y, w: y.move_ranking(w, method='loop'), lastrank)]
    for call, f in fs:
        for step in range(2):
            for w in (w1, w2, w1):
                r = call(y, w)
                same(r, m.lanes(windowed(f, w), -1), 'history', rtol=1e-4,
                     atol=1e-4)
                r.x[...] = 99
                r.label[0].reverse()
                ctx.step()
            y.x[1, n // 2] = 7.5
            m.put((1, n // 2), 7.5)


def inf_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for c in itertools.product((nan, 1.0, 2.0, inf, -inf), repeat=n):
            if inf in c or -inf in c:
                yield c,


def inf_run(ctx, case):
    """Infinite values: only the sums of the windows that hold them (and
    the later ones, which are running sums) are left out."""
    c, = case
    n = len(c)
    for m in (mkm((n,), cells=c), mkm((n, 1), cells=c),
              mkm((2, n), cells=c + c[::-1])):
        y = mk(m)
        ax = 0 if m.shape[0] == n and m.shape != (2, n) else 1
        ctx.state(m.key())
        for w in range(1, n + 1):
            for k, f in (('move_min', stat_.min_), ('move_max', stat_.max_)):
                same(getattr(y, k)(w, ax), m.lanes(windowed(f, w), ax),
                     '%s(%d) of %r' % (k, w, m))
            for me in ('loop', 'strides'):
                same(y.move_median(w, ax, me),
                     m.lanes(windowed(stat_.median, w), ax),
                     'move_median(%d, %r) of %r' % (w, me, m))
                same(y.move_ranking(w, ax, me),
                     m.lanes(windowed(lastrank, w), ax),
                     'move_ranking(%d, %r) of %r' % (w, me, m), rtol=1e-9,
                     atol=1e-9)
                same(y.move_func(ufunc_first, w, ax, me),
                     m.lanes(windowed(lambda v: v[0], w), ax),
                     'move_func(%d, %r) of %r' % (w, me, m))
            for skip in range(n):
                # windows up to the first infinite value of the lane
                for norm in (False, True):
                    f = normsum(w) if norm else stat_.sum_
                    x = move.movingsum(arr(m), w, skip, ax, norm)
                    finite_part(x, m, windowed(f, w, skip), ax, skip,
                                'movingsum(%d, %d, %r) of %r' %
                                (w, skip, norm, m))
                    ctx.step()
        same(y, m, 'operand')
        ctx.step(8 * n)


def finite_part(x, m, f, ax, skip, what):
    want = arr(m.lanes(f, ax))
    src = arr(m)
    if src.ndim == 1 or src.shape[1] == 1:
        lanes_ = [(x.ravel(), want.ravel(), src.ravel())]
    else:
        lanes_ = zip(x, want, src)
    for got, wt, v in lanes_:
        k = [i for i in range(len(v)) if v[i] in (inf, -inf)]
        k = k[0] + skip if k else len(v)
        check([repr(z) for z in got[:k]] == [repr(z) for z in wt[:k]] or
              np.allclose(np.nan_to_num(got[:k]), np.nan_to_num(wt[:k])) and
              (np.isnan(got[:k]) == np.isnan(wt[:k])).all(),
              lambda: '%s: %r instead of %r' % (what, got, wt))


def large_cases(tier):
    """A small spread far from zero: nothing may be rounded on the way"""
    for base in (2 ** 25, 2 ** 31 + 1, -2 ** 33 - 3, 123456789):
        for n in (1, 2, 3, 4):
            for v in itertools.product((0, 1, 6), repeat=n):
                for dt in 'fi':
                    yield base, v, dt


def large_run(ctx, case):
    base, v, dt = case
    c = [base + k for k in v]
    if dt == 'f':
        c = [float(k) for k in c]
    n = len(c)
    for m, ax in ((mkm((n,), 's', dt, cells=c), 0),
                  (mkm((2, n), 'is', dt, cells=c + c[::-1]), 1),
                  (mkm((n, 2), 'is', dt, cells=sum([[k, k + 1] for k in c],
                                                   [])), 0)):
        y = mk(m)
        ctx.state(m.key())
        for w in range(1, n + 1):
            for what, got, f in (
                    ('move_sum', y.move_sum(w, ax), stat_.sum_),
                    ('move_mean', y.move_mean(w, ax), stat_.mean),
                    ('move_min', y.move_min(w, ax), stat_.min_),
                    ('move_max', y.move_max(w, ax), stat_.max_),
                    ('move_median', y.move_median(w, ax), stat_.median),
                    ('move_median', y.move_median(w, ax, 'strides'),
                     stat_.median),
                    ('move_ranking', y.move_ranking(w, ax), lastrank),
                    ('move_ranking', y.move_ranking(w, ax, 'loop'), lastrank),
                    ('move_func', y.move_func(np.sum, w, ax), stat_.sum_)):
                same(got, m.lanes(windowed(f, w), ax), '%s(%d, %d) of %r' %
                     (what, w, ax, m), rtol=1e-12,
                     atol=1e-9 if what == 'move_ranking' else 0)
            for skip in range(0, n - w + 1):
                same(y.movingsum_forward(w, skip, ax), m.lanes(
                    forward(stat_.sum_, w, skip), ax),
                    'movingsum_forward(%d, %d, %d) of %r' % (w, skip, ax, m),
                    rtol=1e-12)
            ctx.step(9 + n - w)
    # sums of values that fit the type, of which the sum does not
    for t, a in (('f4', 2 ** 24), ('i4', 2 ** 30), ('i2', 2 ** 14),
                 ('u1', 250), ('i1', 120), ('i8', 2 ** 48)):
        c = [a if k % 2 == 0 else 1 for k in v]
        m = mkm((n,), 's', 'f', cells=[float(k) for k in c])
        for lay in (np.array(c, t), np.array(c[::-1], t)[::-1]):
            y = larry(lay, [list(m.label[0])])
            for w in range(1, n + 1):
                for skip in range(0, n - w + 1):
                    same(y.movingsum_forward(w, skip, 0), m.lanes(
                        forward(stat_.sum_, w, skip), 0),
                        'movingsum_forward(%d, %d) of %s %r' % (w, skip, t, m),
                        rtol=1e-15)
                    ctx.step()


# element types of every width
WIDE = [
    ('%s(%d)' % (n, w), (lambda n, w: lambda y, a: getattr(y, n)(w, a))(n, w))
    for n in ('move_sum', 'move_mean', 'move_std', 'move_min', 'move_max',
              'move_median', 'move_ranking', 'movingsum_forward')
    for w in (1, 2)] + [
    ('move_func', lambda y, a: y.move_func(np.sum, 2, a)),
    ('loop', lambda y, a: y.move_median(2, a, 'loop')),
    ('loop', lambda y, a: y.move_ranking(2, a, 'loop'))]


def wide_run(ctx, case):
    widths.num_run(ctx, case, WIDE)


KINDS_OF_INT = [
    (n, (lambda n: lambda y, a, I: getattr(y, n)(I(2), a))(n)) for n in
    ('move_sum', 'move_mean', 'move_std', 'move_min', 'move_max',
     'move_ranking', 'move_median', 'movingsum_forward')] + [
    ('move_func', lambda y, a, I: y.move_func(np.sum, I(2), a)),
    ('move_func, strides',
     lambda y, a, I: y.move_func(np.sum, I(2), a, 'strides')),
    ('movingsum_forward, skip',
     lambda y, a, I: y.movingsum_forward(I(1), I(1), a))]

FAMILIES = [
    Family('infinite', inf_cases, inf_run),
    Family('lanes', lane_cases, lane_run, 'every content, window and skip'),
    Family('layouts', lanes.laycases, lay_run),
    Family('sizes', size_cases, size_run),
    Family('refused', bad_cases, bad_run),
    Family('histories', hist_cases, hist_run),
    Family('large values', large_cases, large_run),
    Family('element types', widths.num_cases, wide_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'every lane of up to 4 (5) values over 5 (4) values '
                   'including NaN, every window 1..n, skip 0..n, norm on and '
                   'off, loop and strides, 7 user functions with and without '
                   'arguments; 2d/3d over every axis spelling; 4 layouts; '
                   'sizes up to 1025',
          'thorough': 'lanes up to 6 values, more shapes, sizes up to 5000'}
ASSUMPTIONS = ['sums, means and standard deviations of finite values; a window whose only valid value is the last '
               'one has no rank (NaN), as documented', 'move_std is compared '
               'to 1e-6 (Bottleneck accumulates squares), the others to 1e-9']
