"""C07: reductions and cumulations ignore missing values and keep labels."""
import itertools
import numpy as np
import la
from core import Family, Fail, check
from model import M, mk, same, raises, nan, inf, prod
import axkinds
import gen
import widths
from gen import mkm, shapes
import stat_ as stat

# name, reference, result kind per input kind
FLOAT = {'f': 'f', 'g': 'g', 'i': 'f', 'j': 'f', 'b': 'f'}
SUM = {'f': 'f', 'g': 'g', 'i': 'i', 'j': 'i', 'b': 'i'}
SAME = {'f': 'f', 'g': 'g', 'i': 'i', 'j': 'i', 'b': 'b'}
BOOL = dict([(k, 'b') for k in 'fgijb'])
RED = [('sum', stat.sum_, SUM), ('prod', stat.prod, SUM),
       ('mean', stat.mean, FLOAT), ('median', stat.median, FLOAT),
       ('std', stat.std, FLOAT), ('var', stat.var, FLOAT),
       ('max', stat.max_, SAME), ('min', stat.min_, SAME),
       ('any', stat.any_, BOOL), ('all', stat.all_, BOOL)]


def tol(dt):
    return (1e-9, 1e-9) if dt != 'g' else (2e-5, 2e-5)


def call(y, f, ax, **kw):
    return getattr(y, f)(axis=ax, **kw)


def one(ctx, m, ax, lay='C', which=None, cum=True, rt=None):
    rtol, atol = tol(m.dt)
    if rt is not None:
        rtol = rt
    zero = m.size == 0

    def empty(f, dt):
        if ax is None or m.ndim == 1:
            return {'any': False, 'all': True}.get(f, nan)
        a = ax % m.ndim
        label = [l for k, l in enumerate(m.label) if k != a]
        v = {'any': False, 'all': True}.get(f, nan)
        return M(label, [v] * prod([len(l) for l in label]), 'b' if f in
                 ('any', 'all') else 'f')

    def comp(f, fn, k, what, **kw):
        y = mk(m, lay)
        got = call(y, f, ax, **kw)
        if zero:
            want = empty(f, k)
            same(got, want, what)
        else:
            want = m.reduce(fn, ax, k)
            same(got, want, what, rtol=rtol, atol=atol)
        same(y, m, what + ': operand')
        ctx.step()
        ctx.outcome((f, repr(want)))

    for f, fn, kinds in RED:
        if which and f not in which:
            continue
        comp(f, fn, kinds[m.dt], '%s(axis=%r) of %s' % (f, ax, m.dt))
        if f in ('std', 'var'):
            n = m.size if ax is None else m.shape[ax] if m.ndim else 0
            for d in (1, 2):
                if m.dt in 'ijb' and d >= n:
                    continue    # bottleneck divides integers by zero
                comp(f, lambda v: fn(v, d), kinds[m.dt], '%s(axis=%r, ddof=%d)'
                     % (f, ax, d), ddof=d)
    if not which:
        neg = [v for v in m.cells if v <= 0]
        if not neg:
            comp('geometric_mean', stat.geometric_mean, FLOAT[m.dt],
                 'geometric_mean(axis=%r)' % ax)
            comp('geometric_mean', stat.geometric_mean, FLOAT[m.dt],
                 'geometric_mean(axis=%r, False)' % ax,
                 check_for_greater_than_zero=False)
        elif not zero:
            y = mk(m, lay)
            raises(lambda: y.geometric_mean(ax), 'geometric_mean of values '
                   'that are not positive: %r' % m)
            comp('geometric_mean', stat.geometric_mean, FLOAT[m.dt],
                 'geometric_mean(axis=%r, False)' % ax,
                 check_for_greater_than_zero=False)
            ctx.step()
    if cum and ax is not None:
        cums(ctx, m, ax, lay, rtol, atol)


def cums(ctx, m, ax, lay='C', rtol=1e-12, atol=0):
    if ax is not None:
        for f, fn in (('cumsum', stat.cumsum), ('cumprod', stat.cumprod)):
            y = mk(m, lay)
            want = m.lanes(fn, ax, SUM[m.dt])
            same(getattr(y, f)(ax), want, '%s(%r)' % (f, ax), rtol=rtol,
                 atol=atol)
            same(y, m, f + ': operand')
            ctx.step()


def axes(nd):
    return [None] + range(-nd, nd)


def pat1_cases(tier):
    al = (nan, 1.0, 2.5, -3.0) if tier == 'quick' else (nan, 1.0, 2.5, -3.0,
                                                        0.0)
    for n in range(1, 5 if tier == 'quick' else 6):
        for p in itertools.product(al, repeat=n):
            yield (n,), p
    for p in itertools.product((nan, inf, -inf, 1.5), repeat=3):
        yield (3,), p
    for p in itertools.product((nan, 0.0, 2.0), repeat=4):
        yield (2, 2), p


def pat1_run(ctx, case):
    s, p = case
    m = mkm(s, 'i', cells=p)
    ctx.state(m.key())
    if [v for v in p if v in (inf, -inf)]:
        for ax in axes(len(s)):
            one(ctx, m, ax, which=('sum', 'max', 'min', 'any', 'all',
                                   'median'), cum=False) \
                if not (inf in p and -inf in p) else \
                one(ctx, m, ax, which=('max', 'min', 'any', 'all'), cum=False)
        for ax in axes(len(s))[1:]:
            cums(ctx, m, ax)
        return
    for ax in axes(len(s)):
        one(ctx, m, ax)


def miss_cases(tier):
    """Every subset of missing cells."""
    ss = [(2, 3), (3, 2), (2, 2, 2), (1, 4), (4, 1), (6,)]
    if tier != 'quick':
        ss += [(3, 3), (2, 2, 3), (2, 5), (9,)]
    for s in ss:
        for p in itertools.product((0, 1), repeat=prod(s)):
            yield s, p


V = [3.0, 1.5, 7.25, 2.0, 9.0, 4.5, 8.0, 6.0, 0.5, 5.0, 3.5, 1.0]


def miss_run(ctx, case):
    s, p = case
    for k, lay in enumerate('CFRN'):
        m = mkm(s, 'is'[k % 2], cells=[nan if q else V[i]
                                       for i, q in enumerate(p)])
        ctx.state(m.key())
        for ax in axes(len(s)):
            one(ctx, m, ax, lay, cum=lay in 'CF',
                which=None if lay in 'CF' else ('sum', 'mean', 'std', 'max',
                                                'median', 'prod'))


def shape_cases(tier):
    for s in shapes([6, 4, 3, 2] if tier != 'quick' else [5, 3, 2, None]) + \
            [(1, 1, 1, 1), (2, 1, 2, 1), (2, 2, 2, 2), (0, 1, 2, 1),
             (2, 0, 0, 1)]:
        for dt in 'fgijb':
            for lay in 'CFRN' if tier != 'quick' or len(s) > 1 else 'C':
                yield s, dt, lay


def shape_run(ctx, case):
    s, dt, lay = case
    m = mkm(s, 'isid'[:len(s)], dt)
    if dt in 'fg' and m.size > 2:
        m.cells[1] = nan
    if dt in 'ij':
        m.cells = [v + 1 for v in m.cells]
        if m.size > 12:
            m.cells = [v % 7 - 2 for v in m.cells]
    ctx.state(m.key())
    for ax in axes(len(s)):
        one(ctx, m, ax, lay)
    y = mk(m, lay)
    for f in ['sum', 'prod', 'mean', 'median', 'std', 'var', 'max', 'min',
              'any', 'all', 'geometric_mean']:
        # the default axis is None
        a = getattr(y, f)
        try:
            want = a(axis=None)
        except ValueError:
            raises(a, f)
        else:
            same(a(), want, f + '()')
        for bad in (len(s), -len(s) - 1, 99):
            raises(lambda: a(axis=bad), '%s(axis=%d) of shape %r' %
                   (f, bad, s))
        ctx.step(4)
    for f in ('cumsum', 'cumprod'):
        raises(lambda: getattr(y, f)(None), f + '(None)')
        raises(lambda: getattr(y, f)(len(s)), f + '(out of range)')
    same(y, m, 'operand')


def ladder_cases(tier):
    ns = [7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 300,
          511, 513, 1000, 1025]
    if tier != 'quick':
        ns += [2047, 4097, 8193, 10001]
    for n in ns:
        for k in range(4):
            yield n, k


def ladder_run(ctx, case):
    n, k = case
    cells = [((i * 37 + 11) % 101) / 8.0 + 0.125 for i in range(n)]
    if k == 1:
        for i in (0, n // 2, n - 1):
            cells[i] = nan
    elif k == 2:
        cells = [nan if i % 3 else v for i, v in enumerate(cells)]
    elif k == 3:
        cells = [v + 1e6 for v in cells]    # large offset, small spread
    m = mkm((n,), 'i', cells=cells)
    ctx.state(m.key())
    which = [r[0] for r in RED if r[0] != 'prod']
    for ax in (None, 0):
        one(ctx, m, ax, which=which, cum=False, rt=1e-7)
        one(ctx, m, ax, 'R', which=which, cum=False, rt=1e-7)
    same(mk(m).cumsum(0), m.lanes(stat.cumsum, 0), 'cumsum', rtol=1e-9)
    if n % 2 == 0 or n % 3 == 0:
        q = 2 if n % 2 == 0 else 3
        m2 = mkm((n // q, q), 'i', cells=cells)
        m3 = mkm((q, n // q), 'i', cells=cells)
        for mm in (m2, m3):
            for ax in (None, 0, 1):
                one(ctx, mm, ax, which=which, cum=False, rt=1e-7)


def large_cases(tier):
    """A small spread far from zero: nothing may be rounded on the way"""
    for base in (2 ** 25, 2 ** 31 + 1, -2 ** 33 - 3, 123456789, 2 ** 62 + 1):
        for n in (1, 2, 3, 4):
            for v in itertools.product((0, 1, 6), repeat=n):
                for dt in 'fi':
                    yield base, v, dt


def large_run(ctx, case):
    base, v, dt = case
    c = [base + k for k in v]
    if dt == 'f':
        if abs(base) > 2 ** 50:
            return
        c = [float(k) for k in c]
    n = len(c)
    for m, ax in ((mkm((n,), 's', dt, cells=c), 0),
                  (mkm((2, n), 'is', dt, cells=c + c[::-1]), 1),
                  (mkm((n, 2), 'is', dt, cells=sum([[k, k + 1] for k in c],
                                                   [])), 0),
                  (mkm((1, n, 1, 1), 's', dt, cells=c), -3)):
        y = mk(m)
        ctx.state(m.key())
        for a in (ax, None):
            for f, fn, kinds in RED:
                if f == 'prod' or abs(base) > 2 ** 50 and f not in (
                        'max', 'min', 'any', 'all'):
                    continue
                t = 1e-6 if f in ('std', 'var') else 0
                r = 1e-6 if t else 1e-12 if dt == 'f' or f == 'mean' else 0
                same(call(y, f, a), m.reduce(fn, a, kinds[dt]), '%s(%r) of %r'
                     % (f, a, m), rtol=r, atol=t)
                ctx.step()
        if abs(base) < 2 ** 50:
            same(y.cumsum(ax), m.lanes(stat.cumsum, ax), 'cumsum of %r' % m,
                 dtype=False)
            ctx.step()


# element types of every width
WIDE = widths.meth(
    'sum', 'prod', 'mean', 'median', 'std', 'var', 'max', 'min', 'any', 'all',
    'geometric_mean', 'cumsum', 'cumprod')


def wide_run(ctx, case):
    widths.num_run(ctx, case, WIDE)


KINDS_OF_INT = axkinds.meth(
    'sum', 'prod', 'mean', 'median', 'std', 'var', 'max', 'min', 'any', 'all',
    'geometric_mean', 'cumsum', 'cumprod') + [
    ('std', lambda y, a, I: y.std(a, ddof=I(1))),
    ('var', lambda y, a, I: y.var(a, ddof=I(1)))]

FAMILIES = [
    Family('values', pat1_cases, pat1_run,
           'every short lane over a small value alphabet'),
    Family('missing', miss_cases, miss_run,
           'every subset of missing cells, every axis, four layouts'),
    Family('shapes', shape_cases, shape_run,
           'every shape, dtype, layout and axis; zero-size; refused axes'),
    Family('ladder', ladder_cases, ladder_run, 'long lanes'),
    Family('large values', large_cases, large_run),
    Family('element types', widths.num_cases, wide_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'lanes of 4 over 4 values; all missing subsets of shapes '
                   'up to 8 cells; shapes up to (5,), (3,3), (2,2,2); lanes '
                   'up to 1025',
          'thorough': 'lanes of 5 over 5 values; missing subsets of up to 12 '
                      'cells; shapes up to (6,), (4,4), (3,3,3), 4d; lanes '
                      'up to 10001'}
