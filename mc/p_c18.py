"""C18: normalisations and rankings satisfy their definition on every lane."""
import itertools
import math
import numpy as np
import la
from la import larry
import la.farray as farray
import axkinds
import widths
from core import Family, Fail, check
from model import M, mk, snap, same, same_snap, raises, nan, inf, isnan, kind
import stat_
from gen import mkm
import lanes


def demean(v):
    m = stat_.mean(v)
    return [x - m for x in v]


def demedian(v):
    m = stat_.median(v)
    return [x - m for x in v]


def zscore(v):
    m = stat_.mean(v)
    s = stat_.std(v)
    return [nan if x != x or s == 0 or s != s else (x - m) / s for x in v]


_PHI = {}


def ndtri(p):
    if p not in _PHI:
        lo, hi = -40.0, 40.0
        for _ in range(200):
            mid = (lo + hi) / 2
            if 0.5 * math.erfc(-mid / math.sqrt(2)) < p:
                lo = mid
            else:
                hi = mid
        _PHI[p] = (lo + hi) / 2
    return _PHI[p]


def ranking(v, norm):
    N = len(v)
    ok = [x for x in v if x == x]
    n = len(ok)
    out = []
    # rank of every distinct value: average over its ties, 0 .. n-1
    rank = {}
    pos = 0
    for x, grp in itertools.groupby(sorted(ok)):
        k = len(list(grp))
        rank[x] = pos + (k - 1) / 2.0
        pos += k
    for x in v:
        if x != x:
            out.append(nan)
        elif norm == '-1,1':
            out.append(0.0 if n == 1 else 2.0 * rank[x] / (n - 1) - 1.0)
        else:
            r = (N - 1) / 2.0 if n == 1 else rank[x] * (N - 1.0) / (n - 1)
            if norm == '0,N-1':
                out.append(r)
            else:
                out.append(0.0 if n == 1 else ndtri((r + 1.0) / (N + 1.0)))
    return out


NORMS = ('-1,1', '0,N-1', 'gaussian')


def quant(v, q):
    """For every element the set of admissible results (equal values may go to
    either bin their ranks reach)."""
    fin = sorted([x for x in v if x == x and x not in (inf, -inf)])
    n = len(fin)
    out = []
    for x in v:
        if x != x or q > 1 and x in (inf, -inf):
            out.append(None)
            continue
        if q == 1:
            out.append(set([0.0]))
            continue
        bins = set()
        lo = fin.index(x)
        for r in range(lo, lo + fin.count(x)):
            # smallest j with r <= (n - 1) * j / q
            j = 1
            while j < q and r * q > (n - 1) * j:
                j += 1
            bins.add(j)
        out.append(set([2.0 * (b - 1.0) / (q - 1.0) - 1.0 for b in bins]))
    return out


def same_quant(got, m, q, axis, what):
    g = snap(got)
    check(g.label == m.label and g.dt in 'fg', what + ': labels')
    if axis is None:
        lanes_ = [[i for i, v in m.items()]]
    else:
        lanes_ = [lane for o, lane in m.along(axis)]
    for lane in lanes_:
        v = [m.at(i) for i in lane]
        w = quant(v, q)
        r = [g.at(i) for i in lane]
        for k in range(len(v)):
            if w[k] is None:
                ok = isnan(r[k])
            else:
                ok = [1 for c in w[k] if abs(c - r[k]) < 1e-9]
            check(ok, lambda: '%s: %r of the lane %r is %r' %
                  (what, v[k], v, r))
        # ties share out the places between the bins
        fin = sorted([(x, b) for x, b in zip(v, r) if not isnan(b)])
        bins = [b for x, b in fin]
        check(bins == sorted(bins), lambda: '%s: not monotone: %r' %
              (what, fin))
        if q > 1:
            n = len(fin)
            for p, b in enumerate(sorted(bins)):
                j = 1
                while j < q and p * q > (n - 1) * j:
                    j += 1
                c = 2.0 * (j - 1.0) / (q - 1.0) - 1.0
                check(abs(b - c) < 1e-9 or not float_edge(n, q, j),
                      lambda: '%s: place %d is in bin %r, want %r: %r' %
                      (what, p, b, c, fin))


def near(got, m, what, g=False, sens=1.0):
    t = 1e-9 * sens if not g else 1e-5 * sens
    same(got, m, what, rtol=t, atol=t)


def all_ops(ctx, m, lay='C', deep=True, axes=None):
    nd = m.ndim
    g = m.dt == 'g'
    y = mk(m, lay)
    was = snap(y)
    if axes is None:
        axes = range(-nd, nd)
    for ax in list(axes) + [None]:
        if 0 in m.shape:
            # no value at all: the labels are kept, nothing is invented
            for n in ('demean', 'demedian', 'zscore'):
                if ax is None or m.shape[ax] == 0:
                    continue
                same(getattr(y, n)(ax), M(m.label, [], 'f'), n,
                     dtype=m.dt != 'i')
            continue
        near(y.demean(ax), m.lanes(demean, ax), 'demean(%r) of %r' % (ax, m),
             g)
        near(y.demedian(ax), m.lanes(demedian, ax), 'demedian(%r) of %r' %
             (ax, m), g)
        near(y.zscore(ax), m.lanes(zscore, ax), 'zscore(%r) of %r' % (ax, m),
             g)
        for norm in NORMS:
            near(y.ranking(ax, norm), m.lanes(lambda v: ranking(v, norm), ax),
                 'ranking(%r, %r) of %r' % (ax, norm, m), g)
        ctx.step(6)
        n = m.size if ax is None else m.shape[ax]
        for q in (1, 2, 3, 4, 5, 6):
            if q > n:
                if q > 1:
                    raises(lambda: y.quantile(q, ax), 'quantile(%d, %r) of '
                           'shape %r' % (q, ax, m.shape))
                continue
            same_quant(y.quantile(q, ax), m, q, ax, 'quantile(%d, %r) of %r' %
                       (q, ax, m))
            ctx.step()
    for ax in axes:
        for decay in (0, 0.5, 10.0):
            if decay * m.shape[ax] > 600:
                decay = 0.05
            w = m.reduce(lambda v: lrank(v, decay), ax)
            got = y.lastrank(ax, decay)
            if isinstance(w, M):
                near(got, w, 'lastrank(%d, %r) of %r' % (ax, decay, m), g)
            else:
                same(got, w, 'lastrank(%d, %r) of %r' % (ax, decay, m),
                     rtol=1e-9, atol=1e-9)
            ctx.step()
    if deep and 0 not in m.shape:
        near(y.demean(), m.lanes(demean, None), 'demean()', g)
        near(y.demedian(), m.lanes(demedian, None), 'demedian()', g)
        near(y.zscore(), m.lanes(zscore, None), 'zscore()', g)
        near(y.ranking(), m.lanes(lambda v: ranking(v, '-1,1'), 0),
             'ranking()', g)
        near(y.ranking(norm='0,N-1', axis=0),
             m.lanes(lambda v: ranking(v, '0,N-1'), 0), 'ranking(norm=)', g)
        if m.shape[0] > 1:
            same_quant(y.quantile(2), m, 2, 0, 'quantile(2)')
        same(y.lastrank(), m.reduce(lambda v: lrank(v, 0), -1), 'lastrank()',
             rtol=1e-9, atol=1e-9)
        ctx.step(7)
    same_snap(snap(y), was, 'an operation changed its larry')


def lrank(v, decay):
    return stat_.lastrank(v, decay)


def lane_cases(tier):
    return lanes.space(tier)


def lane_run(ctx, case):
    s, dt, cells = case
    m = mkm(s, 'sid'[:len(s)], dt, cells=cells)
    ctx.state(m.key())
    all_ops(ctx, m)


def lay_run(ctx, case):
    s, lay, dt, seed = case
    m = lanes.laymodel(s, dt, seed)
    ctx.state(m.key())
    if m.ndim == 4:
        # Bottleneck 0.8 ranks up to 3d fast; slow code beyond
        pass
    all_ops(ctx, m, lay)


def size_run(ctx, case):
    n, how, nans = case
    m, ax = lanes.sizemodel(n, how, nans)
    ctx.state(m.key())
    all_ops(ctx, m, 'C', False, [ax])


# inf, refusals ---------------------------------------------------------------------

def inf_cases(tier):
    top = 4 if tier == 'quick' else 5
    for n in range(1, top + 1):
        for c in itertools.product((nan, 1.0, 2.0, inf, -inf), repeat=n):
            yield c,


def inf_run(ctx, case):
    c, = case
    n = len(c)
    m1 = mkm((n,), cells=c)
    m2 = mkm((n, 1), cells=c)
    ctx.state(m1.key())
    for m in (m1, m2):
        y = mk(m)
        for norm in NORMS:
            near(y.ranking(0, norm), m.lanes(lambda v: ranking(v, norm), 0),
                 'ranking(0, %r) of %r' % (norm, m))
        for q in range(1, n + 1):
            same_quant(y.quantile(q, 0), m, q, 0, 'quantile(%d) of %r' %
                       (q, m))
        for decay in (0, 0.5):
            w = m.reduce(lambda v: lrank(v, decay), 0)
            same(y.lastrank(0, decay), w, 'lastrank(0, %r) of %r' %
                 (decay, m), rtol=1e-9, atol=1e-9)
        same(y.demean(0), m.lanes(demean, 0), 'demean of %r' % m, rtol=1e-9,
             atol=1e-9)
        same(y.demedian(0), m.lanes(demedian, 0), 'demedian of %r' % m,
             rtol=1e-9, atol=1e-9)
        ctx.step(7 + n)


def large_cases(tier):
    """A small spread far from zero: nothing may be rounded to float32"""
    for base in (2 ** 25, -2 ** 25 - 7, 2 ** 31 + 1, 123456789):
        for n in (1, 2, 3, 4):
            for v in itertools.product((0, 1, 5), repeat=n):
                for dt in 'fi':
                    yield base, v, dt


def large_run(ctx, case):
    base, v, dt = case
    c = [base + k for k in v]
    if dt == 'f':
        c = [float(k) for k in c]
    for m, ax in ((mkm((len(c),), 's', dt, cells=c), 0),
                  (mkm((2, len(c)), 'is', dt, cells=c + c[::-1]), 1),
                  (mkm((len(c), 2), 'is', dt, cells=sum(
                      [[k, k + 1] for k in c], [])), 0)):
        y = mk(m)
        ctx.state(m.key())
        for a in (ax, None):
            for n, f in (('demean', demean), ('demedian', demedian),
                         ('zscore', zscore)):
                same(getattr(y, n)(a), m.lanes(f, a), '%s(%r) of %r' %
                     (n, a, m), rtol=1e-6, atol=1e-6)
            for norm in NORMS:
                near(y.ranking(a, norm), m.lanes(lambda w: ranking(w, norm),
                                                 a), 'ranking of %r' % m)
            if len(c) > 1:
                same_quant(y.quantile(2, a), m, 2, a, 'quantile of %r' % m)
            ctx.step(6)
        w = m.reduce(lambda w: lrank(w, 0), ax)
        same(y.lastrank(ax), w, 'lastrank of %r' % m, rtol=1e-9, atol=1e-9)


def edge_cases(tier):
    top = 14 if tier == 'quick' else 40
    for n in range(2, top + 1):
        for nx in range(0, n + 1):
            yield n, nx


def edge_run(ctx, case):
    """nx valid values among n, every number of bins up to n"""
    n, nx = case
    step = [k for k in (5, 7, 3, 1) if n % k or k == 1][0]
    for kind in range(3):
        if kind == 0:
            c = [1.0 * i for i in range(nx)] + [nan] * (n - nx)
        elif kind == 1:
            c = [nan] * (n - nx) + [-0.5 * i for i in range(nx)]
        else:
            c = [float(i // 2) if i < nx else nan
                 for i in [i * step % n for i in range(n)]]
        m = mkm((n,), cells=c)
        y = mk(m)
        ctx.state(m.key())
        for q in range(2, n + 1):
            same_quant(y.quantile(q, 0), m, q, 0, 'quantile(%d) of %r' %
                       (q, m))
            ctx.step()


def bad_cases(tier):
    for s in [(3,), (2, 3), (2, 2, 2)]:
        for dt in 'fi':
            yield s, dt


def bad_run(ctx, case):
    s, dt = case
    m = mkm(s, dt=dt)
    nd = len(s)
    ctx.state(m.key())
    y = mk(m)
    for ax in (nd, -nd - 1, nd + 3):
        for n in ('demean', 'demedian', 'zscore', 'ranking', 'lastrank'):
            raises(lambda: getattr(y, n)(ax), '%s(%d) of %dd' % (n, ax, nd))
        raises(lambda: y.quantile(2, ax), 'quantile(2, %d)' % ax)
        ctx.step(6)
    for norm in ('-1, 1', 'N', '', None, 'gauss', '0,N'):
        raises(lambda: y.ranking(0, norm), 'ranking norm %r' % (norm,))
        ctx.step()
    for q in (0, -1, -5):
        raises(lambda: y.quantile(q, 0), 'quantile(%d)' % q)
        raises(lambda: y.quantile(q, None), 'quantile(%d)' % q)
        ctx.step(2)
    for d in (-1, -0.001):
        raises(lambda: y.lastrank(0, d), 'lastrank decay %r' % d)
        ctx.step()
    same(y, m, 'operand')


# element types of every width
WIDE = widths.meth(
    'demean', 'demedian', 'zscore', 'ranking', 'lastrank') + [
    ('quantile', lambda y, a: y.quantile(2, a)),
    ('gaussian', lambda y, a: y.ranking(a, 'gaussian')),
    ('0,N-1', lambda y, a: y.ranking(a, '0,N-1')),
    ('decay', lambda y, a: y.lastrank(a, 0.5))]


def wide_run(ctx, case):
    widths.num_run(ctx, case, WIDE)


KINDS_OF_INT = axkinds.meth('demean', 'demedian', 'zscore', 'ranking', 'lastrank') + [
    ('quantile', lambda y, a, I: y.quantile(I(2), a)),
    ('lastrank, decay', lambda y, a, I: y.lastrank(a, decay=I(1)))]

FAMILIES = [
    Family('large values', large_cases, large_run),
    Family('lanes', lane_cases, lane_run, 'every content of small shapes'),
    Family('layouts', lanes.laycases, lay_run, 'memory layouts, dtypes, 4d'),
    Family('sizes', lanes.sizecases, size_run, 'size ladder'),
    Family('infinite', inf_cases, inf_run),
    Family('edges', edge_cases, edge_run, 'every number of valid values and '
           'of bins'),
    Family('refused', bad_cases, bad_run),
    Family('element types', widths.num_cases, wide_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'every lane of up to 4 (5) elements over 5 (4) values '
                   'including NaN; 2d and 3d shapes over 3-4 values; every '
                   'axis and its negative spelling; 3 norms, q 1..6, 3 '
                   'decays; sizes up to 1025; 13 shapes in 4 layouts; '
                   'every n, valid values and q up to 14 for quantile',
          'thorough': 'lanes up to 6 elements, more 2d and 3d shapes, sizes '
                      'up to 5000, 16 contents per layout, quantile up to '
                      'n = 40'}
ASSUMPTIONS = ['values are dyadic so that the mean of a constant lane is '
               'exact; the bins of equal values are decided up to their '
               'order', 'numbers are compared to 1e-9 (float32: 1e-5)']
