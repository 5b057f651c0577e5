"""C24: summaries that combine several larrys, rows or columns."""
import itertools
import math
import numpy as np
import la
from la import larry
from la.farray import correlation, covMissing
from core import Family, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, inf, prod, \
    indices, veq, isnan, flat, relayout
from gen import mkm, labs, shapes, patterns
from ref import morph, joinlabels
import axkinds
import stat_

NPERR = np.seterr(all='ignore')
TOL = dict(rtol=1e-9, atol=1e-9)


def keepnum(dt):
    return 'f' if dt in 'ijb' else dt


# covariance ------------------------------------------------------------------------

def covref(m):
    """Model of cov or None where it has to be refused."""
    n, t = m.shape
    rows = [m.cells[i * t:(i + 1) * t] for i in range(n)]
    out = []
    for a in rows:
        for b in rows:
            p = [(x, y) for x, y in zip(a, b) if x == x and y == y]
            if len(p) < 2:
                return None
            out.append(math.fsum([x * y for x, y in p]) / len(p))
    return M([m.label[0], m.label[0]], out, 'f')


def cov_cases(tier):
    lim = 8 if tier == 'quick' else 12
    for n in range(0, 4):
        for t in range(0, 6):
            if n * t <= lim:
                for dt in 'fgij':
                    for lay in 'CFRN':
                        if lay != 'C' and (n < 2 or t < 2):
                            continue
                        yield n, t, dt, lay


def cov_run(ctx, case):
    n, t, dt, lay = case
    for pat in itertools.product((0, 1), repeat=n * t) if dt in 'fg' else \
            [None]:
        m = mkm((n, t), 'sd', dt)
        m.cells = [(-1) ** (i % 3) * (v + i % 2) for i, v in
                   enumerate(m.cells)]
        if pat:
            m.cells = [nan if p else v for v, p in zip(m.cells, pat)]
        ctx.state((n, t, dt, pat))
        y = mk(m, lay)
        was = snap(y)
        want = covref(m)
        what = 'cov of %r' % m
        if want is None:
            raises(lambda: la.cov(y), what + ': too few pairs')
            raises(lambda: covMissing(y.x), what + ': too few pairs')
        else:
            if dt == 'g':
                want.dt = 'f'
            got = la.cov(y)
            same(got, want, what, rtol=1e-6 if dt == 'g' else 1e-12,
                 atol=1e-9)
            check(got.label[0] is not got.label[1] or not n, 'cov shares')
            x = covMissing(y.x)
            check(np.array_equal(x, got.x), 'covMissing')
            if n:
                got.label[0][0] = 'changed'
                got.x[...] = 0
        same_snap(snap(y), was, 'cov changed the larry')
        ctx.step(1)
    for s in [(3,), (2, 2, 2), (0,), (1, 2, 1, 2)]:
        y = mk(mkm(s))
        raises(lambda: la.cov(y), 'cov of %dd' % len(s))


# correlation ---------------------------------------------------------------------------

def corr(p):
    p = [(x, y) for x, y in p if x == x and y == y]
    if not p:
        return nan
    n = float(len(p))
    mx = math.fsum([x for x, y in p]) / n
    my = math.fsum([y for x, y in p]) / n
    num = math.fsum([(x - mx) * (y - my) for x, y in p])
    den = math.sqrt(math.fsum([(x - mx) ** 2 for x, y in p]) *
                    math.fsum([(y - my) ** 2 for x, y in p]))
    return num / den if den else nan


def corr_cases(tier):
    lim = 5 if tier == 'quick' else 6
    for n in range(0, lim + 1):
        for first in patterns(min(n, 3), (1.0, 4.0, -2.0, nan)):
            yield n, first


def corr_run(ctx, case):
    """All pairs of lanes of n values, at most one value in two NaN."""
    n, first = case
    rest = list(patterns(n - len(first), (1.0, 4.0, nan)))
    seconds = list(patterns(n, (1.0, 2.0, nan) if n < 5 else (1.0, nan)))
    lanes1, lanes2 = [], []
    for r in rest:
        a = first + r
        for b in seconds:
            lanes1.append(a)
            lanes2.append(b)
            ctx.state((a, b) if n < 3 else (n, a))
    ctx.outcome(case)
    want = [corr(zip(a, b)) for a, b in zip(lanes1, lanes2)]
    a1 = np.array(lanes1, float).reshape(len(want), n)
    a2 = np.array(lanes2, float).reshape(len(want), n)
    k = len(want)
    def ok(got, w, what):
        got = flat(np.asarray(got))
        check(len(got) == len(w), what + ': shape')
        for i, (g, v) in enumerate(zip(got, w)):
            check(veq(g, v, 1e-9, 1e-9), lambda: '%s of %r and %r gives %r, '
                  'want %r' % (what, lanes1[i], lanes2[i], g, v))
    if n:
        for lay in 'CFRN':
            b1, b2 = relayout(a1, lay), relayout(a2, lay)
            c1, c2 = b1.copy(), b2.copy()
            ok(correlation(b1, b2, 1), want, 'correlation')
            ok(correlation(b1, b2, axis=-1), want, 'correlation')
            ok(correlation(b2, b1, 1), want, 'correlation')
            ok(correlation(b1.T, b2.T, 0), want, 'correlation')
            ok(correlation(b1.T, b2.T, -2), want, 'correlation')
            if k % 2 == 0:
                d1 = b1.reshape(2, k // 2, n)
                d2 = b2.reshape(2, k // 2, n)
                ok(correlation(d1, d2, 2), want, '3d correlation')
                d1, d2 = np.rollaxis(d1, 2), np.rollaxis(d2, 2)
                ok(correlation(d1, d2, 0), want, '3d correlation')
                d1, d2 = np.rollaxis(d1, 1), np.rollaxis(d2, 1)
                d1, d2 = np.rollaxis(d1, 0, 2), np.rollaxis(d2, 0, 2)
                e1 = np.rollaxis(b1.reshape(2, k // 2, n), 2, 1)
                e2 = np.rollaxis(b2.reshape(2, k // 2, n), 2, 1)
                ok(correlation(e1, e2, 1), want, '3d correlation')
                ok(correlation(e1, e2, -2), want, '3d correlation')
            check(flat(b1) == flat(c1) or repr(flat(b1)) == repr(flat(c1)),
                  'changed')
            check(repr(flat(b2)) == repr(flat(c2)), 'changed')
            ctx.step(8)
    # without NaNs in the block (the fast path) and lane by lane
    clean = [i for i in range(k) if not
             [v for v in lanes1[i] + lanes2[i] if v != v]]
    if clean and n:
        w = [want[i] for i in clean]
        f1, f2 = a1[clean], a2[clean]
        for t in (float, int, np.float32):
            g1, g2 = f1.astype(t), f2.astype(t)
            for g in (correlation(g1, g2, 1), correlation(g1.T, g2.T, 0)):
                for v, x in zip(flat(g), w):
                    check(veq(v, x, 1e-5, 1e-5), lambda: 'correlation %r %r' %
                          (v, x))
        # integers with floats that hold NaNs
        other = [i for i in range(k) if not
                 [v for v in lanes1[i] if v != v]]
        g1, g2 = a1[other].astype(int), a2[other]
        w = [want[i] for i in other]
        for g in (correlation(g1, g2, 1), correlation(g2, g1, 1),
                  correlation(g1.T, g2.T, 0)):
            for v, x in zip(flat(g), w):
                check(veq(v, x, 1e-9, 1e-9), 'correlation int with NaN')
        ctx.step(9)
    for i in range(0, k, 1 + k // 300):
        g = correlation(a1[i], a2[i])
        check(veq(float(g), want[i], 1e-9, 1e-9), lambda: 'correlation(%r, '
              '%r) = %r, want %r' % (lanes1[i], lanes2[i], g, want[i]))
        if n == 4:
            g = correlation(a1[i].reshape(2, 2), a2[i].reshape(2, 2), None)
            check(veq(float(g), want[i], 1e-9, 1e-9), 'correlation None')
        if n:
            g = correlation(a1[i], a2[i], 0)
            check(veq(float(g), want[i], 1e-9, 1e-9), 'correlation 1d axis 0')
        ctx.step(1)


# unique --------------------------------------------------------------------------------

UV = {'f': [2.0, -1.0, nan, inf, 0.5], 'i': [3, -1, 0], 'S': ['b', 'a', ''],
      'b': [True, False], 'O': [3, 1, 2], 'g': [1.5, nan, 2.5]}


def uniq_cases(tier):
    lim = 4 if tier == 'quick' else 6
    for s in [(k,) for k in range(lim + 1)] + [(2, 2), (1, 3), (2, 0),
                                               (2, 1, 2)]:
        for dt in 'fgibSO':
            for lay in 'CFRN':
                yield s, dt, lay


def uniq_run(ctx, case):
    s, dt, lay = case
    for cells in patterns(prod(s), UV[dt][:5 if prod(s) < 6 else 3]):
        m = mkm(s, 's', dt, cells=list(cells))
        ctx.state((s, dt, repr(cells)))
        y = mk(m, lay)
        was = snap(y)
        u = la.unique(y)
        uniq_check(cells, u, None, None)
        r = la.unique(y, True)
        check(type(r) is tuple and len(r) == 2, 'unique with index')
        uniq_check(cells, r[0], r[1], None)
        r = la.unique(y, False, True)
        check(type(r) is tuple and len(r) == 2, 'unique with inverse')
        uniq_check(cells, r[0], None, r[1])
        r = la.unique(y, return_inverse=True, return_index=True)
        check(type(r) is tuple and len(r) == 3, 'unique with both')
        uniq_check(cells, *r)
        r[0][:] = 0
        same_snap(snap(y), was, 'unique changed the larry')
        ctx.step(4)


def uniq_check(cells, u, idx, inv):
    check(type(u) is np.ndarray and u.ndim == 1, 'unique gives an array')
    u = flat(u)
    fin = [v for v in u if v == v]
    what = 'unique of %r: %r %r %r' % (cells, u, idx, inv)
    check(fin == sorted(set([v for v in cells if v == v])) and
          u[:len(fin)] == fin, what)
    miss = len([v for v in cells if v != v])
    check(len(u) - len(fin) in (bool(miss), miss), what)
    if idx is not None:
        check(len(idx) == len(u) and all([veq(cells[i], v)
                                          for i, v in zip(idx, u)]), what)
    if inv is not None:
        check(len(inv) == len(cells) and
              all([veq(u[i], v) for i, v in zip(inv, cells)]), what)


# stack -------------------------------------------------------------------------------------

ROWS = [['a', 'b'], ['b', 'a'], ['b', 'c'], ['c'], [], ['d', 'a', 'b']]
COLS = [[1, 2], [2, 1], [3], [3, 1], []]


def stack_cases(tier):
    one = list(itertools.product(range(len(ROWS)), range(len(COLS))))
    for mode in ('union', 'intersection'):
        for a in one:
            yield mode, (a,), 'f'
            for b in one:
                yield mode, (a, b), 'fi'
        trip = one[::3] if tier == 'quick' else one
        for t in itertools.product(trip, trip, one[::5] if tier == 'quick'
                                   else one[::3]):
            yield mode, t, 'fbi'


NAMES = [('x',), ('zeta', 'alpha'), ('B', 'a', 'A')]


def stack_run(ctx, case):
    mode, specs, dts = case
    names = NAMES[len(specs) - 1]
    ctx.state(case)
    ms = {}
    for k, (r, c) in enumerate(specs):
        ms[names[k]] = mkm((len(ROWS[r]), len(COLS[c])), dt=dts[k],
                           start=1 + 20 * k, label=[ROWS[r], COLS[c]])
    def join(ax):
        out = set(ms[names[0]].label[ax])
        for n in names[1:]:
            out = out | set(ms[n].label[ax]) if mode == 'union' else \
                out & set(ms[n].label[ax])
        return sorted(out)
    row, col = join(0), join(1)
    z = sorted(names)
    cells = []
    for n in z:
        d = ms[n].asdict()
        cells += [d.get((r, c), nan) for r in row for c in col]
    want = M([z, row, col], [float(v) for v in cells], 'f')
    for lay in 'CF':
        ys = dict([(n, mk(m, lay)) for n, m in ms.items()])
        was = dict([(n, snap(y)) for n, y in ys.items()])
        got = la.stack(mode, **ys)
        same(got, want, 'stack(%r) of %r' % (mode, ms))
        if got.x.size:
            got.x[...] = 0
            got.label[1][0] = 'changed'
            got.label[2][0] = 'changed'
        for n in ys:
            same_snap(snap(ys[n]), was[n], 'stack changed ' + n)
        ctx.step(1)
    ctx.outcome(repr(want))
    if len(specs) == 1:
        y = ys['x']
        for bad in ('outer', 'inner', '', None, 'Union', 'left'):
            raises(lambda: la.stack(bad, x=y), 'stack mode %r' % (bad,))
        for s in [(2,), (2, 2, 2), (1, 1, 1, 1)]:
            raises(lambda: la.stack(mode, x=y, y=mk(mkm(s))), 'stack %r' %
                   (s,))
            raises(lambda: la.stack(mode, x=mk(mkm(s))), 'stack %r' % (s,))
        if y.x.size:
            c = larry(y.x + 1j, y.label)
            got = la.stack(mode, x=c, w=y)
            d = ms['x'].asdict()
            v = [d[r, k] for r in row for k in col]
            same(got, M([['w', 'x'], row, col], [complex(a) for a in v] +
                        [a + 1j for a in v], 'c'), 'stack complex')


# panel ---------------------------------------------------------------------------------------

def panel_cases(tier):
    for s in shapes([None, None, 3 if tier == 'quick' else 5]):
        for dt in 'fibSO':
            for lay in 'CFRN':
                if lay != 'C' and (dt != 'f' or prod(s) < 2):
                    continue
                for lk in ('sid', 'mts'):
                    if lk == 'mts' and max(s) > 4:
                        continue
                    yield s, dt, lay, lk


def panel_run(ctx, case):
    s, dt, lay, lk = case
    m = mkm(s, lk, dt)
    ctx.state(case)
    y = mk(m, lay)
    was = snap(y)
    rows = [(j, k) for j in range(s[1]) for k in range(s[2])]
    want = M([[(m.label[1][j], m.label[2][k]) for j, k in rows], m.label[0]],
             [m.at((i, j, k)) for j, k in rows for i in range(s[0])], dt)
    got = la.panel(y)
    same(got, want, 'panel of %r' % m, dtype='exact')
    check([type(t) for t in got.label[0]] == [tuple] * len(rows), 'panel')
    if got.x.size:
        got.x[...] = 'q' if dt == 'S' else 0
        got.label[1][0] = 'changed'
    same_snap(snap(y), was, 'panel changed the larry')
    same(la.panel(y), want, 'panel twice')
    ctx.step(2)
    ctx.outcome(repr(want))
    for q in [(2,), (2, 2), (1, 2, 1, 2), (0,), (0, 0)]:
        raises(lambda: la.panel(mk(mkm(q))), 'panel of %r' % (q,))


# sortby -----------------------------------------------------------------------------------------

SV = {'f': [2.0, -1.0, nan, 3.0, inf], 'i': [2, 1, 3, 0], 'S': ['b', 'a', ''],
      'b': [True, False], 'g': [1.5, nan, 2.5]}


def sortby_cases(tier):
    lim = 4 if tier == 'quick' else 5
    for n in range(0, lim + 1):
        for k in (0, 1, 2, 3):
            for dt in 'fgiSb':
                for lay in 'CFRN':
                    if lay != 'C' and n * k < 2:
                        continue
                    yield n, k, dt, lay


def sortby_run(ctx, case):
    n, k, dt, lay = case
    for lane in patterns(n, SV[dt][:5 if n < 4 else 4]):
        for axis in (0, 1):
            for pos in range(k):
                s = (k, n) if axis == 0 else (n, k)
                m = mkm(s, 'ss' if n == k and pos % 2 == axis else 'sd', dt)
                for i, v in enumerate(lane):
                    m.put((pos, i) if axis == 0 else (i, pos), v)
                ctx.state((n, k, dt, axis, pos, repr(lane)))
                y = mk(m, lay)
                was = snap(y)
                el = m.label[axis][pos]
                for ax in (axis, axis - 2):
                    for rev in (None, False, True):
                        got = la.sortby(y, el, ax) if rev is None else \
                            la.sortby(y, el, ax, reverse=rev)
                        sortby_check(m, got, axis, el, pos, bool(rev))
                        if got.x.size:
                            check(not np.may_share_memory(got.x, y.x),
                                  'sortby shares memory')
                            got.label[0][0] = 'changed'
                            got.label[1][0] = 'changed'
                        ctx.step(1)
                same_snap(snap(y), was, 'sortby changed the larry')
    y = mk(mkm((k, n), 'sd', dt))
    for el in ('zz', None, 77):
        for axis in (0, 1, -1, -2):
            raises(lambda: la.sortby(y, el, axis), 'sortby %r' % (el,))
    for axis in (2, -3, None, 5):
        for el in (y.label[0] + y.label[1])[:2]:
            raises(lambda: la.sortby(y, el, axis), 'sortby axis %r' % (axis,))
    for q in [(2,), (2, 2, 2), (0,), (0, 2, 0)]:
        z = mk(mkm(q, 's'))
        for axis in (0, -1):
            raises(lambda: la.sortby(z, 'b', axis), 'sortby of %r' % (q,))


def sortby_check(m, got, axis, el, pos, rev):
    g = snap(got)
    what = 'sortby(%r, axis=%d, reverse=%r) of %r gives %r' % (el, axis, rev,
                                                               m, g)
    other = 1 - axis
    check(g.label[axis] == m.label[axis], what)
    check(sorted(g.label[other]) == sorted(m.label[other]), what)
    want = m.select([range(len(m.label[0])) if axis == 0 else
                     [m.label[0].index(l) for l in g.label[0]],
                     range(len(m.label[1])) if axis == 1 else
                     [m.label[1].index(l) for l in g.label[1]]])
    same(got, want, what, dtype='exact')
    lane = [g.at((pos, i) if axis == 0 else (i, pos))
            for i in range(g.shape[other])]
    fin = [v for v in lane if v == v]
    check(fin == sorted(fin, reverse=rev), what)
    # missing values at one end
    if not rev:
        check([v == v for v in lane] == [True] * len(fin) +
              [False] * (len(lane) - len(fin)), what)
    else:
        check([v == v for v in lane] in (
            [True] * len(fin) + [False] * (len(lane) - len(fin)),
            [False] * (len(lane) - len(fin)) + [True] * len(fin)), what)


# sizes ---------------------------------------------------------------------------------------------

SIZES = [5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 256, 257,
         1000, 1025]


def size_cases(tier):
    for n in SIZES:
        for miss in (0, 1, 2):
            yield n, miss


def size_run(ctx, case):
    n, miss = case
    ctx.state(case)
    vals = [float((i * 7919 + 3) % 10007 % (2 * n)) - n for i in range(3 * n)]
    if miss:
        for i in range(miss - 1, 3 * n, 5 if miss == 1 else 3):
            vals[i] = nan
    m = mkm((3, n), 'ss', cells=vals)
    y = mk(m, 'CFRN'[n % 4])
    if covref(m) is None:
        raises(lambda: la.cov(y), 'cov: too few pairs')
    else:
        same(la.cov(y), covref(m), 'cov', **TOL)
    a, b = vals[:n], vals[n:2 * n]
    want = corr(zip(a, b))
    check(veq(float(correlation(np.array(a), np.array(b))), want, 1e-9, 1e-9),
          'correlation')
    x1, x2 = np.array(vals).reshape(3, n), np.array(vals[::-1]).reshape(3, n)
    w = [corr(zip(flat(x1[i]), flat(x2[i]))) for i in range(3)]
    for g in (correlation(x1, x2, 1), correlation(x1.T, x2.T, 0)):
        check(all([veq(p, q, 1e-9, 1e-9) for p, q in zip(flat(g), w)]),
              'correlation')
    uniq_check(vals, *la.unique(y, True, True))
    for pos in range(3):
        for rev in (False, True):
            sortby_check(m, la.sortby(y, m.label[0][pos], 0, rev), 0,
                         m.label[0][pos], pos, rev)
    t = m.permute((1, 0))
    yt = mk(t)
    sortby_check(t, la.sortby(yt, t.label[1][1], 1), 1, t.label[1][1], 1,
                 False)
    z = mkm((2, 3, n) if miss else (n, 2, 3), 'sss')
    rows = [(j, k) for j in range(z.shape[1]) for k in range(z.shape[2])]
    same(la.panel(mk(z)),
         M([[(z.label[1][j], z.label[2][k]) for j, k in rows], z.label[0]],
           [z.at((i, j, k)) for j, k in rows for i in range(z.shape[0])]),
         'panel')
    half = m.select([[0, 2], range(0, n, 2)])
    for mode in ('union', 'intersection'):
        row = sorted(m.label[0]) if mode == 'union' else sorted(half.label[0])
        col = sorted(m.label[1]) if mode == 'union' else sorted(half.label[1])
        cells = []
        for mm in (m, half):
            d = mm.asdict()
            cells += [d.get((r, c), nan) for r in row for c in col]
        same(la.stack(mode, p=y, q=mk(half)), M([['p', 'q'], row, col],
                                                cells), 'stack')
    ctx.step(15)


def manystack_cases(tier):
    for mode in ('union', 'intersection'):
        for n in (4, 5, 6, 7, 8, 9, 10, 12, 17, 33):
            for at in sorted(set([0, 1, n // 2, n - 2, n - 1])):
                for how in range(4):
                    yield mode, n, at, how


def manystack_run(ctx, case):
    mode, n, at, how = case
    odd = ([ROWS[1], COLS[0]], [ROWS[2], COLS[3]], [ROWS[4], COLS[0]],
           [ROWS[5], COLS[2]])[how]
    ctx.state(case)
    ms = dict([('k%d' % i, mkm([len(l) for l in lab], label=lab,
                               start=1 + 9 * i))
               for i in range(n)
               for lab in [odd if i == at else [ROWS[0], COLS[0]]]])
    join = []
    for ax in range(2):
        ls = [set(m.label[ax]) for m in ms.values()]
        join.append(sorted(set.union(*ls) if mode == 'union' else
                           set.intersection(*ls)))
    cells = []
    for k in sorted(ms):
        d = ms[k].asdict()
        cells += [d.get((r, c), nan) for r in join[0] for c in join[1]]
    same(la.stack(mode, **dict([(k, mk(m)) for k, m in ms.items()])),
         M([sorted(ms)] + join, cells), 'stack of %d' % n)
    ctx.step()


KINDS_OF_INT = [
    ('sortby', lambda y, a, I: la.sortby(y, y.label[a][0], a)),
    ('correlation', lambda y, a, I: la.farray.correlation(y.x, y.x, a))]

FAMILIES = [
    Family('cov', cov_cases, cov_run, 'all missing patterns'),
    Family('correlation', corr_cases, corr_run, 'all pairs of lanes'),
    Family('unique', uniq_cases, uniq_run),
    Family('stack', stack_cases, stack_run),
    Family('panel', panel_cases, panel_run),
    Family('sortby', sortby_cases, sortby_run),
    Family('sizes', size_cases, size_run),
    Family('stack many', manystack_cases, manystack_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'cov: all missing patterns of up to 8 cells; correlation: '
                   'all pairs of lanes over 4 and 3 values up to length 4, '
                   '2 values at 5; unique: all assignments of up to 4 cells; '
                   'stack of up to 3 larrys from 30 label pairs; panel '
                   'shapes up to 3x3x3; sortby: all lanes up to 4; sizes up '
                   'to 1025',
          'thorough': 'cov 12 cells, lanes 6, unique 6 cells, panel 5x5x5, '
                      'sortby 5, all stack triples'}
ASSUMPTIONS = ['the order of tied columns in sortby and the number of NaNs '
               'unique reports are not prescribed']
RULE = 'cells compared one by one, sums within 1e-9'
