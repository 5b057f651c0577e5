"""C22: missing values are recognised, cut, filled and created."""
import itertools
from fractions import Fraction
import numpy as np
import la
from la import larry
from core import Family, check, Fail
from model import M, mk, arr, snap, same, same_snap, raises, nan, inf, prod, \
    indices, veq, isnan, flat
from gen import mkm, labs, shapes, patterns
import axkinds
import warnings

NPERR = np.seterr(all='ignore')


def finite(v):
    if isinstance(v, complex):
        return finite(v.real) and finite(v.imag)
    return not (isnan(v) or v in (inf, -inf))


def blank(dt):
    return {'f': nan, 'g': nan, 'c': complex(nan, 0), 'S': '', 'O': None,
            'i': None, 'j': None, 'b': None}[dt]


# the marker ---------------------------------------------------------------------

CELLS = {
    'f': [1.0, nan, inf, 0.0, -inf],
    'g': [1.5, nan, inf, 0.0],
    'i': [0, 1, -2 ** 62],
    'j': [0, 1, -2 ** 31],
    'b': [True, False],
    'S': ['', 'a', 'nan', ' ', 'None'],
    'W': ['', '   ', 'a long string', ' \t', 'a string of thirty characters '],
    'O': [None, 0, '', nan, False],
    'c': [1 + 2j, complex(nan, 0), complex(0, nan), complex(nan, nan), 0j],
}


def mark_cases(tier):
    n = 3 if tier == 'quick' else 4
    for dt in 'fgijbSOcW':
        for s in [(k,) for k in range(n + 1)] + [(2, 2), (1, 3), (2, 1, 2),
                                                 (0, 2), (2, 0), (1, 1, 1, 2)]:
            if prod(s) > n + 1 or prod(s) > 3 and len(CELLS[dt]) > 4 and \
                    tier == 'quick':
                continue
            for lay in 'CFRN':
                if lay != 'C' and len(s) == 1 and s[0] < 2:
                    continue
                yield dt, s, lay


def mark_run(ctx, case):
    dt, s, lay = case
    pool = CELLS[dt]
    dt = 'S' if dt == 'W' else dt
    for cells in patterns(prod(s), pool):
        m = mkm(s, 's', dt, cells=list(cells))
        y = mk(m, lay)
        was = snap(y)
        if dt in 'fg':
            miss = [v != v for v in cells]
        elif dt == 'c':
            miss = [v != v for v in cells]
        elif dt == 'S':
            miss = [v == '' for v in cells]
        elif dt == 'O':
            miss = [v is None for v in cells]
        else:
            miss = [False] * len(cells)
        want = M(m.label, miss, 'b')
        got = y.ismissing()
        same(got, want, 'ismissing of %r' % m)
        for r in (la.missing.ismissing(y), la.missing.ismissing(y.x)):
            check(type(r) is np.ndarray and r.dtype == bool and
                  r.shape == m.shape and flat(r) == miss,
                  lambda: 'missing.ismissing of %r gives %r' % (m, r))
        mark = la.missing.missing_marker(y)
        wm = {'f': nan, 'g': nan, 'c': nan, 'S': '', 'O': None}.get(
            dt, NotImplemented)
        check(mark is wm or veq(mark, wm) and type(mark) is type(wm),
              lambda: 'missing_marker of %s is %r' % (dt, mark))
        got.x[...] = True
        got.label[0][:1] = ['changed']
        same_snap(snap(y), was, 'ismissing changed the larry')
        same(y.ismissing(), want, 'ismissing twice of %r' % m)
        # nx and size agree with the definition
        if dt not in 'SO':
            check(y.nx == len([v for v in cells if finite(v)]), 'nx')
        ctx.state((dt, s, repr(cells)))
        ctx.step(3)


NANS = [(float, nan), (np.float64, nan), (np.float32, nan), ('f8', nan),
        ('f4', nan), (complex, nan), (np.complex64, nan), (np.float16, nan),
        (str, ''), ('S5', ''), ('|S1', ''), (object, None),
        (np.object_, None), (int, 0), (np.int32, 0), (np.uint8, 0),
        (bool, 0), (np.bool_, 0), ('i2', 0), (np.int64, 0), ('u4', 0)]
NANSHAPES = [0, 1, 2, (0,), (3,), (2, 2), (2, 0), (1, 2, 3), (2, 1, 1, 2), 7,
             (16,), (33, 2), 1000, (2, 513), [2, 3]]


def nans_cases(tier):
    for i in range(len(NANS)):
        for s in NANSHAPES:
            yield i, s if not isinstance(s, list) else tuple(s) + ('list',)


def nans_run(ctx, case):
    i, s = case
    if isinstance(s, tuple) and s and s[-1] == 'list':
        s = list(s[:-1])
    dtype, mark = NANS[i]
    ctx.state(case)
    if mark == 0 and mark is not None and type(mark) is int:
        e = raises(lambda: la.missing.nans(s, dtype), 'nans(%r, %r)' %
                   (s, dtype))
        check(isinstance(e, TypeError), lambda: 'nans: %r' % e)
        return
    # memory that was used before
    junk = np.empty(s, dtype)
    junk.fill(1 if junk.dtype.kind != 'c' else 7 + 7j)
    del junk
    for k in range(2):
        x = la.missing.nans(s, dtype)
        want = (s,) if isinstance(s, int) else tuple(s)
        check(type(x) is np.ndarray and x.shape == want and
              x.dtype == np.empty(1, dtype).dtype, lambda: 'nans(%r, %r) '
              'gives %r %r' % (s, dtype, x.shape, x.dtype))
        for v in flat(x):
            check(isinstance(v, float) and isnan(v) or isinstance(v, complex)
                  and isnan(v.real) and (v.imag == 0 or isnan(v.imag))
                  if isnan(mark) else v == mark and
                  type(v) is type(mark), lambda: 'nans(%r, %r) holds %r' %
                  (s, dtype, v))
        x[...] = 1 if x.dtype.kind != 'c' else 7 + 7j
    if isnan(mark) and dtype is float:
        x = la.missing.nans(s)
        check(x.dtype == np.float64 and x.shape == want and
              np.isnan(x).all(), 'nans default')
    ctx.step(3)


# cutting ------------------------------------------------------------------------------

def select(m, keep):
    """keep[ax] is a list of positions, or None for all."""
    return m.select([range(n) if k is None else k
                     for k, n in zip(keep, m.shape)])


def slices(m, ax):
    """Per position of ax the cells of the slice."""
    out = [[] for i in range(m.shape[ax])]
    for idx, v in m.items():
        out[idx[ax]].append(v)
    return out


def vac(m, keepaxes):
    keep = []
    for ax in range(m.ndim):
        if ax in keepaxes:
            keep.append(None)
        else:
            keep.append([i for i, c in enumerate(slices(m, ax))
                         if [v for v in c if finite(v)]])
    return select(m, keep)


def nulls(m):
    return [slices(m.map(lambda v: v if finite(v) else None), ax)
            for ax in range(m.ndim)]


def cut(m, frac, axis, cache=None):
    """Possible results (a share that is the fraction up to rounding may go
    either way)."""
    frac = Fraction(frac)
    parts = cache if cache is not None else nulls(m)
    exact = frac.denominator <= 1024
    outs = []
    for loose in (0, 1) if not exact else (0,):
        keep = []
        for ax in range(m.ndim):
            if ax == axis:
                keep.append(None)
                continue
            k = []
            for i, c in enumerate(parts[ax]):
                if not c:
                    continue
                miss = c.count(None)
                if not exact and abs(float(miss) / len(c) - float(frac)) \
                        < 1e-9:
                    ok = loose
                else:
                    ok = miss * frac.denominator < frac.numerator * len(c)
                if ok:
                    k.append(i)
            keep.append(k)
        r = select(m, keep)
        outs.append(M([[]], [], 'f') if r.size == 0 else r)
    return outs


FRACS = [0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 1.5, 0.3, 2.0 / 3, -1.0, 1e-9,
         0.9999]


def same1(got, wants, what):
    for k, w in enumerate(wants):
        try:
            return same(got, w, what)
        except Fail:
            if k == len(wants) - 1:
                raise


def grid(tier):
    """NaN patterns of small larrys."""
    lim = 8 if tier == 'quick' else 11
    for s in shapes([4, 4, 3, 2], 1):
        if prod(s) <= lim:
            yield s
    for s in [(0,), (0, 2), (2, 0), (0, 0), (2, 0, 2)]:
        yield s


def cut_cases(tier):
    for s in grid(tier):
        for dt in 'fgi' if prod(s) <= 4 else 'f':
            yield s, dt


def cut_run(ctx, case):
    s, dt = case
    n = prod(s)
    nd = len(s)
    subs = [None] + range(-nd, nd)
    tups = [t for k in range(nd + 1)
            for t in itertools.combinations(range(nd), k)]
    for pat in itertools.product((0, 1), repeat=n) if dt != 'i' else [
            (0,) * n]:
        m = mkm(s, 'is' * nd, dt)
        m.label = m.label[:nd]
        for i, p in enumerate(pat):
            if p:
                m.cells[i] = inf if dt == 'f' and i % 4 == 3 else nan
        ctx.state((s, dt, pat))
        lay = 'CFRN'[sum(pat) % 4] if nd > 1 else 'C'
        y = mk(m, lay)
        was = snap(y)
        parts = nulls(m)
        for axis in subs:
            keepaxes = [] if axis is None else [axis % nd]
            want = vac(m, keepaxes)
            what = 'vacuum(%r) of %r' % (axis, m)
            got = y.vacuum() if axis is None else y.vacuum(axis)
            same(got, want, what)
            check(not np.may_share_memory(got.x, y.x) or not got.size,
                  what + ': shares memory')
            if got.size:
                got.x[...] = 0
                got.label[0][0] = 'changed'
            ctx.outcome(repr(want))
            fr = [FRACS[(sum(pat) + k) % len(FRACS)] for k in (0, 3, 7)] \
                if n > 6 else FRACS
            for frac in fr:
                wants = cut(m, frac, keepaxes[0] if keepaxes else None,
                            parts)
                got = y.cut_missing(frac) if axis is None else \
                    y.cut_missing(frac, axis)
                same1(got, wants, 'cut_missing(%r, %r) of %r' %
                      (frac, axis, m))
                if got.size:
                    got.x[...] = 0
                    got.label[-1][0] = 'changed'
                ctx.step(1)
        for t in tups:
            for tt in (t, list(t), [a - nd for a in t]):
                same(y.vacuum(tt), vac(m, t), 'vacuum(%r) of %r' % (tt, m))
                ctx.step(1)
        same_snap(snap(y), was, 'cutting changed the larry')
    y = mk(mkm(s))
    for axis in (nd, -nd - 1):
        raises(lambda: y.vacuum(axis), 'vacuum(%d) of %dd' % (axis, nd))
        raises(lambda: y.vacuum((axis,)), 'vacuum((%d,)) of %dd' % (axis, nd))
        raises(lambda: y.cut_missing(0.5, axis), 'cut_missing axis')
    for d2 in 'SO':
        z = mk(mkm(s, dt=d2))
        raises(lambda: z.vacuum(), 'vacuum of ' + d2)
        raises(lambda: z.cut_missing(0.5), 'cut_missing of ' + d2)


# keep_x ----------------------------------------------------------------------------------

OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def keep_cases(tier):
    for s in [(k,) for k in range(5)] + [(1, 1), (2, 1), (1, 3), (2, 2),
                                         (2, 0), (0, 0), (2, 1, 2)] + \
            ([(2, 3)] if tier != 'quick' else []):
        for op in sorted(OPS):
            for dt in 'fgijbSO':
                yield s, op, dt


KV = {'f': [1.0, 2.0, nan, -inf], 'g': [1.0, 2.0, nan], 'i': [1, 2, 3],
      'j': [1, 2], 'b': [True, False], 'S': ['a', 'b', ''],
      'O': ['a', 1, (2,), None]}


def keep_run(ctx, case):
    s, op, dt = case
    f = OPS[op]
    nd = len(s)
    for cells in patterns(prod(s), KV[dt][:4 if prod(s) < 5 else 3]):
        m = mkm(s, 'sdi'[:nd], dt, cells=list(cells))
        ctx.state((s, op, dt, repr(cells)))
        lay = 'CFRN'[len(set(map(repr, cells))) % 4]
        y = mk(m, lay)
        was = snap(y)
        values = KV[dt][:3] + ([1, 0, 1.5, inf] if dt in 'fg' else [])
        if op in ('==', '!=') and dt in 'fgS':
            values = values + ['zz', None, 7]
        for v in values:
            if dt == 'O' and (op not in ('==', '!=') or type(v) is tuple):
                continue
            keep = [f(c, v) for c in cells]
            want = m.copy()
            want.cells = [c if k else blank(dt) for c, k in zip(cells, keep)]
            what = 'keep_x(%r, %r) of %r' % (op, v, m)
            if dt in 'ijb':
                # integers and bools have no missing marker
                if all(keep):
                    try:
                        got = y.keep_x(op, v, vacuum=False)
                    except (TypeError, ValueError):
                        pass
                    else:
                        same(got, m, what)
                else:
                    raises(lambda: y.keep_x(op, v, vacuum=False), what)
                    raises(lambda: y.keep_x(op, v), what)
            else:
                got = y.keep_x(op, v, vacuum=False)
                if dt == 'O':
                    # documented as NaN; None is the marker of object data
                    got.x = got.x.copy()
                    for k, (c, kk) in enumerate(zip(flat(got.x), keep)):
                        if not kk:
                            check(c is None or isnan(c), what)
                            got.x[np.unravel_index(k, s)] = None
                same(got, want, what)
                if got.size:
                    got.x[...] = want.cells[0]
                    got.label[0][0] = 'changed'
                if dt == 'O':
                    same_snap(snap(y), was, what)
                    continue
                if nd != 2 or dt == 'S':
                    raises(lambda: y.keep_x(op, v), what + ' with vacuum')
                    raises(lambda: y.keep_x(op, v, True), what + ' vacuum')
                else:
                    w2 = vac(want, [])
                    same(y.keep_x(op, v), w2, what)
                    same(y.keep_x(op, v, vacuum=True), w2, what)
            ctx.step(2)
        same_snap(snap(y), was, 'keep_x changed the larry')
    y = mk(mkm(s, dt=dt))
    for bad in ('=', 'is', '<>', '', 'in', None, '=>', '== ', 'not', '=='*2):
        for v in (False, True):
            raises(lambda: y.keep_x(bad, KV[dt][0], v), 'op %r' % (bad,))


# push ----------------------------------------------------------------------------------------

def push(lane, window, none=nan):
    out = []
    for i, v in enumerate(lane):
        if finite(v):
            out.append(v)
            continue
        got = none
        for d in range(1, i + 1):
            if d > window:
                break
            if finite(lane[i - d]):
                got = lane[i - d]
                break
        out.append(got)
    return out


def push_cases(tier):
    lim = 10 if tier == 'quick' else 13
    for n in range(lim + 1):
        yield (n,), 'f'
    for s in shapes([None, 4, 3, 2]):
        if prod(s) <= lim - 2:
            yield s, 'f'
    for dt in 'gijbc':
        for s in [(4,), (2, 3), (3, 2), (2, 2, 2), (0, 3), (2, 0)]:
            yield s, dt


def inf_cases(tier):
    for s in [(1,), (2,), (3,), (4,), (5,), (2, 2), (1, 3)] + [
            (6,), (2, 3)] * (tier != 'quick'):
        yield s,


def inf_run(ctx, case):
    """Infinite values are not values that push repeats, nor that stay"""
    s, = case
    for c in itertools.product((1.0, nan, inf, -inf), repeat=prod(s)):
        cells = [v * (i + 1) if finite(v) else v for i, v in enumerate(c)]
        m = mkm(s, 'sd'[:len(s)], cells=cells)
        y = mk(m)
        was = snap(y)
        ctx.state((s, repr(c)))
        for w in range(0, max(s) + 1) + [inf]:
            for axis in range(-len(s), len(s)):
                same(y.push(w, axis), m.lanes(lambda l: push(l, w), axis),
                     'push(%r, %r) of %r' % (w, axis, m), dtype='exact')
                ctx.step()
        same_snap(snap(y), was, 'push changed the larry')


def push_run(ctx, case):
    s, dt = case
    n = prod(s)
    nd = len(s)
    for pat in itertools.product((0, 1), repeat=n) if dt in 'fgc' else [
            (0,) * n]:
        m = mkm(s, 'sdie'[:nd], dt)
        for i, p in enumerate(pat):
            if p:
                m.cells[i] = blank(dt)
        if n <= 8:
            ctx.state((s, dt, pat))
        lay = 'CFRN'[(sum(pat) + n) % 4] if n > 1 else 'C'
        y = mk(m, lay)
        was = snap(y)
        if nd == 1 and n > 7:
            wins = [(sum(pat) + n) % (n + 2)]
        elif nd > 1 and n > 6:
            wins = range(3)
        else:
            wins = range(0, max(s) + 2) + [100, 2.5, inf]
        for w in wins:
            for axis in [-1] + range(-nd, nd):
                want = m.lanes(lambda l: push(l, w, blank(dt)), axis, dt)
                what = 'push(%r, %r) of %r' % (w, axis, m)
                got = y.push(w, axis) if w != 1 or axis != -1 else y.push(w)
                if dt == 'c':
                    got.x[np.isnan(got.x)] = blank('c')
                same(got, want, what, dtype='exact')
                ctx.step(1)
        if nd == 1:
            ctx.outcome(pat)
        if got.size:
            got.x[...] = 0
            got.label[0][0] = 'changed'
        same_snap(snap(y), was, 'push changed the larry')
    y = mk(mkm(s, dt=dt))
    for axis in (nd, -nd - 1, None):
        raises(lambda: y.push(1, axis), 'push axis %r of %dd' % (axis, nd))
    for d2 in 'SO':
        z = mk(mkm(s, dt=d2))
        raises(lambda: z.push(1), 'push of ' + d2)


# nan_replace --------------------------------------------------------------------------

def rep_cases(tier):
    for s in grid(tier):
        for dt in 'fgijbc':
            yield s, dt


def rep_run(ctx, case):
    s, dt = case
    n = prod(s)
    for k in range(4 if n < 5 else 3):
        for cells in itertools.product((1, nan, inf)[:3 if n < 6 else 2],
                                       repeat=n) if dt in 'fgc' else [None]:
            m = mkm(s, 's', dt)
            if cells is not None:
                m.cells = [v if c == 1 else (complex(c, 0) if dt == 'c'
                                             else c)
                           for v, c in zip(m.cells, cells)]
            ctx.state((s, dt, cells))
            lay = 'CFRN'[k]
            y = mk(m, lay)
            was = snap(y)
            vals = [0, -1.5, inf, nan] if dt in 'fgc' else [0, 7]
            for v in vals:
                want = m.copy()
                want.cells = [(complex(v, 0) if dt == 'c' else v)
                              if c != c else c for c in m.cells]
                got = y.nan_replace(v) if v != 0 or k else y.nan_replace()
                same(got, want, 'nan_replace(%r) of %r layout %s' %
                     (v, m, lay), dtype='exact')
                ctx.step(1)
                if got.size:
                    got.x[...] = 0
                    got.label[0][0] = 'changed'
            same_snap(snap(y), was, 'nan_replace changed the larry')


# sizes -------------------------------------------------------------------------------------

SIZES = [5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 256, 257,
         1000, 1025]


def size_cases(tier):
    for n in SIZES + ([7, 15, 31, 63, 255, 500, 1024] if tier != 'quick'
                      else []):
        for form in ('row', 'col', '1'):
            for miss in (0, 1, 2, 'third', 'half', 'most', 'last', 'first',
                         'but one', 'all'):
                yield n, form, miss


def size_run(ctx, case):
    n, form, miss = case
    s = {'row': (2, n), 'col': (n, 2), '1': (n,)}[form]
    m = mkm(s, 's')
    pos = {0: [], 1: [n // 2], 2: [1, n - 2], 'third': range(0, n, 3),
           'half': range(n // 2), 'most': [i for i in range(n) if i % 7],
           'last': [n - 1], 'first': [0], 'but one': range(1, n),
           'all': range(n)}[miss]
    for i in pos:
        m.put({'row': (0, i), 'col': (i, 0), '1': (i,)}[form], nan)
    if form == 'row' and miss in (2, 'third'):
        for i in pos:
            m.put((1, i), nan)
    ctx.state(case)
    y = mk(m, 'CFRN'[n % 4])
    long_ = {'row': 1, 'col': 0, '1': 0}[form]
    for w in (0, 1, 2, 3, 6, 7, n // 2, n - 2, n - 1, n):
        same(y.push(w, long_), m.lanes(lambda l: push(l, w), long_), 'push')
        ctx.step(1)
    parts = nulls(m)
    for axis in [None] + range(len(s)):
        same(y.vacuum(axis), vac(m, [] if axis is None else [axis]), 'vacuum')
        for frac in FRACS + [float(len(pos)) / n, (len(pos) + .5) / n]:
            same1(y.cut_missing(frac, axis), cut(m, frac, axis, parts),
                  'cut_missing(%r, %r) of %r' % (frac, axis, case))
            ctx.step(1)
    same(y.ismissing(), m.map(lambda v: v != v, 'b'), 'ismissing')
    want = m.map(lambda v: -1.0 if v != v else v)
    same(y.nan_replace(-1), want, 'nan_replace')
    t = sorted([v for v in m.cells if v == v])
    if t and len(s) == 2:
        for v in (t[0], t[-1], t[len(t) // 2]):
            w = m.map(lambda c: c if c >= v else nan)
            same(y.keep_x('>=', v), vac(w, []), 'keep_x')
            same(y.keep_x('>=', v, False), w, 'keep_x')


KINDS_OF_INT = axkinds.meth('vacuum') + [
    ('cut_missing', lambda y, a, I: y.cut_missing(0.5, a)),
    ('cut_missing, all', lambda y, a, I: y.cut_missing(I(1), a)),
    ('push', lambda y, a, I: y.push(I(1), a)),
    ('vacuum, list of axes', lambda y, a, I: y.vacuum([a]))]

FAMILIES = [
    Family('marker', mark_cases, mark_run, 'ismissing, missing_marker, nx'),
    Family('nans', nans_cases, nans_run),
    Family('cutting', cut_cases, cut_run, 'vacuum, cut_missing'),
    Family('keep_x', keep_cases, keep_run),
    Family('push', push_cases, push_run),
    Family('push infinite', inf_cases, inf_run),
    Family('nan_replace', rep_cases, rep_run),
    Family('sizes', size_cases, size_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'every assignment of up to 5 values to cells of shapes up '
                   'to 4 cells (marker); all missing/finite patterns of every '
                   'shape up to 4x4/3d/4d with <= 8 cells, all axes, all axis '
                   'tuples, 12 fractions, all windows (1d: <= 10 cells); '
                   'sizes up to 1025',
          'thorough': 'patterns of up to 12 cells (1d push: 13)'}
ASSUMPTIONS = ['where the share of missing cells equals the fraction only up '
               'to rounding of the fraction either answer is accepted',
               'a larry that cut_missing empties is larry([]), as the code '
               'documents', 'infinite cells count as missing in vacuum, '
               'cut_missing and push, as they always did']
RULE = 'cells compared one by one'
