"""C25: assert_larry_equal passes exactly on equal larrys."""
import datetime
import itertools
import numpy as np
import la
from la import larry
from la.util.testing import assert_larry_equal, assert_iscopy, assert_isview
import la.util.testing as T
from core import Family, check
from model import M, mk, arr, snap, same_snap, raises, nan, inf, veq, DT
from gen import mkm, labs, shapes, vals

D = datetime.date


def passes(f):
    """Does the assertion pass? Any other error is not an answer."""
    try:
        r = f()
    except AssertionError as e:
        check(str(e), 'the failure says nothing')
        return False
    check(r is None, lambda: 'it returns %r' % (r,))
    return True


# pairs ------------------------------------------------------------------------------

NEAR, FAR = 1e-14, 3e-13


def close(a, b):
    """Equal data as documented; None where it is a matter of rounding."""
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    try:
        d = abs(a - b)
    except TypeError:
        return False
    if d != d or d == inf:
        return False
    return d < 5e-14


def equal(m1, m2, dtype):
    if m1.label != m2.label:
        return False
    if m1.shape != m2.shape:
        return False
    if (m1.dt == 'S') != (m2.dt == 'S'):
        return m1.cells == [] and not dtype
    if dtype and (m1.dt != m2.dt):
        return False
    inexact = m1.dt in 'fgc' or m2.dt in 'fgc'
    for a, b in zip(m1.cells, m2.cells):
        if not (close(a, b) if inexact else a == b):
            return False
    return True


def variants(s, lk, dt):
    """A larry and everything that differs from it in one respect."""
    m = mkm(s, lk, dt)
    nd = len(s)
    out = [m, m.copy()]
    for ax in range(nd):
        for i in range(s[ax]):
            for new in ('other', 77, m.label[ax][i - 1], str(m.label[ax][i]),
                        None, (1, 2)):
                w = m.copy()
                w.label[ax][i] = new
                if len(set(w.label[ax])) == s[ax]:
                    out.append(w)
        if s[ax] > 1:
            for i, j in itertools.combinations(range(s[ax]), 2):
                ix = [range(k) for k in s]
                ix[ax][i], ix[ax][j] = j, i
                w = m.select(ix)
                out.append(w)               # both swapped
                out.append(M(w.label, m.cells, m.dt))
                out.append(M(m.label, w.cells, m.dt))
        for k in (0, s[ax] - 1):
            ix = [range(j) for j in s]
            ix[ax] = ix[ax][:k]
            out.append(m.select(ix))
    for i, v in enumerate(m.cells):
        news = {'f': lambda: [v + 1, v + 1e-6, v + FAR, v + NEAR, nan, inf,
                              -inf, -v],
                'g': lambda: [v + 1, nan, -v], 'i': lambda: [v + 1, -v],
                'j': lambda: [v + 1], 'b': lambda: [not v],
                'S': lambda: ['zz', v + 'x', ''],
                'O': lambda: ['zz', None, 3],
                'c': lambda: [v + 1, v + 1j, nan]}[dt]()
        for new in news:
            w = m.copy()
            w.cells[i] = complex(new) if dt == 'c' else new
            out.append(w)
    for d2 in 'fgijbcO':
        if d2 != dt and dt not in 'SOc' and not (dt == 'c' or d2 == 'b'):
            w = m.copy()
            w.dt = d2
            conv = {'f': float, 'g': lambda v: float(np.float32(v)), 'i': int, 'j': int,
                    'c': complex, 'O': lambda v: v}[d2]
            w.cells = [conv(v) for v in w.cells]
            out.append(w)
    if nd > 1:
        out.append(m.permute(range(nd)[::-1]))
        out.append(M(m.permute(range(nd)[::-1]).label[:1] +
                     [[l] for l in 'pqr'[:0]], [], dt)
                   if s[-1] == 0 and nd == 1 else m.copy())
    out.append(M([l for l in m.label] + [['new']], m.cells, dt))
    seen, res = {}, []
    for w in out:
        k = repr((w.key(), [[type(l) for l in ll] for ll in w.label]))
        seen[k] = seen.get(k, 0) + 1
        if seen[k] < 3:
            res.append(w)
    return res


def pair_cases(tier):
    for s in [(1,), (2,), (3,), (1, 1), (2, 1), (2, 2), (0,), (0, 2), (2, 0),
              (1, 2, 1)] + ([(4,), (2, 3), (2, 2, 2)] if tier != 'quick'
                            else []):
        for dt in 'fgijbSOc':
            for lk in 'sidfm':
                if lk not in 'si' and dt not in 'fS':
                    continue
                yield s, lk, dt


def pair_run(ctx, case):
    s, lk, dt = case
    vs = variants(s, lk, dt)
    ys = [mk(m, 'CFRN'[i % 4]) for i, m in enumerate(vs)]
    was = [snap(y) for y in ys]
    step = 1 + len(vs) // (14 if ctx.tier == 'quick' else 40)
    for i, j in itertools.product(range(len(vs)), repeat=2):
        if i % step and j % step and i != j and i > 1 and j > 1:
            continue
        m1, m2 = vs[i], vs[j]
        for dtype in (None, True, False):
            want = equal(m1, m2, dtype is not False)
            kw = {} if dtype is None else {'dtype': dtype}
            got = passes(lambda: assert_larry_equal(ys[i], ys[j], 'text',
                                                    **kw))
            check(got == want, lambda: 'assert_larry_equal %s on %r and %r '
                  '(dtype=%r)' % ('passes' if got else 'fails', m1, m2,
                                  dtype))
            ctx.step(1)
        ctx.outcome((want, i == j))
    for y, w in zip(ys, was):
        same_snap(snap(y), w, 'assert_larry_equal changed its argument')
        ctx.state(w.key())
    # one larry is never equal to something that is not
    for y in ys[:2]:
        for other in (1, 1.0, 'a', None, nan, np.float64(1), True, 'label'):
            for a, b in ((y, other), (other, y)):
                check(not passes(lambda: assert_larry_equal(a, b)),
                      'a larry equals %r' % (other,))
                ctx.step(1)
        raises(lambda: assert_larry_equal(y, y, dtype='yes'), 'dtype=yes')
        raises(lambda: assert_larry_equal(y, y, iscopy=2), 'iscopy=2')
        raises(lambda: assert_larry_equal(y, y, msg=1), 'msg=1')
        raises(lambda: assert_larry_equal(y.x, y), 'array and larry')
        raises(lambda: assert_larry_equal(y, y.x), 'larry and array')


# dtypes ------------------------------------------------------------------------------

DTYPES = ['f8', '>f8', 'f4', '>f4', 'f2', 'g', 'i8', '>i8', 'i4', '>i4', 'i2',
          'i1', 'u1', 'u2', 'u4', 'u8', '>u8', 'b1', 'c8', 'c16', '>c16', 'O']
TEXT = ['S1', 'S2', 'S9']


def dtype_cases(tier):
    for s in ((1,), (3,), (2, 2)):
        for d in (DTYPES, TEXT):
            for a, b in itertools.product(d, repeat=2):
                yield s, a, b


def dtype_run(ctx, case):
    s, a, b = case
    ctx.state(case)
    x, y = np.ones(s, 'i1').astype(a), np.ones(s, 'i1').astype(b)
    l1, l2 = la.larry(x), la.larry(y)
    eq = np.dtype(a) == np.dtype(b)
    for dtype in (None, True, False):
        kw = {} if dtype is None else {'dtype': dtype}
        want = eq or dtype is False
        check(passes(lambda: assert_larry_equal(l1, l2, **kw)) == want,
              lambda: 'larrys of dtype %s and %s %s (dtype=%r)' %
              (a, b, 'differ' if want else 'are equal', dtype))
        ctx.step()


# scalars -------------------------------------------------------------------------------

SCALARS = [0, 1, 2, -1, 1.0, 2.0, 1 + 1e-3, nan, inf, -inf, True, False, 'a',
           'b', '', 'aa', 1j, 1L, 10 ** 30, np.float64(1), np.float64(2.5),
           np.float64(nan), np.float32(1), np.float32(2.5), np.int64(1),
           np.int32(1), np.int64(7), np.bool_(True), np.bool_(False),
           np.string_('a'), u'a', 1 + 1e-12, 1e5]


def scal_cases(tier):
    for i in range(len(SCALARS)):
        yield i,


def scal_run(ctx, case):
    a = SCALARS[case[0]]
    ctx.state(case)
    for b in SCALARS:
        ea = a != a
        eb = b != b
        if ea or eb:
            eq = ea and eb
        else:
            eq = bool(a == b)
            if not eq and not isinstance(a, basestring) and \
                    not isinstance(b, basestring):
                d = abs(a - b)
                if d < 1e-8:
                    eq = True       # almost equal for scalars
        for dtype in (None, True, False):
            kw = {} if dtype is None else {'dtype': dtype}
            want = eq and (dtype is False or type(a) is type(b))
            try:
                got = passes(lambda: assert_larry_equal(a, b, **kw))
            except (TypeError, AttributeError, ValueError):
                # NumPy cannot compare them
                got = False
            check(got == want, lambda: 'assert_larry_equal(%r, %r, dtype=%r) '
                  '%s' % (a, b, dtype, 'passes' if got else 'fails'))
            ctx.step(1)
            ctx.outcome(got)


# copies and views -----------------------------------------------------------------

def rel_cases(tier):
    for s in [(1,), (3,), (2, 2), (1, 2), (2, 1, 2), (2, 3)] + \
            ([(5,), (3, 3), (2, 2, 2, 2)] if tier != 'quick' else []):
        for dt in 'fibSO':
            for lay in 'CFRN':
                yield s, dt, lay


def rel_run(ctx, case):
    s, dt, lay = case
    nd = len(s)
    m = mkm(s, 's', dt)
    ctx.state(case)
    orig = mk(m, lay)
    full = tuple([slice(None)] * nd)
    datas = [('same', orig.x, True), ('view', orig.x[full], True),
             ('copy', orig.x.copy(), False)]
    for name, x, shared in datas:
        for pat in itertools.product((0, 1), repeat=nd):
            lab = [orig.label[ax] if p else list(orig.label[ax])
                   for ax, p in enumerate(pat)]
            act = larry(x, lab)
            des = mk(m)
            isc = not shared and not any(pat)
            isv = shared and all(pat)
            what = 'data %s, labels shared %r of %r' % (name, pat, m)
            for dtype in (True, False):
                check(passes(lambda: assert_larry_equal(
                    act, des, dtype=dtype, original=orig)) == isc,
                    what + ': default is a copy')
                check(passes(lambda: assert_larry_equal(
                    act, des, dtype=dtype, original=orig,
                    iscopy=True)) == isc, what + ': iscopy')
                check(passes(lambda: assert_larry_equal(
                    act, des, dtype=dtype, original=orig,
                    iscopy=False)) == isv, what + ': view')
                ctx.step(3)
            check(passes(lambda: assert_larry_equal(act, des)), what)
            check(passes(lambda: assert_larry_equal(act, des,
                                                    iscopy=False)),
                  what + ': iscopy without original')
            check(passes(lambda: assert_iscopy(act, orig)) == isc, what)
            check(passes(lambda: assert_isview(act, orig)) == isv, what)
            # a different value fails whatever the relation
            bad = mk(m)
            bad.label[0][0] = 'different'
            for c in (True, False):
                check(not passes(lambda: assert_larry_equal(
                    act, bad, original=orig, iscopy=c)), what + ': unequal')
            ctx.outcome((isc, isv))
            if nd > 1:
                # the axes in another order
                ix = range(nd)[::-1]
                tr = larry(act.x.transpose(ix), [act.label[k] for k in ix])
                check(passes(lambda: assert_larry_equal(
                    tr, mk(m.permute(ix)), original=orig)) == isc,
                    what + ': transposed')
            if len(m.cells) > 1:
                # a part of the original
                part = act[tuple([slice(0, max(1, n - 1)) for n in s])]
                sh = np.may_share_memory(part.x, orig.x)
                keep = [a is b for a, b in zip(part.label, orig.label)]
                check(passes(lambda: assert_larry_equal(
                    part, part.copy(), original=orig)) ==
                    (not sh and not any(keep)), what + ': part')
    for other in (1, None, orig.x, 'a'):
        if other is not None:
            raises(lambda: assert_larry_equal(orig, orig, original=other),
                   'original=%r' % (other,))
        raises(lambda: assert_iscopy(orig, other), 'iscopy')
        raises(lambda: assert_iscopy(other, orig), 'iscopy')
        raises(lambda: assert_isview(orig, other), 'isview')
        raises(lambda: assert_isview(other, orig), 'isview')
    same_snap(snap(orig), m, 'the original changed')


# sizes -------------------------------------------------------------------------------

SIZES = [7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 127, 129, 256, 257, 500, 1000,
         1001, 2048]


def size_cases(tier):
    for n in SIZES:
        for dt in 'fiSO':
            yield n, dt


def size_run(ctx, case):
    """One difference anywhere in a long larry."""
    n, dt = case
    ctx.state(case)
    m = mkm((n,), 's', dt)
    if dt == 'f':
        m.cells[n // 2] = nan
    y = mk(m)
    check(passes(lambda: assert_larry_equal(y, mk(m))), 'equal')
    for i in sorted(set([0, 1, 2, 3, n // 3, n // 2, n // 2 + 1, n - 4, n - 3,
                         n - 2, n - 1])):
        w = m.copy()
        w.cells[i] = {'f': 9e9, 'i': -5, 'S': 'zz', 'O': 'zz'}[dt]
        for a, b in ((m, w), (w, m)):
            check(not passes(lambda: assert_larry_equal(mk(a), mk(b))),
                  'value %d of %d differs' % (i, n))
        if dt == 'f' and i != n // 2:
            w = m.copy()
            w.cells[i] = nan
            for a, b in ((m, w), (w, m)):
                check(not passes(lambda: assert_larry_equal(mk(a), mk(b))),
                      'value %d of %d is NaN' % (i, n))
        w = m.copy()
        w.label[0][i] = 'different'
        for a, b in ((m, w), (w, m)):
            check(not passes(lambda: assert_larry_equal(mk(a), mk(b))),
                  'label %d of %d differs' % (i, n))
        ctx.step(6)


FAMILIES = [
    Family('pairs', pair_cases, pair_run, 'all one-difference variants'),
    Family('dtypes', dtype_cases, dtype_run, 'every pair of dtypes'),
    Family('scalars', scal_cases, scal_run),
    Family('copies and views', rel_cases, rel_run,
           'every combination of shared parts'),
    Family('sizes', size_cases, size_run),
]
BOUNDS = {'quick': '10 shapes x 8 dtypes x 5 kinds of labels: all pairs of '
                   'larrys that differ in one label, value, dtype, order or '
                   'shape; all pairs of 33 scalars; every combination of '
                   'shared data and labels; sizes up to 2048',
          'thorough': '13 shapes, 9 shapes for sharing'}
ASSUMPTIONS = ['differences between 5e-14 and 3e-13 are a matter of rounding '
               'and not decided', 'object data holds no NaN']
RULE = 'the assertion passes exactly when the models agree'
