"""Element types of every width, shared by several modules.

What an operation answers may not depend on how wide the integers or floats
are, as long as the values fit.  'num' operations compute new values: the
answer is that of the same operation on 64 bit data, which the other families
compare with the definition.  'keep' operations move values: what they do to
the numbers 0..n-1 says where every value has to end up, and the extremes of
the type must arrive there unchanged, in the same type.
"""
import numpy as np
from la import larry
from core import Fail, check
from gen import mkm
from model import prod, veq

INTS = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'u8']
FLOATS = ['f2', 'f4']
OTHER = ['c8', 'f8', 'i8', 'b1', 'S1', 'S7', 'U3', 'O', '>i4', '>f8', 'M8[D]',
         'V3']
RTOL = {'f2': 4e-3, 'f4': 1e-5}
VIALOG = ['geometric_mean']     # NumPy takes logs of int8 in half precision
BASE = [[3, 1, 2, 5, 4, 4, 7, 6, 9, 8, 1, 0], [0, 0, 5, 5, 5, 2],
        [1, 2, 3, 4, 5, 6, 7], [5, 1], [9], [100, 120, 127, 3]]
SHAPES = [(1,), (2,), (5,), (2, 3), (3, 2), (1, 4), (2, 2, 3), (2, 3, 2, 2)]


def num_cases(tier):
    for s in SHAPES:
        for t in INTS + FLOATS:
            for k in range(len(BASE)):
                if k == len(BASE) - 1 and t in FLOATS:
                    continue        # (squares do not fit in half precision)
                for lay in 'CF':
                    yield s, t, k, lay


def lar(s, x, lk='s'):
    return larry(x, [list(l) for l in mkm(s, lk).label])


def call(f, y):
    try:
        return f(y), None
    except Exception as e:
        return None, type(e)


def parts(r):
    if isinstance(r, larry):
        return r.label, r.x
    if isinstance(r, (tuple, list)):
        return None, np.array([[np.nan if z is None else z for z in v]
                               if isinstance(v, (list, tuple, np.ndarray))
                               else v for v in r], float)
    return None, np.asarray(r)


def num_run(ctx, case, ops):
    s, t, k, lay = case
    n = prod(s)
    vals = [BASE[k][i % len(BASE[k])] for i in range(n)]
    x = np.array(vals, 'f8' if t in FLOATS else 'i8').reshape(s)
    y0 = lar(s, x)
    y1 = lar(s, np.asarray(x.astype(t), order=lay))
    ctx.state(case)
    for what, f in ops:
        if what[-4:] == 'prod' and (t == 'f2' or k == len(BASE) - 1):
            continue                # does not fit
        for ax in [None] + list(range(-len(s), len(s))):
            want, e0 = call(lambda y: f(y, ax), y0)
            got, e1 = call(lambda y: f(y, ax), y1)
            txt = '%s along %r of %r as %s' % (what, ax, x.tolist(), t)
            check(e0 == e1, lambda: '%s: %r, 64 bit: %r' % (txt, e1, e0))
            ctx.step()
            if e0:
                continue
            gl, gx = parts(got)
            wl, wx = parts(want)
            check(gl == wl and gx.shape == wx.shape, lambda: '%s:\n got  %r %r'
                  '\n want %r %r' % (txt, gl, gx.shape, wl, wx.shape))
            tol = max(RTOL.get(t, 1e-9), RTOL.get(str(np.asarray(gx).dtype)
                                                  .replace('float16', 'f2').
                                                  replace('float32', 'f4'), 0))
            if what in VIALOG:
                tol = {'i1': 4e-3, 'u1': 4e-3, 'f2': 4e-3}.get(t, 1e-5)
            scale = max([1.0] + [abs(float(v)) for v in wx.ravel().tolist()
                                 if v == v and abs(v) != np.inf])
            for g, w in zip(gx.ravel().tolist(), wx.ravel().tolist()):
                if not veq(g, w, 0, tol * scale):
                    raise Fail('%s:\n got  %r\n want %r' % (txt, gx.tolist(),
                                                           wx.tolist()))
        ctx.step()


def fill(t, n):
    """n values of the type, its extremes among them"""
    dt = np.dtype(t)
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        pool = [i.max, i.min, 1, i.max - 1, 2, i.min + 1, 3, i.max // 2]
    elif dt.kind == 'f':
        i = np.finfo(dt)
        pool = [float(i.max), -0.0, np.nan, float(i.tiny), np.inf, -np.inf,
                1.5, float(i.min)]
    elif dt.kind == 'c':
        pool = [1j, 2 - 1j, complex(np.nan, 1), -0.0, 3]
    elif dt.kind == 'b':
        pool = [True, False, False]
    elif dt.kind == 'O':
        pool = ['o', None, (1, 2), 2.5, 3, 'o']
    elif dt.kind in 'MV':
        return np.arange(n, dtype='i8').astype(t) if dt.kind == 'M' else \
            np.array(['%03d' % i for i in range(n)], 'S3').view(t)
    else:
        pool = ['a', '', 'zzz', ' b', 'B', '7'] if dt.itemsize > 1 else \
            ['a', 'b', '', ' ']
    x = np.empty(n, dt)
    for i in range(n):
        x[i] = pool[i % len(pool)]
    return x


def keep_cases(tier):
    for s in SHAPES + [(0,), (2, 0), (12,)]:
        for t in INTS + FLOATS + OTHER:
            for lay in 'CF':
                yield s, t, lay


def raw(x):
    return [x[i:i + 1].tostring() for i in range(x.size)] \
        if x.dtype.kind != 'O' else [(type(v), repr(v)) for v in x]


def keep_run(ctx, case, ops):
    s, t, lay = case
    n = prod(s)
    pos = np.arange(n).reshape(s)
    x = fill(t, n)
    ref = raw(x)
    y0 = lar(s, pos)
    ctx.state(case)
    for what, f in ops:
        for ax in range(len(s)):
            want, e0 = call(lambda y: f(y, ax), y0)
            y1 = lar(s, np.array(x.reshape(s), order=lay))
            got, e1 = call(lambda y: f(y, ax), y1)
            txt = '%s along %r of %s%r' % (what, ax, t, s)
            check(e0 == e1, lambda: '%s: %r, 64 bit: %r' % (txt, e1, e0))
            ctx.step()
            check(raw(y1.x.ravel()) == ref, txt + ': the operand changed')
            if e0 or not isinstance(want, larry):
                if e0 is None:      # a single cell
                    g = np.empty(1, x.dtype)
                    g[0] = got
                    check(raw(g) == [ref[int(want)]], lambda: '%s: %r' %
                          (txt, got))
                continue
            check(got.label == want.label and got.x.shape == want.x.shape,
                  lambda: '%s:\n got  %r\n want %r' % (txt, got.label,
                                                      want.label))
            if not want.x.size:
                continue
            check(got.x.dtype == x.dtype, lambda: '%s: dtype %s' %
                  (txt, got.x.dtype))
            w = [ref[i] for i in want.x.ravel().tolist()]
            check(raw(got.x.ravel()) == w, lambda: '%s:\n got  %r\n cells of '
                  'the input wanted %r' % (txt, got.x.tolist(),
                                           want.x.tolist()))


def meth(*names):
    """Methods that take only an axis"""
    return [(n, (lambda n: lambda y, ax: getattr(y, n)(ax))(n))
            for n in names]


def plain(*names):
    """Methods without arguments"""
    return [(n, (lambda n: lambda y, ax: getattr(y, n)())(n)) for n in names]


def sl(ax, i):
    return (slice(None),) * ax + (i,)


# what HDF5 can hold
STORED = INTS + FLOATS + ['c8', 'c16', 'f8', 'i8', 'b1', 'S1', 'S7', '>i4',
                          '>f8', '>u2', 'V3']


def stored_cases(tier):
    for s in SHAPES + [(0,), (2, 0), (0, 3), (1, 0, 2), (12,)]:
        for t in STORED:
            for lay in 'CF':
                yield s, t, lay


def stored(case):
    s, t, lay = case
    return lar(s, np.array(fill(t, prod(s)).reshape(s), order=lay), 'i')


def exactly(got, y, what):
    """The same larry: labels, shape, dtype, every bit"""
    check(type(got) is larry and got.label == y.label and
          got.x.shape == y.x.shape, lambda: '%s: %r' % (what, got))
    check(got.x.dtype == y.x.dtype, lambda: '%s: dtype %s, not %s' %
          (what, got.x.dtype, y.x.dtype))
    check(raw(got.x.ravel()) == raw(y.x.ravel()), lambda:
          '%s:\n got  %r\n want %r' % (what, got.x.tolist(), y.x.tolist()))


# two larrys ---------------------------------------------------------------

NUMERIC = INTS + FLOATS + ['i8', 'f8', 'c8', 'b1', '>i4']
LABS = {'same': ['b', 'a', 'c'], 'reversed': ['c', 'a', 'b'],
        'shifted': ['d', 'b', 'c'], 'part': ['c', 'b'], 'apart': ['x', 'y']}


def pair_cases(tier):
    for t1 in NUMERIC:
        for t2 in NUMERIC:
            for rel in sorted(LABS):
                for nd in (1, 2):
                    yield t1, t2, rel, nd
    for t in ('S7', 'O'):
        for rel in sorted(LABS):
            for nd in (1, 2):
                yield t, t, rel, nd


def pair(case):
    """Two larrys; where every value of theirs is, by label"""
    t1, t2, rel, nd = case
    out = []
    for t, l, k in ((t1, LABS['same'], 0), (t2, LABS[rel], 1)):
        label = [list(l), ['p', 'q']][:nd]
        s = tuple([len(z) for z in label])
        x = fill(t, prod(s) + k)[k:].reshape(s)
        out.append(larry(x, label))
    return out


def joined(y, p, how):
    """Labels of axis 0 after the join"""
    a, b = y.label[0], p.label[0]
    if a == b:
        return list(a)
    if how == 'inner':
        return sorted(set(a) & set(b))
    if how == 'outer':
        return sorted(set(a) | set(b))
    return list(a if how == 'left' else b)


def taken(y, lab):
    """The array of y under these labels of axis 0, all of them present"""
    return y.x[np.array([y.label[0].index(z) for z in lab], int)]


def alike(got, x, label, what, dtype=True):
    check(type(got) is larry and got.label == label and
          got.x.shape == x.shape, lambda: '%s: %r, want labels %r' %
          (what, got, label))
    if dtype:
        check(got.x.dtype == x.dtype, lambda: '%s: dtype %s, not %s' %
              (what, got.x.dtype, x.dtype))
    for g, w in zip(got.x.ravel().tolist(), x.ravel().tolist()):
        if not (g == w or g != g and w != w):
            raise Fail('%s:\n got  %r\n want %r' % (what, got.x.tolist(),
                                                   x.tolist()))


def spread(y, lab):
    """The array of y under these labels, missing ones marked"""
    have = [z for z in lab if z in y.label[0]]
    if len(have) == len(lab):
        return taken(y, lab)
    dt = y.x.dtype
    if dt.kind in 'iub':
        dt = np.dtype('f8')
    x = np.empty((len(lab),) + y.x.shape[1:], dt)
    x[...] = {'S': '', 'O': None}.get(dt.kind, np.nan)
    for i, z in enumerate(lab):
        if z in have:
            x[i] = y.x[y.label[0].index(z)]
    return x
