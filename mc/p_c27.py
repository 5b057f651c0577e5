"""C27: elementwise functions act on every cell alone."""
import itertools
import math
import cmath
import numpy as np
from la import larry
import widths
from core import Family, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, inf, prod, \
    indices, veq, isnan, flat, wellformed
from gen import mkm, labs, shapes, patterns

NPERR = np.seterr(all='ignore')


def _safe(f, dom=nan):
    def g(v):
        if v != v:
            return nan
        try:
            return f(v)
        except OverflowError:
            return inf
        except ValueError:
            return dom
    return g


def log(v):
    if v != v:
        return nan
    return -inf if v == 0 else (nan if v < 0 else
                                (inf if v == inf else math.log(v)))


def exp(v):
    return nan if v != v else (inf if v == inf else
                               (0.0 if v == -inf else _safe(math.exp)(v)))


def sqrt(v):
    return nan if v != v or v < 0 else (inf if v == inf else math.sqrt(v))


def sign(v):
    return nan if v != v else (v > 0) - (v < 0)


def fin(v):
    return v == v and v not in (inf, -inf)


# name -> (function of a cell, result dtype of f, g, i, j, b)
FUN = {
    'log': (log, 'fgffx'), 'exp': (exp, 'fgffx'), 'sqrt': (sqrt, 'fgffx'),
    'sign': (sign, 'fgij '), 'abs': (lambda v: abs(v), 'fgijb'),
    '__abs__': (lambda v: abs(v), 'fgijb'),
    '__neg__': (lambda v: -v, 'fgij '), '__pos__': (lambda v: v, 'fgijb'),
    'isnan': (lambda v: v != v, 'bbbbb'),
    'isfinite': (fin, 'bbbbb'),
    'isinf': (lambda v: v in (inf, -inf), 'bbbbb'),
}
CAST = {'f': float, 'g': float, 'i': int, 'j': int, 'b': bool, 'x': float}

ALPH = {
    'f': [nan, inf, -inf, 0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -3.0, 1e308, 5e-324,
          -1e-300, 709.0, 710.0, -745.0, 4.0, 1.0 / 3],
    'g': [nan, inf, -inf, 0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -3.0, 64.0],
    'i': [0, 1, -1, 2, -7, 100, 2 ** 40, -2 ** 40],
    'j': [0, 1, -1, 2, -7, 100, 2 ** 30],
    'b': [True, False],
}
DTS = 'fgijb'


def tol(dt, kind):
    if kind == 'x':
        return dict(rtol=3e-3, atol=3e-3)
    if dt == 'g':
        return dict(rtol=3e-6, atol=1e-30)
    return dict(rtol=1e-13, atol=0.0)


def run_one(y, m, dt, name, was, what):
    f, kinds = FUN[name]
    kind = kinds[DTS.index(dt)]
    if kind == ' ':
        return
    want = M(m.label, [v if v != v else CAST[kind](v)
                       for v in map(f, m.cells)],
             'f' if kind == 'x' else kind)
    got = getattr(y, name)()
    same(got, want, '%s of %s' % (name, what),
         dtype='exact' if kind != 'x' else False, **tol(dt, kind))
    if name in ('__neg__', '__pos__') and dt in 'fg':
        for g, w in zip(got.x.ravel().tolist(), map(f, m.cells)):
            check(w != w or np.signbit(g) == np.signbit(w), lambda:
                  '%s of %s: the sign of a zero' % (name, what))
    for l, k in zip(got.label, y.label):
        check(l is not k, what + ': shares a label')
    check(not np.may_share_memory(got.x, y.x) or not got.size,
          lambda: '%s of %s shares memory' % (name, what))
    if got.size:
        got.x[...] = 1
        got.label[0][0] = 'changed'
    same_snap(snap(y), was, '%s changed the larry' % name)


def pow_(q):
    def f(v):
        try:
            return v ** q
        except OverflowError:
            return inf if v > 0 or q % 2 == 0 else -inf
        except ZeroDivisionError:
            return inf
        except ValueError:
            return nan
    return f


POWS = [0, 1, 2, 3, 0.5, -1, -2, 1.0, 2.0, -0.5, np.float64(2), np.int64(3)]


def powers(y, m, dt, was, what):
    for q in POWS:
        if dt in 'ijb' and q < 0 and int(q) == q and isinstance(
                q, (int, np.integer)):
            continue
        isint = dt in 'ijb' and isinstance(q, (int, np.integer))
        cells = []
        for v in m.cells:
            if not isint:
                v = float(v)
            r = pow_(int(q) if isint else float(q))(v) if v == v or q == 0 \
                else nan
            if v != v and q == 0:
                r = 1.0
            if isinstance(r, complex):
                r = nan
            if v in (0, -inf, inf) and q < 0:
                # signs of zero and infinity
                r = None
            if v == -inf and not isint and float(q) != int(q):
                r = None
            cells.append(r)
        if isint and [c for c in cells if abs(c) >= 2 ** (31 if dt == 'j'
                                                          else 62)]:
            continue
        for k in (0, 1):
            got = y.power(q) if k == 0 else y ** q
            wellformed(got, what)
            check(got.label == m.label and got.x.shape == m.shape, what)
            dtype = np.power(y.x[:0], q).dtype
            check(got.x.dtype == dtype, lambda: '%s to the power of %r is of '
                  '%s, not of %s' % (what, q, got.x.dtype, dtype))
            gc = flat(got.x)
            for g, c, v in zip(gc, cells, m.cells):
                if c is None:
                    c = float(np.power(np.float64(v), np.float64(q)))
                if dt == 'g' and abs(c) > 3e38:
                    c = math.copysign(inf, c)
                check(veq(g, c, 1e-5 if dt == 'g' else 1e-12,
                          1e-38 if dt == 'g' else 0),
                      lambda: '%r to the power of %r is %r, want %r' %
                      (v, q, g, c))
            if got.size:
                got.x[...] = 5
                got.label[0][0] = 'changed'
        same_snap(snap(y), was, 'power changed the larry')


LIMS = [-inf, -2, -1, 0, 0.5, 1, 2, 2.5, inf, np.float64(1.5), np.int64(1)]


def clips(y, m, dt, was, what):
    for lo, hi in itertools.product(LIMS, LIMS):
        if lo > hi:
            raises(lambda: y.clip(lo, hi), 'clip(%r, %r)' % (lo, hi))
            continue
        cells = [lo if v < lo else (hi if v > hi else v) for v in m.cells]
        got = y.clip(lo, hi)
        want = M(m.label, [float(c) for c in cells], 'f')
        same(got, want, 'clip(%r, %r) of %s' % (lo, hi, what), dtype=False)
        if dt in 'fg':
            check(got.x.dtype == y.x.dtype, 'clip changed the dtype')
        if got.size:
            check(not np.may_share_memory(got.x, y.x), 'clip shares memory')
            got.x[...] = 1
            got.label[-1][0] = 'changed'
    same_snap(snap(y), was, 'clip changed the larry')


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
COPS = [('==', lambda a, b: a == b), ('!=', lambda a, b: a != b),
        ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b),
        ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)]
FLIP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
CVAL = [0, 1, -1, 0.5, 2.5, nan, inf, -inf, True, np.float64(1), np.int64(0)]


def compares(y, m, dt, was, what, values=CVAL):
    for c in values:
        for op, f in COPS:
            want = M(m.label, [bool(f(v, c)) for v in m.cells], 'b')
            got = f(y, c)
            same(got, want, '%s %s %r' % (what, op, c))
            if got.size:
                got.x[...] = True
                got.label[0][0] = 'changed'
            if type(c) in (int, float, bool, str):
                want = M(m.label, [bool(f(c, v)) for v in m.cells], 'b')
                same(f(c, y), want, '%r %s %s' % (c, op, what))
    same_snap(snap(y), was, 'a comparison changed the larry')


def cell_cases(tier):
    for dt in DTS:
        n = len(ALPH[dt])
        for k in (1, 2) if tier == 'quick' or dt == 'f' else (1, 2, 3):
            for pos in itertools.product(range(n), repeat=k):
                yield dt, pos


def cell_run(ctx, case):
    """Every pair of values next to each other."""
    dt, pos = case
    cells = [ALPH[dt][i] for i in pos]
    m = mkm((len(cells),), 's', dt, cells=cells)
    ctx.state(case)
    y = mk(m)
    was = snap(y)
    for name in sorted(FUN):
        run_one(y, m, dt, name, was, repr(m))
        ctx.step(1)
    powers(y, m, dt, was, repr(m))
    clips(y, m, dt, was, repr(m))
    compares(y, m, dt, was, repr(m))
    if dt == 'b':
        want = M(m.label, [not v for v in cells], 'b')
        for got in (y.invert(), ~y):
            same(got, want, 'invert of %r' % m)
            got.x[...] = True
            got.label[0][0] = 'changed'
        same_snap(snap(y), was, 'invert changed the larry')
    else:
        raises(lambda: y.invert(), 'invert of ' + dt)
        raises(lambda: ~y, 'invert of ' + dt)
    ctx.step(len(POWS) * 2 + len(LIMS) ** 2 + 12 * len(CVAL))


def shape_cases(tier):
    for s in shapes([5, 3, 2, 2] if tier == 'quick' else [6, 4, 3, 2]):
        for dt in DTS:
            for lay in 'CFRN':
                if lay != 'C' and prod(s) < 2:
                    continue
                for lk in 'sm' if len(s) < 3 else 's':
                    if lk == 'm' and max(s) > 5:
                        continue
                    yield s, dt, lay, lk


def shape_run(ctx, case):
    s, dt, lay, lk = case
    m = mkm(s, lk, dt)
    A = ALPH[dt]
    m.cells = [A[(3 * i + 1) % len(A)] for i in range(prod(s))]
    ctx.state(case)
    y = mk(m, lay)
    was = snap(y)
    what = '%r layout %s' % (m, lay)
    for name in sorted(FUN):
        run_one(y, m, dt, name, was, what)
        ctx.step(1)
    powers(y, m, dt, was, what)
    clips(y, m, dt, was, what)
    compares(y, m, dt, was, what)
    if dt == 'b':
        same(~y, M(m.label, [not v for v in m.cells], 'b'), 'invert')
    ctx.step(len(POWS) * 2 + len(LIMS) ** 2 + 12 * len(CVAL))
    ctx.outcome(repr(m))


def other_cases(tier):
    for s in shapes([4, 2, 2] if tier == 'quick' else [5, 3, 2]):
        for dt in 'SOc':
            for lay in 'CFRN':
                yield s, dt, lay


def other_run(ctx, case):
    """str, object and complex data."""
    s, dt, lay = case
    m = mkm(s, 's', dt)
    if dt == 'O':
        m.cells = [[2.5, -3, 0, 7, -1.5, 4][i % 6] for i in range(prod(s))]
    if dt == 'c':
        A = [1 + 2j, -3j, 4 + 0j, -0.5 + 0j, 2 - 2j, complex(0, nan),
             complex(inf, 1)]
        m.cells = [A[i % 7] for i in range(prod(s))]
    ctx.state(case)
    y = mk(m, lay)
    was = snap(y)
    n = prod(s)
    what = repr(m)
    raises(lambda: y.invert(), 'invert of ' + dt)
    raises(lambda: ~y, 'invert of ' + dt)
    same(+y, m, '+' + what)
    if dt == 'S':
        for name in sorted(FUN):
            if name != '__pos__':
                raises(lambda: getattr(y, name)(), '%s of str' % name)
                ctx.step(1)
        raises(lambda: y.power(2), 'power of str')
        raises(lambda: y ** 2, 'power of str')
        raises(lambda: y.clip(0, 1), 'clip of str')
        raises(lambda: y.clip('a', 'b'), 'clip of str')
        compares(y, m, dt, was, what, ['v1', '', 'v2', 'zz', 'v'])
    elif dt == 'O':
        for name in ('isnan', 'isfinite', 'isinf') + (
                ('log', 'exp', 'sqrt') if n else ()):
            raises(lambda: getattr(y, name)(), '%s of object' % name)
        same(-y, m.map(lambda v: -v), 'negation of ' + what)
        same(y.abs(), m.map(abs), 'abs of ' + what)
        same(y.power(2), m.map(lambda v: v ** 2), 'power of ' + what)
        compares(y, m, dt, was, what, [0, 2.5, -3, 7])
    else:
        same(-y, m.map(lambda v: -v), 'negation of ' + what)
        same(y.isnan(), m.map(lambda v: v != v, 'b'), 'isnan of ' + what)
        same(y.isfinite(), m.map(lambda v: fin(v.real) and fin(v.imag), 'b'),
             'isfinite of ' + what)
        same(y.isinf(), m.map(lambda v: v.real in (inf, -inf) or
                              v.imag in (inf, -inf), 'b'), 'isinf')
        ok = [v == v and fin(v.real) for v in m.cells]
        for name, f in (('log', cmath.log), ('exp', cmath.exp),
                        ('sqrt', cmath.sqrt), ('abs', abs),
                        ('__abs__', abs)):
            got = getattr(y, name)()
            wellformed(got, name)
            check(got.label == m.label and got.x.shape == m.shape, name)
            for g, v, k in zip(flat(got.x), m.cells, ok):
                check(not k or veq(g, complex(f(v)), 1e-12), lambda:
                      '%s of %r is %r' % (name, v, g))
            ctx.step(1)
        for c in (1 + 2j, 4, 4 + 0j):
            same(y == c, m.map(lambda v: v == c, 'b'), '==')
            same(y != c, m.map(lambda v: v != c, 'b'), '!=')
    same_snap(snap(y), was, 'the larry changed')


def bad_cases(tier):
    for s in [(1,), (2,), (2, 2), (0,), (1, 2), (2, 1, 2)]:
        for dt in 'fijbc':
            yield s, dt


def bad_run(ctx, case):
    s, dt = case
    y = mk(mkm(s, 's', dt))
    was = snap(y)
    ctx.state(case)
    # a result of another shape cannot carry the labels
    for q in (np.ones((2,) + s), np.ones((3,) * len(s)), np.ones((3,) + s),
              np.ones(s + (2,)), [[1, 2]] * 5, 'a', None, {}):
        try:
            got = y.power(q)
        except Exception:
            pass
        else:
            wellformed(got, 'power(%r) of %r' % (q, was))
        ctx.step(1)
    for lo, hi in ((2, 1), (0.5, 0.4), (inf, -inf), (1, -1), (1e-9, 0)):
        e = raises(lambda: y.clip(lo, hi), 'clip(%r, %r)' % (lo, hi))
        check(isinstance(e, ValueError), lambda: 'clip: %r' % e)
    for other in (None, {}, object(), set([1])):
        for op, f in COPS:
            raises(lambda: f(y, other), 'comparison with %r' % (other,))
    same_snap(snap(y), was, 'the larry changed')


SIZES = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255,
         256, 257, 500, 1000, 1023, 1024, 1025, 4097]


def size_cases(tier):
    for n in SIZES:
        for dt in DTS:
            for lay in 'CN':
                yield n, dt, lay


def size_run(ctx, case):
    n, dt, lay = case
    s = (n,) if n % 3 else (3, n // 3)
    A = ALPH[dt]
    m = mkm(s, 's', dt)
    m.cells = [A[(i * 7 + i // 5) % len(A)] for i in range(prod(s))]
    ctx.state(case)
    y = mk(m, lay)
    was = snap(y)
    for name in sorted(FUN):
        run_one(y, m, dt, name, was, 'size %d' % n)
    cells = [0 if v < 0 else (2 if v > 2 else v) for v in m.cells]
    same(y.clip(0, 2), M(m.label, cells, 'f'), 'clip of size %d' % n,
         dtype=False)
    for op, f in COPS:
        same(f(y, 1), M(m.label, [f(v, 1) for v in m.cells], 'b'), op)
    same(y ** 2.0, M(m.label, [nan if v != v else
                               (inf if abs(v) > 1e200 else float(v) ** 2)
                               for v in m.cells], 'f'), 'power',
         rtol=1e-5 if dt == 'g' else 1e-12, dtype=False)
    ctx.step(20)


# element types of every width
WIDE = widths.plain(
    'log', 'sqrt', 'sign', 'isnan', 'isfinite', 'isinf', 'abs',
    '__abs__', '__pos__') + [
    ('clip', lambda y, a: y.clip(2, 5)),
    ('exp', lambda y, a: y.clip(0, 9).exp()),
    ('power', lambda y, a: y.clip(0, 9).power(2))]


def wide_run(ctx, case):
    widths.num_run(ctx, case, WIDE)


FAMILIES = [
    Family('cells', cell_cases, cell_run, 'all values and pairs of values'),
    Family('shapes', shape_cases, shape_run, 'shapes, layouts, labels'),
    Family('other dtypes', other_cases, other_run),
    Family('refusals', bad_cases, bad_run),
    Family('sizes', size_cases, size_run),
    Family('element types', widths.num_cases, wide_run)]
BOUNDS = {'quick': 'all pairs of up to 18 special values per dtype under 11 '
                   'functions, 12 powers, 121 pairs of limits, 66 '
                   'comparisons; shapes up to 5, 3x3, 2x2x2, 2x2x2x2 in 4 '
                   'layouts; sizes up to 4097',
          'thorough': 'triples of values of float32, int, bool; shapes up to '
                      '6, 4x4, 3x3x3'}
ASSUMPTIONS = ['integers are not raised to negative integer powers, bools not '
               'negated (NumPy semantics)', 'limits of clip are numbers']
RULE = 'per cell against the function of Python, 1e-13 (float32 3e-6)'
