"""C04: operators combine values by label, never by position."""
import datetime
import itertools
import operator
import numpy as np
import la
import widths
from core import Family, Fail, check
from model import (M, mk, arr, snap, same, same_snap, raises, nan, inf, DT,
                   kind, flat, veq, indices)
import gen
from gen import mkm, labs, shapes, vals
import ref
from p_c02 import ordered_subsets
from p_c03 import AX

# name, python operator, elementwise meaning, dtypes of the operands
OPS = [
    ('+', operator.add, lambda a, b: a + b),
    ('-', operator.sub, lambda a, b: a - b),
    ('*', operator.mul, lambda a, b: a * b),
    ('/', operator.div, lambda a, b: a / b),
    ('//', operator.floordiv, lambda a, b: a // b),
    ('truediv', operator.truediv, operator.truediv),
    ('&', operator.and_, np.logical_and),
    ('|', operator.or_, np.logical_or),
    ('==', operator.eq, lambda a, b: a == b),
    ('!=', operator.ne, lambda a, b: a != b),
    ('<', operator.lt, lambda a, b: a < b),
    ('>', operator.gt, lambda a, b: a > b),
    ('<=', operator.le, lambda a, b: a <= b),
    ('>=', operator.ge, lambda a, b: a >= b),
]
CMP = ('==', '!=', '<', '>', '<=', '>=')

# values that tell every operand order and missing-value mistake apart
POOL = {'f': [1.5, nan, -2.0, 0.0, 4.0, 7.5, inf, 3.0, -0.5],
        'g': [1.5, nan, -2.0, 0.0, 4.0, 7.5, 0.25, 3.0],
        'i': [3, -2, 7, 0, 5, 11, -13, 2],
        'b': [True, False, False, True, True],
        'S': ['b', 'a', 'cc', '', 'b'],
        'c': [1 + 2j, -1j, 3, 0]}


def cells(n, dt, start):
    p = POOL[dt]
    return [p[(start + k * (1 + start % 2)) % len(p)] for k in range(n)]


def kindop(res):
    return kind(res.dtype)


def combine(f, m1, m2, c1, c2):
    """Elementwise f over two models already on the same labels."""
    a = arr(c1)
    b = arr(c2)
    r = f(a, b)
    if not isinstance(r, np.ndarray) or r.shape != a.shape:
        return None
    return M(c1.label, flat(r), kindop(r))


def run_pair(ctx, m1, m2, ops, lay='C'):
    c1, c2 = ref.align(m1, m2, ['inner'] * m1.ndim)
    for name, op, f in ops:
        l1, l2 = mk(m1, lay), mk(m2, lay)
        try:
            want = combine(f, m1, m2, c1, c2)
        except TypeError:
            want = None
        ctx.step()
        if want is None:
            raises(lambda: op(l1, l2), '%s of %s and %s' %
                   (name, m1.dt, m2.dt))
        else:
            ctx.outcome(want.key())
            same(op(l1, l2), want, 'larry %s larry' % name,
                 dtype='exact' if want.cells else False)
        same(l1, m1, '%s: left operand changed' % name)
        same(l2, m2, '%s: right operand changed' % name)


U = {'s': ['b', 'a', 'c'], 'i': [2, 0, 1], 'd': labs('d', 3),
     'q': ['2', 2, 10], 'w': ['a', 'A', 'a ']}


def pair_cases(tier):
    for lk in 'sidqw':
        u = U[lk] if tier == 'quick' or lk in 'qw' else (U[lk] + labs(lk, 5)[4:])
        for a in ordered_subsets(u):
            for b in ordered_subsets(u):
                yield (lk, a, b)


def pair_run(ctx, case):
    lk, a, b = case
    for dts in ('ff', 'ii', 'if', 'fi', 'bb', 'SS', 'gf', 'bi', 'Sf', 'fb'):
        if lk != 's' and dts not in ('ff', 'if'):
            continue
        m1 = mkm((len(a),), label=[a], dt=dts[0],
                 cells=cells(len(a), dts[0], 0))
        m2 = mkm((len(b),), label=[b], dt=dts[1],
                 cells=cells(len(b), dts[1], 3))
        ctx.state((m1.key(), m2.key()))
        run_pair(ctx, m1, m2, OPS)


def axes_cases(tier):
    for p in itertools.product(range(len(AX)), repeat=2):
        for dts in ('ff', 'if', 'bb', 'SS', 'gi'):
            for lay in 'CFRN':
                yield p, dts, lay
    k = 5 if tier == 'quick' else len(AX)
    for p in itertools.product(range(k), repeat=3):
        for dts in ('ff', 'if'):
            yield p, dts, 'C'
    for p in itertools.product(range(3), repeat=4):
        yield p, 'ff', 'C'
        yield p, 'ii', 'F'


def axes_run(ctx, case):
    rel, dts, lay = case
    lab1 = [AX[r][0] for r in rel]
    lab2 = [AX[r][1] for r in rel]
    s1 = [len(l) for l in lab1]
    s2 = [len(l) for l in lab2]
    n1 = n2 = 1
    for k in s1:
        n1 *= k
    for k in s2:
        n2 *= k
    m1 = mkm(s1, label=lab1, dt=dts[0], cells=cells(n1, dts[0], 0))
    m2 = mkm(s2, label=lab2, dt=dts[1], cells=cells(n2, dts[1], 3))
    ctx.state((m1.key(), m2.key(), lay))
    run_pair(ctx, m1, m2, OPS, lay)


def perm_cases(tier):
    mx = 4 if tier == 'quick' else 5
    for n in range(1, mx + 1):
        for p in itertools.permutations(range(n)):
            yield p


def perm_run(ctx, case):
    """Same labels in another order; and x op x with itself."""
    base = ['p', 'q', 'r', 's', 't'][:len(case)]
    lab2 = [base[i] for i in case]
    for shape, ax in (((None,), 0), ((None, 2), 0), ((2, None), 1)):
        for dts in ('ff', 'bi'):
            l1 = [base if k is None else ['u', 'v'] for k in shape]
            l2 = [lab2 if k is None else ['u', 'v'] for k in shape]
            n = len(base) * (2 if len(shape) == 2 else 1)
            m1 = mkm([len(l) for l in l1], label=l1, dt=dts[0],
                     cells=cells(n, dts[0], 0))
            m2 = mkm([len(l) for l in l2], label=l2, dt=dts[1],
                     cells=cells(n, dts[1], 3))
            ctx.state((m1.key(), m2.key()))
            run_pair(ctx, m1, m2, OPS)
            for name, op, f in OPS:
                y = mk(m2)
                want = combine(f, m2, m2, m2, m2)
                same(op(y, y), want, 'y %s y' % name, dtype='exact')
                same(y, m2, 'y %s y: operand' % name)
                ctx.step()


SCAL = {'f': [2.5, 0, -3, nan, True, np.float64(1.5), np.int64(2),
              np.float32(0.5), 1j, 'x', None, [1.0], (1.0,), {}],
        'i': [2, 0, -3, 2.5, nan, True, np.int64(2), np.float64(1.5), 'x',
              None],
        'g': [2.5, 2, np.float64(1.5)],
        'b': [True, False, 2, 0.5, np.bool_(True), None],
        'S': ['b', '', 'zzz', None],
        'c': [2, 1j]}


def scalar_cases(tier):
    for s in shapes([3, 2, 2] if tier == 'quick' else [4, 3, 2]) + \
            [(2, 1, 2, 1), (1, 1, 1, 1), (1, 2, 0, 1), (1, 1, 2, 1, 2)]:
        for dt in 'figbSc':
            for lay in 'CFRN':
                if lay != 'C' and dt not in 'fi':
                    continue
                yield s, dt, lay


def elementwise(f, a, b):
    """The elementwise result, or None if numpy does not define one."""
    try:
        r = f(a, b)
    except (TypeError, ValueError, NotImplementedError):
        return None
    if not isinstance(r, np.ndarray) or r.dtype == object:
        return None
    return r


def scalar_run(ctx, case):
    s, dt, lay = case
    n = 1
    for k in s:
        n *= k
    m = mkm(s, 's', dt, cells=cells(n, dt, 0))
    x = arr(m)
    ctx.state((m.key(), lay))
    for other in SCAL[dt]:
        for name, op, f in OPS:
            for side in ('y op s', 's op y'):
                y = mk(m, lay)
                what = '%r with op %s (%s) and %r' % (dt, name, side, other)
                if side == 'y op s':
                    call = lambda: op(y, other)
                    r = elementwise(f, x, other)
                else:
                    call = lambda: op(other, y)
                    r = elementwise(f, other, x)
                ctx.step()
                if isinstance(other, (list, tuple)) and \
                        name in CMP and len(s) and s[-1] in (0, 1):
                    # sequences are compared elementwise
                    if side == 's op y':
                        continue
                    same(call(), M(m.label, flat(f(x, other)), 'b'), what)
                elif isinstance(other, (list, tuple, dict, type(None))):
                    if isinstance(other, (list, tuple)) and name in CMP:
                        continue
                    raises(call, what)
                elif r is None or r.shape != tuple(s):
                    # numpy has no elementwise answer: an error, or for a
                    # comparison the plain Python answer; never a larry
                    try:
                        got = call()
                    except Exception:
                        got = None
                    check(not isinstance(got, la.larry),
                          '%s gave %r' % (what, got))
                else:
                    same(call(), M(m.label, flat(r), kindop(r)), what,
                         dtype='exact')
                same(y, m, what + ': operand changed')


def array_cases(tier):
    big = shapes([3, 3, 2])
    for s in big:
        for a in [()] + big:
            if 0 in s and 0 in a and s != a:
                continue
            for dts in ('ff', 'if', 'bb'):
                yield s, a, dts


def array_run(ctx, case):
    s, a, dts = case
    n = k = 1
    for i in s:
        n *= i
    for i in a:
        k *= i
    m = mkm(s, 's', dts[0], cells=cells(n, dts[0], 0))
    x = arr(m)
    o = np.array(cells(k, dts[1], 3), dtype=DT[dts[1]]).reshape(a)
    ctx.state((m.key(), a))
    for name, op, f in OPS:
        for side in ('y op a', 'a op y'):
            y = mk(m)
            what = 'larry %r and array %r, op %s (%s)' % (s, a, name, side)
            if side == 'y op a':
                call = lambda: op(y, o)
                r = elementwise(f, x, o)
            else:
                call = lambda: op(o, y)
                r = elementwise(f, o, x)
            ctx.step()
            before = o.copy()
            if r is None or r.shape != tuple(s):
                try:
                    got = call()
                except Exception:
                    got = None
                if isinstance(got, la.larry):
                    raise Fail('%s gave x %r label %r' %
                               (what, got.x, got.label))
            else:
                same(call(), M(m.label, flat(r), kindop(r)), what,
                     dtype='exact')
            same(y, m, what + ': operand changed')
            check(o.shape == before.shape and
                  all([veq(p, q) for p, q in zip(flat(o), flat(before))]),
                  what + ': array changed')


def bad_cases(tier):
    for s1 in shapes([2, 2, 1]):
        for s2 in shapes([2, 2, 1]):
            if len(s1) != len(s2):
                yield s1, s2


def bad_run(ctx, case):
    s1, s2 = case
    ctx.state(case)
    m1, m2 = mkm(s1), mkm(s2)
    for name, op, f in OPS:
        l1, l2 = mk(m1), mk(m2)
        raises(lambda: op(l1, l2), 'larry %s larry with ndim %d and %d' %
               (name, len(s1), len(s2)))
        same(l1, m1, 'refused %s: operand' % name)
        same(l2, m2, 'refused %s: operand' % name)
        ctx.step()


def ladder_cases(tier):
    for n in (5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 101, 128, 129, 255,
              257, 512, 513, 1000, 1025):
        for lk in 'isd':
            yield n, lk


def ladder_run(ctx, case):
    n, lk = case
    u = labs(lk, n + 3)
    for a, b in ((u[:n], u[3:]), (u[:n], u[:n][::-1]), (u[:n], u[:n]),
                 (u[:n], sorted(u[:n])), (u[:n], u[::2]), (u[1:2], u)):
        for dts in ('ff', 'ib'):
            m1 = mkm((len(a),), label=[a], dt=dts[0],
                     cells=cells(len(a), dts[0], 0))
            m2 = mkm((len(b),), label=[b], dt=dts[1],
                     cells=cells(len(b), dts[1], 3))
            ctx.state((m1.key(), m2.key()))
            run_pair(ctx, m1, m2, OPS)
            if dts == 'ff':
                m1 = mkm((2, len(a)), label=[['x', 'y'], a],
                         cells=cells(2 * len(a), 'f', 0))
                m2 = mkm((2, len(b)), label=[['y', 'x'], b],
                         cells=cells(2 * len(b), 'f', 3))
                run_pair(ctx, m1, m2, OPS[:2])


def typed_run(ctx, case):
    """Element types of every width: NumPy on the values found under the
    common labels"""
    y, p = widths.pair(case)
    ctx.state(case)
    names = ['eq', 'ne']
    if case[0] not in ('S7', 'O'):
        names += ['add', 'sub', 'mul', 'div', 'truediv', 'floordiv', 'lt',
                  'le', 'gt', 'ge']
    if case[:2] == ('b1', 'b1'):
        names += ['and_', 'or_']
        names.remove('sub')
    for a, b in ((y, p), (p, y)):
        lab = widths.joined(a, b, 'inner')
        u, v = widths.taken(a, lab), widths.taken(b, lab)
        for n in names:
            f = getattr(operator, n)
            if n == 'floordiv' and 'c' in u.dtype.kind + v.dtype.kind:
                continue
            with np.errstate(all='ignore'):
                want = f(u, v)
                if n in ('and_', 'or_'):
                    want = {'and_': np.logical_and,
                            'or_': np.logical_or}[n](u, v)
                got = f(a, b)
            widths.alike(got, want, [lab] + a.label[1:], '%s of %r' %
                         (n, case))
            ctx.step()


class Thing(object):
    pass


UNSUPPORTED = [set(), set([1.0]), frozenset([1.0]), {}, {'a': 1.0}, None,
               object(), Thing(), Thing, len, xrange(2), itertools, float,
               iter([1.0]), slice(None), Ellipsis, NotImplemented,
               datetime.date(2000, 1, 1), datetime.timedelta(1), [1.0], (1.0,),
               ([1.0],), bytearray('a')]


def unsup_cases(tier):
    for s in ((1,), (2,), (0,), (1, 1), (2, 2), (2, 1, 2)):
        for dt in 'figbScO':
            for i in range(len(UNSUPPORTED)):
                yield s, dt, i


def unsup_run(ctx, case):
    """No operator takes what is neither larry nor scalar nor array"""
    s, dt, i = case
    m = mkm(s, 's', dt)
    other = UNSUPPORTED[i]
    ctx.state(case)
    for name, op, f in OPS:
        if isinstance(other, (list, tuple)) and name in CMP:
            continue
        y = mk(m)
        raises(lambda: op(y, other), '%r %s %r' % (dt, name, other))
        if name in CMP:         # (the other type may have an answer)
            try:
                got = op(other, y)
            except Exception:
                got = None
            check(not isinstance(got, (la.larry, np.ndarray)), lambda:
                  '%r %s %r gave %r' % (other, name, dt, got))
        elif type(other) not in (bytearray, xrange, list, tuple):
            raises(lambda: op(other, y), '%r %s %r' % (other, name, dt))
        same(y, m, 'operand of ' + name)
        ctx.step(2)


OTHER_X = ['scalar', '0d', 'one', 'row', 'column', 'same', 'F', 'strided',
           'backwards', 'readonly', 'matrix', 'long', 'integer', 'real']


def kinds_cases(tier):
    for s in ((3,), (1,), (0,), (2, 3), (1, 1), (2, 1, 2)):
        for t1 in widths.NUMERIC:
            for t2 in widths.NUMERIC:
                for o in OTHER_X:
                    yield s, t1, t2, o


def other_x(s, t, o):
    n = int(np.prod(s))
    if o in ('long', 'integer', 'real'):
        if t not in ('f8', 'i4', 'b1'):
            return None
        return {'long': {'f8': 3L, 'i4': 2 ** 40, 'b1': -1L},
                'integer': {'f8': 3, 'i4': -2, 'b1': 0},
                'real': {'f8': 1.5, 'i4': float('inf'), 'b1': False}}[o][t]
    if o == 'scalar':
        return widths.fill(t, 3)[2]
    if o == '0d':
        return np.array(widths.fill(t, 3)[2])
    if o == 'one':
        return widths.fill(t, 3)[2:]
    if o == 'row':
        return widths.fill(t, s[-1] + 1)[1:]
    if o == 'column':
        if len(s) == 1:
            return None
        return widths.fill(t, s[-2] + 1)[1:].reshape((s[-2], 1))
    x = widths.fill(t, n + 1)[1:].reshape(s)
    if o == 'same':
        return x
    if o == 'F':
        return np.array(x, order='F')
    if o == 'strided':
        z = np.zeros(s[:-1] + (2 * s[-1],), t)
        z[..., ::2] = x
        return z[..., ::2]
    if o == 'backwards':
        return x[::-1].copy()[::-1]
    if o == 'readonly':
        x.setflags(write=False)
        return x
    return np.matrix(x) if len(s) == 2 else None


def kinds_run(ctx, case):
    """What is not a larry is taken by position, whatever its type"""
    s, t1, t2, o = case
    p = other_x(s, t2, o)
    if p is None:
        return
    n = int(np.prod(s))
    x = widths.fill(t1, n).reshape(s)
    label = [list(l) for l in mkm(s, 's').label]
    y = la.larry(x, [list(l) for l in label])
    ctx.state(case)
    raw = repr(p)
    for name, op, f in OPS:
        if name == '//' and 'c' in x.dtype.kind + np.asarray(p).dtype.kind:
            continue
        for side in (0, 1):
            if side and o == 'matrix':
                continue            # NumPy answers, not larry
            with np.errstate(all='ignore'):
                if o == 'matrix' and name == '*':
                    continue        # NumPy multiplies matrices
                q = np.asarray(p) if isinstance(p, np.matrix) else p
                want = elementwise(f, q, x) if side else elementwise(f, x, q)
                if want is None or want.shape != x.shape:
                    continue
                got = op(p, y) if side else op(y, p)
            widths.alike(got, want, label, '%s, %r, side %d' %
                         (name, case, side))
            check(not np.may_share_memory(got.x, y.x) or not n, 'shares')
            check(not [1 for a, b in zip(got.label, y.label) if a is b],
                  'shares a label')
            ctx.step()
    check(repr(p) == raw, 'the other operand changed')
    widths.alike(y, widths.fill(t1, n).reshape(s), label, 'the larry')


FAMILIES = [
    Family('unsupported', unsup_cases, unsup_run, 'operands of other types'),
    Family('operand kinds', kinds_cases, kinds_run,
           'scalars and arrays of every type and layout'),
    Family('pairs', pair_cases, pair_run,
           'every ordered label subset against every other, every operator '
           'and dtype pair, 1d'),
    Family('axes', axes_cases, axes_run,
           'every combination of axis relations, 2d and 3d, all layouts'),
    Family('perm', perm_cases, perm_run,
           'every permutation of the labels, and a larry with itself'),
    Family('scalars', scalar_cases, scalar_run,
           'scalars of every type on both sides, unsupported operands'),
    Family('arrays', array_cases, array_run,
           'every array shape on both sides, broadcasting included'),
    Family('ndim', bad_cases, bad_run, 'different numbers of dimensions'),
    Family('ladder', ladder_cases, ladder_run, 'labels up to 1028 long'),
    Family('element types', widths.pair_cases, typed_run),
]
BOUNDS = {'quick': 'label universe 3 in 1d; 7 axis relations in 2d, 5 in 3d; '
                   'permutations of 4; scalar/array shapes up to 3 / 3x3 / 2^3',
          'thorough': 'label universe 4 in 1d; 7 relations in 3d; '
                      'permutations of 5'}
