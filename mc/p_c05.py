"""C05: binary functions with a join fill missing values exactly as asked."""
import itertools
import numpy as np
import la
import widths
from core import Family, Fail, check
from model import M, mk, arr, same, raises, nan, inf, kind, flat
import gen
from gen import mkm, labs, shapes
import ref
from p_c02 import ordered_subsets
from p_c03 import AX

JOINS = ('inner', 'outer', 'left', 'right')
FILL = ('ignore', 0, -5.5, 3)

POOL = {'f': [[nan, 1.5, nan, -2.0, 0.0, inf], [nan, nan, 4.0, 2.5, nan, -1.0]],
        'g': [[nan, 1.5, nan, -2.0], [nan, nan, 4.0, 2.5]],
        'i': [[3, 1, 0, -2], [5, -7, 2, 11]],
        'b': [[True, False, True], [False, False, True]],
        'S': [['', 'a', '', 'b'], ['', '', 'a', 'b']],
        'O': [[None, 'a', None, 2], [None, None, 'a', 2]]}


def cells(n, dt, side, rot=0):
    p = POOL[dt][side]
    return [p[(k + rot) % len(p)] for k in range(n)]


def weird(a, b, scale=10):
    return a * scale - b

FUNCS = [('binaryop', None, np.subtract), ('binaryop', None, weird),
         ('add', la.add, np.add), ('subtract', la.subtract, np.subtract),
         ('multiply', la.multiply, np.multiply),
         ('divide', la.divide, np.divide)]
NONNUM = [('binaryop', None, lambda a, b: a == b)]


def fill(c1, c2, dt1, dt2, one, two):
    a, b = list(c1), list(c2)
    for k in range(len(a)):
        m1, m2 = ref.ismiss(a[k], dt1), ref.ismiss(b[k], dt2)
        if m1 and m2:
            if two != 'ignore':
                a[k] = b[k] = two
        elif m1:
            if one != 'ignore':
                a[k] = one
        elif m2:
            if one != 'ignore':
                b[k] = one
    return a, b


def run_bin(ctx, m1, m2, join, fills, funcs, cast=True, lay='C', extra={}):
    joins = [join] * m1.ndim if isinstance(join, str) else list(join)
    a1, a2 = ref.align(m1, m2, joins)
    need = a1.dt != m1.dt or a2.dt != m2.dt
    for one, two in fills:
        c1, c2 = fill(a1.cells, a2.cells, a1.dt, a2.dt, one, two)
        x1 = arr(M(a1.label, c1, a1.dt))
        x2 = arr(M(a2.label, c2, a2.dt))
        for name, f, func in funcs:
            l1, l2 = mk(m1, lay), mk(m2, lay)
            kw = dict(extra, join=join, missone=one, misstwo=two, cast=cast)
            what = '%s(join=%r missone=%r misstwo=%r cast=%r)' % (
                name, join, one, two, cast)
            if f is None:
                call = lambda: la.binaryop(func, l1, l2, **kw)
            else:
                call = lambda: f(l1, l2, **kw)
            ctx.step()
            if need and not cast:
                e = raises(call, what)
                check(isinstance(e, TypeError), what + ' raised %r' % e)
            else:
                r = func(x1, x2, **extra)
                want = M(a1.label, flat(r), kind(r.dtype))
                ctx.outcome(want.key())
                same(call(), want, what, dtype='exact' if want.cells
                     else False)
            same(l1, m1, what + ': first operand changed')
            same(l2, m2, what + ': second operand changed')


ALLF = list(itertools.product(FILL, FILL))


def pair_cases(tier):
    u = ['b', 'a', 'c'] if tier == 'quick' else ['b', 'a', 'c', 'd']
    for a in ordered_subsets(u):
        for b in ordered_subsets(u):
            for join in JOINS:
                yield a, b, join
    for u in (['2', 2, 10], ['a', 'A', 'a ']):
        for a in ordered_subsets(u):
            for b in ordered_subsets(u):
                yield a, b, 'outer'


def pair_run(ctx, case):
    a, b, join = case
    for dts in ('ff', 'fi', 'if', 'gf', 'bf', 'bi', 'ii'):
        m1 = mkm((len(a),), label=[a], dt=dts[0], cells=cells(len(a), dts[0], 0))
        m2 = mkm((len(b),), label=[b], dt=dts[1], cells=cells(len(b), dts[1], 1))
        ctx.state((m1.key(), m2.key(), join))
        run_bin(ctx, m1, m2, join, ALLF if dts == 'ff' else ALLF[::3],
                FUNCS if dts in ('ff', 'fi', 'ii', 'if', 'gf') else
                FUNCS[:2])
        if dts in ('fi', 'if', 'bi'):
            run_bin(ctx, m1, m2, join, ALLF[:2], FUNCS[:3], cast=False)
    for dts, fl in (('SS', ('ignore', 'q', 'a')), ('OO', ('ignore', 'a', 0))):
        m1 = mkm((len(a),), label=[a], dt=dts[0], cells=cells(len(a), dts[0], 0))
        m2 = mkm((len(b),), label=[b], dt=dts[1], cells=cells(len(b), dts[1], 1))
        run_bin(ctx, m1, m2, join, itertools.product(fl, fl), NONNUM)


def miss_cases(tier):
    """Every pattern of missing values in both operands, labels equal or not."""
    n = 3 if tier == 'quick' else 4
    for p1 in itertools.product((0, 1), repeat=n):
        for p2 in itertools.product((0, 1), repeat=n):
            for rel in ('same', 'rev', 'shift'):
                yield p1, p2, rel


def miss_run(ctx, case):
    p1, p2, rel = case
    n = len(p1)
    base = ['b', 'a', 'c', 'd', 'e'][:n]
    lab2 = {'same': base, 'rev': base[::-1], 'shift': base[1:] + ['z']}[rel]
    for shape in ((n,), (n, 1), (1, n)):
        l1 = [base if k == n else ['k'] for k in shape]
        l2 = [lab2 if k == n else ['k'] for k in shape]
        m1 = mkm(shape, label=l1, cells=[nan if p else 1.5 + k
                                         for k, p in enumerate(p1)])
        m2 = mkm(shape, label=l2, cells=[nan if p else 10.0 * k + 7
                                         for k, p in enumerate(p2)])
        ctx.state((m1.key(), m2.key()))
        for join in JOINS:
            run_bin(ctx, m1, m2, join, ALLF, FUNCS[:2] if len(shape) > 1
                    else FUNCS)


def axes_cases(tier):
    for p in itertools.product(range(len(AX)), repeat=2):
        for j in itertools.product(JOINS, repeat=2):
            yield p, j
    if tier != 'quick':
        for p in itertools.product(range(5), repeat=3):
            for j in itertools.product(JOINS, repeat=3):
                yield p, j
    else:
        for p in itertools.product(range(3), repeat=3):
            for j in itertools.product(JOINS[:3], repeat=3):
                yield p, j
    for p in itertools.product(range(3), repeat=4):
        for j in JOINS:
            yield p, (j,) * 4
        yield p, (JOINS * 2)[:4]
        yield p, (JOINS * 2)[2:6]


def axes_run(ctx, case):
    rel, joins = case
    lab1 = [AX[r][0] for r in rel]
    lab2 = [AX[r][1] for r in rel]
    s1 = [len(l) for l in lab1]
    s2 = [len(l) for l in lab2]
    n1 = n2 = 1
    for k in s1:
        n1 *= k
    for k in s2:
        n2 *= k
    for dts, lay in (('ff', 'C'), ('ff', 'F'), ('if', 'N'), ('ff', 'R')):
        m1 = mkm(s1, label=lab1, dt=dts[0], cells=cells(n1, dts[0], 0))
        m2 = mkm(s2, label=lab2, dt=dts[1], cells=cells(n2, dts[1], 1, 1))
        ctx.state((m1.key(), m2.key(), joins))
        j = joins[0] if len(set(joins)) == 1 else list(joins)
        run_bin(ctx, m1, m2, j, [('ignore', 'ignore'), (0, 'ignore'),
                                 ('ignore', 3), (-5.5, 3)], FUNCS[:3], lay=lay)


def misc_cases(tier):
    yield ()


def misc_run(ctx, case):
    """Defaults, extra function arguments, refused joins."""
    m1 = mkm((3,), label=[['b', 'a', 'c']], cells=[nan, 1.0, 2.0])
    m2 = mkm((2,), label=[['c', 'b']], cells=[nan, 4.0])
    l1, l2 = mk(m1), mk(m2)
    want = M([['b', 'c']], [nan, nan], 'f')
    for f, _ in ((la.add, 0), (la.subtract, 0), (la.multiply, 0),
                 (la.divide, 0)):
        same(f(l1, l2), want, 'default arguments')
    same(la.binaryop(weird, l1, l2, missone=1, scale=2),
         M([['b', 'c']], [-2.0, 3.0], 'f'), 'extra argument')
    for bad in ('skip', 'bad', ['inner', 'inner'], 3, ['skip']):
        raises(lambda: la.binaryop(np.add, l1, l2, join=bad), 'join %r' % bad)
        ctx.step()
    m3 = mkm((2, 2))
    raises(lambda: la.add(l1, mk(m3)), 'ndim mismatch')
    same(l1, m1, 'operand')
    same(l2, m2, 'operand')
    # same object twice
    y = mk(m1)
    same(la.add(y, y, missone=5, misstwo=6), M(m1.label, [12.0, 2.0, 4.0]),
         'add(y, y)')
    same(y, m1, 'add(y, y): operand')
    ctx.step(7)
    # extra arguments reach the function whatever else is given
    seen = []

    def three(a, b, scale=10, shift=0):
        seen.append((scale, shift))
        return a * scale + b + shift

    for join in JOINS:
        for fills in itertools.product(('ignore', 0, nan, -2.5), repeat=2):
            for kw in ({}, {'scale': 2}, {'shift': 0.5},
                       {'scale': -1, 'shift': 7}):
                del seen[:]
                run_bin(ctx, m1, m2, join, [fills],
                        [('binaryop', None, three)], extra=kw)
                check(len(set(seen)) == 1, lambda: 'the function got %r' %
                      seen)


def ladder_cases(tier):
    for n in (5, 8, 9, 16, 17, 33, 64, 65, 101, 128, 129, 257, 513, 1001):
        yield (n,)


def ladder_run(ctx, case):
    n, = case
    u = labs('i', n + 3)
    for a, b in ((u[:n], u[3:]), (u[:n], u[:n][::-1]), (u[:n], u[:n])):
        m1 = mkm((len(a),), label=[a], cells=cells(len(a), 'f', 0))
        m2 = mkm((len(b),), label=[b], cells=cells(len(b), 'f', 1))
        ctx.state((m1.key(), m2.key()))
        for join in JOINS:
            run_bin(ctx, m1, m2, join, ALLF[::5], FUNCS)


def typed_run(ctx, case):
    """Element types of every width"""
    if case[0] in ('S7', 'O'):
        return
    y, p = widths.pair(case)
    ctx.state(case)
    for a, b in ((y, p), (p, y)):
        for join in ('inner', 'outer', 'left', 'right'):
            lab = widths.joined(a, b, join)
            u, v = widths.spread(a, lab), widths.spread(b, lab)
            for name, f, g in (('add', la.add, np.add),
                               ('subtract', la.subtract, np.subtract),
                               ('multiply', la.multiply, np.multiply),
                               ('divide', la.divide, np.divide),
                               ('binaryop', lambda *z, **kw: la.binaryop(
                                   np.maximum, *z, **kw), np.maximum)):
                if case[:2] == ('b1', 'b1') and name == 'subtract':
                    continue
                with np.errstate(all='ignore'):
                    widths.alike(f(a, b, join=join), g(u, v),
                                 [lab] + a.label[1:], '%s %s of %r' %
                                 (name, join, case), dtype=bool(lab))
                    if u.dtype.kind not in 'fc' or v.dtype.kind not in 'fc':
                        continue
                    u2, v2 = u.copy(), v.copy()
                    n1, n2 = u != u, v != v
                    u2[n1 & ~n2] = 2
                    v2[n2 & ~n1] = 2
                    w = g(u2, v2)
                    widths.alike(f(a, b, join=join, missone=2), w,
                                 [lab] + a.label[1:], '%s %s missone of %r' %
                                 (name, join, case), dtype=bool(lab))
                    u2[n1 & n2] = 3
                    v2[n1 & n2] = 3
                    w = g(u2, v2)
                    widths.alike(f(a, b, join=join, missone=2, misstwo=3), w,
                                 [lab] + a.label[1:], '%s %s misstwo of %r' %
                                 (name, join, case), dtype=bool(lab))
                ctx.step()


FAMILIES = [
    Family('pairs', pair_cases, pair_run,
           'every ordered label subset against every other, every join, '
           'fill pair and dtype pair'),
    Family('missing', miss_cases, miss_run,
           'every pattern of missing values in both operands'),
    Family('axes', axes_cases, axes_run,
           'every combination of axis relations and per-axis joins'),
    Family('misc', misc_cases, misc_run, 'defaults, extra arguments, refusals'),
    Family('ladder', ladder_cases, ladder_run, 'labels up to 1004 long'),
    Family('element types', widths.pair_cases, typed_run),
]
BOUNDS = {'quick': 'label universe 3; all missing patterns of 3 cells per '
                   'operand; 7 axis relations in 2d, 3 in 3d',
          'thorough': 'label universe 4; missing patterns of 4; 5 relations '
                      'in 3d'}
