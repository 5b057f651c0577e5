"""C19: group statistics use exactly the members of each group."""
import itertools
import numpy as np
import la
from la import larry
import la.farray as farray
import axkinds
import widths
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, prod, flat
import stat_
from gen import mkm, labs, patterns
from lanes import P4, P3, P5, spread
import lanes
from p_c18 import ranking, NORMS


def members(groups):
    """group value -> positions; missing groups left out"""
    d = []
    for i, g in enumerate(groups):
        if g is None or g != g:
            continue
        for k, pos in d:
            if k == g:
                pos.append(i)
                break
        else:
            d.append((g, [i]))
    return d


def grouped(groups, f):
    """f: lane -> lane of the same length, applied to every group"""
    mem = members(groups)

    def g(v):
        out = [nan] * len(v)
        for k, pos in mem:
            for i, r in zip(pos, f([v[i] for i in pos])):
                out[i] = r
        return out
    return g


def const(f):
    return lambda v: [f(v)] * len(v)


def gdt(groups):
    types = set([type(g) for g in groups])
    if types == set([str]) and '' not in groups:
        return 'S'
    if types == set([float]):
        return 'f'
    if types == set([int]):
        return 'i'
    if types == set([bool]):
        return 'b'
    return 'O'


def glarry(label, groups, dt=None):
    return mk(M([label], groups, dt or gdt(groups)))


def compare(ctx, m, groups, ax, how='same', lay='C', dt=None, tol=1e-9):
    """groups: the group of every position along the axis"""
    y = mk(m, lay)
    L = m.label[ax]
    lab, gv = list(L), list(groups)
    if how == 'rev':
        lab, gv = lab[::-1], gv[::-1]
    elif how == 'rot':
        lab, gv = lab[1:] + lab[:1], gv[1:] + gv[:1]
    elif how[0] == 'order':
        lab, gv = [lab[i] for i in how[1]], [gv[i] for i in how[1]]
    elif how[0] == 'superset':
        # one more label, the other labels in the given order around it
        k = how[1][0]
        lab, gv = [lab[i] for i in how[1]], [gv[i] for i in how[1]]
        lab.insert(k, ('more',))
        gv.insert(k, 'c')
    elif how == 'extra':
        more = [('x', k) for k in range(len(lab) + 1)]
        other = [g for g in gv[::-1]] + (gv[:1] or ['q'])
        lab = [l for p in zip(more, lab[::-1]) for l in p] + more[-1:]
        gv = [g for p in zip(other, gv[::-1]) for g in p] + other[-1:]
    g = glarry(lab, gv, dt)
    was, gwas = snap(y), snap(g)
    what = ' of %r, groups %r (%s), axis %d' % (m, groups, how, ax)
    t = tol if m.dt != 'g' else 1e-5
    for n, f in (('group_mean', const(stat_.mean)),
                 ('group_median', const(stat_.median)),
                 ('group_ranking', lambda v: ranking(v, '-1,1'))):
        want = m.lanes(grouped(groups, f), ax)
        same(getattr(y, n)(g, ax), want, n + what, rtol=t, atol=t)
        if ax == 0:
            same(getattr(y, n)(g), want, n + what, rtol=t, atol=t)
        x = getattr(farray, n)(arr(m, lay), list(groups), axis=ax)
        same(larry(x, [list(l) for l in m.label]), want, 'farray.' + n + what,
             rtol=t, atol=t)
        ctx.step(2)
    for norm in NORMS:
        want = m.lanes(grouped(groups, lambda v: ranking(v, norm)), ax)
        x = farray.group_ranking(arr(m, lay), list(groups), norm, ax)
        same(larry(x, [list(l) for l in m.label]), want,
             'farray.group_ranking(%r)' % norm + what, rtol=t, atol=t)
        ctx.step()
    same_snap(snap(y), was, 'the larry changed')
    same_snap(snap(g), gwas, 'the group larry changed')


def order_cases(tier):
    """Every order of the labels of the group larry."""
    n = 5 if tier == 'quick' else 6
    for k in range(2, n + 1):
        for p in itertools.permutations(range(k)):
            yield p,


def order_run(ctx, case):
    p, = case
    n = len(p)
    g = ['b', 'a', 'a', 'c', 'b', None][:n]
    ctx.state(case)
    for s, ax in (((n,), 0), ((2, n), 1), ((n, 1), 0)):
        m = mkm(s, 's' if len(s) == 1 else 'si', cells=[
            float((i * 7) % 11) for i in range(prod(s))])
        for how in (('order', p), ('superset', p)):
            compare(ctx, m, g, ax, how)
        for lk in 'qw':
            m = mkm(s, (lk if ax == 0 else 's') + lk, cells=m.cells) \
                if len(s) == 2 else mkm(s, lk, cells=m.cells)
            compare(ctx, m, g, ax, ('order', p))


GPOOL = ('b', 'a', None)


def one_cases(tier):
    for n in range(0, 4):
        for c in patterns(n, P4):
            for g in patterns(n, GPOOL):
                for how in ('same', 'rev', 'extra'):
                    yield (n,), c, g, how
    for n in (4,) if tier == 'quick' else (4, 5):
        for c in patterns(n, P3):
            for g in patterns(n, GPOOL if n == 4 else ('b', None)):
                for how in ('rot', 'extra'):
                    yield (n,), c, g, how


def one_run(ctx, case):
    s, c, g, how = case
    m = mkm(s, 's', cells=c)
    ctx.state((m.key(), g, how))
    compare(ctx, m, list(g), 0, how)
    compare(ctx, m, list(g), -1, how)


def two_cases(tier):
    for s, ax in [((2, 2), 0), ((2, 2), 1), ((3, 2), 0), ((2, 3), 1),
                  ((1, 3), 1), ((3, 1), 0), ((2, 2, 2), 1),
                  ((1, 2, 1, 2), 1), ((2, 1, 2, 1), 0), ((2, 1, 1, 2), 3),
                  ((1, 1, 3, 1), 2)]:
        n = s[ax]
        pool = P4 if prod(s) < 5 else P3 if prod(s) < 7 else P3[:2]
        for i, c in enumerate(patterns(prod(s), pool)):
            if len(s) == 3:
                c = [v * (k + 1) for k, v in enumerate(c)]
            for g in patterns(n, GPOOL):
                if tier == 'quick' and prod(s) > 5 and (g.count(None) > 1 or
                                                        i % 2 and len(s) < 3 and None in g):
                    continue
                yield s, ax, c, g


def two_run(ctx, case):
    s, ax, c, g = case
    m = mkm(s, 'sdis'[:len(s)], cells=c)
    ctx.state((m.key(), g, ax))
    compare(ctx, m, list(g), ax, 'rev')
    compare(ctx, m, list(g), ax - len(s), 'extra')


# group values of every type --------------------------------------------------------
KINDS = {'str': ['b', 'a', 'c'], 'int': [2, 1, 3], 'neg': [0, -1, 5],
         'float': [1.5, nan, -2.0],
         'near': [1.0, 1.5, 1.0 + 1e-12], 'large': [2 ** 53, 2 ** 53 + 1, -1],
         'blank': ['', ' ', 'a'], 'inf': [float('inf'), float('-inf'), 0.0],
         'signs': [0.5, -0.5, 0.0], 'bool': [True, False, True],
         'mixed': ['b', 1, 2.5], 'strnum': ['1', 1, '2'],
         'none': [None, None, 'a'], 'tuple': [('a', 1), ('b', 2), ('a', 2)],
         'numnone': [1, None, 2], 'fnone': [1.5, None, nan],
         'long': ['a long group name', 'a long group namf', 'a'],
         'case': ['A', 'a', 'aa'], 'date': None}


def kind_cases(tier):
    for k in sorted(KINDS):
        for n in (2, 3, 4):
            for g in patterns(n, (0, 1, 2)):
                for dt in 'fig':
                    for how in ('same', 'rev', 'extra'):
                        yield k, g, dt, how


def kind_run(ctx, case):
    k, g, dt, how = case
    pool = KINDS[k] or labs('d', 3)
    groups = [pool[i] for i in g]
    n = len(g)
    c = ([3, 1, 3, 7] if dt == 'i' else [3.0, 1.0, nan, 7.0])[:n]
    m = mkm((n,), 's', dt, cells=c)
    ctx.state((m.key(), repr(groups), how))
    force = None
    if how == 'extra' and gdt(groups) in 'S' and k == 'long':
        force = 'S'
    compare(ctx, m, groups, 0, how, dt=force)
    m = mkm((2, n), 'ds', dt, cells=c + c[::-1])
    compare(ctx, m, groups, 1, how)


def lay_cases(tier):
    for s in lanes.LAYSHAPES:
        for lay in 'CFRN':
            for dt in 'fig':
                for ax in range(-len(s), len(s)):
                    yield s, lay, dt, ax


def lay_run(ctx, case):
    s, lay, dt, ax = case
    m = lanes.laymodel(s, dt, 1)
    n = s[ax]
    ctx.state((m.key(), ax, lay))
    for g in (['a'] * n, [None] * n, ['b', 'a'] * n, ['b', None, 'a'] * n,
              range(n), ['b'] + ['a'] * n):
        compare(ctx, m, g[:n], ax, 'rot', lay)


def size_cases(tier):
    for n, how, nans in lanes.sizecases(tier):
        for k in (1, 2, 7, 33, n):
            yield n, how, nans, k


def size_run(ctx, case):
    n, how, nans, k = case
    m, ax = lanes.sizemodel(n, how, nans)
    ctx.state((m.key(), k))
    g = ['g%d' % ((i * 7919) % k) for i in range(n)]
    if nans:
        g = [None if (i * 31) % 10 == 3 else v for i, v in enumerate(g)]
    compare(ctx, m, g, ax, 'rot', tol=1e-8)


def large_cases(tier):
    """A small spread far from zero: nothing may be rounded on the way"""
    for base in (2 ** 25, 2 ** 31 + 1, -2 ** 33 - 3, 123456789):
        for n in (2, 3):
            for v in itertools.product((0, 1, 6), repeat=n):
                for g in patterns(n, GPOOL):
                    yield base, v, tuple(g)


def large_run(ctx, case):
    base, v, g = case
    n = len(v)
    for dt in 'fi':
        c = [base + k if dt == 'i' else float(base + k) for k in v]
        for m, ax in ((mkm((n,), 's', dt, cells=c), 0),
                      (mkm((2, n), 'is', dt, cells=c + c[::-1]), 1)):
            ctx.state((m.key(), g))
            compare(ctx, m, list(g), ax, 'rev', tol=1e-12)


def bad_cases(tier):
    for s in [(2,), (3,), (2, 2), (3, 2), (2, 3, 2), (0,), (0, 2)]:
        for ax in range(-len(s), len(s)):
            yield s, ax


def bad_run(ctx, case):
    s, ax = case
    m = mkm(s, 's')
    y = mk(m)
    L = m.label[ax]
    n = len(L)
    ctx.state((m.key(), ax))
    bad = []
    if n:
        bad.append(glarry(L[:-1], ['a'] * (n - 1), 'O'))
        bad.append(glarry(L[1:], ['a'] * (n - 1), 'O'))
        bad.append(glarry(L[:-1] + ['other'], ['a'] * n))
        bad.append(glarry(['other'] + L[1:], ['a'] * n))
        bad.append(glarry(range(n), ['a'] * n))
        bad.append(glarry([], [], 'O'))
    bad.append(mk(M([L, L], ['a'] * n * n, 'O')))
    bad.append(mk(M([L, ['z']], ['a'] * n, 'O')))
    bad += [['a'] * n, np.array(['a'] * n), None, 'a', {},
            dict([(l, 'a') for l in L])]
    for g in bad:
        for name in ('group_mean', 'group_median', 'group_ranking'):
            raises(lambda: getattr(y, name)(g, ax), '%s with group %r' %
                   (name, g))
            ctx.step()
    ok = glarry(L, ['a'] * n, 'O')
    for name in ('group_mean', 'group_median', 'group_ranking'):
        for a in (len(s), -len(s) - 1):
            raises(lambda: getattr(y, name)(ok, a), name + ' axis %d' % a)
            ctx.step()
    same_snap(snap(y), m, 'a refused call changed the larry')


def hist_cases(tier):
    n = 3
    for g1 in patterns(n, GPOOL):
        for g2 in patterns(n, GPOOL):
            yield g1, g2


def hist_run(ctx, case):
    """One group larry changed in place, one larry changed in place."""
    g1, g2 = map(list, case)
    m = mkm((3, 2), 'sd', cells=[1.0, 5.0, nan, 2.0, 4.0, 0.5])
    y = mk(m)
    lab = m.label[0][::-1]
    g = glarry(lab, g1[::-1], 'O')
    ctx.state((tuple(g1), tuple(g2)))
    for groups in (g1, g2, g1):
        for l, v in zip(m.label[0], groups):
            g.set([l], v)
        for n, f in (('group_mean', const(stat_.mean)),
                     ('group_median', const(stat_.median)),
                     ('group_ranking', lambda v: ranking(v, '-1,1'))):
            r = getattr(y, n)(g)
            same(r, m.lanes(grouped(groups, f), 0), n, rtol=1e-9, atol=1e-9)
            r.x[...] = 0
            ctx.step()
        y.set([m.label[0][1], m.label[1][0]], 3.0)
        m.put((1, 0), 3.0)


# element types of every width
WIDE = [
    (n, (lambda n: lambda y, a: getattr(y, n)(larry(
        np.arange(y.shape[0]).astype(y.dtype) % 2, [y.label[0]])))(n))
    for n in ('group_mean', 'group_median', 'group_ranking')]


def wide_run(ctx, case):
    widths.num_run(ctx, case, WIDE)


KINDS_OF_INT = [
    (n, (lambda n: lambda y, a, I: getattr(y, n)(
        larry(['x'] * y.shape[a], [list(y.label[a])]), a))(n)) for n in
    ('group_mean', 'group_median', 'group_ranking')]

FAMILIES = [
    Family('order', order_cases, order_run,
           'every order of the labels of the group larry'),
    Family('one axis', one_cases, one_run,
           'every value and every group assignment'),
    Family('more axes', two_cases, two_run),
    Family('group values', kind_cases, kind_run, 'groups of every type'),
    Family('layouts', lay_cases, lay_run),
    Family('sizes', size_cases, size_run),
    Family('refused', bad_cases, bad_run),
    Family('histories', hist_cases, hist_run),
    Family('large values', large_cases, large_run),
    Family('element types', widths.num_cases, wide_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'all lanes of up to 4 values over 3-4 values including NaN '
                   'x all assignments to 2 groups or none x 3 orders of the '
                   'group larry; 2d and 3d; 14 kinds of group values; 4 '
                   'layouts; sizes up to 1025 with 1..n groups',
          'thorough': 'lanes of 5, sizes up to 5000'}
ASSUMPTIONS = ['numbers are compared to 1e-9 (float32: 1e-5)']
