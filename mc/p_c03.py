"""C03: aligning larrys joins labels and keeps every value under its label."""
import itertools
import numpy as np
import la
from la import larry
import axkinds
import widths
from core import Family, Fail, check
from model import M, mk, snap, same, raises, wellformed, nan, DT, labels_eq
import gen
from gen import mkm, labs, shapes
import ref
from p_c02 import ordered_subsets

JOINS = ('inner', 'outer', 'left', 'right', 'skip')
NOMISS = 'ijb'


def run_align(ctx, m1, m2, join, cast=True, raw=True, lay='C'):
    """Align both ways and compare every observable with the reference."""
    nd = m1.ndim
    joins = [join] * nd if isinstance(join, str) else list(join)
    w1, w2 = ref.align(m1, m2, joins)
    what = 'align join=%r cast=%r' % (join, cast)
    need = (w1.dt != m1.dt) or (w2.dt != m2.dt)
    l1, l2 = mk(m1, lay), mk(m2, lay)
    ctx.state((m1.key(), m2.key(), tuple(joins), cast))
    if need and not cast:
        e = raises(lambda: la.align(l1, l2, join=join, cast=cast), what)
        check(isinstance(e, TypeError), what + ' raised %r, not TypeError' % e)
        raises(lambda: la.align_raw(l1, l2, join=join, cast=cast), what)
        ctx.step(2)
        return
    g1, g2 = la.align(l1, l2, join=join, cast=cast)
    ctx.step()
    ctx.outcome((repr(w1), repr(w2)))
    same(g1, w1, what + ': first', dtype='exact' if w1.cells else True)
    same(g2, w2, what + ': second', dtype='exact' if w2.cells else True)
    same(l1, m1, what + ': operand 1 changed')
    same(l2, m2, what + ': operand 2 changed')
    if raw:
        x1, x2, label, v1, v2 = la.align_raw(l1, l2, join=join, cast=cast)
        ctx.step()
        wl = [None if j == 'skip' else l for j, l in zip(joins, w1.label)]
        check(len(label) == nd, 'align_raw: %d labels' % len(label))
        for a, b in zip(label, wl):
            check((a is None) == (b is None) and
                  (a is None or list(a) == list(b)),
                  lambda: 'align_raw labels %r want %r' % (label, wl))
        same(la.larry(x1, [list(l) for l in w1.label]), w1, 'align_raw x1')
        same(la.larry(x2, [list(l) for l in w2.label]), w2, 'align_raw x2')
        for x, l, v, n in ((x1, l1, v1, 1), (x2, l2, v2, 2)):
            if not v:
                check(not np.may_share_memory(x, l.x) or x.size == 0,
                      'align_raw says x%d is not a view, but it is' % n)
        same(l1, m1, 'align_raw: operand 1 changed')
        same(l2, m2, 'align_raw: operand 2 changed')


U = {'s': ['b', 'a', 'c'], 'i': [2, 0, 1], 'd': labs('d', 3),
     'm': ['a', 1, None], 'q': ['2', 2, 10], 'w': ['a', 'A', 'a ']}


def pair_cases(tier):
    for lk in 'sidmqw':
        u = U[lk] if tier == 'quick' or lk in 'qw' else (U[lk] + labs(lk, 5)[4:])
        for a in ordered_subsets(u):
            for b in ordered_subsets(u):
                yield (lk, a, b)


def pair_run(ctx, case):
    lk, a, b = case
    for join in JOINS:
        for dts in ('ff', 'ii', 'if', 'fi', 'bb', 'SS', 'OO', 'gg', 'Sf',
                    'fS', 'bi', 'ib', 'jO', 'Oj', 'gi', 'fb'):
            if lk != 's' and dts not in ('ff', 'ii', 'if', 'fi'):
                continue
            for cast in (True, False):
                if not cast and dts in ('ff', 'SS', 'OO', 'gg', 'Sf', 'fS'):
                    continue
                if join == 'skip' and cast is False:
                    continue
                m1 = mkm((len(a),), label=[a], dt=dts[0])
                m2 = mkm((len(b),), label=[b], dt=dts[1], start=40)
                run_align(ctx, m1, m2, join, cast)
    m1 = mkm((len(a),), label=[a])
    m2 = mkm((len(b),), label=[b], start=40)
    l1, l2 = mk(m1), mk(m2)
    check(la.isaligned(l1, l2) == (a == b), 'isaligned')
    check(la.isaligned(l1, l2, 0) == (a == b), 'isaligned axis 0')
    check(la.union(0, l1, l2) == sorted(set(a) | set(b)), 'union')
    check(la.intersection(0, l1, l2) == sorted(set(a) & set(b)),
          'intersection')
    check(la.union(0, l1) == sorted(a), 'union of one')
    check(la.intersection(-1, l1) == sorted(a), 'intersection of one')
    same(l1, m1, 'operand after set functions')
    ctx.step(6)
    w = la.align(l1, l2)
    same(w[0], ref.align(m1, m2, ['inner'])[0], 'align default join')
    ctx.step()


AX = [(['b', 'a'], ['b', 'a']), (['b', 'a'], ['a', 'b']),
      (['b', 'a'], ['c', 'b']), (['a'], ['c', 'b']), (['b', 'a'], []),
      ([], []), ([], ['c', 'b']), (['a', 'b', 'c'], ['c', 'b'])]


def multi_cases(tier):
    for p, q in itertools.product(range(len(AX)), repeat=2):
        for j in itertools.product(JOINS, repeat=2):
            yield (p, q), j
    k = 4 if tier == 'quick' else len(AX)
    for p in itertools.product(range(k), repeat=3):
        for j in itertools.product(JOINS, repeat=3):
            yield p, j
    # 4d: equal, permuted or overlapping labels on every axis
    for p in itertools.product((0, 1, 7) if tier == 'quick' else
                               (0, 1, 2, 3, 7), repeat=4):
        for j in JOINS:
            yield p, (j,) * 4
        yield p, ('outer', 'inner', 'left', 'right')
        yield p, ('skip', 'right', 'outer', 'left')


def multi_run(ctx, case):
    rel, joins = case
    lab1 = [AX[r][0] for r in rel]
    lab2 = [AX[r][1] for r in rel]
    for dts in ('ff', 'if', 'fi', 'bO', 'Si') if len(rel) == 2 else ('fi',):
        m1 = mkm([len(l) for l in lab1], label=lab1, dt=dts[0])
        m2 = mkm([len(l) for l in lab2], label=lab2, dt=dts[1], start=70)
        j = list(joins)
        run_align(ctx, m1, m2, j, lay='C')
        if len(set(j)) == 1:
            run_align(ctx, m1, m2, j[0], lay='F')
            run_align(ctx, m1, m2, j[0], lay='N')
        if dts in ('if', 'fi'):
            run_align(ctx, m1, m2, j, cast=False)
    l1, l2 = mk(m1), mk(m2)
    check(la.isaligned(l1, l2) == (lab1 == lab2), 'isaligned')
    for ax in range(-len(rel), len(rel)):
        check(la.isaligned(l1, l2, ax) == (lab1[ax] == lab2[ax]),
              'isaligned axis')
        check(la.union(ax, l1, l2) == sorted(set(lab1[ax]) | set(lab2[ax])),
              'union axis %d' % ax)
        check(la.intersection(ax, l1, l2) ==
              sorted(set(lab1[ax]) & set(lab2[ax])), 'intersection %d' % ax)
        ctx.step(3)


def bad_cases(tier):
    for s1 in shapes([2, 2, 1]):
        for s2 in shapes([2, 2, 1]):
            yield (s1, s2)


def bad_run(ctx, case):
    s1, s2 = case
    l1, l2 = mk(mkm(s1)), mk(mkm(s2))
    ctx.state(case)
    for join in JOINS:
        if len(s1) != len(s2):
            raises(lambda: la.align(l1, l2, join=join), 'align %r' % (case,))
            ctx.step()
    if len(s1) == len(s2):
        raises(lambda: la.align(l1, l2, join='bad'), 'join bad')
        raises(lambda: la.align(l1, l2, join=['inner'] * (len(s1) + 1)),
               'join list too long')
        raises(lambda: la.align(l1, l2, join=3), 'join 3')
        ctx.step(3)


# align_axis ------------------------------------------------------------------

AXU = ['b', 'a', 'c']


def axis_cases(tier):
    labsets = [['b', 'a'], ['a', 'b'], ['c', 'a'], ['c'], [], ['a', 'b', 'c']]
    for join in ('inner', 'outer', 'left', 'right'):
        for n in (1, 2, 3):
            for ls in itertools.product(range(len(labsets)), repeat=n):
                if n == 3 and tier == 'quick' and \
                        len(set(ls)) == 3 and ls[0] > 3:
                    continue
                yield (join, [labsets[i] for i in ls])


ARR = [((None,), 0), ((None, 2), 0), ((2, None), 1), ((3, None), -1),
       ((None, 2), -2), ((2, None, 2), 1), ((1, 2, 1, None), 3),
       ((2, 1, None, 1), -2)]


def axis_run(ctx, case):
    join, ls = case
    n = len(ls)
    combos = list(itertools.product(range(len(ARR)), repeat=n))
    if n == 3:
        combos = [c for c in combos if c[0] in (0, 2) or c[1] == c[2]]
        combos = combos[:40]
    for combo in combos:
        for dt in ('f', 'i') if n < 3 else ('f',):
            ms = []
            axes = []
            for k, (c, lab) in enumerate(zip(combo, ls)):
                shp, ax = ARR[c]
                # the other axes carry labels that look like the joined ones
                label = [['a', 'z', 'q'][:s] if s else list(lab) for s in shp]
                ms.append(mkm([len(l) for l in label], label=label, dt=dt,
                              start=1 + 30 * k))
                axes.append(ax)
            if join == 'left':
                want = list(ls[0])
            elif join == 'right':
                want = list(ls[-1])
            elif join == 'inner':
                want = sorted(set.intersection(*[set(l) for l in ls]))
            else:
                want = sorted(set.union(*[set(l) for l in ls]))
            ws = [ref.morph(m, want, ax) for m, ax in zip(ms, axes)]
            lars = [mk(m) for m in ms]
            calls = [axes]
            if len(set(axes)) == 1:
                calls.append(axes[0])
            for axarg in calls:
                got = la.align_axis(lars, axarg, join)
                ctx.step()
                check(len(got) == n, 'align_axis returned %d' % len(got))
                for g, w, l, m in zip(got, ws, lars, ms):
                    same(g, w, 'align_axis(%r axis=%r join=%r)' %
                         ([x.label for x in ms], axarg, join),
                         dtype=bool(w.cells))
                    same(l, m, 'align_axis: operand changed')
            ctx.state((tuple([m.key() for m in ms]), tuple(axes), join))
    raises(lambda: la.align_axis(lars, axes, 'bad'), 'align_axis bad join')
    raises(lambda: la.align_axis(lars, [9] * n, join), 'align_axis bad axis')
    raises(lambda: la.align_axis([1] + lars[1:], [0] * n, join),
           'align_axis not larry')
    same(la.align_axis([lars[0]] * 2)[0] if ms[0].ndim == 1 else lars[0],
         ref.sortaxis(ms[0]) if ms[0].ndim == 1 else ms[0],
         'align_axis defaults')


def sets_cases(tier):
    subs = list(ordered_subsets(['b', 'a', 'c']))
    for a, b, c in itertools.product(subs, repeat=3):
        yield (a, b, c)


def sets_run(ctx, case):
    lars = [mk(mkm((len(l),), label=[l])) for l in case]
    ctx.state(repr(case))
    check(la.union(0, *lars) == sorted(set(sum(case, []))), 'union of 3')
    check(la.intersection(0, *lars) ==
          sorted(set(case[0]) & set(case[1]) & set(case[2])),
          'intersection of 3')
    for l, lab in zip(lars, case):
        check(l.label == [lab], 'labels changed by set functions')
    # larrys of different dimensions, the axis counted from either end
    other = ['q', 'p'], ['a', 'z', 'b']
    for nds in itertools.product((1, 2, 3), repeat=3):
        for ax in (0, -1):
            lars = []
            for k, l in zip(nds, case):
                lab = [list(z) for z in other[:k - 1]]
                lab.insert(0 if ax == 0 else k - 1, l)
                lars.append(larry(np.zeros([len(z) for z in lab]), lab))
            check(la.union(ax, *lars) == sorted(set(sum(case, []))),
                  lambda: 'union of axis %d of %dd, %dd and %dd' %
                  ((ax,) + nds))
            check(la.intersection(ax, *lars) ==
                  sorted(set(case[0]) & set(case[1]) & set(case[2])),
                  lambda: 'intersection of axis %d of %dd, %dd and %dd' %
                  ((ax,) + nds))
            ctx.step(2)
    lars = lars[:3]
    raises(lambda: la.union(0, lars[0], 3), 'union with int')
    raises(lambda: la.intersection(0, lars[0], 3), 'intersection with int')
    ctx.step(4)


def many_cases(tier):
    # where the odd one is among n larrys, and what is odd about it
    for n in (4, 5, 6, 7, 8, 9, 10, 16, 17, 33) + ((65, 129) if tier != 'quick'
                                                   else ()):
        for at in sorted(set([0, 1, 2, 3, n // 2, n - 2, n - 1])):
            for how in ('less', 'more', 'order', 'none', 'other'):
                yield n, at, how


def many_run(ctx, case):
    n, at, how = case
    base = ['b', 'a', 'c']
    odd = {'less': ['c', 'b'], 'more': ['c', 'a', 'b', 'd'],
           'order': ['c', 'b', 'a'], 'none': [], 'other': ['x', 'a']}[how]
    ls = [odd if i == at else base for i in range(n)]
    ctx.state(case)
    ms = [mkm((len(l), 2), label=[l, ['p', 'q']], start=1 + 7 * i)
          for i, l in enumerate(ls)]
    lars = [mk(m) for m in ms]
    for ax in (0, -2):
        check(la.union(ax, *lars) == sorted(set(base + odd)),
              lambda: 'union of %d' % n)
        check(la.intersection(ax, *lars) == sorted(set(base) & set(odd)),
              lambda: 'intersection of %d' % n)
    check(la.union(1, *lars) == ['p', 'q'], 'union of %d' % n)
    check(la.intersection(1, *lars) == ['p', 'q'], 'intersection of %d' % n)
    for join in ('inner', 'outer', 'left', 'right'):
        if join == 'left':
            want = list(ls[0])
        elif join == 'right':
            want = list(ls[-1])
        elif join == 'inner':
            want = sorted(set(base) & set(odd))
        else:
            want = sorted(set(base) | set(odd))
        got = la.align_axis(lars, 0, join)
        check(len(got) == n, 'align_axis returned %d' % len(got))
        for i in range(n):
            same(got[i], ref.morph(ms[i], want, 0), 'align_axis(%s) of %d, '
                 'the odd one at %d, result %d' % (join, n, at, i),
                 dtype=bool(want))
            same(lars[i], ms[i], 'align_axis changed its input')
        ctx.step(n)
    ctx.step(6)


def ladder_cases(tier):
    for n in (5, 8, 9, 10, 11, 16, 17, 33, 64, 65, 101, 128, 129, 256, 257,
              300, 513, 1001, 2049):
        for lk in 'isd':
            yield (n, lk)


def ladder_run(ctx, case):
    n, lk = case
    base = labs(lk, n + 3)
    rel = [(base[:n], base[3:]), (base[:n], base[:n][::-1]),
           (base[:n], sorted(base[:n])), (base[:n], base[:n]),
           (base[:n], base[1:n:2]), (base[:2], base), (base[:n], [])]
    for a, b in rel:
        for join in JOINS:
            m1 = mkm((len(a),), label=[a], dt='i')
            m2 = mkm((len(b),), label=[b], start=5)
            run_align(ctx, m1, m2, join)
            m1 = mkm((len(a), 2), label=[a, ['x', 'y']])
            m2 = mkm((len(b), 2), label=[b, ['y', 'x']], dt='i', start=5)
            if join != 'skip':
                run_align(ctx, m1, m2, join)


def typed_run(ctx, case):
    """Element types of every width"""
    y, p = widths.pair(case)
    ctx.state(case)
    for a, b in ((y, p), (p, y)):
        was = [widths.raw(z.x.ravel()) for z in (a, b)]
        for join in ('inner', 'outer', 'left', 'right'):
            lab = widths.joined(a, b, join)
            got = la.align(a, b, join)
            for g, z in zip(got, (a, b)):
                widths.alike(g, widths.spread(z, lab), [lab] + z.label[1:],
                             'align %s of %r' % (join, case),
                             dtype=bool(lab))
            ctx.step()
        check(was == [widths.raw(z.x.ravel()) for z in (a, b)], 'operands')


KINDS_OF_INT = [
    ('union', lambda y, a, I: la.union(a, y, y)),
    ('intersection', lambda y, a, I: la.intersection(a, y, y)),
    ('isaligned', lambda y, a, I: la.isaligned(y, y, a)),
    ('morph_like', lambda y, a, I: y.morph_like(y.flipaxis(a)))]

FAMILIES = [
    Family('pairs', pair_cases, pair_run,
           'every ordered subset of the universe against every other, every '
           'join, dtype pair and cast, 1d'),
    Family('axes', multi_cases, multi_run,
           'every combination of axis relations and joins, 2d and 3d'),
    Family('refused', bad_cases, bad_run, 'ndim mismatch, unknown joins'),
    Family('align_axis', axis_cases, axis_run,
           '1 to 3 larrys, every axis arrangement and join'),
    Family('sets', sets_cases, sets_run, 'union/intersection of 3 larrys'),
    Family('many larrys', many_cases, many_run, 'up to 33, one unlike the '
           'rest'),
    Family('ladder', ladder_cases, ladder_run, 'labels up to 2049 long'),
    Family('element types', widths.pair_cases, typed_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'label universe 3 per axis in 1d, 7 axis relations in 2d, '
                   '4 in 3d, up to 3 larrys',
          'thorough': 'label universe 4 in 1d, 7 axis relations in 3d'}
