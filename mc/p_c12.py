"""C12: merging is a union of labelled values, nothing is silently lost."""
import itertools
import numpy as np
import la
import widths
from core import Family, Fail, check
from model import M, mk, same, snap, raises, nan, inf, indices
import gen
from gen import mkm, labs, shapes, vals
import ref
from p_c02 import ordered_subsets
from p_c03 import AX

RANK = 'bjigf'


def promote(d1, d2):
    if d1 == d2:
        return d1
    if d1 in 'SO' or d2 in 'SO':
        return None
    a, b = sorted([d1, d2], key=RANK.index)
    if b == 'g' and a in 'ij':
        return 'f'
    return b


def cast(v, dt):
    if dt in 'fg':
        return float(v)
    if dt in 'ij':
        return int(v)
    return v


def merged(m1, m2):
    """(model, overlap) or None when the types cannot be merged."""
    if m1.ndim != m2.ndim:
        return None
    if promote(m1.dt, m2.dt) is None:
        return None
    a1, a2 = m1, m2
    for ax in range(m1.ndim):
        if m1.label[ax] != m2.label[ax]:
            lab = sorted(set(m1.label[ax]) | set(m2.label[ax]))
            a1 = ref.morph(a1, lab, ax)
            a2 = ref.morph(a2, lab, ax)
    overlap = False
    some = False
    out = []
    for v, w in zip(a1.cells, a2.cells):
        p = not ref.ismiss(v, a1.dt)
        q = not ref.ismiss(w, a2.dt)
        overlap = overlap or (p and q)
        some = some or q
        out.append(w if q else v)
    dt = promote(a1.dt, a2.dt) if some else a1.dt
    return M(a1.label, [cast(v, dt) for v in out], dt), overlap


def run_merge(ctx, m1, m2, lay='C'):
    ctx.state((m1.key(), m2.key()))
    want = merged(m1, m2)
    for update in (False, True, None):
        l1, l2 = mk(m1, lay), mk(m2, lay)
        what = 'merge(update=%r)' % update
        if update is None:
            call = lambda: l1.merge(l2)
        else:
            call = lambda: l1.merge(l2, update=update)
        ctx.step()
        if want is None:
            raises(call, what)
        elif want[1] and not update:
            e = raises(call, what + ' with overlap')
            check(isinstance(e, ValueError), '%s raised %r' % (what, e))
        else:
            got = call()
            same(got, want[0], what, dtype='exact' if want[0].cells
                 else False)
            ctx.outcome(want[0].key())
            check(not np.may_share_memory(got.x, l1.x) or not got.x.size,
                  what + ' shares memory with self')
            check(not np.may_share_memory(got.x, l2.x) or not got.x.size,
                  what + ' shares memory with other')
            for ax in range(got.ndim):
                check(got.label[ax] is not l1.label[ax] and
                      got.label[ax] is not l2.label[ax],
                      what + ' shares labels')
        same(l1, m1, what + ': self changed', dtype='exact')
        same(l2, m2, what + ': other changed', dtype='exact')


MISSV = {'f': nan, 'g': nan, 'S': '', 'O': None}


def pat(n, dt, mask, start):
    c = vals(n, dt, start)
    if dt in MISSV:
        c = [MISSV[dt] if p else v for v, p in zip(c, mask)]
    return c


def pair_cases(tier):
    u = ['b', 'a', 'c'] if tier == 'quick' else ['b', 'a', 'c', 'd']
    for a in ordered_subsets(u):
        for b in ordered_subsets(u):
            yield a, b
    for u in (['2', 2, 10], ['a', 'A', 'a ']):
        for a in ordered_subsets(u):
            for b in ordered_subsets(u):
                yield a, b


def pair_run(ctx, case):
    a, b = case
    for p1 in itertools.product((0, 1), repeat=len(a)):
        for p2 in itertools.product((0, 1), repeat=len(b)):
            for dts in ('ff', 'OO', 'SS', 'fi', 'if'):
                if 'i' in dts and sum(p1 if dts[0] == 'i' else p2):
                    continue
                m1 = M([a], pat(len(a), dts[0], p1, 1), dts[0])
                m2 = M([b], pat(len(b), dts[1], p2, 9), dts[1])
                run_merge(ctx, m1, m2)
    for dts in ('ii', 'bi', 'ib', 'bb', 'gf', 'fg', 'ji', 'Sf', 'fS', 'SO',
                'OS', 'Of', 'iO', 'bS', 'gi', 'jf'):
        for p1 in ([0] * len(a), [1] * len(a), ([1, 0, 0, 1])[:len(a)]):
            m1 = M([a], pat(len(a), dts[0], p1, 1), dts[0])
            m2 = M([b], pat(len(b), dts[1], [0] * len(b), 9), dts[1])
            run_merge(ctx, m1, m2)


def axes_cases(tier):
    for p in itertools.product(range(len(AX)), repeat=2):
        for lay in 'CFRN':
            yield p, lay
    k = 4 if tier == 'quick' else len(AX)
    for p in itertools.product(range(k), repeat=3):
        yield p, 'C'
    for p in itertools.product(range(3), repeat=4):
        if tier != 'quick' or len(set(p)) < 3:
            yield p, 'C'


def axes_run(ctx, case):
    rel, lay = case
    lab1 = [AX[r][0] for r in rel]
    lab2 = [AX[r][1] for r in rel]
    s1 = [len(l) for l in lab1]
    s2 = [len(l) for l in lab2]
    n1 = n2 = 1
    for k in s1:
        n1 *= k
    for k in s2:
        n2 *= k
    pats1 = [[0] * n1, [1] * n1, [k % 2 for k in range(n1)]]
    pats1 += [[int(k == j) for k in range(n1)] for j in range(n1)]
    pats2 = [[0] * n2, [1] * n2, [(k + 1) % 2 for k in range(n2)]]
    pats2 += [[int(k != j) for k in range(n2)] for j in range(n2)]
    for p1 in pats1:
        for p2 in pats2:
            for dts in ('ff', 'OO') if lay == 'C' and len(rel) < 3 \
                    else ('ff',):
                m1 = M(lab1, pat(n1, dts[0], p1, 1), dts[0])
                m2 = M(lab2, pat(n2, dts[1], p2, 70), dts[1])
                run_merge(ctx, m1, m2, lay)
    for dts in ('if', 'fi', 'SS'):
        m1 = M(lab1, pat(n1, dts[0], pats1[2], 1), dts[0])
        m2 = M(lab2, pat(n2, dts[1], pats2[2], 70), dts[1])
        run_merge(ctx, m1, m2, lay)


def width_cases(tier):
    for a in ('', 'x', 'longer string'):
        for b in ('', 'y', 'a much longer string than that'):
            for rel in ('same', 'diff'):
                yield a, b, rel


def width_run(ctx, case):
    """String larrys whose itemsizes differ: nothing may be cut off."""
    a, b, rel = case
    l1 = ['p', 'q']
    l2 = l1 if rel == 'same' else ['q', 'r']
    for c1, c2 in (([a, ''], ['', b]), (['', a], [b, '']), ([a, a], ['', b])):
        m1, m2 = M([l1], c1, 'S'), M([l2], c2, 'S')
        ctx.state((m1.key(), m2.key()))
        for update in (False, True):
            w, over = merged(m1, m2)
            y1 = la.larry(np.array(c1), [list(l1)])
            y2 = la.larry(np.array(c2), [list(l2)])
            ctx.step()
            if over and not update:
                raises(lambda: y1.merge(y2), 'overlap')
            else:
                same(y1.merge(y2, update=update), w, 'merge of strings')


def history_cases(tier):
    """Chains of merges: every order of four pieces."""
    for order in itertools.permutations(range(4)):
        for upd in itertools.product((False, True), repeat=3):
            yield order, upd


PIECES = [M([['a', 'b'], ['x', 'y']], [1.0, nan, nan, 2.0]),
          M([['b', 'c'], ['y', 'x']], [nan, 3.0, 4.0, nan]),
          M([['a'], ['z', 'y']], [5.0, 6.0]),
          M([['b', 'a'], ['x', 'y']], [nan, 7.0, nan, nan])]


def history_run(ctx, case):
    order, upd = case
    lars = [mk(p) for p in PIECES]
    m = PIECES[order[0]]
    y = lars[order[0]]
    for k, u in zip(order[1:], upd):
        w, over = merged(m, PIECES[k])
        ctx.step()
        if over and not u:
            raises(lambda: y.merge(lars[k], update=u), 'overlap')
            continue
        y = y.merge(lars[k], update=u)
        m = w
        same(y, m, 'merge chain %r' % (case,))
        ctx.state(m.key())
    for l, p in zip(lars, PIECES):
        same(l, p, 'merge chain changed a piece')


def inf_cases(tier):
    pool = (1.5, nan, inf, -inf)
    for rel in (['a', 'b'], ['b', 'a'], ['b', 'c'], ['c', 'd']):
        for v in itertools.product(pool, repeat=2):
            for w in itertools.product(pool, repeat=2):
                yield tuple(rel), v, w


def inf_run(ctx, case):
    """An overlap is, as documented, a finite value in both"""
    rel, v, w = case
    m1 = M([['a', 'b']], list(v), 'f')
    m2 = M([list(rel)], [2.0 * x for x in w], 'f')
    ctx.state(repr(case))
    fin = lambda x: x - x == 0
    lab = ['a', 'b'] if list(rel) == ['a', 'b'] else sorted(
        set(['a', 'b']) | set(rel))
    one = dict(zip('ab', v))
    two = dict(zip(rel, m2.cells))
    over = [l for l in lab if fin(one.get(l, nan)) and fin(two.get(l, nan))]
    for update in (False, True):
        l1, l2 = mk(m1), mk(m2)
        what = 'merge(%r, update=%r) of %r' % (m2, update, m1)
        ctx.step()
        if over and not update:
            e = raises(lambda: l1.merge(l2), what)
            check(isinstance(e, ValueError), '%s raised %r' % (what, e))
        else:
            got = snap(l1.merge(l2, update=update))
            check(got.label == [lab], lambda: '%s: %r' % (what, got))
            for l, x in zip(lab, got.cells):
                a, b = one.get(l, nan), two.get(l, nan)
                if fin(b) or fin(a):
                    ok = x == (b if fin(b) else a)
                else:
                    ok = not fin(x) and (x != x or x in (a, b))
                check(ok, lambda: '%s: %r under %r' % (what, x, l))
        same(l1, m1, what + ' operand 1')
        same(l2, m2, what + ' operand 2')


def bad_cases(tier):
    for s1 in shapes([2, 2, 1]):
        for s2 in shapes([2, 2, 1]):
            if len(s1) != len(s2):
                yield s1, s2


def bad_run(ctx, case):
    s1, s2 = case
    run_merge(ctx, mkm(s1), mkm(s2))


def ladder_cases(tier):
    for n in (5, 8, 9, 16, 17, 33, 64, 65, 101, 128, 257, 513, 1001):
        for lk in 'is':
            yield n, lk


def ladder_run(ctx, case):
    n, lk = case
    u = labs(lk, n + 3)
    for a, b in ((u[:n], u[3:]), (u[:n], u[:n][::-1]), (u[:n], u[:n]),
                 (u[:3], u[3:]), (u[::2], u[1::2])):
        for k in (0, 1, 2) if n > 20 else (0, 1, 2, 3):
            m1 = M([a], pat(len(a), 'f', [(i + k) % 2 for i in range(len(a))],
                            1), 'f')
            m2 = M([b], pat(len(b), 'f', [(i + k // 2) % 2
                                          for i in range(len(b))], 5), 'f')
            run_merge(ctx, m1, m2)
    # sorted labels of which those of the second fall between
    w = sorted(u)
    for a, b in ((w[:n], w[1::2]), (w[::2], w[1::2]), (w[::2], w[1:4]),
                 (w[:2] + w[3:], w[2:3]), (w[1:], w[:1]), (w[2:], w[:2][::-1]),
                 (w[:n], w[n:]), (w[3:][::-1], w[:3])):
        run_merge(ctx, M([a], vals(len(a), 'f', 1), 'f'),
                  M([b], [nan] * len(b), 'f'))
        run_merge(ctx, M([a], [nan] * len(a), 'f'),
                  M([b], vals(len(b), 'f', 1), 'f'))
    # a single overlapping cell, anywhere
    for k in sorted(set([0, 1, n // 2, n - 2, n - 1])):
        for rev in (1, -1):
            m1 = M([u[:n]], vals(n, 'f', 1), 'f')
            m2 = M([u[:n][::rev]], [7.5 if i == k else nan for i in range(n)],
                   'f')
            run_merge(ctx, m1, m2)
            run_merge(ctx, m2, m1)
    if n <= 257:
        for k in (0, n // 2, n - 1):
            m1 = M([u[:n], ['p', 'q']], vals(2 * n, 'f', 1), 'f')
            for j in (0, 1):
                c = [nan] * (2 * n)
                c[2 * k + j] = 7.5
                m2 = M([u[:n], ['p', 'q']], c, 'f')
                run_merge(ctx, m1, m2)
                run_merge(ctx, m1.permute([1, 0]), m2.permute([1, 0]))


def typed_run(ctx, case):
    """Element types of every width: no value is bent by the merged type"""
    y, p = widths.pair(case)
    ctx.state(case)
    kinds = y.x.dtype.kind + p.x.dtype.kind
    if 'O' not in kinds and 'S' not in kinds:
        # values that every type holds, none missing but the last
        for k, z in ((1, y), (4, p)):
            z.x[...] = np.arange(k, k + z.x.size).reshape(z.x.shape) % 100
            if z.x.dtype.kind == 'b':
                z.x[...] = np.arange(z.x.size).reshape(z.x.shape) % 2 == 0
            elif z.x.dtype.kind in 'fc':
                z.x[0] = np.nan
            elif k == 4 and z.x.dtype.kind in 'iu':
                z.x[-1] = min(np.iinfo(z.x.dtype).max, 2 ** 53)
    for a, b in ((y, p), (p, y)):
        lab = widths.joined(a, b, 'outer')
        u, v = widths.spread(a, lab), widths.spread(b, lab)
        kind = np.promote_types(u.dtype, v.dtype).kind
        cells = []
        overlap = False
        for c, d in zip(u.ravel().tolist(), v.ravel().tolist()):
            m1 = c is None or c == '' or c != c
            m2 = d is None or d == '' or d != d
            overlap = overlap or not (m1 or m2)
            cells.append(c if m2 else d)
        try:
            got = a.merge(b)
            check(not overlap, lambda: 'the overlap is not refused: %r' %
                  (case,))
        except ValueError:
            check(overlap, lambda: 'refused: %r' % (case,))
        got = a.merge(b, update=True)
        want = np.empty(u.size, object)
        want[:] = cells
        widths.alike(got, want.reshape(u.shape), [lab] + a.label[1:],
                     'merge of %r' % (case,), dtype=False)
        ctx.step(2)


FAMILIES = [
    Family('pairs', pair_cases, pair_run,
           'every pair of ordered label subsets with every missing pattern'),
    Family('axes', axes_cases, axes_run, 'axis relations in 2d and 3d'),
    Family('strings', width_cases, width_run, 'strings of different widths'),
    Family('history', history_cases, history_run,
           'every order of merging four pieces, with and without update'),
    Family('infinite', inf_cases, inf_run),
    Family('ndim', bad_cases, bad_run, 'different numbers of dimensions'),
    Family('ladder', ladder_cases, ladder_run, 'labels up to 1004 long'),
    Family('element types', widths.pair_cases, typed_run),
]
BOUNDS = {'quick': 'label universe 3 with all missing patterns; 7 axis '
                   'relations in 2d, 4 in 3d',
          'thorough': 'label universe 4; 7 relations in 3d'}
