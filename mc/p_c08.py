"""C08: positional indexing selects NumPy's cells and the matching labels."""
import itertools
import numpy as np
from la import larry
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, wellformed, kind
import gen
import widths
from gen import mkm, labs, shapes
from grammar import token, tokens, small, typed, REFUSE


def expect(m, sel):
    """sel: one entry per axis, int or list of positions."""
    out = m.select([[s] if isinstance(s, int) else s for s in sel])
    if all([isinstance(s, int) for s in sel]):
        return out.cells[0]
    return M([l for l, s in zip(out.label, sel) if not isinstance(s, int)],
             out.cells, m.dt)


def isseq(tok):
    return tok[0] in 'ltamLk'


def one(ctx, m, y, toks, bare):
    """toks: tokens of the leading axes. bare: index without a tuple."""
    what = '%r of %r' % (toks, m)
    objs = []
    sel = []
    for ax, t in enumerate(toks):
        if ax >= m.ndim:
            objs.append(0)
            sel.append(REFUSE)
            continue
        o, p = token(t, m.label[ax])
        objs.append(o)
        sel.append(p)
    index = objs[0] if bare else tuple(objs)
    sel += [range(n) for n in m.shape[len(toks):]]
    refuse = REFUSE in sel or len([t for t in toks if isseq(t)]) > 1
    ctx.step()
    if refuse:
        if len([t for t in toks if isseq(t)]) > 1 and REFUSE not in sel:
            # NumPy would pair the sequences; there are no labels for that.
            # The rectangle would be right too; anything else is wrong.
            try:
                r = y[index]
            except Exception:
                ctx.outcome('refused')
                return
            same(r, expect(m, sel), 'y[%s]' % what, dtype='exact')
            return
        raises(lambda: y[index], 'y[%s]' % what)
        ctx.outcome('refused')
        return
    r = y[index]
    want = expect(m, sel)
    same(r, want, 'y[%s]' % what, dtype='exact')
    if not isinstance(want, M) and m.dt != 'O':
        check(not isinstance(r, np.ndarray) and kind(np.asarray(r).dtype) ==
              m.dt, lambda: 'y[%s]: element is a %r' % (what, type(r)))
    ctx.outcome(repr(want))


LKS = 'sdimt'


def d1_cases(tier):
    top = 4 if tier == 'quick' else 6
    for n in range(top + 1):
        for lk in LKS:
            if lk in 'mt' and n > 4:
                continue
            for lay in 'CRN':
                for dt in 'fibSOc':
                    if lay != 'C' and dt not in 'fS':
                        continue
                    yield n, lk, lay, dt


def d1_run(ctx, case):
    n, lk, lay, dt = case
    m = mkm((n,), lk, dt)
    ctx.state(m.key())
    y = mk(m, lay)
    for t in tokens(n):
        one(ctx, m, y, (t,), True)
        one(ctx, m, y, (t,), False)
        one(ctx, m, y, (t, ('i', 0, 'int')), False)
    same_snap(snap(y), m, 'indexing changed the larry')


def d2_cases(tier):
    top = 3 if tier == 'quick' else 4
    for s in itertools.product(range(top + 1), repeat=2):
        for i, t in enumerate(tokens(s[0], tier != 'quick')):
            yield s, t


def d2_run(ctx, case):
    s, t = case
    m = mkm(s, 'sd')
    ctx.state((m.key(), t))
    y = mk(m)
    one(ctx, m, y, (t,), True)
    one(ctx, m, y, (t,), False)
    one(ctx, m, y, (t, ('s', None, None, None), ('i', 0, 'int')), False)
    for u in tokens(s[1], False):
        one(ctx, m, y, (t, u), False)
    same_snap(snap(y), m, 'indexing changed the larry')


D3 = [(2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1), (2, 0, 2), (0, 1, 2),
      (3, 2, 2)]


def d3_cases(tier):
    for s in D3 if tier == 'quick' else D3 + [(3, 3, 3), (2, 4, 2)]:
        for lay in 'CF' if tier == 'quick' else 'CFRN':
            for t in small(s[0]):
                yield s, lay, t


def d3_run(ctx, case):
    s, lay, t = case
    m = mkm(s, 'sid')
    ctx.state((m.key(), t, lay))
    y = mk(m, lay)
    one(ctx, m, y, (t,), True)
    one(ctx, m, y, (t,), False)
    for u in small(s[1]):
        one(ctx, m, y, (t, u), False)
        for v in small(s[2]):
            one(ctx, m, y, (t, u, v), False)


def d2lay_cases(tier):
    for s in [(2, 2), (3, 2), (2, 3), (1, 3), (3, 1), (4, 4)]:
        for lay in 'CFRN':
            for dt in 'fgijbSOc':
                yield s, lay, dt


def d2lay_run(ctx, case):
    s, lay, dt = case
    m = mkm(s, 'is', dt)
    ctx.state((m.key(), lay))
    y = mk(m, lay)
    for t in small(s[0]):
        one(ctx, m, y, (t,), True)
        for u in small(s[1]):
            one(ctx, m, y, (t, u), False)


def d4_run(ctx, case):
    s, t = case
    m = mkm(s, 'isif')
    ctx.state((m.key(), t))
    y = mk(m)
    sm = [[x for x in small(k) if x[0] != 'x'][::2] for k in s]
    for u in itertools.product(*sm[1:]):
        one(ctx, m, y, (t,) + u, False)
    # every token on each axis next to whole axes and to a scalar
    for ax in range(1, 4):
        for w in tokens(s[ax], False):
            for v in (('s', None, None, None), ('i', s[0] - 1, 'int')):
                u = [v] * 4
                u[0] = t
                u[ax] = w
                if v[0] == 's' or min(s) > s[0] - 1:
                    one(ctx, m, y, tuple(u), False)


def d4_cases(tier):
    for s in [(2, 2, 2, 2), (2, 1, 2, 3), (3, 2, 1, 2), (1, 2, 3, 4)]:
        for t in small(s[0]):
            yield s, t


SIZES = [5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128,
         129, 255, 256, 257, 513, 1000, 1001, 1025]


BIG = [s * 2 ** k + d for k in (31, 32, 62, 63, 64) for s in (1, -1)
       for d in (0, 1)]


def ladder_cases(tier):
    for n in SIZES + ([2049, 4097] if tier != 'quick' else []):
        for other in (None, 1, 3):
            for lk in 'sdi':
                yield n, other, lk


def ladder_run(ctx, case):
    n, other, lk = case
    s = (n,) if other is None else (n, other)
    m = mkm(s, lk + 's'[:len(s) - 1])
    ctx.state(m.key())
    y = mk(m)
    toks = [('i', v, 'int') for v in (0, n - 1, -1, -n, n // 2, n, -n - 1)]
    toks += [('s', None, None, -1), ('s', None, None, 2), ('s', n // 2, None,
             None), ('s', 1, -1, 3), ('s', None, None, None)]
    for v in BIG:
        toks += [('i', v, 'int'), ('l', (0, v))]
        if abs(v) < 2 ** 63:
            # (NumPy 1.8 refuses slices whose ends do not fit in 64 bits)
            toks += [('s', None, v, None), ('s', v, None, None),
                     ('s', v, -v, None)]
    half = tuple(range(0, n, 2))
    rev = tuple(range(n)[::-1])
    mix = tuple([(i * 7 + 3) % n for i in range(n)])
    for p in (half, rev, mix, rev[:3], rev + (0,)):
        toks.append(('l', p))
        toks.append(('a', p, 'int64'))
    for q in (2, 3, n):
        mask = tuple([i % q == 0 for i in range(n)])
        toks.append(('m', mask))
        toks.append(('L', mask, 'ok'))
        toks.append(('L', mask, 'rev'))
        toks.append(('L', mask, 'other'))
    for t in toks:
        one(ctx, m, y, (t,), True)
        one(ctx, m, y, (t,), False)
        if other:
            one(ctx, m, y, (t, ('i', other - 1, 'int')), False)
            one(ctx, m, y, (t, ('s', None, None, -1)), False)
            mt = M([m.label[1], m.label[0]], [m.at((j, i)) for i in
                   range(other) for j in range(n)], m.dt)
            one(ctx, mt, mk(mt), (('i', 0, 'int'), t), False)


# label kinds for which == and identity differ between positions
def hist_cases(tier):
    for n in (2, 3, 4):
        for t in tokens(n, False):
            yield n, t


def hist_run(ctx, case):
    """The same index object on the same larry again, after the first result
    was modified and after other larrys were indexed with it."""
    n, t = case
    m = mkm((n, 2), 'si')
    m2 = mkm((n, 2), 'di', start=50)
    m3 = mkm((n + 1, 2), 'si', start=90)
    y, y2, y3 = mk(m), mk(m2), mk(m3)
    ctx.state((m.key(), t))
    for q in (m, m2, m3, m2, m):
        one(ctx, q, {id(m): y, id(m2): y2, id(m3): y3}[id(q)], (t,), True)
    o, p = token(t, m.label[0])
    if p == REFUSE:
        return
    for index in (o, (o,), (o, slice(None))):
        r = y[index]
        try:
            r = r.copy()
            r.x[...] = -5
            r.label[-1].reverse()
        except (AttributeError, ValueError):
            pass
        same(y[index], expect(m, [p, range(2)]), 'second y[%r]' % (index,))
        ctx.step()
    # chained indexing equals indexing once
    if not isinstance(p, int):
        r = y[o]
        for k in range(len(p)):
            same(r[k], expect(m, [p[k], range(2)]), 'y[%r][%d]' % (o, k))
            same(r[k, 1], m.at((p[k], 1)), 'y[%r][%d, 1]' % (o, k))
            ctx.step()


def ints_cases(tier):
    for n in (0, 1, 2, 3, 4):
        for t in typed(n):
            yield n, t


def ints_run(ctx, case):
    n, t = case
    m = mkm((n,), 's')
    ctx.state((m.key(), t))
    y = mk(m)
    one(ctx, m, y, (t,), True)
    one(ctx, m, y, (t,), False)
    m = mkm((n, 3), 'si')
    y = mk(m)
    one(ctx, m, y, (t,), True)
    one(ctx, m, y, (t, ('i', -1, 'int')), False)
    one(ctx, m, y, (t, ('s', None, None, -1)), False)
    m = mkm((2, n), 'si')
    one(ctx, m, mk(m), (('s', 1, None, None), t), False)
    one(ctx, m, mk(m), (('i', 1, 'i1'), t), False)


# element types of every width
TYPED = [
    ('take', lambda y, a: y.take([y.shape[a] - 1, 0], a)),
    ('int', lambda y, a: y[widths.sl(a, -1)]),
    ('slice', lambda y, a: y[widths.sl(a, slice(None, None, -1))]),
    ('list', lambda y, a: y[widths.sl(a, [0, 1])]),
    ('array', lambda y, a: y[widths.sl(a, np.array([-1]))]),
    ('mask', lambda y, a: y[np.arange(y.shape[0]) % 2 == 0]),
    ('cell', lambda y, a: y[(0,) * y.ndim]),
]


def typed_run(ctx, case):
    widths.keep_run(ctx, case, TYPED)


FAMILIES = [
    Family('integer types', ints_cases, ints_run,
           'the integers of an index are of every type'),
    Family('one axis', d1_cases, d1_run, 'full token grammar, 1d'),
    Family('two axes', d2_cases, d2_run, 'all pairs of tokens'),
    Family('three axes', d3_cases, d3_run, 'all triples of small tokens'),
    Family('four axes', d4_cases, d4_run),
    Family('layouts', d2lay_cases, d2lay_run,
           'memory layouts and dtypes, pairs of small tokens'),
    Family('sizes', ladder_cases, ladder_run, 'size ladder'),
    Family('histories', hist_cases, hist_run, 'repeated and chained indexing'),
    Family('element types, moved', widths.keep_cases, typed_run)]
BOUNDS = {'quick': '1d n<=4 full grammar (all ints, slices with ends in '
                   '-n-2..n+2 and steps +-1..3, all position lists, all '
                   'masks); 2d n<=3 all pairs; 3d all triples of 27 tokens '
                   'on 7 shapes; 4d; sizes up to 1025',
          'thorough': '1d n<=6, 2d n<=4 with the full grammar on axis 0, '
                      '3d 9 shapes x 4 layouts; sizes up to 4097'}
ASSUMPTIONS = ['bool and float scalars, lists of bools and Ellipsis-free '
               'multi-sequence pairing are outside the index alphabet']
