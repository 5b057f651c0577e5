"""C02: rearranging or subsetting keeps every value under its labels."""
import numpy as np
import itertools
import la
from core import Family, Fail, check
from model import M, mk, snap, same, raises, wellformed, nan
import axkinds
import gen
import widths
from gen import mkm, labs, shapes
import ref

LAYOUTS = 'CFRN'


def all_shapes(tier):
    return shapes([5, 3, 2]) if tier == 'quick' else shapes([7, 4, 3])


SHAPES4 = [(2, 2, 2, 2), (2, 1, 3, 2), (1, 2, 2, 3), (3, 2, 1, 2),
           (2, 0, 2, 1)]


def rearr_cases(tier):
    for s in SHAPES4:
        for lk, dt, lay in (('s', 'f', 'C'), ('i', 'i', 'F'), ('s', 'f', 'R'),
                            ('s', 'O', 'N'), ('i', 'g', 'C')):
            yield (s, lk, dt, lay)
    if tier != 'quick':
        for s in ((2, 2, 2, 2, 2), (1, 2, 1, 3, 2)):
            for lk, dt, lay in (('s', 'f', 'C'), ('i', 'i', 'F')):
                yield (s, lk, dt, lay)
    for s in all_shapes(tier):
        for lk in ('i', 's', 'd', 'f', 'm', 't'):
            for dt in 'fibSOg':
                for lay in LAYOUTS:
                    if lay != 'C' and lk not in 'is' and tier == 'quick':
                        continue
                    yield (s, lk, dt, lay)


def axes_of(nd):
    return range(-nd, nd)


def rearr_run(ctx, case):
    s, lk, dt, lay = case
    if lk == 'm' and max(s) > 5 or lk == 't' and max(s) > 4:
        return
    m = mkm(s, lk, dt)
    ctx.state(m.key())
    nd = len(s)
    def do(f, want, what, **kw):
        y = mk(m, lay)
        got = f(y)
        same(got, want, what, dtype='exact', **kw)
        ctx.step()
        ctx.outcome(repr(want))
        same(y, m, what + ': operand')
    do(lambda y: y.copy(), m, 'copy')
    do(lambda y: +y, m, '+y')
    do(lambda y: y.T, ref.transpose(m), 'T')
    for ax in [None] + axes_of(nd):
        do(lambda y: y.flipaxis(ax), ref.flipaxis(m, ax), 'flipaxis %r' % ax)
        for rev in (False, True):
            do(lambda y: y.sortaxis(ax, reverse=rev),
               ref.sortaxis(m, ax, rev), 'sortaxis %r %r' % (ax, rev))
        y = mk(m, lay)
        z = y.flipaxis(ax, copy=False)
        check(z is y, 'flipaxis(copy=False) returned another object')
        same(y, ref.flipaxis(m, ax), 'flipaxis(%r, copy=False)' % ax)
        ctx.step()
    for a in axes_of(nd):
        for b in axes_of(nd):
            do(lambda y: y.swapaxes(a, b), ref.swapaxes(m, a, b),
               'swapaxes %d %d' % (a, b))
    for ax in range(-nd - 1, nd + 1):
        do(lambda y: y.insertaxis(ax, 'NEW'), ref.insertaxis(m, ax, 'NEW'),
           'insertaxis %d' % ax)
    if [n for n in s if n != 1]:
        do(lambda y: y.squeeze(), ref.squeeze(m), 'squeeze')
    for o in 'CF':
        do(lambda y: y.flatten(o), ref.flatten(m, o), 'flatten ' + o)
    for ax in axes_of(nd):
        n = s[ax]
        for k in range(-n - 1, n + 2):
            do(lambda y: y.lag(k, ax), ref.lag(m, k, ax),
               'lag %d axis %d' % (k, ax))
    do(lambda y: y.lag(1), ref.lag(m, 1, -1), 'lag 1 default axis')
    do(lambda y: y.sortaxis(), ref.sortaxis(m), 'sortaxis()')
    do(lambda y: y.flipaxis(), ref.flipaxis(m), 'flipaxis()')
    do(lambda y: y.flatten(), ref.flatten(m), 'flatten()')
    f = lambda l: ('x', l)
    for ax in [None] + axes_of(nd):
        do(lambda y: y.maplabel(f, ax), ref.maplabel(m, f, ax),
           'maplabel %r' % ax)
        y = mk(m, lay)
        z = y.maplabel(f, ax, copy=False)
        same(y, ref.maplabel(m, f, ax), 'maplabel(%r, copy=False)' % ax)
        check(z is y, 'maplabel(copy=False) returned another object')
        ctx.step()
    # the copy functions
    y = mk(m, lay)
    check(y.copylabel() == m.label, 'copylabel')
    check(la.larry(y.copyx(), y.copylabel()) is not None, 'copyx')
    same(la.larry(y.copyx(), y.copylabel()), m, 'copyx')
    same(la.larry(y.getx(), y.copylabel()), m, 'getx')
    ctx.step(3)
    # unflatten returns sorted labels, float values
    if dt in 'fgi' and len(m.cells):
        for o in 'CF':
            want = ref.castf(ref.sortaxis(m))
            same(mk(m, lay).flatten(o).unflatten(), want, 'unflatten ' + o)
            ctx.step()
    # casting
    if dt in 'fgib':
        for to in ('f', 'g', 'i', 'b', 'O'):
            conv = {'f': float, 'g': lambda v: float(np.float32(v)), 'i': int, 'b': bool,
                    'O': lambda v: v}[to]
            import model
            got = mk(m, lay).astype(model.DT[to])
            same(got, m.map(conv, to), 'astype ' + to, dtype='exact')
            ctx.step()


def perm_cases(tier):
    mx = 4 if tier == 'quick' else 6
    for n in range(mx + 1):
        for lk in 'isfd':
            for p in itertools.permutations(range(n)):
                yield ((p,), lk)
    k = 3 if tier == 'quick' else 4
    for n1 in range(k + 1):
        for n2 in range(k + 1):
            for p in itertools.permutations(range(n1)):
                for q in itertools.permutations(range(n2)):
                    for lk in ('ii', 'si'):
                        yield ((p, q), lk)
    for p in itertools.product(itertools.permutations(range(2)),
                               itertools.permutations(range(3)),
                               itertools.permutations(range(2))):
        yield (p, 'isd')


def perm_run(ctx, case):
    perms, lk = case
    label = [[sorted(labs(k, len(p)))[i] for i in p]
             for k, p in zip(lk, perms)]
    s = [len(p) for p in perms]
    for dt in 'fi':
        m = mkm(s, label=label, dt=dt)
        ctx.state(m.key())
        for ax in [None] + axes_of(len(s)):
            for rev in (False, True):
                same(mk(m).sortaxis(ax, rev), ref.sortaxis(m, ax, rev),
                     'sortaxis %r %r of %r' % (ax, rev, label))
                ctx.step()
        for ax in axes_of(len(s)):
            srt = sorted(label[ax])
            for want in (srt, srt[::-1], srt[1:], srt[:-1]):
                same(mk(m).morph(want, ax), ref.morph(m, want, ax),
                     'morph %r axis %d of %r' % (want, ax, label),
                     dtype=len(want) > 0)
                ctx.step()
        if m.cells:
            for o in 'CF':
                same(mk(m).flatten(o).unflatten(), ref.castf(ref.sortaxis(m)),
                     'flatten %s/unflatten of %r' % (o, label))
                ctx.step()


def ordered_subsets(u):
    for k in range(len(u) + 1):
        for p in itertools.permutations(u, k):
            yield list(p)


UNIV = {'s': ['b', 'a', 'c', 'd'], 'i': [2, 0, 3, 1], 'q': ['2', 2, 10],
        'w': ['a', 'A', 'a ']}


def morph_cases(tier):
    n = 4
    for lk in 'siqw':
        u = UNIV[lk][:n]
        for src in ordered_subsets(u):
            for dst in ordered_subsets(u):
                yield (lk, src, dst)


def morph_run(ctx, case):
    lk, src, dst = case
    for dt in 'fibSOgj':
        for shape, ax in (((len(src),), 0), ((len(src),), -1),
                          ((2, len(src)), 1), ((len(src), 2), 0),
                          ((len(src), 1), -2), ((2, len(src), 2), 1),
                          ((0, len(src)), -1)):
            if dt not in 'fi' and len(shape) > 2:
                continue
            label = [labs('d', n) for n in shape]
            label[ax] = src
            m = mkm(shape, label=label, dt=dt)
            ctx.state((m.key(), ax))
            want = ref.morph(m, dst, ax)
            got = mk(m).morph(dst, ax)
            same(got, want, 'morph(%r, %d)' % (dst, ax),
                 dtype=len(want.cells) > 0)
            ctx.step()
            ctx.outcome(repr(want))
    # duplicates in the requested label are refused
    if dst and src:
        m = mkm((len(src),), label=[src])
        raises(lambda: mk(m).morph(dst + dst[:1], 0),
               'morph to duplicate labels %r' % (dst + dst[:1]))
        ctx.step()


def morphlike_cases(tier):
    u = ['b', 'a', 'c']
    subs = list(ordered_subsets(u))
    for a in subs:
        for b in subs:
            yield (a, b)


def morphlike_run(ctx, case):
    a, b = case
    others = [(['x', 'y'], ['x', 'y']), (['x', 'y'], ['y', 'x']),
              (['x'], ['y', 'x']), (['y'], ['x'])]
    for dt in 'fiO':
        m1 = mkm((len(a),), label=[a], dt=dt)
        m2 = mkm((len(b),), label=[b], start=50)
        same(mk(m1).morph_like(mk(m2)), ref.morph_like(m1, m2), 'morph_like',
             dtype=bool(b))
        ctx.state((m1.key(), m2.key()))
        ctx.step()
        for c, d in others:
            m1 = mkm((len(a), len(c)), label=[a, c], dt=dt)
            m2 = mkm((len(b), len(d)), label=[b, d], start=50)
            want = ref.morph_like(m1, m2)
            same(mk(m1).morph_like(mk(m2)), want, 'morph_like',
                 dtype=bool(want.cells))
            m1 = mkm((len(c), len(a)), label=[c, a], dt=dt)
            m2 = mkm((len(d), len(b)), label=[d, b], start=50)
            want = ref.morph_like(m1, m2)
            same(mk(m1).morph_like(mk(m2)), want, 'morph_like',
                 dtype=bool(want.cells))
            ctx.state((m1.key(), m2.key()))
            ctx.step(2)


def take_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for k in range(0, n + 1):
            for ix in itertools.product(range(-n, n), repeat=k):
                yield (n, ix)


def take_run(ctx, case):
    n, ix = case
    import numpy as np
    dup = len(set([i % n for i in ix])) != len(ix)
    for shape, ax in (((n,), 0), ((2, n), 1), ((n, 2), -2), ((2, n, 2), 1)):
        m = mkm(shape, 'i')
        ctx.state((m.key(), ix, ax))
        forms = [list(ix)]
        if ix:
            forms += [tuple(ix), np.array(ix)]
        for f in forms:
            if dup:
                raises(lambda: mk(m).take(f, ax), 'take %r' % (f,))
            elif len(ix) or n == 0:
                same(mk(m).take(f, ax), ref.take(m, ix, ax),
                     'take %r axis %d' % (f, ax))
            ctx.step()


def keep_cases(tier):
    for lk in ('i', 's', 'd', 'f', 'm', 'T'):
        for n in range(0, 5):
            for op in ('==', '!=', '<', '>', '<=', '>=', 'in', 'not in'):
                yield (lk, n, op)


class Keyed(dict):
    """Something else that labels can be in."""
    def __init__(self, labels):
        dict.__init__(self, [(l, None) for l in labels])


def keep_run(ctx, case):
    lk, n, op = case
    base = [('a', 'b'), 'a', 'b', (), ('a',), 'ab'][:n + 1] if lk == 'T' else \
        labs(lk, n + 1)
    for shape, ax in (((n,), 0), ((n,), -1), ((2, n), 1), ((n, 3), 0),
                      ((n, 2), -2), ((2, n, 2), 1), ((2, 2, n), -1)):
        label = [labs('s', k) for k in shape]
        label[ax] = base[:n]
        for dt in 'fiSO':
            m = mkm(shape, label=label, dt=dt)
            ctx.state((m.key(), op, ax))
            if op in ('in', 'not in'):
                values = [list(v) for k in range(0, n + 2)
                          for v in itertools.combinations(base, k)]
                values += [f(values[-1][1:]) for f in
                           (tuple, set, frozenset, Keyed)]
                values += [v for v in base if isinstance(v, tuple)]
            else:
                values = base
            for v in values:
                want = ref.keep_label(m, op, v, ax)
                got = mk(m).keep_label(op, v, ax)
                same(got, want, 'keep_label(%r, %r, %d)' % (op, v, ax),
                     dtype=bool(want.cells))
                ctx.step()
    m = mkm((2, 2))
    raises(lambda: mk(m).keep_label('~', 1, 0), 'keep_label unknown op')
    raises(lambda: mk(m).keep_label('==', 1, None), 'keep_label axis None')
    raises(lambda: mk(m).keep_label('==', 1, 2), 'keep_label axis 2')


LADDER = list(range(5, 41)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 200,
                               255, 256, 257, 300, 500, 511, 512, 513, 999,
                               1000, 1001, 1025, 2049]


def ladder_cases(tier):
    for n in LADDER + ([4097, 10001] if tier != 'quick' else []):
        for lk in 'isdf':
            for dt in 'fi':
                yield (n, lk, dt)


def ladder_run(ctx, case):
    n, lk, dt = case
    if n > 10000:
        lab0 = ['q%d' % ((i * 7919) % 10007) for i in range(n)]
    else:
        lab0 = labs(lk, n)
    for shape, ax in (((n,), 0), ((2, n), 1), ((n, 2), 0)):
        if n > 300 and shape[0] == 2:
            continue
        label = [labs('s', k) if k != n else lab0 for k in shape]
        m = mkm(shape, label=label, dt=dt)
        ctx.state(m.key())
        y = mk(m)
        same(y.sortaxis(ax), ref.sortaxis(m, ax), 'sortaxis n=%d' % n)
        same(y.sortaxis(ax, reverse=True), ref.sortaxis(m, ax, True),
             'sortaxis reverse n=%d' % n)
        same(y.flipaxis(ax), ref.flipaxis(m, ax), 'flipaxis n=%d' % n)
        srt = sorted(lab0)
        rot = lab0[n // 3:] + lab0[:n // 3]
        part = srt[::2]
        miss = [('no', 1)] + lab0[::-3] + [('no', 2)]
        one = lab0[-1:]
        none = [('no', i) for i in range(n)]
        for want in (srt, rot, part, miss, one, none, lab0 + [('no', 1)],
                     lab0[:-1], list(lab0)):
            same(y.morph(want, ax), ref.morph(m, want, ax),
                 'morph n=%d to %r...' % (n, want[:4]))
            ctx.step()
        ix = range(n)[::-2]
        same(y.take(ix, ax), ref.take(m, ix, ax), 'take n=%d' % n)
        for k in (1, -1, n // 2, -(n - 1), n - 1, n, -n):
            same(y.lag(k, ax), ref.lag(m, k, ax), 'lag %d n=%d' % (k, n))
            ctx.step()
        mid = srt[n // 2]
        for op in ('<', '>=', '==', '!='):
            same(y.keep_label(op, mid, ax), ref.keep_label(m, op, mid, ax),
                 'keep_label %s n=%d' % (op, n))
        same(y.keep_label('in', srt[::3], ax),
             ref.keep_label(m, 'in', srt[::3], ax), 'keep_label in n=%d' % n)
        same(y.T, ref.transpose(m), 'T n=%d' % n)
        same(y.flatten(), ref.flatten(m), 'flatten n=%d' % n)
        same(y.flatten('F'), ref.flatten(m, 'F'), 'flatten F n=%d' % n)
        same(y.flatten().unflatten(), ref.castf(ref.sortaxis(m)),
             'unflatten n=%d' % n)
        same(y.maplabel(lambda l: (l,)), ref.maplabel(m, lambda l: (l,)),
             'maplabel n=%d' % n)
        ctx.step(14)
        same(y, m, 'operand n=%d' % n)


def chain_cases(tier):
    """Programs: every sequence of rearranging operations up to a depth."""
    depth = 3 if tier == 'quick' else 4
    starts = [((3,), 's'), ((2, 3), 'si'), ((1, 2), 'is'), ((2, 1, 2), 'isf'),
              ((0, 2), 'si')]
    for s, lk in starts:
        for d in range(1, depth + 1):
            for prog in itertools.product(range(len(CHAIN)), repeat=d):
                yield (s, lk, prog)


def _fresh(l):
    return [('+', k) for k in range(9) if ('+', k) not in l][:1]


CHAIN = [
    ('T', lambda y: y.T, ref.transpose),
    ('flip0', lambda y: y.flipaxis(0), lambda m: ref.flipaxis(m, 0)),
    ('flip-1', lambda y: y.flipaxis(-1), lambda m: ref.flipaxis(m, -1)),
    ('sort', lambda y: y.sortaxis(), ref.sortaxis),
    ('sort-1r', lambda y: y.sortaxis(-1, True),
     lambda m: ref.sortaxis(m, -1, True)),
    ('swap', lambda y: y.swapaxes(0, -1), lambda m: ref.swapaxes(m, 0, -1)),
    ('lag1', lambda y: y.lag(1, 0), lambda m: ref.lag(m, 1, 0)),
    ('lag-1', lambda y: y.lag(-1), lambda m: ref.lag(m, -1, -1)),
    ('ins', lambda y: y.insertaxis(0, 'N') if y.ndim < 4 else y.copy(),
     lambda m: ref.insertaxis(m, 0, 'N') if m.ndim < 4 else m),
    ('sq', lambda y: y.squeeze() if max(y.shape) > 1 or 0 in y.shape
     else y.copy(),
     lambda m: ref.squeeze(m) if max(m.shape) > 1 or 0 in m.shape else m),
    ('morphrev', lambda y: y.morph(y.label[-1][::-1], -1),
     lambda m: ref.morph(m, m.label[-1][::-1], -1)),
    ('morphadd', lambda y: y.morph(y.label[0][1:] + _fresh(y.label[0]), 0),
     lambda m: ref.morph(m, m.label[0][1:] + _fresh(m.label[0]), 0)),
    ('map', lambda y: y.maplabel(lambda l: (l,), -1),
     lambda m: ref.maplabel(m, lambda l: (l,), -1)),
]


def chain_run(ctx, case):
    s, lk, prog = case
    m = mkm(s, lk)
    y = mk(m)
    for p in prog:
        name, f, g = CHAIN[p]
        m2 = g(m)
        y2 = f(y)
        if m2.cells and len(m2.cells) > 60:
            return
        what = ' -> '.join([CHAIN[q][0] for q in prog])
        if p is prog[-1]:
            same(y2, m2, what, dtype=False)
        ctx.state(m2.key())
        ctx.step()
        m, y = m2, y2
    same(y, m, 'after ' + repr([CHAIN[q][0] for q in prog]), dtype=False)


# element types of every width
TYPED = [
    ('morph', lambda y, a: y.morph(y.label[a][::-1], a)),
    ('morph to a part', lambda y, a: y.morph(y.label[a][1:] or y.label[a],
                                             a)),
    ('morph_like', lambda y, a: y.morph_like(larry(
        np.zeros(y.shape), [l[::-1] for l in y.label]))),
    ('sortaxis', lambda y, a: y.sortaxis(a)),
    ('flipaxis', lambda y, a: y.flipaxis(a)),
    ('flip all', lambda y, a: y.flipaxis()),
    ('lag', lambda y, a: y.lag(1, a)),
    ('squeeze', lambda y, a: y.squeeze()),
    ('T', lambda y, a: y.T),
    ('swapaxes', lambda y, a: y.swapaxes(0, a)),
    ('flatten', lambda y, a: y.flatten()),
    ('flatten F', lambda y, a: y.flatten('F')),
    ('insertaxis', lambda y, a: y.insertaxis(a, 'new')),
    ('copy', lambda y, a: y.copy()),
    ('keep_label', lambda y, a: y.keep_label('>=', sorted(y.label[a])[-1],
                                             a)),
]


def typed_run(ctx, case):
    widths.keep_run(ctx, case, TYPED)


KINDS_OF_INT = axkinds.meth('sortaxis', 'flipaxis') + [
    ('insertaxis', lambda y, a, I: y.insertaxis(a, 'n')),
    ('swapaxes', lambda y, a, I: y.swapaxes(a, I(0))),
    ('take', lambda y, a, I: y.take([I(0)], a)),
    ('lag', lambda y, a, I: y.lag(I(1), a)),
    ('lag back', lambda y, a, I: y.lag(I(-1), a)),
    ('morph', lambda y, a, I: y.morph(y.label[a][::-1], a)),
    ('keep_label', lambda y, a, I: y.keep_label('!=', y.label[a][0], a)),
    ('maplabel', lambda y, a, I: y.maplabel(str, a)),
    ('sortaxis, reverse', lambda y, a, I: y.sortaxis(a, reverse=True))]

FAMILIES = [
    Family('rearrange', rearr_cases, rearr_run,
           'every rearranging call on every small shape, label kind, dtype '
           'and memory layout'),
    Family('permutations', perm_cases, perm_run,
           'every order of the labels'),
    Family('morph', morph_cases, morph_run,
           'every ordered subset of 4 labels morphed to every other'),
    Family('morph_like', morphlike_cases, morphlike_run,
           'every ordered subset of 3 labels, 1d and 2d'),
    Family('take', take_cases, take_run, 'every index list'),
    Family('keep_label', keep_cases, keep_run, 'every condition and value'),
    Family('chains', chain_cases, chain_run,
           'every sequence of rearranging operations up to the depth'),
    Family('ladder', ladder_cases, ladder_run, 'label lists up to 2049 long'),
    Family('element types, moved', widths.keep_cases, typed_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': '1d up to 5, 2d up to 3x3, 3d up to 2x2x2; label universe '
                   '4; programs of 3 operations; ladder to 2049',
          'thorough': '1d up to 7, 2d up to 4x4, 3d up to 3x3x3; programs of '
                      '4 operations; ladder to 10001'}
