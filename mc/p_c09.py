"""C09: looking up by label finds that label and nothing else."""
import datetime
import itertools
import numpy as np
from la import larry
from core import Family, Fail, check
from model import (M, mk, arr, snap, same, same_snap, raises, wellformed,
                   pyval, veq, kind)
import axkinds
import gen
import widths
from gen import mkm, labs, shapes
import ref

ABSENT = {'i': -999, 's': 'nope', 'd': datetime.date(1900, 1, 1),
          'e': datetime.datetime(1900, 1, 1), 'f': -99.5,
          't': ('nope', 0), 'm': 'nope', 'q': '10', 'w': 'A '}
LAYS = 'CFRN'


def cell(y, got, v, what):
    check(not isinstance(got, (larry, np.ndarray)) or
          isinstance(v, tuple) is False and type(got) is type(v),
          lambda: '%s: not a bare element: %r' % (what, got))
    check(veq(pyval(got), v), lambda: '%s is %r, want %r' % (what, got, v))


def look_cases(tier):
    for s in shapes([5, 3, 3, 2] if tier != 'quick' else [4, 3, 2, 1]):
        for lk in 'isdeftmqw':
            if max(s) > len(gen.LADDER_LABELS[lk]) - 1:
                continue
            for dt in 'fibSO':
                for lay in LAYS:
                    if tier == 'quick' and (lay != 'C') and dt != 'f':
                        continue
                    yield s, lk, dt, lay


def look_run(ctx, case):
    s, lk, dt, lay = case
    m = mkm(s, lk, dt)
    nd = len(s)
    ctx.state(m.key())
    y = mk(m, lay)
    # give every axis its own order and one axis its own labels
    bad = ABSENT[lk]
    axl = [list(l) + [bad] for l in m.label]
    for lab in itertools.product(*axl):
        for seq in (list(lab), tuple(lab)):
            if bad in lab:
                raises(lambda: y.get(seq), 'get(%r) of %r' % (seq, m))
            else:
                want = m.at([l.index(z) for l, z in zip(m.label, lab)])
                cell(y, y.get(seq), want, 'get(%r)' % (seq,))
            ctx.step()
    full = [l[0] if l else 0 for l in m.label]
    raises(lambda: y.get(full[:-1]), 'get with too few labels')
    raises(lambda: y.get(full + full[:1]), 'get with too many labels')
    raises(lambda: y.get([]), 'get without labels')
    for ax in range(-nd, nd):
        L = m.label[ax]
        check(y.getlabel(ax) == L, 'getlabel(%d)' % ax)
        got = y.getlabel(ax)
        got.append('junk')
        got.reverse()
        check(y.getlabel(ax) == L and y.label[ax] == L, 'getlabel is a copy')
        check(y.getlabel(ax, copy=False) == L, 'getlabel(copy=False)')
        for i, l in enumerate(L):
            for ex in ({}, {'exact': True}, {'exact': False}):
                got = y.labelindex(l, ax, **ex)
                check(got == i and not isinstance(got, larry), lambda:
                      'labelindex(%r, %d, %r) is %r, want %d' %
                      (l, ax, ex, got, i))
            same(y.pull(l, ax), ref.pull(m, l, ax), 'pull(%r, %d)' % (l, ax),
                 dtype='exact')
            same(y.pull(l, axis=ax), ref.pull(m, l, ax), 'pull')
            ctx.step(5)
        raises(lambda: y.labelindex(bad, ax), 'labelindex(absent)')
        raises(lambda: y.pull(bad, ax), 'pull(absent)')
        ctx.step(4)
    for ax in (nd, nd + 1, -nd - 1, None):
        raises(lambda: y.labelindex(full[0], ax), 'labelindex axis %r' % ax)
        raises(lambda: y.pull(full[0], ax), 'pull axis %r' % ax)
        if ax is not None:
            raises(lambda: y.getlabel(ax), 'getlabel axis %r' % ax)
    same_snap(snap(y), m, 'looking up changed the larry')


# order of labels: nearest, max, min -----------------------------------------
D = datetime.date
BASE = {'i': [10, 20, 30, 40, 50, 60], 's': ['bb', 'd', 'f', 'h', 'j', 'l'],
        'd': [D(2010, 1, 10), D(2010, 2, 10), D(2010, 3, 10), D(2011, 1, 1),
              D(2012, 1, 1), D(2013, 1, 1)],
        'f': [-1.5, 0.0, 0.5, 2.5, 3.5, 9.0]}
PROBE = {'i': [5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 99, 29.5],
         's': ['', 'bb', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'hh', 'i', 'j',
               'k', 'l', 'z'],
         'd': [D(2010, 1, 9), D(2010, 1, 11), D(2010, 2, 10), D(2010, 2, 11),
               D(2010, 3, 11), D(2011, 6, 1), D(2012, 1, 2), D(2020, 1, 1),
               D(2013, 1, 1)],
         'f': [-2.0, -1.5, -1.0, 0.25, 1.0, 2.5, 3.0, 5.0, 9.5]}


def order_cases(tier):
    top = 5 if tier == 'quick' else 6
    for lk in 'isdf':
        for n in range(1, top + 1):
            for p in itertools.permutations(range(top), n):
                if len(p) > 4 and tier == 'quick' and lk in 'df':
                    continue
                yield lk, p


def order_run(ctx, case):
    lk, p = case
    L = [BASE[lk][i] for i in p]
    n = len(L)
    m1 = mkm((n,), label=[L])
    m2 = mkm((2, n), label=[['x', 'w'], L])
    ctx.state((lk, p))
    for y, ax in ((mk(m1), 0), (mk(m2), 1), (mk(m2), -1), (mk(m2).T, 0)):
        for v in PROBE[lk]:
            low = [z for z in L if z <= v]
            if v in L:
                want = L.index(v)
            elif low:
                want = L.index(max(low))
            else:
                raises(lambda: y.labelindex(v, ax, exact=False),
                       'labelindex(%r, exact=False) of %r' % (v, L))
                want = None
            if want is not None:
                got = y.labelindex(v, ax, exact=False)
                check(got == want, lambda: 'labelindex(%r, %d, exact=False) '
                      'is %r, want %r, labels %r' % (v, ax, got, want, L))
            if v not in L:
                raises(lambda: y.labelindex(v, ax), 'exact labelindex')
            ctx.step()
        check(y.maxlabel(ax) == max(L) and y.minlabel(ax) == min(L),
              lambda: 'maxlabel, minlabel of %r: %r %r' %
              (L, y.maxlabel(ax), y.minlabel(ax)))
        ctx.step()
    # over all axes
    for k in range(1, n):
        a, b = L[:k], L[k:]
        y = mk(mkm((len(a), len(b)), label=[a, b]))
        check(y.maxlabel() == max(L) and y.minlabel() == min(L),
              lambda: 'maxlabel(), minlabel() of %r %r' % (a, b))
        check(y.maxlabel(0) == max(a) and y.minlabel(0) == min(a) and
              y.maxlabel(1) == max(b) and y.minlabel(1) == min(b) and
              y.maxlabel(-1) == max(b) and y.minlabel(-2) == min(a),
              lambda: 'max/minlabel along an axis of %r %r' % (a, b))
        ctx.step(2)


# lix ---------------------------------------------------------------------------

def ltoken(t, L):
    """(object, positions or int or None for refused, is a slice or list)"""
    n = len(L)
    k = t[0]
    if k == 'i':
        v = t[2](t[1])
        return v, (t[1] % n if -n <= t[1] < n else None)
    if k == 'l':
        labels = [L[i] if i is not None else t[2] for i in t[1]]
        if None in t[1] or len(set(t[1])) != len(t[1]):
            return labels, None
        return labels, list(t[1])
    if k == 's':
        ends = []
        out = []
        bad = False
        for e in t[1:3]:
            if e is None or isinstance(e, int):
                ends.append(e)
                out.append(e)
            elif e == 'bad':
                ends.append(['zz no'])
                bad = True
            elif e == 'two':
                ends.append([L[0], L[-1]])
                bad = True
            elif e == 'none':
                ends.append([])
                bad = True
            elif e == 'str':
                ends.append((0,))
                bad = True
            else:
                ends.append([L[e[0]]])
                out.append(e[0])
        s = slice(ends[0], ends[1], t[3])
        if bad:
            return s, None
        return s, range(n)[slice(out[0], out[1], t[3])]
    if k == 'x':
        return t[1], None


def ltokens(n, full):
    for i in range(-n - 1, n + 1):
        yield ('i', i, int)
        if full:
            yield ('i', i, np.int64)
    top = n if full else min(2, n)
    for r in range(1, top + 1):
        for p in itertools.permutations(range(n), r):
            yield ('l', p, None)
    if n > 2 and not full:
        yield ('l', tuple(range(n)), None)
        yield ('l', tuple(range(n)[::-1]), None)
    yield ('l', (None,), 'zz no')
    yield ('l', (0, None), 'zz no')
    yield ('l', (0, 0), None)
    if full:
        ends = [None] + [(i,) for i in range(n)] + range(-n - 1, n + 2)
        steps = (None, 1, 2, -1, -2)
    else:
        ends = [None, (0,), (n - 1,), 1, -1]
        steps = (None, -1)
    for a in ends:
        for b in ends:
            for c in steps:
                yield ('s', a, b, c)
    for e in ('bad', 'two', 'none', 'str'):
        yield ('s', e, None, None)
        yield ('s', None, e, None)
    if full:
        yield ('x', None)
        yield ('x', 'q')
        yield ('x', {})
        yield ('x', Ellipsis)


def lixwant(m, sel):
    """None: refused. Rectangle with all length-one axes removed."""
    if None in sel:
        return None
    out = m.select([[s] if isinstance(s, int) else s for s in sel])
    out = ref.squeeze(out)
    if out.ndim == 0:
        return out.cells[0]
    return out


def lixone(ctx, m, y, toks, bare=False):
    what = 'lix[%r] of %r' % (toks, m)
    objs = []
    sel = []
    for ax, t in enumerate(toks):
        o, p = ltoken(t, m.label[ax])
        objs.append(o)
        sel.append(p)
    ctx.step()
    if not bare:
        sel += [range(n) for n in m.shape[len(toks):]]
        want = lixwant(m, sel)
        index = tuple(objs)
    else:
        index = objs[0]
        p = sel[0]
        if p is None:
            want = None
        else:
            # one axis given: a single label (or position) removes it
            if isinstance(index, list) and len(p) == 1:
                p = p[0]
            if isinstance(p, int):
                want = m.select([[p]] + [range(n) for n in m.shape[1:]])
                want = want.cells[0] if m.ndim == 1 else \
                    M(want.label[1:], want.cells, m.dt)
            else:
                want = m.select([p] + [range(n) for n in m.shape[1:]])
    if want is None:
        if [p for p in sel if p == []] and not [1 for t, p in zip(toks, sel)
                                                if p is None and t[0] != 'i']:
            # nothing is selected: NumPy does not look at the positions
            try:
                r = y.lix[index]
            except Exception:
                return
            wellformed(r, what)
            check(r.size == 0, what)
            return
        raises(lambda: y.lix[index], what)
        ctx.outcome('refused')
        return
    r = y.lix[index]
    same(r, want, what, dtype='exact')
    if not isinstance(want, M):
        check(not isinstance(r, np.ndarray), what + ': not a bare element')
    ctx.outcome(repr(want))


def lix_cases(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for lk in 'ismdt':
            if n > 4 and lk in 'mt':
                continue
            yield (n,), lk, 'C', None
    for s in itertools.product(range(1, 4), repeat=2):
        for lk in ('is', 'si', 'md'):
            for lay in 'CFN':
                for t in ltokens(s[0], tier != 'quick'):
                    yield s, lk, lay, t
    for s in [(2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 3, 2)]:
        for t in lsmall(s[0]):
            yield s, 'isd', 'C', t


def lsmall(n):
    return [('i', 0, int), ('i', -1, int), ('i', 9, int),
            ('l', (0,), None), ('l', (n - 1,), None),
            ('l', tuple(range(n)[::-1][:2]), None), ('l', (None,), 'zz no'),
            ('s', None, None, None), ('s', (0,), None, None),
            ('s', None, (n - 1,), None), ('s', (n - 1,), None, -1),
            ('s', 0, 0, None), ('s', -1, None, None), ('s', 'bad', None, None)]


def lix_run(ctx, case):
    s, lk, lay, t = case
    m = mkm(s, lk)
    ctx.state((m.key(), lay, repr(t)))
    y = mk(m, lay)
    if len(s) == 1:
        for t in ltokens(s[0], True):
            lixone(ctx, m, y, (t,), True)
            lixone(ctx, m, y, (t,))
        raises(lambda: y.lix[0, 0], 'lix with too many axes')
    elif len(s) == 2:
        lixone(ctx, m, y, (t,), True)
        lixone(ctx, m, y, (t,))
        for u in ltokens(s[1], False):
            lixone(ctx, m, y, (t, u))
        raises(lambda: y.lix[0, 0, 0], 'lix with too many axes')
    else:
        lixone(ctx, m, y, (t,), True)
        lixone(ctx, m, y, (t,))
        for u in lsmall(s[1]):
            lixone(ctx, m, y, (t, u))
            for v in lsmall(s[2]):
                lixone(ctx, m, y, (t, u, v))
    same_snap(snap(y), m, 'lix changed the larry')


def lix4_cases(tier):
    for s in [(2, 2, 2, 2), (1, 2, 1, 3)]:
        for t in lsmall(s[0])[::2]:
            yield s, t


def lix4_run(ctx, case):
    s, t = case
    m = mkm(s, 'isds')
    ctx.state((m.key(), t))
    y = mk(m)
    for u in lsmall(s[1])[1::2]:
        for v in lsmall(s[2])[::3]:
            for w in lsmall(s[3])[::2]:
                lixone(ctx, m, y, (t, u, v, w))


SIZES = [5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128,
         129, 255, 256, 257, 513, 1000, 1001, 1025]


def ladder_cases(tier):
    for n in SIZES + ([2049, 4097] if tier != 'quick' else []):
        for ax in (0, 1, None):
            for lk in 'sdif':
                yield n, ax, lk


def ladder_run(ctx, case):
    n, ax, lk = case
    if ax is None:
        s, kinds, a = (n,), lk, 0
    elif ax == 0:
        s, kinds, a = (n, 2), lk + 's', 0
    else:
        s, kinds, a = (2, n), 's' + lk, 1
    m = mkm(s, kinds)
    ctx.state(m.key())
    y = mk(m)
    L = m.label[a]
    check(y.maxlabel(a) == max(L) and y.minlabel(a) == min(L), 'max/minlabel')
    srt = sorted(L)
    for i in sorted(set([0, 1, n // 2, n - 2, n - 1, n // 3])):
        check(y.labelindex(L[i], a) == i, 'labelindex at %d of %d' % (i, n))
        same(y.pull(L[i], a), ref.pull(m, L[i], a), 'pull at %d' % i)
        lab = [l[0] for l in m.label]
        lab[a] = L[i]
        cell(y, y.get(lab), m.at([i if k == a else 0 for k in
                                  range(m.ndim)]), 'get at %d' % i)
        ix = [('s', None, None, None)] * m.ndim
        for t in (('l', (i,), None), ('l', (i, 0) if i else (0, n - 1), None),
                  ('s', (i,), None, None), ('s', None, (i,), None),
                  ('s', (i,), None, -1),
                  ('l', tuple(range(n)[::-1][:i + 2]), None)):
            ix[a] = t
            lixone(ctx, m, y, tuple(ix))
        ctx.step(3)
        # nearest: take the label away and ask for it
        z = y.keep_label('!=', L[i], a)
        K = [l for l in L if l != L[i]]
        low = [l for l in K if l <= L[i]]
        if low:
            check(z.labelindex(L[i], a, exact=False) == K.index(max(low)),
                  'nearest label at %d of %d' % (i, n))
        else:
            raises(lambda: z.labelindex(L[i], a, exact=False), 'nearest')
        raises(lambda: z.labelindex(L[i], a), 'labelindex')


def far_cases(tier):
    """Which axis holds the largest and which the smallest label."""
    for nd in range(1, 6):
        for hi in range(nd):
            for lo in range(nd):
                for big in (1, 3):
                    yield nd, hi, lo, big


def far_run(ctx, case):
    nd, hi, lo, big = case
    s = [2] * nd
    s[hi] = big
    label = [[10 * ax + 5 + (i * 7) % 5 for i in range(n)] for ax, n in
             enumerate(s)]
    label[hi][-1] = 999
    label[lo][0] = -999
    if hi == lo and big == 1:
        label[lo][0] = 999
    m = mkm(s, label=label)
    ctx.state(m.key())
    y = mk(m)
    al = [l for z in label for l in z]
    check(y.maxlabel() == max(al) and y.minlabel() == min(al), lambda:
          'maxlabel(), minlabel() of %r: %r %r' % (label, y.maxlabel(),
                                                   y.minlabel()))
    for ax in range(-nd, nd):
        L = label[ax]
        check(y.maxlabel(ax) == max(L) and y.minlabel(ax) == min(L),
              'maxlabel, minlabel of axis %d' % ax)
        check(y.getlabel(ax) == L and y.getlabel(ax) is not y.label[ax],
              'getlabel')
        for i, l in enumerate(L):
            check(y.labelindex(l, ax) == i, 'labelindex')
            same(y.pull(l, ax), ref.pull(m, l, ax), 'pull %r axis %d' %
                 (l, ax))
            ctx.step(2)
        raises(lambda: y.labelindex(-5, ax), 'labelindex')
        raises(lambda: y.pull(-5, ax), 'pull')
    for ix, v in m.items():
        check(veq(y.get([l[i] for l, i in zip(label, ix)]), v), 'get')


# element types of every width
TYPED = [
    ('pull', lambda y, a: y.pull(y.label[a][0], a)),
    ('get', lambda y, a: y.get([l[-1] for l in y.label])),
    ('lix', lambda y, a: y.lix[widths.sl(a, y.label[a][:2])]),
    ('lix slice', lambda y, a: y.lix[widths.sl(a, slice(
        y.label[a][1:2] or None, None))]),
]


def typed_run(ctx, case):
    widths.keep_run(ctx, case, TYPED)


KINDS_OF_INT = axkinds.meth('getlabel', 'maxlabel', 'minlabel') + [
    ('pull', lambda y, a, I: y.pull(y.label[a][-1], a)),
    ('labelindex', lambda y, a, I: y.labelindex(y.label[a][-1], a))]

FAMILIES = [
    Family('lookups', look_cases, look_run,
           'get/pull/labelindex/getlabel for every label combination'),
    Family('label order', order_cases, order_run,
           'every order of the labels: nearest, largest, smallest label'),
    Family('lix', lix_cases, lix_run, 'grammar of lix over 1-3 axes'),
    Family('lix 4d', lix4_cases, lix4_run),
    Family('many axes', far_cases, far_run, 'up to 5 axes'),
    Family('sizes', ladder_cases, ladder_run, 'size ladder'),
    Family('element types, moved', widths.keep_cases, typed_run),
    axkinds.family(KINDS_OF_INT)]
BOUNDS = {'quick': 'shapes up to (4,),(3,3),(2,2,2); every permutation of up '
                   'to 5 labels of 4 kinds with 9-15 probes; lix: 1d n<=4 '
                   'full grammar, 2d n<=3 all pairs, 3d all triples of 14 '
                   'tokens, 4d; sizes up to 1025',
          'thorough': 'shapes up to (5,),(3,3),(3,3,3),(2,2,2,2) in 4 memory '
                      'layouts; permutations of 6 labels; full lix grammar on '
                      'axis 0 of 2d; sizes up to 4097'}
ASSUMPTIONS = ['lix of larrys without elements and empty label lists are '
               'outside the alphabet', 'labels along an axis are comparable '
               'where an order is asked for']
