"""Every way of reading a larry, compared with the model. Used where the
property is about histories: the answers must follow the current contents."""
import la
from core import check
from model import M, mk, same, snap, raises, veq, indices, pyval, nan
import ref


def align_partner(m):
    """A larry with some of the labels of m, in another order, one removed and
    one added along each axis (deterministic)."""
    label = []
    for l in m.label:
        k = list(l)[::-1]
        label.append(k[:-1] if len(k) > 1 else k)
    n = 1
    for l in label:
        n *= len(l)
    return M(label, [100.0 + 3 * i for i in range(n)], 'f')


def nansum(v):
    return sum([x for x in v if x == x]) if [x for x in v if x == x] else nan


def read_all(ctx, y, m, deep=True):
    """y: larry, m: model of what it must hold."""
    nd = m.ndim
    n = 0
    same(y, m, 'larry', dtype='exact')
    check(y.shape == m.shape and y.ndim == nd and y.size == m.size,
          'shape attributes')
    for idx, v in m.items():
        lab = [l[i] for l, i in zip(m.label, idx)]
        got = y.get(lab)
        check(veq(pyval(got), v), lambda: 'get(%r) is %r, want %r' %
              (lab, got, v))
        got = y.lix[tuple([[l] for l in lab])] if nd > 1 else y.lix[[lab[0]]]
        check(veq(pyval(got), v), lambda: 'lix of %r is %r, want %r' %
              (lab, got, v))
        got = y[idx] if nd > 1 else y[idx[0]]
        check(veq(pyval(got), v), lambda: 'y[%r] is %r, want %r' %
              (idx, got, v))
        n += 3
    for ax in range(nd):
        lab = m.label[ax]
        check(y.getlabel(ax) == lab, 'getlabel(%d)' % ax)
        for i, l in enumerate(lab):
            got = y.labelindex(l, ax)
            check(got == i, lambda: 'labelindex(%r, %d) is %r, want %d' %
                  (l, ax, got, i))
            same(y.pull(l, ax), ref.pull(m, l, ax), 'pull(%r, %d)' % (l, ax))
            n += 2
        for l in ('no such label', -999):
            if l not in lab:
                raises(lambda: y.labelindex(l, ax), 'labelindex(%r)' % (l,))
        if lab:
            l = lab[0]
            same(y.keep_label('!=', l, ax), ref.keep_label(m, '!=', l, ax),
                 'keep_label(!=, %r, %d)' % (l, ax))
            same(y.keep_label('in', lab[1:], ax),
                 ref.keep_label(m, 'in', lab[1:], ax), 'keep_label in')
            check(y.maxlabel(ax) == max(lab), 'maxlabel(%d)' % ax)
            check(y.minlabel(ax) == min(lab), 'minlabel(%d)' % ax)
            n += 4
        same(y.sortaxis(ax), ref.sortaxis(m, ax), 'sortaxis(%d)' % ax)
        new = lab[::-1][:2]
        same(y.morph(new, ax), ref.morph(m, new, ax), 'morph')
        n += 2
    if not deep:
        ctx.step(n)
        return
    p = align_partner(m)
    ly = mk(p)
    for j in ('inner', 'outer'):
        a, b = la.align(y, ly, join=j)
        wa, wb = ref.align(m, p, [j] * nd)
        same(a, wa, 'align %s, first' % j)
        same(b, wb, 'align %s, second' % j)
    a, b = ref.align(m, p, ['inner'] * nd)
    if m.dt in 'fi':
        same(y + ly, M(a.label, [u + v for u, v in zip(a.cells, b.cells)]),
             'y + partner')
        same(ly - y, M(a.label, [v - u for u, v in zip(a.cells, b.cells)]),
             'partner - y')
        if m.dt == 'f':
            for ax in [None] + range(nd):
                same(y.sum(ax), m.reduce(nansum, ax), 'sum(%r)' % ax,
                     rtol=1e-12)
            same(y.cumsum(nd - 1), m.lanes(cum, nd - 1), 'cumsum', rtol=1e-12)
        same(y + y, m.map(lambda v: v + v), 'y + y')
        n += 6
    same(y.copy(), m, 'copy')
    same(y.T, ref.transpose(m), 'T')
    same(y.flatten(), ref.flatten(m), 'flatten')
    rows = [tuple([l[i] for l, i in zip(m.label, idx)]) + (v,)
            for idx, v in m.items()]
    got = y.totuples()
    check(len(got) == len(rows) and all(
        [g[:-1] == r[:-1] and veq(g[-1], r[-1]) for g, r in zip(got, rows)]),
        lambda: 'totuples %r want %r' % (got, rows))
    if m.size and min(m.shape) > 0:
        same(y[::-1], m.select([range(m.shape[0])[::-1]] +
                               [range(s) for s in m.shape[1:]]), 'y[::-1]')
        same(y[[0]], m.select([[0]] + [range(s) for s in m.shape[1:]]),
             'y[[0]]')
    ctx.step(n + 10)


def cum(lane):
    out = []
    s = 0.0
    for v in lane:
        if v != v:
            out.append(nan)
        else:
            s += v
            out.append(s)
    return out
