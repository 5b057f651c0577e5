"""C11: a larry behaves as one label-to-value table over any history."""
import itertools
import operator
import numpy as np
import la
from la import larry
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, veq, indices
import gen
from gen import mkm
import ref
import reads


# mutators: name -> f(y, m) changes the larry y in place, returns the list of
# models that are allowed afterwards ------------------------------------------

def put(m, cond, v):
    out = m.copy()
    for idx, old in m.items():
        if cond(idx):
            out.put(idx, v)
    return out


class Fixed(object):
    """np.random.shuffle under control: performs the given permutation."""
    def __init__(self, perm):
        self.perm = perm

    def __enter__(self):
        self.old = np.random.shuffle
        np.random.shuffle = self.shuffle
        return self

    def __exit__(self, *a):
        np.random.shuffle = self.old

    def shuffle(self, x):
        n = len(x)
        p = [i % n for i in self.perm if i < n]
        p += [i for i in range(n) if i not in p]
        new = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i]
               for i in p]
        for i in range(n):
            x[i] = new[i]


def m_seti(y, m):
    y[0] = 41
    return [put(m, lambda i: i[0] == 0, 41)]


def m_setlast(y, m):
    i = tuple([s - 1 for s in m.shape])
    y[i] = 42
    return [put(m, lambda j: j == i, 42)]


def m_slice(y, m):
    y[1:] = 43
    return [put(m, lambda i: i[0] >= 1, 43)]


def m_bool(y, m):
    ix = [k % 2 == 0 for k in range(m.shape[0])]
    y[np.array(ix)] = 44
    return [put(m, lambda i: ix[i[0]], 44)]


def m_mask(y, m):
    y[y > 5] = 45
    return [m.map(lambda v: 45 if v > 5 else v)]


def m_larry(y, m):
    y[:1] = y[:1] + 100
    out = m.copy()
    for idx, v in m.items():
        if idx[0] == 0:
            out.put(idx, v + 100)
    return [out]


def m_set(y, m):
    y.set([l[-1] for l in m.label], 46)
    i = tuple([s - 1 for s in m.shape])
    return [put(m, lambda j: j == i, 46)]


def m_lix(y, m):
    l = m.label[0][-1]
    y.lix[[l]] = 47
    return [put(m, lambda i: i[0] == m.shape[0] - 1, 47)]


def m_lixt(y, m):
    if m.ndim == 1:
        return m_lix(y, m)
    y.lix[tuple([[m.label[0][0]]] + [[l[-1]] for l in m.label[1:]])] = 48
    i = (0,) + tuple([s - 1 for s in m.shape[1:]])
    return [put(m, lambda j: j == i, 48)]


def m_lixs(y, m):
    y.lix[[m.label[0][-1]]:] = 49
    return [put(m, lambda i: i[0] == m.shape[0] - 1, 49)]


def m_fill(y, m):
    y.fill(7)
    return [m.map(lambda v: 7)]


def m_nan(y, m):
    if m.dt == 'i':
        y[0] = -5
        return [put(m, lambda i: i[0] == 0, -5)]
    y[0] = nan
    return [put(m, lambda i: i[0] == 0, nan)]


def m_flip0(y, m):
    y.flipaxis(0, copy=False)
    return [ref.flipaxis(m, 0)]


def m_flip(y, m):
    y.flipaxis(copy=False)
    return [ref.flipaxis(m)]


def relab(l):
    """An injective relabelling that reverses the order."""
    if isinstance(l, int):
        return 9 - l
    return 'y' + l[::-1] if not l.startswith('y') else 'x' + l


def m_map0(y, m):
    y.maplabel(relab, 0, copy=False)
    return [ref.maplabel(m, relab, 0)]


def m_map(y, m):
    y.maplabel(relab, copy=False)
    return [ref.maplabel(m, relab)]


def m_mapswap(y, m):
    """Two labels change places: same set of labels, other positions."""
    ax = m.ndim - 1
    l = m.label[ax]
    a, b = l[0], l[-1]
    f = lambda z: b if z == a else a if z == b else z
    y.maplabel(f, ax, copy=False)
    return [ref.maplabel(m, f, ax)]


def m_edit(y, m):
    """The caller relabels by editing the list of labels."""
    out = m.copy()
    out.label = [list(l) for l in m.label]
    for ax, k in ((0, -1), (m.ndim - 1, 0)):
        l = relab(out.label[ax][k])
        while l in out.label[ax]:
            l = l - 1 if isinstance(l, int) else 'w' + l
        y.label[ax][k] = out.label[ax][k] = l
    return [out]


def m_data(y, m):
    """The caller writes to the array."""
    y.x[-1] = 50
    y.x *= 2
    return [put(m, lambda i: i[0] == m.shape[0] - 1, 50).map(
        lambda v: v * 2)]


def shuf(perm, ax, lab):
    def f(y, m):
        axes = range(m.ndim) if ax is None else [ax]
        outs = [m]
        for a in axes:
            nxt = []
            for o in outs:
                for p in itertools.permutations(range(m.shape[a])):
                    z = o.copy()
                    if lab:
                        z.label[a] = [o.label[a][i] for i in p]
                    else:
                        ix = [range(s) for s in o.shape]
                        ix[a] = list(p)
                        z.cells = o.select(ix).cells
                    nxt.append(z)
            outs = nxt
        with Fixed(perm):
            if lab:
                y.shufflelabel(ax)
            else:
                y.shuffle(ax)
        return outs
    return f


MUT = [('y[0]=', m_seti), ('y[last]=', m_setlast), ('y[1:]=', m_slice),
       ('y[bool]=', m_bool), ('y[y>5]=', m_mask), ('y[:1]=larry', m_larry),
       ('set', m_set), ('lix[[l]]=', m_lix), ('lix[t]=', m_lixt),
       ('lix[s]=', m_lixs), ('fill', m_fill), ('y[0]=nan', m_nan),
       ('flip0', m_flip0), ('flip', m_flip), ('map0', m_map0), ('map', m_map),
       ('mapswap', m_mapswap), ('label[]=', m_edit), ('x=', m_data),
       ('shuffle0', shuf((1, 2, 0), 0, False)),
       ('shuffle', shuf((1, 0), None, False)),
       ('shufflelabel0', shuf((1, 2, 0), 0, True)),
       ('shufflelabel', shuf((1, 0), None, True)),
       ('shufflelabel021', shuf((0, 2, 1), 0, True)),
       ('shufflelabel-1', shuf((0, 2, 1), -1, True))]

SEEDS = [mkm((3,), 's'), mkm((2, 2), 'si'), mkm((2, 3), 'is', 'i'),
         mkm((1, 2), 'ss'), mkm((2, 1, 2), 'isi'), mkm((2,), 'i', 'i')]


def apply(k, y, m):
    """Apply mutator k; return the model of the new state."""
    name, f = MUT[k]
    outs = f(y, m)
    if len(outs) == 1:
        o = outs[0]
        o = M(o.label, [float(v) if o.dt == 'f' else v for v in o.cells],
              o.dt)
        same(y, o, 'after ' + name, dtype='exact')
        return o
    now = snap(y)
    for o in outs:
        if o.label == now.label and len(o.cells) == len(now.cells) and \
           all([veq(a, b) for a, b in zip(o.cells, now.cells)]):
            return now
    raise Fail('after %s: %r is not a rearrangement of %r' % (name, now, m))


def hist_cases(tier):
    n = len(MUT)
    for s in range(len(SEEDS)):
        for p in itertools.product(range(n), repeat=2):
            yield s, p, True
    short = [0, 4, 7, 10, 12, 14, 16, 17, 19]
    for s in (0, 1) if tier == 'quick' else range(len(SEEDS)):
        for p in itertools.product(short if tier == 'quick' else range(n),
                                   repeat=3):
            yield s, p, False
    if tier != 'quick':
        for s in (0, 1):
            for p in itertools.product(short, repeat=4):
                yield s, p, False


def hist_run(ctx, case):
    s, seq, deep = case
    m = SEEDS[s].copy()
    y = mk(m)
    reads.read_all(ctx, y, m, deep)
    for k in seq:
        m = apply(k, y, m)
        ctx.state(m.key())
        ctx.outcome((k, m.key()))
        reads.read_all(ctx, y, m, deep)


def two_cases(tier):
    n = len(MUT)
    for s in (0, 1, 2):
        for p in itertools.product(range(n), repeat=2):
            yield s, p


def two_run(ctx, case):
    """Two larrys with the same labels and a derived copy: changing one is
    seen in that one only."""
    s, (k1, k2) = case
    ma = SEEDS[s].copy()
    mb = ma.map(lambda v: v * 3)
    a, b = mk(ma), mk(mb)
    reads.read_all(ctx, a, ma)
    reads.read_all(ctx, b, mb)
    c = a.copy()
    mc = ma.copy()
    mb = apply(k1, b, mb)
    reads.read_all(ctx, a, ma)
    reads.read_all(ctx, b, mb)
    ma = apply(k2, a, ma)
    reads.read_all(ctx, c, mc)
    reads.read_all(ctx, b, mb)
    reads.read_all(ctx, a, ma)
    ctx.state((ma.key(), mb.key()))
    if ma.dt == 'f' or ma.dt == 'i':
        x, z = ref.align(ma, mb, ['inner'] * ma.ndim)
        same(a + b, M(x.label, [u + v for u, v in zip(x.cells, z.cells)], x.dt),
             'a + b')
        x, z = ref.align(mb, ma, ['outer'] * ma.ndim)
        g1, g2 = la.align(b, a, join='outer')
        same(g1, x, 'align(b, a)')
        same(g2, z, 'align(b, a)')
        ctx.step(2)


def reuse_cases(tier):
    """Objects come and go: new larrys at the addresses of dead ones, label
    lists reused and changed in between."""
    for s in range(len(SEEDS)):
        for k in range(len(MUT)):
            yield s, k


def reuse_run(ctx, case):
    s, k = case
    for rnd in range(4):
        m = SEEDS[(s + rnd) % len(SEEDS)].copy()
        y = mk(m)
        reads.read_all(ctx, y, m, rnd % 2 == 0)
        m = apply(k, y, m)
        del y
        y = mk(m)
        reads.read_all(ctx, y, m, False)
        m = apply((k + 5 * rnd) % len(MUT), y, m)
        reads.read_all(ctx, y, m, True)
        ctx.state(m.key())
        del y


PAIRS = [mkm((3,), 's'), mkm((4,), 'i'), mkm((2, 3), 'is', 'i'),
         mkm((3, 2), 'ss'), mkm((2, 1, 3), 'isi')]


def partner(m, how):
    """A larry that shares some labels with m, in another order."""
    label = []
    for ax, l in enumerate(m.label):
        new = [9 - len(l) - ax] if isinstance(l[0], int) else ['yz']
        if how == 0:
            label.append(l[::-1])
        elif how == 1:
            label.append(l[1:][::-1] + new)
        else:
            label.append(l if ax else new + l)
        label[-1] = [z for i, z in enumerate(label[-1])
                     if z not in label[-1][:i]]
    return mkm([len(l) for l in label], label=label, dt=m.dt, start=20)


def two(op, name):
    """The operator on the common labels"""
    def f(a, ma, b, mb):
        x, z = ref.align(ma, mb, ['inner'] * ma.ndim)
        w = [op(c, d) for c, d in zip(x.cells, z.cells)]
        same(op(a, b), M(x.label, w, 'b' if w and w[0] in (True, False) and
                         type(w[0]) is bool else x.dt), name,
             dtype=bool(w) and 'ok')
    return name, f


def aligned(j):
    def f(a, ma, b, mb):
        x, z = ref.align(ma, mb, [j] * ma.ndim)
        u, v = la.align(a, b, join=j)
        same(u, x, 'align %s 1' % j)
        same(v, z, 'align %s 2' % j)
    return 'align ' + j, f


def joined(j):
    def f(a, ma, b, mb):
        x, z = ref.align(ma, mb, [j] * ma.ndim)
        same(la.add(a, b, join=j, missone=100), M(x.label, [
            nan if c != c and d != d else
            (100 if c != c else c) + (100 if d != d else d)
            for c, d in zip(x.cells, z.cells)], x.dt), 'add ' + j,
             dtype=False)
    return 'add ' + j, f


def r_multiply(a, ma, b, mb):
    x, z = ref.align(ma, mb, ['inner'] * ma.ndim)
    same(la.multiply(a, b), M(x.label, [
        c * d for c, d in zip(x.cells, z.cells)], x.dt), 'multiply')


def r_merge(a, ma, b, mb):
    x, z = ref.align(ma, mb, ['outer'] * ma.ndim)
    w = [d if d == d else c for c, d in zip(x.cells, z.cells)]
    same(a.merge(b, update=True), M(x.label, w, x.dt), 'merge', dtype=False)


def r_morph_like(a, ma, b, mb):
    same(a.morph_like(b), ref.morph_like(ma, mb), 'morph_like', dtype=False)


def r_union(a, ma, b, mb):
    for ax in range(ma.ndim):
        l1, l2 = ma.label[ax], mb.label[ax]
        check(la.union(ax, a, b) == sorted(set(l1 + l2)), 'union')


def r_inter(a, ma, b, mb):
    for ax in range(ma.ndim):
        l1, l2 = ma.label[ax], mb.label[ax]
        check(la.intersection(ax, a, b) == sorted(set(l1) & set(l2)),
              'intersection')


def r_isaligned(a, ma, b, mb):
    for ax in range(ma.ndim):
        check(la.isaligned(a, b, ax) == (ma.label[ax] == mb.label[ax]),
              'isaligned')
    check(la.isaligned(a, b) == (ma.label == mb.label), 'isaligned')


def r_morph(a, ma, b, mb):
    for ax in range(ma.ndim):
        l2 = mb.label[ax]
        same(a.morph(l2, ax), ref.morph(ma, l2, ax), 'morph', dtype=False)


def r_alone(a, ma, b, mb):
    same(a.sortaxis(), ref.sortaxis(ma), 'sortaxis')
    for ax in range(ma.ndim):
        for i, z in enumerate(ma.label[ax]):
            check(a.labelindex(z, ax) == i, 'labelindex')
            same(a.pull(z, ax) if ma.ndim > 1 else a.get([z]),
                 ref.pull(ma, z, ax) if ma.ndim > 1 else ma.cells[i], 'pull')


def r_lix(a, ma, b, mb):
    for ix, v in ma.items():
        lab = [l[i] for l, i in zip(ma.label, ix)]
        check(veq(a.lix[tuple([[z] for z in lab])], v), 'lix')
        check(veq(a.get(lab), v), 'get')


READS = [two(operator.add, '+'), two(operator.le, '<='),
         two(operator.sub, '-'), two(operator.eq, '==')] + \
    [aligned(j) for j in ('inner', 'outer', 'left', 'right')] + \
    [joined(j) for j in ('inner', 'outer', 'left', 'right')] + \
    [('multiply', r_multiply), ('merge', r_merge),
     ('morph_like', r_morph_like), ('union', r_union),
     ('intersection', r_inter), ('isaligned', r_isaligned),
     ('morph', r_morph), ('alone', r_alone), ('lix', r_lix)]


def pair_reads(ctx, y, m, p, q, g, gm):
    """Everything that takes two larrys; m and q are what y and p hold."""
    for a, ma, b, mb in ((y, m, p, q), (p, q, y, m)):
        for name, f in READS:
            f(a, ma, b, mb)
    check(la.isaligned(y, p) == (m.label == q.label), 'isaligned')
    if set(m.label[0]) <= set(gm.label[0]):
        d = dict(zip(gm.label[0], gm.cells))
        out = []
        for ix, v in m.items():
            mem = [m.at((i,) + tuple(ix[1:])) for i, l in
                   enumerate(m.label[0]) if d[l] == d[m.label[0][ix[0]]]]
            mem = [c for c in mem if c == c]
            out.append(nan if not mem else sum(mem) / float(len(mem)))
        same(y.group_mean(g), M(m.label, out), 'group_mean', rtol=1e-12)
    else:
        raises(lambda: y.group_mean(g), 'group_mean without a label')
    same(g, gm, 'the group larry')
    ctx.step(40)


def pair_cases(tier):
    n = len(MUT)
    for s in range(len(PAIRS)):
        for how in range(3):
            for k1 in range(n):
                for who in (0, 1):
                    yield s, how, k1, who


def pair_run(ctx, case):
    s, how, k1, who = case
    for k2 in range(len(MUT)):
        for who2 in (0, 1):
            ms = [PAIRS[s].copy(), partner(PAIRS[s], how)]
            ys = [mk(z) for z in ms]
            l = sorted(set(ms[0].label[0] + ms[1].label[0]))
            gm = M([l[::-1]], [float(i % 2) for i in range(len(l))])
            g = mk(gm)
            pair_reads(ctx, ys[0], ms[0], ys[1], ms[1], g, gm)
            for w, k in ((who, k1), (who2, k2)):
                ms[w] = apply(k, ys[w], ms[w])
                pair_reads(ctx, ys[0], ms[0], ys[1], ms[1], g, gm)
            ctx.state((ms[0].key(), ms[1].key()))


def rur_cases(tier):
    for s in range(len(PAIRS)):
        for how in range(3):
            for r in range(len(READS)):
                for swap in (0, 1):
                    yield s, how, r, swap


def rur_run(ctx, case):
    """One reader, an update, the same reader again: nothing remembered."""
    s, how, r, swap = case
    name, f = READS[r]
    for k in range(len(MUT)):
        for who in (0, 1):
            ms = [PAIRS[s].copy(), partner(PAIRS[s], how)]
            ys = [mk(z) for z in ms]
            a, b = (1, 0) if swap else (0, 1)
            for rnd in range(3):
                f(ys[a], ms[a], ys[b], ms[b])
                ms[who] = apply((k + 7 * (rnd == 1)) % len(MUT), ys[who],
                                ms[who])
            f(ys[a], ms[a], ys[b], ms[b])
            ctx.step(4)
            ctx.state((ms[0].key(), ms[1].key()))


def ladder_cases(tier):
    for n in (5, 10, 16, 17, 33, 65, 129, 257) + \
            ((513, 1025) if tier != 'quick' else ()):
        for k in range(len(MUT)):
            yield n, k


def ladder_run(ctx, case):
    n, k = case
    m = mkm((n,), 's')
    if MUT[k][0].startswith('shuffle'):
        # permutations of a long axis: one swap, checked on the data itself
        y = mk(m)
        perm = range(n)[::-1]
        lab = 'label' in MUT[k][0]
        check_long(ctx, y, m)
        with Fixed(perm):
            if lab:
                y.shufflelabel(0)
            else:
                y.shuffle(0)
        now = snap(y)
        want = m.copy()
        if lab:
            check(sorted(now.label[0]) == sorted(m.label[0]), 'labels lost')
            same(y, M(now.label, m.cells), 'shufflelabel')
        else:
            check(sorted(now.cells) == sorted(m.cells), 'values lost')
            same(y, M(m.label, now.cells), 'shuffle')
        check_long(ctx, y, now)
        return
    y = mk(m)
    check_long(ctx, y, m)
    m = apply(k, y, m)
    check_long(ctx, y, m)
    m = apply((k * 7 + n) % 17, y, m)
    check_long(ctx, y, m)
    ctx.state(m.key())


def check_long(ctx, y, m):
    same(y, m, 'larry')
    lab = m.label[0]
    n = len(lab)
    for i in sorted(set([0, 1, n // 2, n - 2, n - 1])):
        check(y.labelindex(lab[i], 0) == i, 'labelindex(%r)' % lab[i])
        check(veq(y.get([lab[i]]), m.cells[i]), 'get')
        check(veq(y.lix[[lab[i]]], m.cells[i]), 'lix')
        check(veq(y.pull(lab[i], 0), m.cells[i]), 'pull')
    same(y.sortaxis(), ref.sortaxis(m), 'sortaxis')
    sub = lab[::3] + ['nope'] + lab[1::3]
    same(y.morph(sub, 0), ref.morph(m, sub, 0), 'morph')
    p = M([lab[::-1][:n - 1]], [float(i) for i in range(n - 1)])
    a, b = ref.align(m, p, ['inner'])
    same(y + mk(p), M(a.label, [u + v for u, v in zip(a.cells, b.cells)]),
         'y + p')
    raises(lambda: y.labelindex('nope', 0), 'labelindex')
    same(y.keep_label('in', lab[2:4], 0), ref.keep_label(m, 'in', lab[2:4], 0),
         'keep_label')
    ctx.step(24)


FAMILIES = [
    Family('histories', hist_cases, hist_run,
           'every sequence of mutators, every reader after every step'),
    Family('two', two_cases, two_run,
           'mutators on two larrys with equal labels and a copy'),
    Family('reuse', reuse_cases, reuse_run,
           'larrys created and destroyed between calls'),
    Family('read, update, read', rur_cases, rur_run),
    Family('partners', pair_cases, pair_run,
           'two larrys that share some labels, each changed in between, every '
           'function of two larrys after every step'),
    Family('ladder', ladder_cases, ladder_run, 'longer axes'),
]
BOUNDS = {'quick': '21 mutators: all sequences of 2 on 6 seeds, all sequences '
                   'of 3 of a subset on 2 seeds; all pairs over two larrys',
          'thorough': 'all sequences of 3 on 6 seeds; of 4 of a subset of 9 '
                      'on 2 seeds'}
RULE = 'shuffles run under a controlled np.random.shuffle; any rearrangement is accepted'
