"""C16: using part of an archived larry equals doing it in memory."""
import datetime
import itertools
import os
import numpy as np
import h5py
import la
from la import larry, IO
from la.io import save, load, delete
import widths
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, prod, veq, \
    kind, flat
from gen import mkm, labs, shapes
from grammar import token, tokens, small, REFUSE
from p_c10 import region, put, newvals, nparr, larr
from p_c14 import fresh, strict

OTHER = M([['p', 'q']], [1.5, nan], 'f')


class Store(object):
    """An archive with the larry under test and a neighbour."""
    def __init__(self, ctx, m, key='a', lay='C'):
        self.path = fresh(ctx)
        self.key = key
        self.m = m
        io = IO(self.path)
        io['other'] = mk(OTHER)
        io[key] = mk(m, lay)
        io[key + '/below'] = mk(OTHER)
        self.image = open(self.path, 'rb').read()
        self.lar = io[key]

    def reset(self):
        with open(self.path, 'wb') as f:
            f.write(self.image)

    def stored(self, want, what):
        strict(load(self.path, self.key), want, what)

    def rest(self, what):
        strict(load(self.path, 'other'), OTHER, what + ': the other larry')
        strict(load(self.path, self.key + '/below'), OTHER,
               what + ': the larry below')
        d = os.listdir(os.path.dirname(self.path))
        check(d == [os.path.basename(self.path)], lambda: '%s: files %r' %
              (what, d))


def isseq(t):
    return t[0] in 'ltamL'


def baseline(toks, sel, shape):
    """Indices that HDF5 supports directly: these must work."""
    if len([t for t in toks if isseq(t)]) > 1:
        return False
    for t, p, n in zip(toks, sel, shape):
        if p == REFUSE:
            return False
        if t[0] == 's':
            if t[3] is not None and t[3] < 1 or not p:
                return False
        elif t[0] == 't':
            return False
        elif isseq(t):
            if not p or p != sorted(p):
                return False
            if t[0] in 'ltaL' and t[0] != 'L' and list(t[1]) != p:
                return False
            if t[0] == 'm' and len(t[1]) != n:
                return False
        elif t[0] == 'x':
            return False
    return 0 not in shape


def build(m, toks, bare):
    objs, sel = [], []
    for ax, t in enumerate(toks):
        o, p = token(t, m.label[ax])
        objs.append(o)
        sel.append(p)
    must = baseline(toks, sel, m.shape)
    sel += [range(n) for n in m.shape[len(toks):]]
    return objs[0] if bare else tuple(objs), sel, must


def expect(m, sel):
    """What the index selects in memory: a model or one value."""
    full = m.select([[s] if isinstance(s, int) else s for s in sel])
    keep = [ax for ax, s in enumerate(sel) if not isinstance(s, int)]
    if not keep:
        return full.cells[0]
    return M([full.label[ax] for ax in keep], full.cells, full.dt)


def read(ctx, st, toks, bare, what):
    """Read through the archive and in memory."""
    m = st.m
    index, sel, must = build(m, toks, bare)
    lar = st.lar
    inmem = None
    try:
        inmem = mk(m)[index]
    except Exception:
        check(not must, lambda: '%s: refused in memory' % what)
    try:
        got = lar[index]
    except Exception as e:
        check(not must, lambda: '%s: refused (%s: %s)' %
              (what, type(e).__name__, e))
        ctx.outcome((what, 'refused'))
        check(lar.x is None, 'the data set stays open')
        return False
    check(lar.x is None, 'the data set stays open')
    check(REFUSE not in sel and inmem is not None, lambda: '%s gives %r, '
          'in memory it is refused' % (what, got))
    want = expect(m, sel)
    same(got, want, what, dtype='exact' if m.dt in 'fgij' else True)
    if isinstance(got, larry):
        same(got, snap(inmem), what + ' (in memory)')
    ctx.outcome((what, 'read'))
    return True


def write(ctx, st, toks, bare, what, full, lite=False):
    m = st.m
    if [t for t in toks if t[0] == 'x' and t[1] != 'str']:
        return
    index, sel, must = build(m, toks, bare)
    if 'L' in [t[0] for t in toks]:
        if m.ndim > 1 or not bare:
            return      # a larry in an index addresses the whole larry
    if REFUSE in sel:
        dup = [t for t, p in zip(toks, sel) if p == REFUSE and t[0] in 'lta'
               and not [v for v in t[1] if not
                        -m.shape[toks.index(t)] <= v < m.shape[toks.index(t)]]]
        if dup or 0 in [len(p) for p in sel if isinstance(p, list)]:
            return
        tryset(ctx, st, index, newvals(m.dt, 1, [True])[0], None, False, what)
        return
    cells, lab = region(m, sel)
    shape = [len(l) for l in lab]
    n = len(cells)
    nv = newvals(m.dt, n, [m.at(c) for c in cells])
    scal = nv[0] if nv else newvals(m.dt, 1)[0]
    go = lambda v, want, must, w: tryset(ctx, st, index, v, want, must,
                                         '%s = %s' % (what, w))
    # HDF5 does not spread a scalar over a sequence of several axes
    go(scal, put(m, cells, [scal] * n), must and (
        m.ndim == 1 or not [t for t in toks if isseq(t)]), 'scalar')
    ok = put(m, cells, nv)
    if not lab:
        go(larr(newvals(m.dt, 2, [True] * 2), [['q', 'r']], m.dt), None,
           False, 'larry')
        return
    if not lite:
        go(nparr(nv, shape, m.dt), ok, must, 'array')
    go(larr(nv, lab, m.dt), ok, must and not [t for t in toks if t[0] in 'mL'],
       'larry')
    for ax in range(len(lab)):
        bad = list(lab)
        if len(lab[ax]) > 1:
            bad[ax] = lab[ax][::-1]
            go(larr(nv, bad, m.dt), None, False, 'larry in another order')
        if lab[ax] and not lite:
            bad[ax] = lab[ax][:-1] + ['new']
            go(larr(nv, bad, m.dt), None, False, 'larry with another label')
        if full:
            bad[ax] = lab[ax] + ['new']
            k = prod([len(l) for l in bad])
            go(larr(newvals(m.dt, k, [True] * k), bad, m.dt), None, False,
               'larry with a label more')
    if full and n:
        v = larr(nv, lab, m.dt)
        go(larry(np.asfortranarray(v.x), v.label), ok, False, 'F larry')
        go(larr(nv, lab + [['one']], m.dt), None, False, 'larry, axis more')


def tryset(ctx, st, index, value, want, must, what):
    """want None: has to be refused; otherwise the new contents, where a
    refusal is accepted unless must."""
    st.reset()
    vs = snap(value) if isinstance(value, larry) else None
    lid = [list(l) for l in st.lar.label]
    try:
        st.lar[index] = value
    except Exception as e:
        check(not must, lambda: '%s: refused (%s: %s)' %
              (what, type(e).__name__, e))
        want = st.m
    else:
        check(want is not None, lambda: '%s: should be refused; now %r' %
              (what, snap(load(st.path, st.key))))
    check(st.lar.x is None, 'the data set stays open')
    check(st.lar.label == lid, '%s: the labels changed' % what)
    st.stored(want, what)
    st.rest(what)
    if vs is not None:
        same_snap(snap(value), vs, what + ': the value changed')
    ctx.step(1)


# families ---------------------------------------------------------------------

def attrs_of(st, what):
    m = st.m
    y = IO(st.path)[st.key]
    check(y.shape == m.shape and y.ndim == m.ndim and y.size == m.size and
          y.label == m.label and kind(y.dtype) == m.dt,
          lambda: '%s: %r %r %r %r %r' % (what, y.shape, y.ndim, y.size,
                                          y.label, y.dtype))
    mem = mk(m)
    calls = [('maxlabel', (), {}), ('minlabel', (), {})]
    for ax in range(-m.ndim, m.ndim):
        calls += [('maxlabel', (ax,), {}), ('minlabel', (ax,), {}),
                  ('getlabel', (ax,), {}),
                  ('getlabel', (ax,), {'copy': False})]
        for l in m.label[ax] + ['zz', 5]:
            calls.append(('labelindex', (l, ax), {}))
            calls.append(('labelindex', (l, ax), {'exact': False}))
    for name, args, kw in calls:
        w, g = [], []
        for obj, out in ((mem, w), (y, g)):
            try:
                r = getattr(obj, name)(*args, **kw)
                out.append(('value', type(r), list(r) if isinstance(r, list)
                            else r))
            except Exception as e:
                out.append(('error', type(e)))
        check(w == g, lambda: '%s: %s%r%r: %r, in memory %r' %
              (what, name, args, kw, g, w))


def one_cases(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for lk in 'sdi':
            for dt in 'fibSc':
                if lk != 's' and dt != 'f':
                    continue
                for lay in 'CN':
                    if lay == 'N' and (dt != 'f' or lk != 's'):
                        continue
                    toks = list(tokens(n, tier != 'quick' and dt == 'f'))
                    step = 40
                    for k in range(0, len(toks), step):
                        yield n, lk, dt, lay, k, step


def one_run(ctx, case):
    n, lk, dt, lay, k, step = case
    m = mkm((n,), lk, dt)
    st = Store(ctx, m, lay=lay)
    if k == 0:
        attrs_of(st, repr(m))
    toks = list(tokens(n, ctx.tier != 'quick' and dt == 'f'))[k:k + step]
    for t in toks:
        ctx.state((m.key(), t))
        for bare in (True, False):
            what = 'y[%r%s] of %r' % (t, '' if bare else ',', m)
            read(ctx, st, (t,), bare, what)
        st.reset()
        st.stored(m, 'reading changed the larry')
        write(ctx, st, (t,), t[0] in 'iL' or k % 3 == 0, what,
              lk == 's' and dt in 'fS')
        st.reset()
    st.rest('after reading')


def two_cases(tier):
    for s in [(2, 2), (3, 2), (2, 3), (0, 2)] + \
            [(1, 2), (2, 0), (1, 1)] * (tier != 'quick'):
        for t in tokens(s[0], tier != 'quick'):
            yield s, t


def two_run(ctx, case):
    s, t = case
    m = mkm(s, 'sd')
    st = Store(ctx, m, key='g/a')
    ctx.state((m.key(), t))
    what = 'y[%r] of %r' % (t, m)
    read(ctx, st, (t,), True, what)
    read(ctx, st, (t,), False, what)
    write(ctx, st, (t,), True, what, False)
    st.reset()
    for i, u in enumerate(small(s[1])):
        what = 'y[%r, %r] of %r' % (t, u, m)
        read(ctx, st, (t, u), False, what)
        if ctx.tier != 'quick' or i % 8 == hash(t) % 8:
            write(ctx, st, (t, u), False, what, False, ctx.tier == 'quick')
            st.reset()
    if t == ('i', 0, 'int'):
        attrs_of(st, repr(m))
        for u in tokens(s[1], ctx.tier != 'quick'):
            what = 'y[:, %r] of %r' % (u, m)
            read(ctx, st, (('s', None, None, None), u), False, what)
            write(ctx, st, (('s', None, None, None), u), False, what, False)
            st.reset()


def three_cases(tier):
    for s in [(2, 2, 2), (1, 2, 3)] + [(3, 1, 2), (2, 3, 1)] * (tier !=
                                                                'quick'):
        for t in small(s[0]):
            for u in small(s[1]):
                yield s, t, u


def three_run(ctx, case):
    s, t, u = case
    m = mkm(s, 'sid', 'i')
    st = Store(ctx, m)
    ctx.state((m.key(), t, u))
    what = 'y[%r, %r] of %r' % (t, u, m)
    read(ctx, st, (t, u), False, what)
    write(ctx, st, (t, u), False, what, False, ctx.tier == 'quick')
    st.reset()
    for v in small(s[2]):
        what = 'y[%r, %r, %r] of %r' % (t, u, v, m)
        read(ctx, st, (t, u, v), False, what)
        if ctx.tier != 'quick':
            write(ctx, st, (t, u, v), False, what, False)
            st.reset()
    if t == SMALL0:
        attrs_of(st, repr(m))


SMALL0 = list(small(2))[0]


def attr_cases(tier):
    for s in shapes([3, 2, 2]):
        for lk in ('s', 'd', 'e', 'f', 'i'):
            for dt in 'fgijbSc':
                if lk != 's' and dt != 'f':
                    continue
                yield s, lk, dt


def attr_run(ctx, case):
    s, lk, dt = case
    m = mkm(s, lk, dt)
    st = Store(ctx, m)
    ctx.state(m.key())
    attrs_of(st, repr(m))
    if 0 not in s:
        same(st.lar[:], m, 'y[:]')
        ix = tuple([-1] * len(s))
        same(st.lar[ix], m.cells[-1], 'y[-1, ...]')
    ctx.step(2)


# histories of several handles ----------------------------------------------------

def hist_cases(tier):
    n = 3 if tier == 'quick' else 4
    ops = range(len(HOPS))
    for seq in itertools.product(ops, repeat=n):
        yield seq


# (handle, index, value) assignments; 'new', 'repack', 'again'
HOPS = [('A', 0, 10.5), ('B', (slice(None), 1), 'arr'), ('A', (1, 1), -3.0),
        ('B', slice(1, None), 'lar'), ('B', (0, 5), 1.0), ('A', 0, 'bad'),
        ('new', 'A'), ('repack',), ('again',), ('other',)]


def hist_run(ctx, seq):
    m = mkm((2, 2), 'sd')
    st = Store(ctx, m)
    path = st.path
    io = IO(path)
    h = {'A': st.lar, 'B': IO(path)['a']}
    other = OTHER
    ctx.state(seq)
    for k, op in enumerate([HOPS[i] for i in seq]):
        what = '%r step %d' % ([HOPS[i] for i in seq], k)
        if op[0] in 'AB':
            y = h[op[0]]
            v = op[2]
            if op[2] == 'arr':
                v = np.array([100. + k, 200. + k])
                m = put(m, [(0, 1), (1, 1)], v.tolist())
            elif op[2] == 'lar':
                v = larry([[7. + k, 8. + k]], [m.label[0][1:], m.label[1]])
                m = put(m, [(1, 0), (1, 1)], [7. + k, 8. + k])
            elif op[2] == 'bad':
                v = larry([1., 2.], [m.label[1][::-1]])
            elif op[1] == 0:
                m = put(m, [(0, 0), (0, 1)], [v + k] * 2)
                v = v + k
            elif op[1] == (1, 1):
                m = put(m, [(1, 1)], [v - k])
                v = v - k
            if op[2] == 'bad' or op[1] == (0, 5):
                raises(lambda: y.__setitem__(op[1], v), what)
            else:
                y[op[1]] = v
        elif op[0] == 'new':
            h[op[1]] = IO(path)['a']
        elif op[0] == 'repack':
            io.repack()
        elif op[0] == 'again':
            io['a'] = load(path, 'a')
        elif op[0] == 'other':
            io['other'][0] = 50. + k
            other = put(other, [(0,)], [50. + k])
        for y in h.values() + [io['a']]:
            same(y[:], m, what)
            same(y[0], expect(m, [0, [0, 1]]), what)
            same(y[-1, 1], m.at((1, 1)), what)
            check(y.shape == (2, 2) and y.label == m.label, what)
        same(load(path, 'a'), m, what)
        same(io['other'][:], other, what)
        ctx.step(1)


# a handle whose larry is replaced or removed -----------------------------------------

def stale_cases(tier):
    ms = [mkm((2, 2), 'sd'), mkm((2,), 's'), mkm((3, 2), 'is', 'i')]
    for i in range(3):
        for j in range(3):
            for how in ('set', 'del'):
                yield i, j, how
    for how in ('relabel', 'values'):
        yield 0, 0, how


def stale_run(ctx, case):
    i, j, how = case
    ms = [mkm((2, 2), 'sd'), mkm((2,), 's'), mkm((3, 2), 'is', 'i')]
    old, new = ms[i], ms[j].copy()
    ctx.state(case)
    new.cells = [c + 100 for c in new.cells]
    if how == 'relabel':
        new.label[0] = ['new', 'labels']
    st = Store(ctx, old)
    io = IO(st.path)
    y = io['a']
    if how == 'del':
        del io['a']
        raises(lambda: y[:], 'reading a larry that was deleted')
        raises(lambda: y.__setitem__(0, 1), 'writing one that was deleted')
        check('a' not in io, 'it came back')
        io['a'] = mk(new)
    else:
        io['a'] = mk(new)
    same(io['a'][:], new, 'the new larry')
    x = mk(new).x
    for n in ('shape', 'ndim', 'size', 'dtype'):
        for h in (io['a'], y):
            check(getattr(h, n) == getattr(x, n), lambda: '%s is %r after a '
                  'larry of %r was stored in place of %r' %
                  (n, getattr(h, n), new, old))
    try:
        got = y[:]
    except Exception:
        return
    ctx.step(2)
    if got.label == old.label and flat(got.x) == new.cells and \
            old.label != new.label:
        raise Fail('a handle that was taken before the larry was replaced '
                   'gives the new values under the old labels',
                   'stale-lara-labels')
    same(got, new, 'a handle taken before the larry was replaced')


SIZES = [7, 8, 9, 16, 17, 64, 100, 255, 256, 257, 1000, 1024, 1025, 4097]


def size_cases(tier):
    for n in SIZES:
        for sh in ('1', 'row', 'col'):
            yield n, sh


def size_run(ctx, case):
    n, sh = case
    s, a = {'1': ((n,), 0), 'row': ((2, n), 1), 'col': ((n, 2), 0)}[sh]
    m = mkm(s, 's' * len(s))
    st = Store(ctx, m)
    ctx.state((n, sh))
    toks = [('i', v, 'int') for v in (0, n - 1, -n, n // 2, n)]
    toks += [('s', n // 2, None, None), ('s', 1, -1, 3), ('s', 0, n, None),
             ('s', None, None, None), ('l', tuple(range(0, n, 2))),
             ('a', tuple(range(n // 2, n)), 'int'),
             ('m', tuple([i % 3 == 0 for i in range(n)]))]
    for t in toks:
        pre = (('s', None, None, None),) if a else ()
        what = 'y[%r] of %r' % (pre + (t,), s)
        what = what[:200]
        read(ctx, st, pre + (t,), False, what)
        if n <= 257:
            write(ctx, st, pre + (t,), False, what, False)
            st.reset()
    ctx.step(1)


def typed_run(ctx, case):
    """Element types of every width, read in part"""
    y = widths.stored(case)
    ctx.state(case)
    path = fresh(ctx)
    io = IO(path)
    io['k'] = y
    z = io['k']
    check(z.dtype == y.dtype and z.shape == y.shape and z.ndim == y.ndim and
          z.size == y.size and z.label == y.label, lambda:
          'attributes: %r %r %r' % (z.dtype, z.shape, z.label))
    for a in range(y.ndim):
        if 0 in y.shape:
            break
        for ind in (slice(None), slice(0, 1), slice(-1, None), 0,
                    y.shape[a] - 1):
            index = widths.sl(a, ind)
            want = y[index]
            got = z[index]
            if isinstance(want, larry):
                widths.exactly(got, want, 'io[%r]' % (index,))
            else:
                w = np.empty(2, y.dtype)
                w[0], w[1] = want, got
                check(widths.raw(w[:1]) == widths.raw(w[1:]), 'io[%r]: %r' %
                      (index, got))
            ctx.step()
    widths.exactly(io['k'][:], y, 'io[:]')
    # written in part: the last slice becomes the first
    if 0 not in y.shape and y.dtype.kind != 'V':
        io['k'][-1:] = y.x[:1]
        want = y.copy()
        want.x[-1:] = y.x[:1]
        widths.exactly(io['k'][:], want, 'written in part')
    ctx.step(2)


FAMILIES = [
    Family('attributes and lookups', attr_cases, attr_run),
    Family('one axis', one_cases, one_run, 'every index token, every value'),
    Family('two axes', two_cases, two_run),
    Family('three axes', three_cases, three_run),
    Family('histories', hist_cases, hist_run, 'several handles, all sequences'),
    Family('replaced', stale_cases, stale_run),
    Family('sizes', size_cases, size_run),
    Family('element types', widths.stored_cases, typed_run),
]
BOUNDS = {'quick': 'index grammar on 1d (n<=3), 2d (<=3x3), 3d; assignments '
                   'of scalars, arrays, aligned and unaligned larrys; all '
                   'sequences of 3 of 10 operations on two handles',
          'thorough': 'full grammar, all assignments, sequences of 4'}
ASSUMPTIONS = ['an index that HDF5 cannot select (several sequences, '
               'unordered or negative sequences, negative steps, empty '
               'selections) may be refused, but must not give anything else '
               'than in memory']
RULE = 'every read equals the index in memory, every write changes just that'
