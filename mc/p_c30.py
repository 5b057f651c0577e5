"""C30: reading part of an archived larry does not load the rest.

Two monitors watch every index of the alphabet on a real archive:

  * the process may not get the memory that the whole array would need (the
    archived arrays are sparse HDF5 data sets of up to 24 GB; the address space
    is limited to a fraction of that), and
  * every cell that h5py hands out is counted: not more than (a small multiple
    of) what the index selects.
"""
import os
import resource
import shutil
import itertools
import numpy as np
import h5py
import la
from la import larry, IO
from la.io import load, archive_directory, is_archived_larry
from core import Family, Fail, check
from model import prod

SHAPES = {'2d': (20000, 15000), '3d': (3000, 2000, 500),
          '4d': (300, 250, 300, 200)}
CHUNK = {'2d': (50, 50), '3d': (10, 10, 10), '4d': (5, 5, 5, 5)}
SMALL = {'1s': (60,), '2s': (12, 9), '3s': (6, 5, 4)}
SHAPES.update(SMALL)
LIMIT = 600 * 2 ** 20
MOST = 7 * 10 ** 6      # cells of the biggest selection

fetched = []


def monitor():
    """Count the cells that come out of data sets named x."""
    if getattr(h5py.Dataset, 'la_monitor', False):
        return
    get = h5py.Dataset.__getitem__

    def getitem(self, args):
        r = get(self, args)
        if self.name.endswith('/x'):
            fetched.append(np.size(r))
        return r

    h5py.Dataset.__getitem__ = getitem
    h5py.Dataset.la_monitor = True
    direct = h5py.Dataset.read_direct

    def read_direct(self, dest, *args, **kw):
        r = direct(self, dest, *args, **kw)
        if self.name.endswith('/x'):
            fetched.append(np.size(dest))
        return r

    h5py.Dataset.read_direct = read_direct


def limit():
    now = int(open('/proc/self/statm').read().split()[0]) * \
        resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (now + LIMIT, hard))
    return soft, hard


def labels(shape):
    return [[1000000 * (ax + 1) + i for i in range(n)]
            for ax, n in enumerate(shape)]


def marks(shape):
    """The cells that are not zero."""
    out = {}
    for c in itertools.product(*[(0, n // 2, n - 1) for n in shape]):
        out[c] = 1.0 + len(out)
    return out


class Store(object):
    def __init__(self, ctx, name):
        self.shape = SHAPES[name]
        d = os.path.join(ctx.dir(), 'arch')
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.mkdir(d)
        self.path = os.path.join(d, 'a.h5')
        self.label = labels(self.shape)
        self.marks = marks(self.shape)
        io = IO(self.path)
        io['small'] = larry([1.0, 2.0], [['a', 'b']])
        small = name in SMALL
        f = h5py.File(self.path)
        g = f.create_group('big')
        x = g.create_dataset('x', self.shape, 'f8',
                             chunks=None if small else CHUNK[name])
        for c, v in self.marks.items():
            x[c] = v
        for ax, lab in enumerate(self.label):
            g[str(ax)] = np.array(lab)
            g[str(ax)].attrs['datetime_type'] = 'not_datetime'
        g.attrs['larry'] = True
        f.close()
        self.io = io

    def cells(self, sel):
        """index into the selection -> value, for the marked cells in it"""
        where = []
        for ax, s in enumerate(sel):
            s = [s] if isinstance(s, int) else s
            where.append(dict([(p, i) for i, p in enumerate(s)]))
        out = {}
        for c, v in self.marks.items():
            if not [1 for ax, p in enumerate(c) if p not in where[ax]]:
                key = [where[ax][p] for ax, p in enumerate(c)
                       if not isinstance(sel[ax], int)]
                out[tuple(key)] = v
        return out


_store = {}


def store(ctx, name):
    if name not in _store:
        _store.clear()
        _store[name] = Store(ctx, name)
    return _store[name]


def tokens(n, deep):
    """(index, positions)"""
    m = n // 2
    out = [(0, 0), (-1, n - 1), (np.int64(m), m)]
    pos = range(n)
    for s in [slice(None), slice(m, m + 1), slice(-2, None), slice(0, n, m),
              slice(1, 3)] + [slice(None, -m, m - 1), slice(m, m)] * deep:
        out.append((s, pos[s]))
    out.append(([0, m, n - 1], [0, m, n - 1]))
    mask = np.zeros(n, dtype=bool)
    mask[[1, m]] = True
    out.append((mask, [1, m]))
    if deep:
        out.append((np.array([1, n - 1]), [1, n - 1]))
        out.append(([m, -1], [m, n - 1]))
    return out


def isseq(o):
    return isinstance(o, (list, np.ndarray))


def read_cases(tier):
    for name in ('1s', '2s', '3s', '2d', '3d', '4d'):
        nd = len(SHAPES[name])
        deep = tier != 'quick' or nd < 3
        size = [len(tokens(n, deep)) for n in SHAPES[name]]
        for k in range(1, nd + 1):
            if k == 1:
                yield name, deep, ()
            elif k < 4:
                for i in range(size[0]):
                    yield name, deep, (i,) + (None,) * (k - 1)
            else:
                for i in range(size[0]):
                    for j in range(size[1]):
                        yield name, deep, (i, j, None, None)


def indices(shape, deep, case):
    tok = [tokens(n, deep) for n in shape]
    if case == ():
        for t in tok[0]:
            yield t[0], [t[1]]
            yield (t[0],), [t[1]]
        return
    for ix in itertools.product(*[range(len(tok[ax])) if i is None else [i]
                                  for ax, i in enumerate(case)]):
        t = [tok[ax][i] for ax, i in enumerate(ix)]
        yield tuple([o for o, p in t]), [p for o, p in t]


def bounded(ctx, what, n, f):
    """Run f within the memory limit; at most n cells are needed."""
    del fetched[:]
    old = limit()
    try:
        try:
            r = f()
        except MemoryError:
            raise Fail('%s: %d cells are selected but it needs more than %d '
                       'MB' % (what, n, LIMIT // 2 ** 20))
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)
    check(sum(fetched) <= 2 * n + 4, lambda: '%s: %d cells are selected, %d '
          'were read' % (what, n, sum(fetched)))
    ctx.step()
    return r


def read_run(ctx, case):
    name, deep, c = case
    monitor()
    st = store(ctx, name)
    lar = bounded(ctx, 'IO[]', 0, lambda: st.io['big'])
    for index, sel in indices(st.shape, deep, c):
        objs = index if isinstance(index, tuple) else (index,)
        if len([o for o in objs if isseq(o)]) > 1:
            continue
        sel = sel + [range(n) for n in st.shape[len(sel):]]
        n = prod([1 if isinstance(s, int) else len(s) for s in sel])
        if n > MOST or [s for s in sel if s == []]:
            continue
        what = '%r of a larry of shape %r' % (index, st.shape)
        ctx.state((name, repr(index)))
        got = bounded(ctx, what, n, lambda: lar[index])
        want = st.cells(sel)
        keep = [ax for ax, s in enumerate(sel) if not isinstance(s, int)]
        if not keep:
            check(got == want.get((), 0.0), lambda: '%s: %r' % (what, got))
            continue
        check(isinstance(got, larry) and
              got.shape == tuple([len(sel[ax]) for ax in keep]),
              lambda: '%s: shape %r' % (what, got.shape))
        for ax, lab in zip(keep, got.label):
            check(lab == [st.label[ax][p] for p in sel[ax]],
                  lambda: '%s: labels %r' % (what, lab[:5]))
        z = [got.x[k] for k in want]
        check(z == want.values() and np.count_nonzero(got.x) == len(want),
              lambda: '%s: wrong values' % what)


def write_cases(tier):
    for name in ('2s', '3s', '2d', '3d', '4d'):
        yield name, tier != 'quick'


def write_run(ctx, case):
    name, deep = case
    monitor()
    st = Store(ctx, name)
    lar = bounded(ctx, 'IO[]', 0, lambda: st.io['big'])
    nd = len(st.shape)
    tok = [tokens(n, False) for n in st.shape]
    for ix in itertools.product(*[range(len(t)) for t in tok]):
        if nd > 2 and not deep and sum(ix) % 7:
            continue
        objs = tuple([tok[ax][i][0] for ax, i in enumerate(ix)])
        sel = [tok[ax][i][1] for ax, i in enumerate(ix)]
        shape = [len(s) for s in sel if not isinstance(s, int)]
        n = prod(shape)
        if len([o for o in objs if isseq(o)]) > 1 or n > 300 or 0 in shape:
            continue
        what = '%r of a larry of shape %r' % (objs, st.shape)
        ctx.state((name, repr(objs), 'write'))
        if shape:
            v = larry(np.arange(1.0, n + 1).reshape(shape), [
                [st.label[ax][p] for p in s] for ax, s in enumerate(sel)
                if not isinstance(s, int)])
        else:
            v = 17.5
        bounded(ctx, what + ' = larry', n,
                lambda: lar.__setitem__(objs, v if not [
                    o for o in objs if isseq(o)] else getattr(v, 'x', v)))
        got = bounded(ctx, what, n, lambda: lar[objs])
        check(np.all(getattr(got, 'x', got) == getattr(v, 'x', v)),
              lambda: '%s: wrong values after the assignment' % what)
        bounded(ctx, what + ' = 0', n,
                lambda: lar.__setitem__(objs, np.zeros(shape) if shape
                                        else 0.0))


def rest_cases(tier):
    for name in ('2s', '3s', '2d', '3d', '4d'):
        yield name,


def rest_run(ctx, case):
    """Everything that is not about the values needs no values."""
    name, = case
    monitor()
    st = Store(ctx, name)
    io, path, shape = st.io, st.path, st.shape
    lar = bounded(ctx, 'IO[]', 0, lambda: io['big'])
    go = lambda what, f: bounded(ctx, what, 0, f)
    check(go('shape', lambda: lar.shape) == shape, 'shape')
    check(go('ndim', lambda: lar.ndim) == len(shape), 'ndim')
    check(go('size', lambda: lar.size) == prod(shape), 'size')
    check(go('dtype', lambda: lar.dtype) == np.float64, 'dtype')
    check(go('label', lambda: lar.label) == st.label, 'label')
    for ax in range(len(shape)):
        check(go('maxlabel', lambda: lar.maxlabel(ax)) == st.label[ax][-1],
              'maxlabel')
        check(go('minlabel', lambda: lar.minlabel(ax)) == st.label[ax][0],
              'minlabel')
        check(go('getlabel', lambda: lar.getlabel(ax)) == st.label[ax],
              'getlabel')
        check(go('labelindex', lambda: lar.labelindex(st.label[ax][5 % shape[
            ax]], ax)) == 5 % shape[ax], 'labelindex')
    check(sorted(go('keys', io.keys)) == ['big', 'small'], 'keys')
    check(sorted(go('iter', lambda: list(io))) == ['big', 'small'], 'iter')
    check(go('len', lambda: len(io)) == 2, 'len')
    check(go('in', lambda: 'big' in io), 'in')
    check(go('has_key', lambda: io.has_key('big')), 'has_key')
    check(len(go('values', io.values)) == 2, 'values')
    check(len(go('items', io.items)) == 2, 'items')
    check(len(go('itervalues', lambda: list(io.itervalues()))) == 2, 'iter')
    check(len(go('iteritems', lambda: list(io.iteritems()))) == 2, 'iter')
    check('big' in go('repr', lambda: repr(io)), 'repr')
    check(len(go('archive_directory', lambda: archive_directory(path))) == 2,
          'archive_directory')
    check(go('is_archived_larry', lambda: is_archived_larry(path, 'big')),
          'is_archived_larry')
    go('space', lambda: io.space)
    go('freespace', lambda: io.freespace)
    go('another larry', lambda: io.__setitem__('other', larry([3.0])))
    go('replaced', lambda: io.__setitem__('other', larry([4.0, 5.0])))
    # archives with data of every type are listed without reading the data
    h = h5py.File(path)
    for i, (dt, v) in enumerate([('S9', 'text'), ('i8', 3), ('f4', 2.5),
                                 ('b1', True), ('c16', 1j), ('u1', 7),
                                 ('S300', 'x' * 300)]):
        g = h.create_group('t%d' % i)
        x = g.create_dataset('x', (40, 50), dt)
        x[3, 4] = v
        for ax, n in enumerate((40, 50)):
            g[str(ax)] = np.arange(n)
            g[str(ax)].attrs['datetime_type'] = 'not_datetime'
        g.attrs['larry'] = True
    h.close()
    for i in range(7):
        lar = go('IO[]', lambda: io['t%d' % i])
        check(go('shape', lambda: lar.shape) == (40, 50), 'shape')
        check(go('dtype', lambda: lar.dtype).itemsize in (
            9, 8, 4, 1, 16, 300), 'dtype')
        check(go('maxlabel', lambda: lar.maxlabel(1)) == 49, 'maxlabel')
        check(go('labelindex', lambda: lar.labelindex(7, 0)) == 7, 'index')
        got = bounded(ctx, 'one cell of type %d' % i, 1, lambda: lar[3, 4])
        check(got == [('text'), 3, 2.5, True, 1j, 7, 'x' * 300][i], 'a cell')
        check('t%d' % i in go('repr', lambda: repr(io)), 'repr')
        go('values', io.values)
        go('in', lambda: 't%d' % i in io)
    go('space', lambda: io.space)
    go('freespace', lambda: io.freespace)
    go('archive_directory', lambda: archive_directory(path))
    for i in range(7):
        go('del', lambda: io.__delitem__('t%d' % i))
    y = bounded(ctx, 'load of another larry', 2, lambda: load(path, 'other'))
    check(y.x.tolist() == [4.0, 5.0], 'the other larry')
    go('repack', io.repack)
    lar = io['big']
    c = tuple([-1] * len(shape))
    check(bounded(ctx, 'one cell', 1, lambda: lar[c]) == len(st.marks),
          'a cell after repack')
    if name not in SMALL:
        # the monitor works: the whole larry does not fit
        old = limit()
        try:
            try:
                lar[:]
            except Exception:
                pass
            else:
                raise Fail('the memory limit does not work')
        finally:
            resource.setrlimit(resource.RLIMIT_AS, old)
    go('delete', lambda: io.__delitem__('big'))
    check(sorted(io.keys()) == ['other', 'small'], 'keys after delete')
    ctx.state((name, 'rest'))


FAMILIES = [
    Family('reading', read_cases, read_run, 'every index'),
    Family('writing', write_cases, write_run, 'assignments'),
    Family('listing', rest_cases, rest_run, 'attributes, dictionary '
           'interface'),
]
BOUNDS = {'quick': 'six archived larrys of 1 to 4 dimensions, three of them '
                   'sparse with 2 to 24 GB; every index of 10 (14 below 3d) '
                   'tokens per axis that selects at most 7 million cells and '
                   'contains at most one sequence; assignments of up to 300 '
                   'cells, one in seven for 3d and 4d',
          'thorough': '14 tokens per axis, all assignments'}
ASSUMPTIONS = ['memory is measured as address space that the process may not '
               'exceed (600 MB on top of what it has); cells read are counted '
               'where h5py data sets are indexed or read directly',
               'an operation may read twice the cells that it needs']
RULE = 'cells read at most twice the cells selected; within the memory limit'
