"""C28: what is displayed lists the real labels and contents."""
import datetime
import itertools
import os
import re
import subprocess
import sys
import h5py
import numpy as np
import la
from la import larry
import widths
from core import Family, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, inf, prod, \
    flat, wellformed
from gen import mkm, labs, shapes

NPERR = np.seterr(all='ignore')
D = datetime.date


def text(m, x):
    out = []
    for ax, l in enumerate(m.label):
        out.append('label_%d' % ax)
        if len(l) <= 10:
            out += ['    ' + str(k) for k in l]
        else:
            out += ['    ' + str(k) for k in l[:3]] + ['    ...'] + \
                ['    ' + str(k) for k in l[-3:]]
    return '\n'.join(out + ['x', repr(x)])


def show(y, m, what):
    want = text(m, y.x)
    for got in (repr(y), str(y), '%s' % y, '%r' % y):
        check(got == want, lambda: '%s is displayed as\n%s\nwant\n%s' %
              (what, got, want))


KINDS = 'sidefm'
# labels whose text has blanks, ends of lines, other scripts or brackets
ODD = [' a', 'a ', ' ', '', '\t', 'a\tb', 'a\nb', '\n', '  a  b  ', '...',
       'label_0', 'x', "it's", '"', '%s', '%', '\\', 'caf\xc3\xa9', None, True,
       (1, 'a '), ('a',), (), ((1,),), -0.0, 1e22, 10 ** 20, D(2000, 1, 1),
       datetime.time(1, 2), datetime.timedelta(1)]


def disp_cases(tier):
    for i in range(len(ODD)):
        yield (1,), ('odd', i), 'f'
        yield (4, 2), ('odd', i), 'S'
        yield (12, 3), ('odd', i), 'f'
    top = 14 if tier == 'quick' else 24
    for n in range(top) + [20, 50, 99, 100, 101, 127, 128, 1000, 1001]:
        for lk in 'sidf':
            yield (n,), lk, 'f'
        for dt in 'gijbSOc':
            yield (n,), 'i', dt
    for s in shapes([None, 3, 2, 2]):
        for lk in KINDS + 't':
            yield s, lk, 'f'
        for dt in 'gijbSOc':
            yield s, 's', dt
    for n in (9, 10, 11, 12, 13, 30):
        for s in ((n, 2), (2, n), (n, n), (1, n, 2), (n, 11, 10), (11, 1, n),
                  (n, 0), (0, n)):
            yield s, 'i', 'f'
            yield s, 'is' * 3, 'f'


def disp_run(ctx, case):
    s, lk, dt = case
    if lk[0] == 'odd':
        odd = ODD[lk[1]:] + ODD[:lk[1]]
        m = mkm(s, label=[odd[k:k + n] for k, n in enumerate(s)], dt=dt)
    else:
        m = mkm(s, lk[:len(s)] if len(lk) > 1 else lk, dt)
    if dt in 'fg' and prod(s) > 2:
        m.cells[1], m.cells[2] = nan, inf
    ctx.state(case)
    for lay in 'CFRN':
        y = mk(m, lay)
        was = snap(y)
        show(y, m, repr(m))
        ctx.step(1)
        same_snap(snap(y), was, 'display changed the larry')
        attrs(y, m, repr(m))
        # every axis in turn is relabelled and a cell changed in place
        for ax in range(len(s)):
            if s[ax]:
                y.label[ax][-1] = 'relabelled'
                w = snap(y)
                show(y, w, 'after relabelling')
                y.label[ax][0] = 'also'
                show(y, snap(y), 'after relabelling')
        if prod(s) and dt in 'fgijc':
            y.x[(0,) * len(s)] = 77
            show(y, snap(y), 'after assignment')
            attrs(y, snap(y), 'after assignment')
        ctx.outcome(repr(y)[:60])


def attrs(y, m, what):
    check(y.shape == m.shape and type(y.shape) is tuple, what + ': shape')
    check(y.ndim == m.ndim, what + ': ndim')
    check(y.size == m.size, what + ': size')
    check(y.dtype == y.x.dtype, what + ': dtype')
    check(y.A is y.x, what + ': A')
    if y.x.dtype.kind in 'fiubc':
        n = len([v for v in m.cells if not (
            v != v or (isinstance(v, float) and abs(v) == inf))])
        check(y.nx == n, lambda: '%s: nx is %r, want %d' % (what, y.nx, n))
    else:
        raises(lambda: y.nx, what + ': nx')
    was = snap(y)
    t = y.T
    same(t, m.permute(range(m.ndim)[::-1]), what + ': T', dtype='exact')
    check(not np.may_share_memory(t.x, y.x) or not y.size, 'T is a copy')
    if t.size:
        t.label[0][0] = 'changed'
        t.x[(0,) * t.ndim] = t.x[(-1,) * t.ndim]
    for name in ('shape', 'size', 'ndim', 'dtype', 'nx', 'T', 'A'):
        try:
            setattr(y, name, 3)
        except Exception:
            pass
        else:
            check(False, '%s can be set' % name)
    same_snap(snap(y), was, what + ': reading attributes changed the larry')


# nx over patterns ---------------------------------------------------------------

def nx_cases(tier):
    lim = 6 if tier == 'quick' else 8
    for s in shapes([lim, 3, 2]):
        if prod(s) <= lim:
            yield s,


def nx_run(ctx, case):
    s, = case
    for cells in itertools.product((1.5, nan, inf, -inf)[:4 if prod(s) < 6
                                                         else 3],
                                   repeat=prod(s)):
        m = mkm(s, cells=list(cells))
        y = mk(m, 'CFRN'[len(set(cells)) % 4])
        ctx.state((s, repr(cells)))
        n = len([v for v in cells if v == 1.5])
        check(y.nx == n, lambda: 'nx of %r is %r' % (m, y.nx))
        check(y.size == prod(s), 'size')
        ctx.step(1)
        ctx.outcome((s, n))


# archives ---------------------------------------------------------------------------

SPECS = {
    'b': ((2,), 'f'), 'a': ((3, 2), 'i'), 'B': ((1, 1, 2), 'g'),
    'aa': ((4,), 'S'), 'z z': ((2, 2), 'b'), 'a1': ((1,), 'f'),
    'a_much_longer_name_than_the_others': ((12, 11), 'f'), '10': ((2,), 'i'),
    '9': ((2,), 'j'), 'g/h': ((2,), 'f'), 'g/a/k': ((1, 2), 'f'),
    'c': ((2,), 'c'),
}
KEYS = sorted(SPECS)


def squeeze(t):
    return re.sub(r'\s+', ' ', t.strip())


def listing(io, have, what):
    got = repr(io).rstrip('\n').split('\n')
    check(len(got) == 2 + len(have), lambda: '%s: %d lines for %d larrys:\n%s'
          % (what, len(got), len(have), repr(io)))
    check(squeeze(got[0]) == 'larry dtype shape' and
          re.match('^-+$', got[1]), lambda: '%s: head %r' % (what, got[:2]))
    for line, key in zip(got[2:], sorted(have)):
        want = squeeze('%s %s %s' % (key, have[key][1], have[key][0]))
        check(squeeze(line) == want, lambda: '%s: line %r, want %r\n%s' %
              (what, line, want, repr(io)))
    # columns line up
    if have:
        width = max([len(k) for k in list(have) + ['larry']])
        check(all([l[width:width + 2] == '  ' and l[width + 2] != ' '
                   for l in [got[0]] + got[2:]]), lambda: what +
              ': columns do not line up\n' + repr(io))
    check(str(io) == repr(io), 'str and repr')


def saved(key, alt=0):
    s, dt = SPECS[key]
    if alt:
        s = s + (2,)
        dt = 'f' if dt != 'f' else 'i'
    return mkm(s, 's', dt)


def arch_cases(tier):
    n = 2 if tier == 'quick' else 3
    for r in range(n + 1):
        for keys in itertools.permutations(KEYS, r):
            yield keys
    yield tuple(KEYS)
    yield tuple(KEYS[::-1])


def space(io, path, what):
    """The sizes agree with the file."""
    check(io.space == os.path.getsize(path), lambda: '%s: space %r, file %r' %
          (what, io.space, os.path.getsize(path)))
    total = [0]
    f = h5py.File(path, 'r')
    def look(name, obj):
        if isinstance(obj, h5py.Dataset):
            total[0] += obj.id.get_storage_size()
    f.visititems(look)
    f.close()
    check(io.freespace == io.space - total[0], lambda:
          '%s: freespace %r of %r with %r in use' %
          (what, io.freespace, io.space, total[0]))


def arch_run(ctx, keys):
    ctx.state(keys)
    path = os.path.join(ctx.dir(), 'show.hdf5')
    if os.path.exists(path):
        os.remove(path)
    io = la.IO(path)
    have = {}
    listing(io, have, 'an empty archive')
    for k in keys:
        y = mk(saved(k))
        io[k] = y
        have[k] = (str(y.x.shape), str(y.x.dtype))
        listing(io, have, 'after saving %r of %r' % (k, keys))
        ctx.step(1)
    for k in keys[:3]:
        y = mk(saved(k, 1))
        io[k] = y
        have[k] = (str(y.x.shape), str(y.x.dtype))
        listing(io, have, 'after replacing %r of %r' % (k, keys))
        ctx.step(1)
    listing(la.IO(path), have, 'another IO')
    if have:
        space(io, path, 'archive of %r' % (keys,))
        # what others keep in the file is not free space, and what is
        # compressed takes the space it takes
        f = h5py.File(path)
        f.create_dataset('others', data=np.zeros(20000), compression='gzip')
        f.create_dataset('unused', (9000,), 'f8', chunks=(100,))
        f.close()
        space(io, path, 'archive of %r and others' % (keys,))
        f = h5py.File(path)
        del f['others'], f['unused']
        f.close()
        free = io.freespace
        io.repack()
        listing(io, have, 'repacked archive of %r' % (keys,))
        space(io, path, 'repacked archive of %r' % (keys,))
        check(io.freespace <= free, 'repack made the archive larger')
    for k in keys[::-1]:
        del io[k]
        del have[k]
        listing(io, have, 'after deleting %r of %r' % (k, keys))
        ctx.step(1)
    ctx.outcome(keys)
    os.remove(path)


INSTALL = """
import sys
blocked = %r
for name in blocked:
    sys.modules[name] = None
sys.path.insert(0, %r)
import la
import os
assert os.path.realpath(la.__file__).startswith(os.path.realpath(%r))
la.info()
y = la.larry([1.0, 2.0], [['a', 'b']]) + la.larry([5.0, 6.0], [['b', 'c']])
assert y.label == [['b']] and y.x.tolist() == [7.0], y
z = la.add(la.larry([1.0]), la.larry([2.0], [['b']]), join='outer', missone=0)
assert z.x.tolist() == [1.0, 2.0], z
if 'h5py' in blocked:
    assert not hasattr(la, 'IO')
else:
    assert la.IO and la.save and la.load
"""


def info_cases(tier):
    for r in range(3):
        for b in itertools.combinations(['la.cflabel', 'h5py'], r):
            yield b


def info_run(ctx, blocked):
    """What la.info says is what is installed."""
    ctx.state(blocked)
    root = os.environ['LA_SCRATCH']
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c',
                          INSTALL % (blocked, root, root)],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = p.communicate()
    check(p.returncode == 0, 'la without %r: %s' % (blocked, err[-600:]))
    rows = {}
    for line in out.splitlines():
        for name in ('la file', 'HDF5 archiving', 'listmap_fill', 'listmap',
                     'NumPy', 'Bottleneck', 'la'):
            if line.startswith(name + ' '):
                check(name not in rows, 'two rows for ' + name)
                rows[name] = line[len(name):].strip()
                break
    import bottleneck
    import h5py
    c = 'Slower Python' if 'la.cflabel' in blocked else 'Faster C'
    check(c in rows['listmap'], 'listmap: %r' % rows['listmap'])
    check(c in rows['listmap_fill'], 'listmap_fill: %r' %
          rows['listmap_fill'])
    check(rows['la'] == la.__version__, 'la: %r' % rows['la'])
    check(rows['NumPy'] == np.__version__, 'NumPy: %r' % rows['NumPy'])
    check(rows['Bottleneck'] == bottleneck.__version__, rows['Bottleneck'])
    check(os.path.dirname(os.path.realpath(rows['la file'])) ==
          os.path.realpath(os.path.join(root, 'la')), rows['la file'])
    h = rows['HDF5 archiving']
    check(h == 'Not available' if 'h5py' in blocked else
          h.startswith('Available') and h5py.version.version in h,
          'HDF5 archiving: %r' % h)
    ctx.outcome(tuple(sorted(rows)))
    ctx.step(7)


def typed_run(ctx, case):
    """The listing of an archive, element types of every width"""
    y = widths.stored(case)
    ctx.state(case)
    path = os.path.join(ctx.dir(), 'typed.hdf5')
    if os.path.exists(path):
        os.remove(path)
    io = la.IO(path)
    io['k'] = y
    io['another'] = larry([[1.5]])
    listing(io, {'k': (str(y.x.shape), str(y.x.dtype)),
                 'another': ('(1, 1)', 'float64')}, '%r' % (case,))
    ctx.step()


FAMILIES = [
    Family('installation', info_cases, info_run,
           'with and without the extension and h5py'),
    Family('display', disp_cases, disp_run, 'display and attributes'),
    Family('nx', nx_cases, nx_run),
    Family('archives', arch_cases, arch_run, 'save, replace, delete'),
    Family('listing, element types', widths.stored_cases, typed_run),
]
BOUNDS = {'quick': 'axes of 0-13, 20-1001 labels of 7 kinds, 8 dtypes, 4 '
                   'layouts, up to 4 axes; all patterns of 4 kinds of cells '
                   'up to 6 cells; archives of every ordered pair of 12 keys '
                   'through save, replace, delete',
          'thorough': 'axes of 0-23; 8 cells; every ordered triple of keys'}
ASSUMPTIONS = ['labels can be turned into text by str']
RULE = 'the printed text is compared with the text that the labels require'
