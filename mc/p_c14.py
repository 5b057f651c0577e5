"""C14: the archive is a dictionary of larrys, whatever happened before.

Explicit-state exploration on real HDF5 files.  A model state is the dictionary
of stored larrys plus the set of keys that were ever used (their groups may
still exist).  Every reachable model state is reached on a real file by its
shortest history, and from each one every operation of the alphabet is run on
a copy of that file and compared with the dictionary.
"""
import datetime
import itertools
import os
import shutil
import time
import numpy as np
import h5py
import la
from la import larry, IO
from la.io import save, load, delete, repack, is_archived_larry, \
    archive_directory
import widths
from core import Family, Fail, check
from model import M, mk, arr, snap, same, raises, nan, inf, prod, veq, kind
from gen import mkm, labs, vals

D = datetime.date
DTM = datetime.datetime
T = datetime.time

VALS = [M([['b', 'a']], [1.5, nan], 'f'),
        M([[D(2010, 3, 1), D(2009, 12, 31)],
           [DTM(2010, 3, 1, 9, 30, 0, 7)]], [3, -4], 'i'),
        M([[], [2, 0]], [], 'f'),
        M([[T(1, 2, 3, 4)], [1, 0, -1], [0.5]], [True, False, True], 'b')]
KEYS = ['a', 'a/1', 'b c', 'g/h/a']
ABSENT = ['z', 'a/2', 'g/z', 'b c/a', 'g/h/a/a']


def norm(key):
    return '/'.join([g for g in key.split('/') if g])


def names(v):
    return ['x'] + [str(i) for i in range(v.ndim)]


class Arch(object):
    """The model: a dictionary, and the keys that were ever used."""
    def __init__(self, d=(), used=()):
        self.d = dict(d)
        self.used = frozenset(used)

    def key(self):
        return (tuple(sorted(self.d.items())), tuple(sorted(self.used)))

    def copy(self):
        return Arch(self.d, self.used)

    def conflict(self, k, v, vals):
        """Would the larry's arrays and another larry's group coincide?"""
        for k2 in self.d:
            if k2.startswith(k + '/'):
                if k2[len(k) + 1:].split('/')[0] in names(vals[v]):
                    return True
            if k.startswith(k2 + '/'):
                if k[len(k2) + 1:].split('/')[0] in names(vals[self.d[k2]]):
                    return True
        return False

    def apply(self, op, vals=VALS):
        """Returns the kind of error to expect, or None."""
        how, verb = op[:2]
        if verb == 'set':
            k = norm(op[2])
            if how != 'io' and k in self.d:
                return Exception
            if self.conflict(k, op[3], vals):
                return Exception
            self.d[k] = op[3]
            self.used |= frozenset([k])
        elif verb == 'del':
            k = norm(op[2])
            if k not in self.d:
                return KeyError
            del self.d[k]
        elif verb == 'clear':
            self.d = {}
        return None


def act(path, h, op, vals=VALS):
    """Run the operation on the implementation; returns the handle."""
    how, verb = op[:2]
    if how == 'h' and h is None:
        h = h5py.File(path)
    target = {'io': path, 'fn': path, 'h': h}[how]
    io = IO(path)
    if verb == 'set':
        v = mk(vals[op[3]])
        if how == 'io':
            io[op[2]] = v
        else:
            r = save(target, v, op[2])
            check(r is None, 'save returns something')
        same(v, vals[op[3]], 'the larry that was saved')
    elif verb == 'del':
        if how == 'io':
            del io[op[2]]
        else:
            r = delete(target, op[2])
            check(r is None, 'delete returns something')
    elif verb == 'clear':
        io.clear()
    elif verb == 'repack':
        if how == 'io':
            io.repack()
        else:
            r = repack(target)
            if how == 'fn':
                check(r is None, 'repack of a file name returns something')
            else:
                check(isinstance(r, h5py.File) and r.id.valid,
                      'repack of an open file gives no open file')
                h = r
    return h


def strict(got, v, what):
    """Equal in values, dtype, labels and label types."""
    same(got, v, what, dtype='exact' if v.dt in 'fgij' else True)
    for l, w in zip(got.label, v.label):
        for p, q in zip(l, w):
            check(type(p) is type(q), lambda: '%s: label type %s, was %s' %
                  (what, type(p), type(q)))


def verify(path, h, m, full=True, vals=VALS):
    target = path if h is None else h
    want = sorted(m.d)
    keys = archive_directory(target)
    check(sorted(keys) == want, lambda: 'archive_directory: %r, want %r' %
          (keys, want))
    for k in keys:
        strict(load(target, k), vals[m.d[k]], 'load(%r)' % k)
    for k in KEYS + ABSENT:
        if k in m.d:
            check(is_archived_larry(target, k) is True,
                  lambda: 'is_archived_larry(%r)' % k)
            continue
        try:
            ans = is_archived_larry(target, k)
        except ValueError:
            ans = False
        check(ans is False, lambda: '%r is not archived, yet '
              'is_archived_larry says %r' % (k, ans))
        if full:
            try:
                r = load(target, k)
            except KeyError:
                r = None
            check(r is None, lambda: 'load(%r) of an absent key' % k)
    if h is not None or not full:
        return
    io = IO(path)
    for what, got in [('keys', io.keys()), ('iter', list(io)),
                      ('iterkeys', list(io.iterkeys()))]:
        check(sorted(got) == want, lambda: '%s: %r, want %r' %
              (what, got, want))
    check(len(io) == len(want), lambda: 'len: %r' % len(io))
    for what, got in [('items', io.items()), ('iteritems',
                                              list(io.iteritems()))]:
        check(sorted([k for k, v in got]) == want, lambda: '%s: %r' %
              (what, got))
        for k, v in got:
            strict(v[:], vals[m.d[k]], '%s()[%r]' % (what, k))
    for what, got in [('values', io.values()), ('itervalues',
                                                list(io.itervalues()))]:
        check(len(got) == len(want), 'number of values')
        left = [m.d[k] for k in want]
        for v in got:
            v = v[:]
            for i in left:
                try:
                    strict(v, vals[i], '')
                except Fail:
                    continue
                left.remove(i)
                break
            else:
                raise Fail('%s: unexpected %r' % (what, snap(v)))
    for k in KEYS + ABSENT:
        isin = k in m.d
        check((k in io) is isin, lambda: '%r in io: %r' % (k, k in io))
        check(bool(io.has_key(k)) is isin, lambda: 'has_key(%r)' % k)
        check(('/' + k in io) is isin and (k + '/' in io) is isin,
              lambda: '/%s in io' % k)
        if isin:
            strict(io[k][:], vals[m.d[k]], 'io[%r]' % k)
            strict(load(path, '/' + k), vals[m.d[k]], 'load(/%r)' % k)
        else:
            for what, f in [('io[]', lambda: io[k]),
                            ('del io[]', lambda: io.__delitem__(k)),
                            ('delete', lambda: delete(path, k))]:
                try:
                    f()
                except KeyError:
                    continue
                raise Fail('%s of the absent key %r' % (what, k))
    files = os.listdir(os.path.dirname(path))
    check(files == [os.path.basename(path)], lambda: 'files: %r' % files)
    sp = io.space
    check(sp == os.path.getsize(path) and 0 <= io.freespace <= sp,
          lambda: 'space %r freespace %r' % (sp, io.freespace))


def step(path, h, m, op, what, vals=VALS):
    """One operation on model and implementation. Returns the handle."""
    want = m.apply(op, vals)
    h0 = h
    if op[0] == 'h' and h is None:
        h0 = h = h5py.File(path)
    try:
        h = act(path, h, op, vals)
    except Fail:
        raise
    except Exception as e:
        check(want is not None and isinstance(e, want),
              lambda: '%s: %r raised %r' % (what, op, e))
        return h0
    check(want is None, lambda: '%s: %r should be refused' % (what, op))
    return h


def ops_for(keys, nv):
    out = []
    for how in ('io', 'fn', 'h'):
        for k in keys:
            for v in range(nv):
                if how != 'io' and v != len(k) % nv:
                    continue
                out.append((how, 'set', k, v))
            out.append((how, 'del', k))
        out.append((how, 'repack'))
    out += [('io', 'clear'), ('io', 'set', '/a', 1), ('fn', 'set', 'b c/', 1),
            ('io', 'del', '/a'), ('h', 'del', 'g//h/a/')]
    return out


def reach(keys, nv):
    """Every model state with a shortest history that reaches it."""
    start = Arch()
    seen = {start.key(): ()}
    todo = [(start, ())]
    while todo:
        new = []
        for m, hist in todo:
            for k in keys:
                for op in [('io', 'set', k, v) for v in range(nv)] + \
                        [('io', 'del', k)]:
                    m2 = m.copy()
                    if m2.apply(op) is None and m2.key() not in seen:
                        seen[m2.key()] = hist + (op,)
                        new.append((m2, hist + (op,)))
                        yield hist + (op,)
        todo = new


def fresh(ctx):
    d = os.path.join(ctx.dir(), 'arch')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    return os.path.join(d, 'a.h5')


def closure_cases(tier):
    yield ()
    for hist in reach(KEYS if tier != 'quick' else KEYS[:3], 2):
        yield hist


def closure_run(ctx, hist):
    path = fresh(ctx)
    m = Arch()
    h5py.File(path).close()
    for op in hist:
        step(path, None, m, op, 'history %r' % (hist,))
    verify(path, None, m)
    ctx.state(m.key())
    image = open(path, 'rb').read()
    for op in ops_for(KEYS, 2):
        with open(path, 'wb') as f:
            f.write(image)
        m2 = m.copy()
        h = None
        try:
            h = step(path, h, m2, op, 'after %r' % (hist,))
            if h is not None:
                verify(path, h, m2, False)
        finally:
            if h is not None:
                h.close()
        verify(path, None, m2, op[1] in ('repack', 'clear'))
        ctx.outcome((m.key(), op))
        ctx.step(1)


def hist_cases(tier):
    """Complete histories, no states merged; '=' closes an open handle."""
    keys = ['a', 'a/1']
    ops = []
    for how in ('io', 'fn', 'h'):
        for k in keys:
            ops.append((how, 'set', k, 1 if k == 'a' else 0))
            ops.append((how, 'del', k))
        ops.append((how, 'repack'))
    ops += [('io', 'clear'), ('io', 'set', 'a', 0), ('=', 'close')]
    n = 3 if tier == 'quick' else 4
    for seq in itertools.product(range(len(ops)), repeat=n):
        seq = [ops[i] for i in seq]
        if seq[0][1] in ('del', 'close', 'clear') or seq[-1][0] == '=':
            continue
        h = False
        for op in seq:
            if op[0] == 'h':
                h = True
            elif op[0] == '=':
                if not h:
                    break
                h = False
            elif op[1] == 'repack' and h:
                break       # the open file would keep the replaced one
        else:
            yield tuple(seq)


def hist_run(ctx, seq):
    path = fresh(ctx)
    h5py.File(path).close()
    m = Arch()
    h = None
    try:
        for op in seq:
            if op[0] == '=':
                h.close()
                h = None
                continue
            h = step(path, h, m, op, 'in %r' % (seq,))
            ctx.step(1)
            ctx.state((m.key(), h is None))
            verify(path, h, m, False)
            if h is not None and op[0] == 'h':
                # what was saved can be seen without the open file
                verify(path, None, m, False)
    finally:
        if h is not None:
            h.close()
    verify(path, None, m)


# single round trips ------------------------------------------------------------

LABELS = {
    'int': [3, -1, 0], 'big': [2 ** 40, -2 ** 62, 0],
    'str': ['b', '', 'a c'], 'bytes': ['\xff\xfe', '/', '.'],
    'float': [0.1, -0.0, inf], 'bool': [True, False],
    'date': [D(2010, 3, 1), D.min, D.max],
    'datetime': [DTM(2010, 3, 1, 9, 30, 59, 999999), DTM.min, DTM.max],
    'time': [T(23, 59, 59, 999999), T(0), T(1, 2, 3, 4)],
    'complex': [1j, 2 + 0j, -1.5j],
}
ODD = {
    'nul': ['a\0', 'b'], 'nul2': ['\0', 'a'], 'nul3': ['a', 'a\0'],
    'long': [2 ** 63, 2 ** 63 + 1], 'long2': [2 ** 63 + 1, long(-1)],
    'long3': [2 ** 70, 2 ** 71], 'mixed': [1, 'a'], 'mixed2': [1, 1.5],
    'mixed3': [D(2010, 1, 1), DTM(2010, 1, 2)], 'mixed4': [True, 2],
    'unicode': [u'a', u'\u20ac'], 'none': [None], 'tuple': [('a', 1)],
    'tuple2': [(1, 2), (3, 4)], 'tuple3': [(1, 2)], 'empty tuple': [()],
    'frozen': [frozenset([1]), frozenset()],
    'delta': [datetime.timedelta(1)], 'mixed5': ['a', u'b'],
    'mixed6': [None, 'a'], 'mixed7': [T(1), DTM(2010, 1, 1)],
    'fraction': [1, 2.0 ** 60], 'long4': [long(1), 2],
    'third': [1, 2, 'a'], 'third2': [1.5, 2.5, 'a'], 'third3': [1, 2, 2.5],
    'third4': [False, True, 2], 'third5': [D(2010, 1, 1), D(2010, 1, 2), 7],
    'third6': [2, 1, 0.5, 'a', None], 'third7': ['a', 'b', 1],
    'third8': [1, 2, long(3)], 'third9': [T(1), T(2), D(2010, 1, 1)],
    'fourth': [1, 2, 3, 'a'], 'last': range(20) + ['z'],
    'last2': range(20) + [20.5], 'middle': range(9) + [9.0] + range(10, 20),
    'first': ['a'] + range(20),
}
DTYPES = ['f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u1', 'u8', 'b1', 'S1',
          'S5', 'c16', 'c8', '>f8', '>i4']


def trip_cases(tier):
    for lk in sorted(LABELS):
        for n in range(0, len(LABELS[lk]) + 1):
            for start in range(len(LABELS[lk]) - n + 1):
                yield 'label', lk, start, n
    shapes = [(0,), (1,), (3,), (0, 0), (0, 2), (2, 0), (1, 1), (2, 2),
              (3, 1), (1, 2, 2), (2, 0, 1), (2, 1, 2), (1, 2, 1, 2)]
    for dt in DTYPES:
        for s in shapes:
            for lay in 'CFRN':
                yield 'dtype', dt, s, lay
    for k in sorted(ODD):
        for how in ('io', 'fn', 'h'):
            yield 'odd', k, how, 0
    for n in [7, 8, 9, 16, 17, 63, 64, 100, 255, 256, 1000, 1024, 5000, 65535,
              65536, 70000]:
        for lk in 'isdf':
            if lk == 'i' or n <= 5000:
                yield 'size', n, lk, 0
    for key in ['x', '0', 'larry', 'a' * 200, 'a b', "q'", '\xc3\xa9', '#',
                'a_b', '_', 'a_', 'a ', ' a', 'a-b', 'a.b', 'a:b', 'a\\b',
                'a\tb', 'a*', '%d', '~', 'x_repack_tmp_y', 'UPPER/lower',
                'group with space/key with space', 'a/b_c',
                'x/x', '0/1/x', '-', 'label', 'keys', 'A', '..a', '[0]',
                '/'.join('abcdefghijkl')]:
        yield 'key', key, '', 0


def raw(got, x, label, what):
    """Equal to the very array and labels that were stored."""
    check(got.x.shape == x.shape and got.x.dtype == x.dtype,
          lambda: '%s: %s %s, was %s %s' % (what, got.x.shape, got.x.dtype,
                                            x.shape, x.dtype))
    a, b = got.x.ravel().tolist(), x.ravel().tolist()
    check(len(a) == len(b) and all([veq(p, q) for p, q in zip(a, b)]),
          lambda: '%s: %r, was %r' % (what, a[:20], b[:20]))
    check(len(got.label) == len(label), what)
    for l, w in zip(got.label, label):
        check(type(l) is list and len(l) == len(w), lambda: '%s: %r, was %r' %
              (what, l[:20], w[:20]))
        for p, q in zip(l, w):
            check(p == q and type(p) is type(q) or
                  type(q) is long and p == q, lambda: '%s: label %r, was %r' %
                  (what, p, q))


def trip_run(ctx, case):
    fam, a, b, c = case
    path = fresh(ctx)
    io = IO(path)
    key = 'k'
    if fam == 'label':
        label = [list(LABELS[a][b:b + c]), [1, 0]]
        if c == 0:
            label = [[], [1, 0]]
        x = np.arange(2. * len(label[0])).reshape(-1, 2)
        variants = [(x, label), (x.T, label[::-1]), (x[:, 0], label[:1])]
    elif fam == 'dtype':
        n = prod(b)
        x = np.arange(1, n + 1) % 5
        x = x.astype(np.dtype(a)).reshape(b)
        if np.dtype(a).kind == 'f' and n:
            x.flat[n // 2] = np.nan
        from model import relayout
        variants = [(relayout(x, c), [range(i) for i in b])]
    elif fam == 'odd':
        odd_run(ctx, case, path)
        return
    elif fam == 'size':
        label = [labs(b, a) if a <= 5000 else range(a, 0, -1)]
        variants = [(np.arange(1. * a), label)]
        if a <= 256:
            variants.append((np.arange(2. * a).reshape(2, a), [[5, 4]] + label))
    else:
        key = a
        variants = [(np.array([[1.5, 2]]), [['r'], [1, 0]])]
    for x, label in variants:
        ctx.state((repr(label)[:200], x.shape, str(x.dtype)))
        y = larry(x.copy(order='A') if fam != 'dtype' else x,
                  [list(l) for l in label])
        io[key] = y
        raw(y, x, label, 'the larry saved')
        raw(load(path, key), x, label, 'load')
        l = io[key]
        check(l.dtype == x.dtype and l.shape == x.shape and l.label == label,
              lambda: 'io[]: %s %s %r' % (l.dtype, l.shape, l.label))
        raw(l[:], x, label, 'io[][:]')
        check(io.keys() == [norm(key)] and key in io and len(io) == 1,
              lambda: 'keys %r' % io.keys())
        io.repack()
        raw(load(path, key), x, label, 'load after repack')
        del io[key]
        check(io.keys() == [] and key not in io and len(io) == 0,
              lambda: 'after del: %r' % io.keys())
        h = h5py.File(path)
        try:
            save(h, y, key)
            raw(load(h, key), x, label, 'load from the open file')
        finally:
            h.close()
        raw(load(path, key), x, label, 'load')
        delete(path, key)
        ctx.step(7)


def odd_run(ctx, case, path):
    """Stored exactly or refused; never stored differently."""
    fam, a, how, c = case
    label = [ODD[a], [1]]
    x = np.arange(1. * len(label[0])).reshape(-1, 1)
    io = IO(path)
    old = larry([1., 2.], [['a', 'b']])
    io['old'] = old
    for lab, dat in [(label, x), ([[1], ODD[a]], x.T), ([ODD[a]], x[:, 0])]:
        y = larry(dat, [list(l) for l in lab])
        ctx.state(repr(lab))
        ctx.step(1)
        try:
            if how == 'io':
                io['k'] = y
            elif how == 'fn':
                save(path, y, 'k')
            else:
                h = h5py.File(path)
                try:
                    save(h, y, 'k')
                finally:
                    h.close()
        except Fail:
            raise
        except Exception:
            check(io.keys() == ['old'], 'a refused save left %r' % io.keys())
        else:
            raw(load(path, 'k'), dat, lab, 'load')
            del io['k']
        raw(load(path, 'old'), old.x, old.label, 'the other larry')
    # data
    for dt in (object, 'M8[D]', 'U3', [('a', int)]):
        y = larry(np.zeros(1, dtype=dt))
        try:
            io['k'] = y
        except Exception:
            check(io.keys() == ['old'], 'a refused save left %r' % io.keys())
        else:
            check(load(path, 'k').x.dtype == y.x.dtype, 'dtype')
            del io['k']


# overwriting -----------------------------------------------------------------------

POOL = [M([['b', 'a']], [1.5, nan], 'f'), VALS[1], VALS[2], VALS[3],
        M([['b', 'a']], [2.5, 1.0], 'f'), M([['a', 'b']], [1.5, nan], 'f'),
        M([['b', 'a']], [1, 2], 'i'), M([[1, 0]], [1.5, nan], 'f'),
        M([[D(2010, 1, 1), D(2010, 1, 2)]], [1.5, nan], 'f'),
        M([[DTM(2010, 1, 1), DTM(2010, 1, 2)]], [1.5, nan], 'f'),
        M([[T(1), T(2)]], [1.5, nan], 'f'),
        M([[733773, 733774]], [1.5, nan], 'f'),
        M([['b']], ['x'], 'S'), M([['b']], ['longer'], 'S'), M([[]], [], 'f'),
        M([[1.5]], [1j], 'c')]


def over_cases(tier):
    for i in range(len(POOL)):
        for j in range(len(POOL)):
            for how in ('set', 'set/', 'del', 'delete', 'two', 'copy', 'swap'):
                yield i, j, how


def over_run(ctx, case):
    i, j, how = case
    path = fresh(ctx)
    io = IO(path)
    ctx.state(case)
    io['a'] = mk(POOL[i])
    io['b'] = mk(POOL[j])
    if how == 'set':
        io['a'] = mk(POOL[j])
    elif how == 'set/':
        io['/a/'] = mk(POOL[j])
    elif how == 'del':
        del io['a']
        io['a'] = mk(POOL[j])
    elif how == 'delete':
        delete(path, 'a')
        save(path, mk(POOL[j]), 'a')
    elif how == 'two':
        one = IO(path)
        one['a'] = mk(POOL[j])
        io['c'] = mk(POOL[i])
        strict(one['c'][:], POOL[i], 'the other IO object')
        del one['c']
    elif how == 'copy':
        io['a'] = io['b'][:]
    elif how == 'swap':
        io['a'], io['b'] = io['b'][:], io['a'][:]
        io['a'], io['b'] = io['b'][:], io['a'][:]
        strict(load(path, 'a'), POOL[i], 'swapped twice')
        io['a'], io['b'] = io['b'][:], io['a'][:]
        strict(load(path, 'a'), POOL[j], 'swapped')
        strict(load(path, 'b'), POOL[i], 'swapped')
        ctx.step(6)
        return
    strict(load(path, 'a'), POOL[j], 'load')
    strict(io['a'][:], POOL[j], 'io[]')
    strict(load(path, 'b'), POOL[j], 'the other larry')
    check(sorted(io.keys()) == ['a', 'b'], 'keys %r' % io.keys())
    ctx.step(4)


# many larrys and deep nesting ---------------------------------------------------------

def many_cases(tier):
    for n in [1, 2, 7, 8, 9, 10, 11, 16, 17, 31, 33, 64, 65, 100, 130]:
        for pat in ('%d', 'g/%d', '%d/g', 'g/%d/h/%d', '%04d', 'mix'):
            yield n, pat


def many_run(ctx, case):
    n, pat = case
    path = fresh(ctx)
    io = IO(path)
    ctx.state(case)
    def key(i):
        if pat == 'mix':
            # neighbours whose order as text and order as a tree differ
            return ('%d/a', '%d-a', '%d a', '%da', '%d.a', '%d/b')[i % 6] % \
                (i // 6)
        return pat.replace('%d', str(i * 37 % 1009)).replace('%04d', '%04d' %
                                                              (i * 37 % 1009))
    want = {}
    for i in range(n):
        io[key(i)] = larry([float(i)], [['r%d' % i]])
        want[key(i)] = i
    def look(what):
        check(sorted(io.keys()) == sorted(want) and len(io) == len(want),
              lambda: '%s: keys %r' % (what, io.keys()))
        for k in want:
            r = load(path, k)
            check(r.x[0] == want[k] and r.label == [['r%d' % want[k]]],
                  lambda: '%s: %r' % (what, snap(r)))
        for k, v in io.iteritems():
            check(v[:].x[0] == want[k], '%s: iteritems' % what)
        # one order for all
        ks = list(io.keys())
        check(list(io) == ks and list(io.iterkeys()) == ks,
              '%s: order of the keys' % what)
        vs = [want[k] for k in ks]
        check([v[:].x[0] for v in io.values()] == vs and
              [v[:].x[0] for v in io.itervalues()] == vs,
              '%s: order of the values' % what)
        check([(k, v[:].x[0]) for k, v in io.items()] == zip(ks, vs),
              '%s: order of the items' % what)
    look('saved')
    for i in range(0, n, 3):
        del io[key(i)]
        del want[key(i)]
    look('some deleted')
    io.repack()
    look('repacked')
    for i in range(0, n, 2):
        io[key(i)] = larry([-1. - i], [['r%d' % (-1 - i)]])
        want[key(i)] = -1 - i
    look('overwritten')
    io.clear()
    want.clear()
    look('cleared')
    ctx.step(3 * n)


# other contents ---------------------------------------------------------------

def plant(path, kind):
    """An HDF5 file that somebody else's program writes to as well."""
    f = h5py.File(path)
    if kind == 'root':
        f.attrs['owner'] = 'me'
        f.attrs['version'] = np.array([1, 2])
        d = f.create_dataset('data', data=np.arange(3))
        d.attrs['unit'] = 'm'
    elif kind == 'groups':
        g = f.create_group('a')
        g['note'] = np.array([1.5, 2.5])
        g['note'].attrs['by'] = 'you'
        g = f.create_group('g/h')
        g.attrs['level'] = 2
        g['numbers'] = np.arange(4)
        f.create_group('empty').attrs['z'] = 1.5
    elif kind == 'alike':
        # looks like a larry but nobody said that it is one
        g = f.create_group('data')
        g['x'] = np.arange(3)
        g['0'] = np.array(['a', 'b', 'c'])
        f.create_group('a/1/deep')['0'] = np.arange(2)
    elif kind == 'links':
        f['numbers'] = np.arange(3)
        f['here'] = h5py.SoftLink('/numbers')
        f['nothing'] = h5py.SoftLink('/not/there')
        f['alias'] = h5py.SoftLink('/a')        # sometimes a larry
        f['elsewhere'] = h5py.ExternalLink('no_such_file.hdf5', '/x')
        f.create_group('g')['up'] = h5py.SoftLink('/data')
    elif kind == 'storage':
        f['type'] = np.dtype([('p', 'f4'), ('q', 'S3')])
        f.create_dataset('grows', (3,), 'i2', maxshape=(None,), chunks=(2,),
                         fillvalue=7)
        f.create_dataset('packed', data=np.arange(50.).reshape(5, 10),
                         compression='gzip', shuffle=True, chunks=(5, 2))
        f['text'] = 'of any length'
        f.create_dataset('texts', (2,), h5py.special_dtype(vlen=str))[:] = \
            ['a', 'longer']
        f['nobody'] = np.zeros((0, 2))
        f.create_group('pool')['records'] = np.array([(1, 2.5)], 'i4,f8')
        f['pool'].attrs['of'] = ['a', 'bc']
    f.close()
    # keys that can never hold a larry, parts of the file
    return {'root': ['data'], 'groups': ['a/note'], 'alike': [],
            'links': ['numbers', 'here', 'nothing', 'elsewhere'],
            'storage': ['type', 'grows', 'packed', 'text', 'nobody']}[kind]


def foreign(path):
    """Everything in the file; the arrays and marks of larrys left out."""
    out = {}

    def look(name, obj):
        at = sorted([(str(k), repr(v)) for k, v in obj.attrs.items()
                     if k != 'larry'])
        val = type(obj).__name__
        if isinstance(obj, h5py.Dataset):
            val = [repr(obj[()]), str(obj.dtype), obj.maxshape, obj.chunks,
                   obj.compression, obj.shuffle, repr(obj.fillvalue)]
        elif isinstance(obj, h5py.Datatype):
            val = str(obj.dtype)
        out[name] = (at, val)
        if isinstance(obj, h5py.Group):
            for k in obj:
                link = obj.get(k, getlink=True)
                if not isinstance(link, h5py.HardLink):
                    out[name + '/' + k] = (
                        type(link).__name__, link.path,
                        getattr(link, 'filename', None))

    f = h5py.File(path, 'r')
    try:
        look('/', f)
        f.visititems(look)
    finally:
        f.close()
    return out


FOPS = [('io', 'set', 'a', 1), ('fn', 'set', 'a', 0), ('io', 'del', 'a'),
        ('io', 'set', 'g/h/a', 0), ('fn', 'del', 'g/h/a'),
        ('h', 'set', 'data', 3), ('fn', 'repack'), ('h', 'repack'),
        ('io', 'clear'), ('io', 'set', 'data', 3), ('io', 'del', 'data'),
        ('io', 'set', 'a/note', 2), ('fn', 'set', 'a/1/deep', 0)]


def foreign_cases(tier):
    for kind in ('root', 'groups', 'alike', 'links', 'storage'):
        for n in range(1, 3 if tier == 'quick' else 4):
            for seq in itertools.product(range(len(FOPS)), repeat=n):
                yield kind, tuple([FOPS[i] for i in seq])


def foreign_run(ctx, case):
    kind, seq = case
    path = fresh(ctx)
    never = plant(path, kind)
    before = foreign(path)
    m = Arch()
    for op in seq:
        what = 'file with %s, %r' % (kind, seq)
        bad = op[1] == 'set' and (op[2] in never or kind == 'alike' and
                                  op[2] in ('data', 'a/1/deep'))
        bad = bad or op[1] == 'del' and op[2] in never
        # the larry would need the name of somebody's group
        bad = bad or kind == 'alike' and op[1:] == ('set', 'a', 1)
        h = h0 = h5py.File(path) if op[0] == 'h' else None
        try:
            if bad:
                try:
                    h = act(path, h, op)
                except Fail:
                    raise
                except Exception:
                    pass
                else:
                    raise Fail('%s: %r should be refused' % (what, op))
            else:
                h = step(path, h, m, op, what)
        finally:
            for g in (h0, h):
                if g is not None:
                    g.close()
        now = foreign(path)
        for k in before:
            check(k in now, lambda: '%s: %r loses %r' % (what, op, k))
            check(now[k] == before[k], lambda: '%s: %r changes %r from %r to '
                  '%r' % (what, op, k, before[k], now[k]))
        ctx.step()
    ctx.state((kind, m.key()))
    for k in never:
        check(k not in IO(path), lambda: '%r in io' % k)
        raises(lambda: load(path, k), 'load(%r)' % k)
        raises(lambda: IO(path)[k], 'io[%r]' % k)
    verify(path, None, m, len(seq) < 2)


# arguments ---------------------------------------------------------------------------

def bad_cases(tier):
    for i in range(len(BAD)):
        for stored in range(3):
            yield i, stored


Y = larry([1., 2.], [['a', 'b']])
BAD = [
    ('key type', lambda p: IO(p).__setitem__(1, Y)),
    ('key type', lambda p: IO(p).__setitem__(None, Y)),
    ('key type', lambda p: save(p, Y, 1)),
    ('key type', lambda p: load(p, 1)),
    ('key type', lambda p: delete(p, None)),
    ('empty key', lambda p: IO(p).__setitem__('', Y)),
    ('empty key', lambda p: IO(p).__setitem__('//', Y)),
    ('empty key', lambda p: save(p, Y, '')),
    ('value type', lambda p: IO(p).__setitem__('a', [1, 2])),
    ('value type', lambda p: IO(p).__setitem__('a', np.arange(2))),
    ('value type', lambda p: IO(p).__setitem__('a', None)),
    ('value type', lambda p: save(p, np.arange(2), 'q')),
    ('present', lambda p: save(p, Y, 'a')),
    ('absent', lambda p: load(p, 'z')),
    ('absent', lambda p: IO(p)['z']),
    ('group', lambda p: load(p, 'g')),
    ('group', lambda p: IO(p)['g']),
    ('group', lambda p: delete(p, 'g')),
    ('group', lambda p: IO(p).__delitem__('g')),
    ('dataset', lambda p: load(p, 'a/x')),
    ('dataset', lambda p: IO(p)['a/x']),
    ('dataset', lambda p: delete(p, 'a/x')),
    ('dataset', lambda p: IO(p).__setitem__('a/x', Y)),
    ('dataset', lambda p: save(p, Y, 'a/0')),
    ('dataset', lambda p: save(p, Y, 'a/x/y')),
    ('root', lambda p: load(p, '/')),
    ('root', lambda p: delete(p, '/')),
    ('file', lambda p: load(1, 'a')),
    ('file', lambda p: save(None, Y, 'a')),
    ('file', lambda p: archive_directory(2.5)),
    ('lara value', lambda p: save(p, IO(p)['a'], 'q')),
]


def bad_run(ctx, case):
    i, stored = case
    what, f = BAD[i]
    path = fresh(ctx)
    m = Arch()
    for op in [('io', 'set', 'a', 0), ('io', 'set', 'g/h/a', 1),
               ('io', 'set', 'b c', 0)][:stored + 1]:
        step(path, None, m, op, '')
    ctx.state(case)
    if what == 'group' and stored < 1:
        what = 'absent'
    e = raises(lambda: f(path), '%s (%d)' % (what, i))
    if what in ('absent', 'group', 'dataset') and 'save' not in \
            f.__code__.co_names and '__setitem__' not in f.__code__.co_names:
        check(isinstance(e, KeyError), lambda: '%s: %r' % (what, e))
    verify(path, None, m)
    step(path, None, m, ('io', 'set', 'a', 1), 'after the refusal')
    verify(path, None, m)
    ctx.step(2)


def typed_run(ctx, case):
    """Element types of every width: save, load, overwrite, repack"""
    y = widths.stored(case)
    ctx.state(case)
    path = fresh(ctx)
    io = IO(path)
    io['other'] = larry([1.5])
    for what in ('saved', 'saved again', 'overwritten'):
        if what == 'overwritten':
            io['g/k'] = larry(['text'])
        io['g/k'] = y
        widths.exactly(load(path, 'g/k'), y, what)
        widths.exactly(io['g/k'][:], y, what)
        f = h5py.File(path, 'r')
        widths.exactly(load(f, 'g/k'), y, what + ', open file')
        f.close()
        check(io.keys() == ['g/k', 'other'], what + ': keys')
        ctx.step(3)
    io.repack()
    widths.exactly(io['g/k'][:], y, 'repacked')
    widths.exactly(io['other'][:], larry([1.5]), 'the other one')
    ctx.step(2)


def large_cases(tier):
    for shape in [(1100000,), (1100, 1000), (1000, 1100), (2, 600000),
                  (300000, 4), (101, 100, 110)]:
        if tier == 'thorough' or max(shape) < 10 ** 5 or len(shape) == 1:
            yield shape


def large_run(ctx, shape):
    """More than a million values: nothing is cut off or moved"""
    n = prod(shape)
    ctx.state(shape)
    path = fresh(ctx)
    x = (np.arange(n) % 251).astype(np.uint8).reshape(shape)
    label = [range(5, k + 5) for k in shape]
    io = IO(path)
    io['k'] = larry(x.copy(), [list(l) for l in label])
    for what in ('saved', 'repacked'):
        for how, f in (('load', lambda: load(path, 'k')),
                       ('io[][:]', lambda: io['k'][:])):
            y = f()
            check(y.x.shape == shape and y.x.dtype == x.dtype and
                  (y.x == x).all(), '%s, %s: values' % (what, how))
            check(y.label == label, '%s, %s: labels' % (what, how))
        io.repack()
        ctx.step(3)


FAMILIES = [
    Family('large larrys', large_cases, large_run, 'over a million values'),
    Family('every reachable state, every operation', closure_cases,
           closure_run, 'explicit-state search to closure'),
    Family('histories', hist_cases, hist_run, 'all, nothing merged'),
    Family('round trips', trip_cases, trip_run, 'labels, dtypes, layouts, '
           'sizes, keys'),
    Family('overwriting', over_cases, over_run, 'every pair of 16 larrys'),
    Family('many larrys', many_cases, many_run, 'up to 130 keys'),
    Family('other contents', foreign_cases, foreign_run, 'files that hold '
           'more than larrys'),
    Family('refusals', bad_cases, bad_run, 'every kind of bad call'),
    Family('element types', widths.stored_cases, typed_run),
]
BOUNDS = {'quick': 'closure over 3 keys x 2 larrys (39 operations of 3 '
                   'interfaces from every state); all histories of 3 '
                   'operations over 2 keys; %d label kinds x %d dtypes' %
                   (len(LABELS), len(DTYPES)),
          'thorough': 'closure over 4 keys x 2 larrys; all histories of 4'}
ASSUMPTIONS = ['a dictionary key may be refused when its arrays and another '
               "larry's group would have the same name (HDF5 limit)",
               'keys with a component "." are out of scope (HDF5 reads it as '
               'the current group)', 'time zones are documented as lost']
RULE = ('contents, listing, membership, iteration, length, errors and other '
        'files agree with a dictionary after every operation')
