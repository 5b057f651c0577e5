"""C13: converting out of a larry and back loses nothing."""
import cStringIO
import csv
import datetime
import itertools
import os
import numpy as np
from la import larry
import widths
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, inf, prod, \
    indices, veq, wellformed, flat
from gen import mkm, labs, shapes

D = datetime.date


def cells_of(m):
    """[(label tuple, value)] in C order"""
    return [(tuple([l[i] for l, i in zip(m.label, idx)]), v)
            for idx, v in m.items()]


def table(items, nd):
    """The model that a conversion back has to give."""
    label = [sorted(set([k[ax] for k, v in items])) for ax in range(nd)]
    d = dict(items)
    cells = [d.get(tuple([l[i] for l, i in zip(label, idx)]), nan)
             for idx in indices([len(l) for l in label])]
    return M(label, [float(c) for c in cells], 'f')


def eqlist(got, want, what):
    """Same structure, NaN equal to NaN, same types of labels."""
    def eq(a, b):
        if isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and \
                all([eq(p, q) for p, q in zip(a, b)])
        if isinstance(b, (float, np.floating)):
            return isinstance(a, float) and veq(a, b)
        return type(a) is type(b) and a == b
    check(eq(got, want), lambda: '%s\n got  %r\n want %r' % (what, got, want))


def back_all(items, nd, what, how=('tuples', 'list', 'dict')):
    want = table(items, nd)
    if 'tuples' in how:
        data = [k + (v,) for k, v in items]
        was = list(data)
        got = larry.fromtuples(data)
        same(got, want, '%s: fromtuples(%r)' % (what, data))
        check(data == was or data != data or repr(data) == repr(was),
              'fromtuples changed its input')
        got.x[...] = -1
        got.label[0][0] = 'changed'
        same(larry.fromtuples(data), want, '%s: fromtuples twice' % what)
    if 'list' in how:
        data = [[v for k, v in items], [k for k, v in items]]
        was = repr(data)
        same(larry.fromlist(data), want, '%s: fromlist(%r)' % (what, data))
        check(repr(data) == was, 'fromlist changed its input')
    if 'dict' in how:
        data = dict(items)
        was = repr(data)
        same(larry.fromdict(data), want, '%s: fromdict(%r)' % (what, data))
        check(repr(data) == was, 'fromdict changed its input')


# complete larrys --------------------------------------------------------------

def out_cases(tier):
    for s in shapes([4, 3, 2, 2] if tier == 'quick' else [5, 4, 3, 2]):
        for lk in 'sidftm':
            for dt in 'fijgbSOc':
                if dt not in 'fi' and lk not in 'si':
                    continue
                for lay in 'CFRN':
                    if lay != 'C' and (dt not in 'fS' or lk != 's'):
                        continue
                    if len(s) == 4 and (lk != 's' or dt not in 'fi'):
                        continue
                    if lk in 'tm' and max(s) > 4:
                        continue
                    yield s, lk, dt, lay


def out_run(ctx, case):
    s, lk, dt, lay = case
    nd = len(s)
    m = mkm(s, lk, dt)
    if dt == 'f' and prod(s) > 2:
        m.cells[1] = nan
        m.cells[2] = 1.0 / 3
    ctx.state((m.key(), lay))
    items = cells_of(m)
    y = mk(m, lay)
    what = repr(m)
    eqlist(y.totuples(), [k + (v,) for k, v in items], what + ': totuples')
    eqlist(y.tolist(), [[v for k, v in items], [k for k, v in items]],
           what + ': tolist')
    d = y.todict()
    check(type(d) is dict and len(d) == len(items), what + ': todict')
    for k, v in items:
        check(k in d and veq(d[k], v), lambda: '%s: todict()[%r]' % (what, k))
    for order in ('C', 'F', None):
        got = y.flatten() if order is None else y.flatten(order)
        if order == 'F':
            p = m.permute(range(nd)[::-1])
            w = M([[k[::-1] for k, v in cells_of(p)]], p.cells, m.dt)
        else:
            w = M([[k for k, v in items]], m.cells, m.dt)
        same(got, w, '%s: flatten(%s)' % (what, order), dtype='exact'
             if dt in 'fgij' else True)
        check([type(t) for t in got.label[0]] == [tuple] * len(items),
              what + ': flatten labels')
        got.x[...] = got.x[::-1].copy() if dt != 'S' else 'q'
        same(y, m, what + ' after flatten')
        ctx.step(1)
    for name in ('copy', 'copylabel', 'copyx'):
        got = getattr(y, name)()
        if name == 'copy':
            same(got, m, 'copy', dtype='exact' if dt in 'fgij' else True)
        elif name == 'copyx':
            check(type(got) is np.ndarray and got.shape == m.shape and
                  got.dtype == y.x.dtype and not np.may_share_memory(
                      got, y.x), 'copyx')
            same(larry(got, m.label), m, 'copyx')
        else:
            check(got == m.label and got is not y.label and
                  not [1 for a, b in zip(got, y.label) if a is b] and
                  [type(l) for l in got] == [list] * nd, 'copylabel')
    same(y, m, what + ' after the conversions')
    ctx.step(6)
    if not items:
        for got in (larry.fromtuples(y.totuples()),
                    larry.fromlist([[], []]), larry.fromdict(y.todict())):
            same(got, M([[]], [], 'f'), what + ': back')
        e = y.flatten().unflatten()
        same(e, M([[]], [], 'f'), what + ': unflatten', dtype=False)
        return
    if dt not in 'fgij':
        # refused, or nothing is lost
        for order in 'CF':
            try:
                got = y.flatten(order).unflatten()
            except Exception:
                continue
            same(got, table(items, nd), '%s: unflatten' % what, dtype=False)
    if dt in 'fgij':
        want = table(items, nd)
        same(larry.fromtuples(y.totuples()), want, what + ': tuples')
        same(larry.fromlist(y.tolist()), want, what + ': list')
        same(larry.fromdict(y.todict()), want, what + ': dict')
        for order in 'CF':
            f = y.flatten(order)
            got = f.unflatten()
            same(got, want, '%s: unflatten %s' % (what, order), dtype=False)
            same(f, M(f.label, [v for k, v in items] if order == 'C' else
                      m.permute(range(nd)[::-1]).cells, m.dt), 'unflatten '
                 'changed its larry')
            ctx.outcome(repr(snap(got)))
        back_all([(k, v) for k, v in items], nd, what)
        ctx.step(8)


# sparse input in every order ----------------------------------------------------

SPARSE = [(3,), (2, 2), (3, 2), (2, 1, 2), (2, 2, 2)]
COORD = {1: 's', 2: 'sd', 3: 'sid'}


def sparse_cases(tier):
    for s in SPARSE + ([(4,), (3, 3)] if tier != 'quick' else []):
        n = prod(s)
        for r in range(1, min(n, 4) + 1):
            for sub in itertools.combinations(range(n), r):
                yield s, sub


def sparse_run(ctx, case):
    s, sub = case
    nd = len(s)
    base = cells_of(mkm(s, COORD[nd]))
    ctx.state(case)
    path = os.path.join(ctx.dir(), 'sparse.csv')
    for p in itertools.permutations(sub):
        items = [base[i] for i in p]
        if len(items) > 1:
            items[1] = (items[1][0], nan)
        want = table(items, nd)
        back_all(items, nd, repr(case), ('tuples', 'list'))
        f = larry(np.array([v for k, v in items]), [[k for k, v in items]])
        got = f.unflatten()
        same(got, want, 'unflatten %r' % (items,))
        with open(path, 'w') as fid:
            csv.writer(fid).writerows([k + (v,) for k, v in items])
        w = table([(tuple([str(z) for z in k]), v) for k, v in items], nd)
        same(larry.fromcsv(path), w, 'fromcsv %r' % (items,))
        ctx.outcome(repr(items))
        ctx.step(5)
    back_all([base[i] for i in sub], nd, repr(case), ('dict',))


# text files -------------------------------------------------------------------------

LABS = {
    'plain': ['b', 'a', 'c'],
    'odd': ['a,b', 'say "x"', ' lead', 'trail '],
    'odd2': ['', 'a;b', 'tab\there', "it's"],
    'odd3': ['two\nlines', 'x', '#', '\xc3\xa9'],
    'int': [10, 9, -1], 'float': [0.1, 1e-20, 2.0],
    'date': [D(2010, 3, 1), D(2009, 12, 31), D(2010, 1, 1)],
    'none': ['None', 'nan', '1.0'],
    'cr': ['a\rb', 'c\r\nd', '\r', 'e\n'],
    'kinds': [(1, 2), u'u', True, 1.5],
    'percent': ['%s', '%d%%', '{0}', '\\n'],
}
VALUES = [1.0 / 3, nan, -1e-300, 1e300, inf, -inf, 0.1 + 0.2, -0.0, 12345678.9,
          2.0, 1e22, 5e-324]

OBJECTS = ['text', (1, 2), None, [3], 1.5, '%s', (), '', 'a,b', 10 ** 20, True,
           {'k': 1}]


def csv_cases(tier):
    for lk in sorted(LABS):
        for s in [(1,), (2,), (3,), (1, 1), (2, 3), (3, 2), (2, 1, 2),
                  (2, 2, 2), (0,), (0, 2)]:
            for delim in (None, ',', ';', '\t', '|', ' '):
                for dt in 'fi':
                    yield lk, s, delim, dt


def csv_run(ctx, case):
    lk, s, delim, dt = case
    L = LABS[lk]
    if max(s) > len(L):
        return
    m = mkm(s, dt=dt, label=[L[:n] for n in s])
    if dt == 'f':
        m.cells = [VALUES[i % len(VALUES)] for i in range(prod(s))]
    ctx.state(case)
    y = mk(m)
    path = os.path.join(ctx.dir(), 'c.csv')
    with open(path, 'w') as f:
        f.write('old contents, longer than what comes\n' * 50)
    r = y.tocsv(path) if delim is None else y.tocsv(path, delim)
    check(r is None, 'tocsv returns something')
    same(y, m, 'tocsv changed the larry')
    # exactly the documented rows
    with open(path, 'rb') as f:
        rows = list(csv.reader(f, delimiter=delim or ','))
    items = cells_of(m)
    def txt(z):
        return repr(z) if isinstance(z, float) else str(z)
    want = [[txt(z) for z in k] + [txt(v)] for k, v in items]
    check(rows == want, lambda: 'tocsv of %r wrote %r, want %r' %
          (m, rows, want))
    args = () if delim is None else (delim,)
    got = larry.fromcsv(path, *args)
    if not items:
        same(got, M([[]], [], 'f'), 'fromcsv')
        return
    w = table([(tuple([txt(z) for z in k]), float(v)) for k, v in items],
              len(s))
    same(got, w, 'fromcsv of %r' % (rows,))
    # header lines that are skipped
    text = open(path, 'rb').read()
    for skip in (1, 2, 3):
        with open(path, 'wb') as f:
            f.write('some header, 1\r\n' * skip + text)
        if delim is None:
            got = larry.fromcsv(path, skiprows=skip)
        else:
            got = larry.fromcsv(path, delim, skip)
        same(got, w, 'fromcsv with %d lines skipped' % skip)
    if len(rows) > 2:
        # skipping data, of which a row may have several lines
        with open(path, 'wb') as f:
            f.write(text)
        w = table([(tuple([txt(z) for z in k]), float(v))
                   for k, v in items[1:]], len(s))
        same(larry.fromcsv(path, skiprows=1, *args), w, 'first row skipped')
    ctx.step(6)


def csvbad_cases(tier):
    for i in range(len(CSVBAD)):
        yield i,


CSVBAD = ['a,1\nb,\nc,3\n', 'a,x\nb,y,1\n', 'a,\n', 'a,b,1\na,c,x\n']


def csvbad_run(ctx, case):
    path = os.path.join(ctx.dir(), 'bad.csv')
    ctx.state(case)
    with open(path, 'w') as f:
        f.write(CSVBAD[case[0]])
    raises(lambda: larry.fromcsv(path), 'fromcsv of %r' % CSVBAD[case[0]])
    with open(path, 'w') as f:
        f.write('a,,1\nb,x,2\n')
    same(larry.fromcsv(path), M([['a', 'b'], ['', 'x']], [1., nan, nan, 2.]),
         'a missing label element')


def file_cases(tier):
    for lk in sorted(LABS):
        for s in shapes([3, 3] if tier == 'quick' else [4, 4]) + [(1, 1, 1),
                                                                  (2, 1, 2)]:
            for dt in 'fibSO':
                for delim in (None, ',', '; ', '\t', ''):
                    if delim == '' and dt != 'f':
                        continue
                    yield lk, s, dt, delim


class Sink(object):
    """Something that can be written to."""
    def __init__(self):
        self.text = ''
        self.closed = False

    def write(self, t):
        check(not self.closed, 'written after close')
        self.text += t

    def close(self):
        self.closed = True


def file_run(ctx, case):
    lk, s, dt, delim = case
    L = LABS[lk]
    if max(s) > len(L):
        return
    m = mkm(s, dt=dt, label=[L[:n] for n in s])
    if dt == 'f':
        m.cells = [VALUES[i % len(VALUES)] for i in range(prod(s))]
    if dt == 'O':
        m.cells = [OBJECTS[(i + len(s)) % len(OBJECTS)]
                   for i in range(prod(s))]
    y = mk(m)
    ctx.state(case)
    dd = ',' if delim is None else delim
    args = () if delim is None else (delim,)
    path = os.path.join(ctx.dir(), 'file.txt')
    with open(path, 'w') as f:
        f.write('old contents\n' * 50)
    if len(s) > 2:
        raises(lambda: y.tofile(path, *args), 'tofile of 3d')
        check(open(path).read() == 'old contents\n' * 50,
              'a refused tofile destroyed the file')
        return
    def txt(v):
        # as the data array prints it
        return str(np.float64(v)) if dt == 'f' else str(v)
    if len(s) == 1:
        want = ''.join([str(l) + dd + txt(v) + '\n'
                        for l, v in zip(m.label[0], m.cells)])
    else:
        want = dd + dd.join([str(l) for l in m.label[1]]) + '\n'
        for i in range(s[0]):
            want += dd.join([str(m.label[0][i])] +
                            [txt(v) for v in
                             m.cells[i * s[1]:(i + 1) * s[1]]]) + '\n'
    check(y.tofile(path, *args) is None, 'tofile returns something')
    got = open(path).read()
    check(got == want, lambda: 'tofile of %r wrote %r, want %r' %
          (m, got, want))
    sink = Sink()
    y.tofile(sink, *args)
    check(sink.text == want and not sink.closed, lambda: 'tofile to an '
          'object: %r, want %r' % (sink.text, want))
    with open(path, 'w') as f:
        f.write('before\n')
        y.tofile(f, *args)
        check(not f.closed, 'tofile closed the file it was given')
        f.write('after\n')
    check(open(path).read() == 'before\n' + want + 'after\n',
          'tofile to an open file')
    same(y, m, 'tofile changed the larry')
    ctx.step(3)


def unflat_cases(tier):
    for i in range(len(UNFLAT)):
        yield i,


UNFLAT = [
    lambda: larry([[1, 2]]).unflatten(),
    lambda: larry(np.array(['a']), [[('a', 'b')]]).unflatten(),
    lambda: larry([1., 2.], [[1, 2]]).unflatten(),
    lambda: larry(np.zeros((2, 2, 2))).unflatten(),
    lambda: larry([1, 2]).flatten('X'),
    lambda: larry([[1, 2]]).flatten('c'),
    lambda: larry.fromtuples([('a', 'x')]),
]


def unflat_run(ctx, case):
    ctx.state(case)
    raises(UNFLAT[case[0]], 'bad conversion %d' % case)


SIZES = [5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257,
         500, 1000, 1024, 2500]


def size_cases(tier):
    for n in SIZES:
        for sh in ('1', 'row', 'col', 'box'):
            for lk in 'sidf':
                yield n, sh, lk


def size_run(ctx, case):
    n, sh, lk = case
    s = {'1': (n,), 'row': (2, n), 'col': (n, 2), 'box': (2, n, 2)}[sh]
    m = mkm(s, lk * len(s))
    ctx.state(case)
    y = mk(m)
    items = cells_of(m)
    what = '%r' % (s,)
    eqlist(y.totuples(), [k + (v,) for k, v in items], what)
    eqlist(y.tolist(), [m.cells, [k for k, v in items]], what)
    check(y.todict() == dict(items), what + ': todict')
    want = table(items, len(s))
    same(larry.fromtuples(y.totuples()), want, what)
    same(larry.fromlist(y.tolist()), want, what)
    same(larry.fromdict(y.todict()), want, what)
    same(y.flatten().unflatten(), want, what)
    # every third cell, reversed
    some = items[::-3]
    back_all(some, len(s), what)
    ctx.step(10)
    if lk != 's':
        return
    path = os.path.join(ctx.dir(), 'size.csv')
    y.tocsv(path)
    check(len(open(path).readlines()) == len(items), what + ': rows')
    same(larry.fromcsv(path), want, what + ': csv')
    if len(s) < 3:
        y.tofile(path)
        rows = open(path).read().split('\n')
        check(len(rows) == s[0] + len(s), what + ': tofile rows')
        check(rows[-1] == '' and rows[-2] == ','.join(
            [m.label[0][-1]] + [str(v) for v in
                                (m.cells[-1:] if len(s) == 1 else
                                 m.cells[-s[1]:])]), what + ': last row')
    ctx.step(10)


def typed_cases(tier):
    for s in widths.SHAPES + [(0,), (2, 0)]:
        for t in widths.INTS + widths.FLOATS + ['c8', 'f8', 'i8', 'b1', 'S1',
                                                'S7', 'U3', 'O', '>i4']:
            for lay in 'CF':
                yield s, t, lay


def typed_run(ctx, case):
    """Element types of every width: each value comes out as it is"""
    s, t, lay = case
    x = widths.fill(t, prod(s)).reshape(s)
    y = widths.lar(s, np.array(x, order=lay))
    ctx.state(case)
    m = mkm(s, 's')
    labels = [k for k, v in cells_of(m)]
    vals = x.ravel().tolist()
    what = '%s %r' % (t, s)

    def eq(a, b):
        return len(a) == len(b) and all([
            p == q or (p != p and q != q) for p, q in zip(a, b)])
    got = y.totuples()
    check([g[:-1] for g in got] == labels and eq([g[-1] for g in got], vals),
          lambda: '%s: totuples %r' % (what, got))
    got = y.tolist()
    check(got[1] == labels and eq(got[0], vals), lambda: '%s: tolist %r' %
          (what, got))
    d = y.todict()
    check(len(d) == len(labels) and eq([d[k] for k in labels], vals), lambda:
          '%s: todict %r' % (what, d))
    check(widths.raw(y.x.ravel()) == widths.raw(x.ravel()), what + ': changed')
    ctx.step(3)


FAMILIES = [
    Family('out and back', out_cases, out_run),
    Family('sparse', sparse_cases, sparse_run,
           'all subsets of cells in all orders'),
    Family('csv', csv_cases, csv_run, 'labels, delimiters, headers'),
    Family('bad csv', csvbad_cases, csvbad_run),
    Family('text files', file_cases, file_run),
    Family('refusals', unflat_cases, unflat_run),
    Family('sizes', size_cases, size_run),
    Family('element types', typed_cases, typed_run),
]
BOUNDS = {'quick': 'shapes up to 4, 3x3, 2x2x2, 2x2x2x2; all subsets of up to '
                   '4 cells of 5 shapes in all orders; 6 delimiters x 8 label '
                   'alphabets; sizes up to 2500',
          'thorough': 'shapes up to 5, 4x4, 3x3x3; two more sparse shapes'}
ASSUMPTIONS = ['a label combination is given once; values become floats and '
               'CSV labels strings, as documented']
RULE = 'converted cells are compared one by one'
