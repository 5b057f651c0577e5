"""C06: operations do not modify or share state with their inputs."""
import copy
import itertools
import operator
import sys
import numpy as np
import la
from la import larry
import la.farray as farray
import la.farray.move
import la.missing
from core import Family, Fail, check
from model import (M, mk, arr, snap, same, same_snap, nan, inf, veq, flat,
                   kind, prod, relayout)
import gen
from gen import mkm, labs
from p_c04 import OPS as BINOPS

# Every entry: (name, arguments(m) -> dict, call(y, z, a) -> result, share)
# y, z: larrys; a: the other arguments.  share: the result may be a view.
NOARG = lambda m: {}


def table():
    T = []

    def op(name, call, args=NOARG, share=False, nd=None):
        T.append((name, args, call, share, nd))

    for n in ('log', 'exp', 'sqrt', 'sign', 'abs', 'isnan', 'isfinite',
              'isinf', 'invert', 'ismissing', 'vacuum', 'nan_replace', 'copy',
              'flatten', 'unflatten', 'totuples', 'tolist', 'todict',
              'sortaxis', 'flipaxis', 'demean', 'demedian', 'zscore',
              'ranking', 'copylabel', 'copyx', 'getx', 'maxlabel', 'minlabel',
              'sum', 'mean', 'median', 'std', 'var', 'max', 'min', 'prod',
              'any', 'all', 'geometric_mean', 'lastrank', '__repr__',
              '__neg__', '__pos__', '__abs__', '__invert__'):
        op(n, lambda y, z, a, n=n: getattr(y, n)())
    op('squeeze', lambda y, z, a: y.squeeze(), share=True)
    op('T', lambda y, z, a: y.T)
    op('power', lambda y, z, a: y.power(2))
    op('power0', lambda y, z, a: y ** 1)
    op('clip', lambda y, z, a: y.clip(-1, 4))
    op('clipwide', lambda y, z, a: y.clip(-inf, inf))
    op('clipbad', lambda y, z, a: y.clip(4, 1))
    op('str', lambda y, z, a: (str(y), y.shape, y.nx, y.size, y.dtype))
    for n in ('sum', 'mean', 'median', 'std', 'var', 'max', 'min', 'prod',
              'any', 'all', 'geometric_mean', 'lastrank', 'cumsum', 'cumprod',
              'demean', 'demedian', 'zscore', 'ranking', 'sortaxis',
              'flipaxis', 'vacuum', 'maxlabel', 'getlabel'):
        for ax in (0, -1, 1, 7):
            op('%s(%d)' % (n, ax),
               lambda y, z, a, n=n, ax=ax: getattr(y, n)(ax))
    for ax in (0, -1, 1):
        op('sortaxis(%d,True)' % ax,
           lambda y, z, a, ax=ax: y.sortaxis(ax, reverse=True))
        for w in (1, 2, 9):
            for n in ('move_sum', 'move_mean', 'move_std', 'move_min',
                      'move_max', 'move_ranking', 'move_median',
                      'movingsum_forward', 'push'):
                op('%s(%d,%d)' % (n, w, ax), lambda y, z, a, n=n, w=w, ax=ax:
                   getattr(y, n)(w, axis=ax))
            for meth in ('loop', 'strides'):
                op('move_median %s' % meth, lambda y, z, a, w=w, ax=ax,
                   meth=meth: y.move_median(w, axis=ax, method=meth))
                op('move_ranking %s' % meth, lambda y, z, a, w=w, ax=ax,
                   meth=meth: y.move_ranking(w, axis=ax, method=meth))
                op('move_func %s' % meth, lambda y, z, a, w=w, ax=ax,
                   meth=meth: y.move_func(np.sum, w, axis=ax, method=meth))
        for norm in ('-1,1', '0,N-1', 'gaussian', 'bad'):
            op('ranking %s' % norm, lambda y, z, a, ax=ax, norm=norm:
               y.ranking(ax, norm=norm))
        for q in (0, 1, 2):
            op('quantile %d' % q, lambda y, z, a, ax=ax, q=q:
               y.quantile(q, axis=ax))
        op('lastrank decay', lambda y, z, a, ax=ax: y.lastrank(ax, decay=2))
        for n in (-9, -1, 0, 1, 9):
            op('lag(%d)' % n, lambda y, z, a, n=n, ax=ax: y.lag(n, ax))
        op('insertaxis', lambda y, z, a, ax=ax: y.insertaxis(ax, 'NEW'))
        op('maplabel id', lambda y, z, a, ax=ax: y.maplabel(lambda l: l, ax))
        op('maplabel', lambda y, z, a, ax=ax: y.maplabel(repr, ax))
        op('maplabel dup', lambda y, z, a, ax=ax: y.maplabel(lambda l: 1, ax))
        op('maplabel raise', lambda y, z, a, ax=ax: y.maplabel(bad, ax))
        op('cut_missing', lambda y, z, a, ax=ax: y.cut_missing(0.5, ax))
        lab = lambda m, ax=ax: m.label[ax] if -m.ndim <= ax < m.ndim else [0]
        op('morph same', lambda y, z, a, ax=ax: y.morph(a['l'], ax),
           lambda m, lab=lab: {'l': list(lab(m))})
        op('morph rev', lambda y, z, a, ax=ax: y.morph(a['l'], ax),
           lambda m, lab=lab: {'l': lab(m)[::-1] + ['more']})
        op('morph none', lambda y, z, a, ax=ax: y.morph(a['l'], ax),
           lambda m: {'l': ['qq', 'more']})
        op('morph dup', lambda y, z, a, ax=ax: y.morph(a['l'], ax),
           lambda m: {'l': ['qq', 'qq']})
        op('morph empty', lambda y, z, a, ax=ax: y.morph(a['l'], ax),
           lambda m: {'l': []})
        for o in ('==', '!=', '<', '>=', 'in', 'not in', 'bad'):
            op('keep_label ' + o, lambda y, z, a, ax=ax, o=o:
               y.keep_label(o, a['v'], ax),
               lambda m, o=o, lab=lab: {'v': lab(m)[:2] if 'in' in o
                                        else (lab(m) + [3])[0]})
        op('pull', lambda y, z, a, ax=ax: y.pull(a['v'], ax),
           lambda m, lab=lab: {'v': last(lab(m))}, share=True)
        op('labelindex', lambda y, z, a, ax=ax: y.labelindex(a['v'], ax),
           lambda m, lab=lab: {'v': last(lab(m))})
        op('labelindex inexact', lambda y, z, a, ax=ax:
           y.labelindex('zzz', ax, exact=False))
        op('take', lambda y, z, a, ax=ax: y.take(a['i'], ax),
           lambda m, lab=lab: {'i': range(len(lab(m)))})
        op('take array', lambda y, z, a, ax=ax: y.take(a['i'], ax),
           lambda m, lab=lab: {'i': np.arange(len(lab(m)))[::-1]})
        op('take dup', lambda y, z, a, ax=ax: y.take([0, 0], ax))
        for n in ('group_mean', 'group_median', 'group_ranking'):
            def grp(m, lab=lab):
                l = lab(m)[::-1] + ['extra']
                x = np.array([[1.0, 2.0][i % 2] for i in range(len(l))])
                return {'g': larry(x, [l])}
            op(n, lambda y, z, a, n=n, ax=ax: getattr(y, n)(a['g'], ax), grp)

            def grp2(m, lab=lab):
                l = lab(m)
                return {'g': larry(np.array(['u'] * len(l), dtype=object),
                                   [list(l)])}
            op(n + ' one group', lambda y, z, a, n=n, ax=ax:
               getattr(y, n)(a['g'], ax), grp2)
        # array level
        for n in ('demean', 'demedian', 'zscore', 'ranking', 'lastrank',
                  'geometric_mean'):
            op('farray.' + n, lambda y, z, a, n=n, ax=ax:
               getattr(farray, n)(y.x, ax))
        op('farray.movingsum', lambda y, z, a, ax=ax:
           farray.move.movingsum(y.x, 2, axis=ax))
        op('farray.movingsum norm', lambda y, z, a, ax=ax:
           farray.move.movingsum(y.x, 2, skip=1, axis=ax, norm=True))
        op('farray.push', lambda y, z, a, ax=ax: farray.push(y.x, 1, ax))
        op('farray.quantile', lambda y, z, a, ax=ax:
           farray.quantile(y.x, 2, ax))
        op('farray.correlation', lambda y, z, a, ax=ax:
           farray.correlation(y.x, z.x, ax))
        for n in ('group_mean', 'group_median', 'group_ranking'):
            op('farray.' + n, lambda y, z, a, n=n, ax=ax:
               getattr(farray, n)(y.x, a['g'], axis=ax),
               lambda m, lab=lab: {'g': ['b', 'a', None, 'b'][:len(lab(m))]})
    op('farray.correlation', lambda y, z, a: farray.correlation(y.x, z.x))
    op('farray.covMissing', lambda y, z, a: farray.covMissing(y.x))
    op('correlation', lambda y, z, a: la.farray.correlation(y.x, y.x))
    op('ranking(None)', lambda y, z, a: y.ranking(None))
    op('quantile(None)', lambda y, z, a: y.quantile(2, None))
    op('cut_missing(None)', lambda y, z, a: y.cut_missing(0.5))
    op('vacuum list', lambda y, z, a: y.vacuum(a['ax']),
       lambda m: {'ax': [0]})
    op('keep_x', lambda y, z, a: y.keep_x('>', 2, vacuum=False))
    op('keep_x all', lambda y, z, a: y.keep_x('>', -99, vacuum=False))
    op('keep_x vacuum', lambda y, z, a: y.keep_x('<', 4))
    op('keep_x bad', lambda y, z, a: y.keep_x('?', 4))
    op('maplabel all', lambda y, z, a: y.maplabel(lambda l: l))
    op('swapaxes', lambda y, z, a: y.swapaxes(0, 1))
    op('swapaxes', lambda y, z, a: y.swapaxes(0, -1))
    op('flatten F', lambda y, z, a: y.flatten('F'))
    op('nan_replace', lambda y, z, a: y.nan_replace(5))
    for d in (float, int, bool, object, str, np.float32):
        op('astype %s' % d.__name__, lambda y, z, a, d=d: y.astype(d))
    op('get', lambda y, z, a: y.get(a['l']),
       lambda m: {'l': [last(l) for l in m.label]})
    op('get bad', lambda y, z, a: y.get(a['l']),
       lambda m: {'l': ['nope'] * m.ndim})
    op('lix', lambda y, z, a: y.lix[tuple(a['l'])],
       lambda m: {'l': [[last(l)] for l in m.label]}, share=True)
    # lists of labels select by copying, never by a view
    full = lambda m: {'l': [list(l) for l in m.label]}
    back = lambda m: {'l': [l[::-1] for l in m.label]}
    for args in (full, back):
        op('lix lists', lambda y, z, a: y.size and y.lix[tuple(a['l'])], args)
        op('lix lists,', lambda y, z, a: y.size and y.lix[a['l'][0],], args)
        op('lix list', lambda y, z, a: y.size and y.lix[a['l'][0]], args,
           share=True)
        op('lix list, slice', lambda y, z, a: y.size and
           y.lix[(slice(None),) * (y.ndim - 1) + (a['l'][-1],)], args)
    op('lix slice', lambda y, z, a: y.lix[a['l']:],
       lambda m: {'l': [(m.label[0] + [0])[0]]}, share=True)
    op('lix bad', lambda y, z, a: y.lix[a['l'], a['l']],
       lambda m: {'l': ['nope']}, share=True)
    for i in (0, -1, slice(None), slice(1, None), slice(None, None, -1), 99,
              'x', None, (0, 0), (0, slice(None)), (slice(None), 0),
              (slice(None), slice(None)), (0, 0, 0)):
        op('y[%r]' % (i,), lambda y, z, a: y[a['i']],
           lambda m, i=i: {'i': i}, share=True)
    op('y[list]', lambda y, z, a: y[a['i']], lambda m: {'i': [0]})
    op('y[list,:]', lambda y, z, a: y[a['i'], :], lambda m: {'i': [0]})
    op('y[:,list]', lambda y, z, a: y[:, a['i']], lambda m: {'i': [0]})
    op('y[...,]', lambda y, z, a: y[0:1,], share=True)
    op('y[list,]', lambda y, z, a: y[a['i'],], lambda m: {'i': [0]})
    op('y[dup]', lambda y, z, a: y[a['i']], lambda m: {'i': [0, 0]})
    op('y[array]', lambda y, z, a: y[a['i']],
       lambda m: {'i': np.arange(m.shape[0])[::-1]})
    op('y[bool]', lambda y, z, a: y[a['i']],
       lambda m: {'i': np.arange(m.shape[0]) % 2 == 0})
    op('y[larry]', lambda y, z, a: y[a['i']],
       lambda m: {'i': larry(np.arange(m.shape[0]) % 2 == 0,
                             [list(m.label[0])])})
    op('y[larry bad]', lambda y, z, a: y[a['i']],
       lambda m: {'i': larry(np.array([True, False]), [['q', 'r']])})
    # two larrys
    for n, f, _ in BINOPS:
        op('y %s z' % n, lambda y, z, a, f=f: f(y, z))
        op('z %s y' % n, lambda y, z, a, f=f: f(z, y))
        op('y %s y' % n, lambda y, z, a, f=f: f(y, y))
        op('y %s 2' % n, lambda y, z, a, f=f: f(y, 2))
        op('2 %s y' % n, lambda y, z, a, f=f: f(2, y))
        op('y %s 0' % n, lambda y, z, a, f=f: f(y, 0))
        op('y %s arr' % n, lambda y, z, a, f=f: f(y, a['x']),
           lambda m: {'x': np.ones(m.shape)})
        op('arr %s y' % n, lambda y, z, a, f=f: f(a['x'], y),
           lambda m: {'x': np.ones(m.shape)})
        op('y %s list' % n, lambda y, z, a, f=f: f(y, a['x']),
           lambda m: {'x': np.ones(m.shape).tolist()})
        op('y %s bad' % n, lambda y, z, a, f=f: f(y, a['x']),
           lambda m: {'x': {}})
    for j in ('inner', 'outer', 'left', 'right', 'skip', 'bad'):
        op('align ' + j, lambda y, z, a, j=j: la.align(y, z, join=j))
        op('align yy ' + j, lambda y, z, a, j=j: la.align(y, y, join=j))
        op('align cast ' + j,
           lambda y, z, a, j=j: la.align(y, z, join=j, cast=False))
        op('align_raw ' + j, lambda y, z, a, j=j:
           la.align_raw(y, z, join=j), share=True)
        op('align_axis ' + j,
           lambda y, z, a, j=j: la.align_axis(a['l'] + [y, z], 0, join=j),
           lambda m: {'l': []})
        op('align_axis y ' + j,
           lambda y, z, a, j=j: la.align_axis([y, y], -1, join=j))
        op('align list ' + j, lambda y, z, a: la.align(y, z, join=a['j']),
           lambda m, j=j: {'j': [j] * m.ndim})
        for one in ('ignore', 0):
            for two in ('ignore', 3):
                for f in (la.add, la.subtract, la.multiply, la.divide):
                    op('%s %s %r %r' % (f.__name__, j, one, two),
                       lambda y, z, a, f=f, j=j, one=one, two=two:
                       f(y, z, join=j, missone=one, misstwo=two))
                op('add yy', lambda y, z, a, j=j, one=one, two=two:
                   la.add(y, y, join=j, missone=one, misstwo=two))
    op('binaryop raise', lambda y, z, a: la.binaryop(bad2, y, z, missone=1))
    op('merge', lambda y, z, a: y.merge(z))
    op('merge update', lambda y, z, a: y.merge(z, update=True))
    op('merge z y', lambda y, z, a: z.merge(y, update=True))
    op('merge y y', lambda y, z, a: y.merge(y, update=True))
    op('morph_like', lambda y, z, a: y.morph_like(z))
    op('morph_like y', lambda y, z, a: y.morph_like(y))
    op('isaligned', lambda y, z, a: (la.isaligned(y, z), la.isaligned(y, z, 0)))
    op('union', lambda y, z, a: la.union(0, y, z))
    op('union y', lambda y, z, a: la.union(0, y))
    op('intersection', lambda y, z, a: la.intersection(0, y, z))
    op('intersection y', lambda y, z, a: la.intersection(0, y))
    op('unique', lambda y, z, a: la.unique(y, True, True))
    op('stack union', lambda y, z, a: la.stack('union', a=y, b=z))
    op('stack inter', lambda y, z, a: la.stack('intersection', b=y, a=z))
    op('stack one', lambda y, z, a: la.stack('union', a=y))
    op('panel', lambda y, z, a: la.panel(y))
    op('cov', lambda y, z, a: la.cov(y))
    for ax in (0, 1, -1):
        for rev in (False, True):
            op('sortby', lambda y, z, a, ax=ax, rev=rev:
               la.sortby(y, a['v'], ax, rev),
               lambda m, ax=ax: {'v': (m.label[ax if ax < m.ndim else 0]
                                       + [3])[0]})
    op('ismissing', lambda y, z, a: la.missing.ismissing(y))
    op('ismissing x', lambda y, z, a: la.missing.ismissing(y.x))
    op('missing_marker', lambda y, z, a: la.missing.missing_marker(y))
    op('fromtuples', lambda y, z, a: larry.fromtuples(a['d']),
       lambda m: {'d': mk(m).totuples()})
    op('fromlist', lambda y, z, a: larry.fromlist(a['d']),
       lambda m: {'d': mk(m).tolist()})
    op('fromdict', lambda y, z, a: larry.fromdict(a['d']),
       lambda m: {'d': mk(m).todict()})
    op('larry dtype', lambda y, z, a: larry(a['x'], dtype=np.float32),
       lambda m: {'x': np.arange(3.0)})
    op('larry dup', lambda y, z, a: larry(a['x'], a['l']),
       lambda m: {'x': np.arange(3.0), 'l': [[1, 1, 2]]}, share=True)
    op('larry list', lambda y, z, a: larry(a['x']),
       lambda m: {'x': [[1, 2], [3, 4]]})
    from la.util.resample import (cross_validation, split, bootstrap)
    op('split', lambda y, z, a: split(y, a['i'], a['i'], 0),
       lambda m: {'i': [0, 1]}, share=False)
    op('split all', lambda y, z, a: split(y, a['i'], a['i'], 0),
       lambda m: {'i': range(m.shape[0])}, share=False)
    return T


def last(l):
    return l[-1] if l else 0


def bad(l):
    raise ValueError('no')


def bad2(a, b):
    raise ValueError('no')


TABLE = None


def tab():
    global TABLE
    if TABLE is None:
        TABLE = table()
    return TABLE


class Full(object):
    """Everything about a larry or another argument that a caller can see."""
    def __init__(self, y):
        self.s = self.see(y)

    def see(self, y):
        if isinstance(y, larry):
            return ('L', id(y.x), id(y.label), [id(l) for l in y.label],
                    [[(type(v), v) for v in l] for l in y.label],
                    self.see(y.x), sorted(y.__dict__) == ['label', 'x'])
        if isinstance(y, np.ndarray):
            b = y.base if isinstance(y.base, np.ndarray) else None
            return ('A', y.shape, y.dtype, y.strides,
                    [repr(v) for v in flat(y)],
                    None if b is None else [repr(v) for v in flat(b)])
        if isinstance(y, dict):
            return ('D', [(k, self.see(y[k])) for k in sorted(y)])
        if isinstance(y, (list, tuple)):
            return (type(y), [self.see(v) for v in y])
        return (type(y), repr(y))

    def check(self, y, what):
        n = self.see(y)
        if n != self.s:
            raise Fail('%s\n before %r\n after  %r' % (what, self.s, n))


def values(y):
    """Result as comparable values (identity ignored)."""
    if isinstance(y, larry):
        return ('L', [list(l) for l in y.label], values(y.x))
    if isinstance(y, np.ndarray):
        return ('A', y.shape, str(y.dtype), [repr(v) for v in flat(y)])
    if isinstance(y, dict):
        return ('D', sorted([(repr(k), values(v)) for k, v in y.items()]))
    if isinstance(y, (list, tuple)):
        return [values(v) for v in y]
    return repr(y)


def junk(x):
    """Overwrite an array in place with other values."""
    if x.dtype.kind == 'b':
        x[...] = ~x
    elif x.dtype.kind == 'S':
        x[...] = 'Q'
    elif x.dtype.kind == 'O':
        for i in np.ndindex(*x.shape):
            x[i] = 'Q!'
    elif x.dtype.kind in 'iu':
        x[...] = x + 77
    else:
        x[...] = -987.25


def spoil(r):
    """Modify everything mutable in a result in place."""
    if isinstance(r, larry):
        if r.x.flags.writeable:
            junk(r.x)
        for l in r.label:
            l.reverse()
            l.append('SPOILED')
        r.label.append(['SPOILED'])
    elif isinstance(r, np.ndarray):
        if r.flags.writeable and r.ndim:
            junk(r)
    elif isinstance(r, list):
        for v in r:
            spoil(v)
        r.append('SPOILED')
    elif isinstance(r, tuple):
        for v in r:
            spoil(v)
    elif isinstance(r, dict):
        r['SPOILED'] = 1


def run_op(ctx, entry, m, mz, lay):
    name, args, call, share, nd = entry
    what = '%s on %r' % (name, m)

    def fresh():
        return mk(m, lay), mk(mz, lay), args(m)
    y, z, a = fresh()
    fy, fz, fa = Full(y), Full(z), Full(a)
    try:
        r = call(y, z, a)
        ok = True
    except Exception:
        ok = False
        r = None
        sys.exc_clear()     # lets go of what the failed call still holds
    fy.check(y, what + ': changed its larry' + (' (and raised)' * (not ok)))
    fz.check(z, what + ': changed the other larry')
    fa.check(a, what + ': changed an argument')
    ctx.step()
    ctx.outcome((name, ok))
    if not ok or share:
        return
    v = values(r)
    # spoil the result; the operands must not notice
    spoil(r)
    fy.check(y, what + ': the result shares state with its larry')
    fz.check(z, what + ': the result shares state with the other larry')
    fa.check(a, what + ': the result shares state with an argument')
    # the spoiled result is not remembered either
    r2 = call(y, z, a)
    v2 = values(r2)
    check(v2 == v, lambda: '%s: the second call gives another result after '
          'the first result was modified\n first  %r\n second %r' %
          (what, v, v2))
    # spoil the operands; the result must not notice
    spoil(y)
    if z is not y:
        spoil(z)
    spoil(a)
    v3 = values(r2)
    check(v3 == v, lambda: '%s: the result changed when the operands were '
          'modified\n was %r\n now %r' % (what, v, v3))
    ctx.step(3)


POOLS = {'f': [[3.0, 1.5, 7.0, 2.5, 9.0, 4.0, 8.0, 6.0],
               [nan, 2.0, nan, 3.0, -1.0, 0.0, 5.0, nan],
               [nan] * 8, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0]],
         'i': [[3, 1, 7, 2, 9, 4, 8, 6]],
         'b': [[True, False, True, True, False, True, False, False]],
         'S': [['b', '', 'a', 'c', '', 'd', 'e', 'f']],
         'O': [['b', None, 'a', 3, None, 'd', 'e', 'f']],
         'g': [[3.0, 1.5, 7.0, 2.5, 9.0, 4.0, 8.0, 6.0],
               [nan, 2.0, nan, 3.0, -1.0, 0.0, 5.0, nan]],
         'j': [[3, 1, 7, 2, 9, 4, 8, 6]],
         'c': [[1j, 2.0, nan, 3 - 1j, -1.0, 0.0, 5.0, 2j]]}
SHAPES4 = [(2, 1, 2, 2), (1, 1, 1, 1), (1, 0, 1, 2), (1, 2, 3, 1)]
SIZES = [(9,), (17,), (65,), (11, 9), (129,)]
SHAPES = [(0,), (1,), (3,), (0, 2), (2, 0), (1, 1), (1, 3), (2, 1), (2, 3),
          (1, 2, 1), (2, 2, 2)]


def case_models(shape, dt, pool, rel, lk):
    n = prod(shape)
    m = mkm(shape, lk, cells=[POOLS[dt][pool][k % 8] for k in range(n)], dt=dt)
    label = []
    for l in m.label:
        if rel == 'same':
            label.append(list(l))
        elif rel == 'rev':
            label.append(l[::-1])
        elif rel == 'sorted':
            label.append(sorted(l))
        else:
            more = labs(lk, len(l) + 1)[1:]
            label.append(more)
    if rel == 'sorted':
        m.label = [sorted(l) for l in m.label]
    mz = mkm([len(l) for l in label], label=label, dt=dt,
             cells=[POOLS[dt][pool][(k * 3 + 1) % 8]
                    for k in range(prod([len(l) for l in label]))])
    return m, mz


def ops_cases(tier):
    for s in SHAPES:
        for dt in 'fibSO':
            for pool in range(len(POOLS[dt])):
                for rel in ('same', 'rev', 'shift', 'sorted'):
                    lays = 'CFRN' if tier != 'quick' or dt == 'f' else 'C'
                    for lay in lays:
                        for lk in 'is' if tier != 'quick' else 's':
                            yield s, dt, pool, rel, lk, lay
    for s in SHAPES4:
        for dt in 'fibSO':
            for rel in ('same', 'rev', 'shift', 'sorted'):
                for lay in 'CF' if dt == 'f' else 'C':
                    yield s, dt, len(POOLS[dt]) // 3, rel, 'd', lay
    for s in [(3,), (2, 3), (2, 2, 2), (1, 1)]:
        for dt in 'gjc':
            for rel in ('same', 'rev', 'shift', 'sorted'):
                for lay in 'CN':
                    for pool in range(len(POOLS[dt])):
                        yield s, dt, pool, rel, 'i', lay
    for s in SIZES if tier == 'quick' else SIZES + [(257,), (1025,), (33, 34)]:
        for dt in 'fiSO':
            for rel in ('same', 'rev', 'shift', 'sorted'):
                for lay in 'CN':
                    yield s, dt, 0, rel, 'i', lay


def ops_run(ctx, case):
    s, dt, pool, rel, lk, lay = case
    m, mz = case_models(s, dt, pool, rel, lk)
    ctx.state((m.key(), mz.key(), lay))
    for e in tab():
        run_op(ctx, e, m, mz, lay)


FAMILIES = [Family('operations', ops_cases, ops_run,
                   'every operation in the table on every state: operands '
                   'unchanged, result independent of them')]
BOUNDS = {'quick': '%d operations x 11 shapes x dtypes x value patterns x '
                   'label relations, float data in 4 memory layouts',
          'thorough': 'all dtypes in 4 memory layouts, two label kinds'}
BOUNDS['quick'] = BOUNDS['quick'] % len(tab())
