"""C01: every larry is structurally sound after any sequence of operations.

Breadth-first search over sequences of operations on real larrys.  States are
identified by shape, labels, dtype and the places of missing values.  After
every operation each larry it returned must be well formed, and every operand
must be what it was (or, after an in-place operation, well formed; after a
refused in-place operation unchanged)."""
import datetime
import itertools
import os
import random
import numpy as np
import la
from la import larry
from core import Family, check, Fail
from model import M, mk, snap, same_snap, wellformed, raises, nan, prod, veq
from gen import mkm, labs, shapes

NPERR = np.seterr(all='ignore')
D = datetime.date


# operations ----------------------------------------------------------------------
# y is the larry, p, q, r other larrys, n its ndim, L(ax) labels of an axis,
# E(ax) an element of the labels.

AXES = [None, 0, 1, -1, 2, -2, 3, -4]
FEWAXES = [0, 1, -1, None, 5]


def expand():
    pure = []
    for f in ('log exp sqrt sign abs isnan isfinite isinf invert ismissing '
              'copy squeeze flatten unflatten tolist totuples todict '
              'copylabel copyx vacuum nan_replace').split():
        pure.append('y.%s()' % f)
    for e in ('-y', '+y', '~y', 'abs(y)', 'y.T', 'y ** 2', 'y.power(0.5)',
              'y.power(np.ones((2, 2)))', 'y.clip(0, 1)', 'y.clip(1, 0)',
              'y.flatten("F")', 'y.flatten("X")', 'y.astype(int)',
              'y.astype(float)', 'y.astype(bool)', 'y.astype(str)',
              'y.astype(object)', 'y.astype("zz")', 'la.panel(y)',
              'la.cov(y)', 'la.unique(y)', 'y.nan_replace(7)', 'y.shape',
              'y.nx', 'y.A', 'repr(y)', 'len(y)', 'list(y)', 'y.getx()',
              'y.getx(copy=False)'):
        pure.append(e)
    for f in ('sum prod mean median max min std var any all maxlabel minlabel '
              'demean demedian zscore vacuum sortaxis geometric_mean').split():
        for ax in AXES:
            pure.append('y.%s(axis=%r)' % (f, ax))
    for f in 'cumsum cumprod ranking lastrank flipaxis'.split():
        for ax in FEWAXES:
            pure.append('y.%s(axis=%r)' % (f, ax))
    for ax in FEWAXES:
        for e in ('y.sortaxis(%r, True)', 'y.quantile(2, %r)',
                  'y.cut_missing(0.5, %r)', 'y.push(1, %r)',
                  'y.lag(1, %r)', 'y.lag(9, %r)', 'y.lag(-1, %r)',
                  'y.lag(0, %r)',
                  'y.move_sum(2, %r)', 'y.move_mean(1, %r)',
                  'y.move_std(9, %r)', 'y.move_min(0, %r)',
                  'y.move_median(2, %r)', 'y.move_ranking(2, %r)',
                  'y.move_func(np.sum, 2, %r)',
                  'y.movingsum_forward(2, 1, %r)',
                  'y.group_mean(G, %r)', 'y.group_median(G, %r)',
                  'y.group_ranking(G, %r)',
                  'y.getlabel(%r)', 'y.maplabel(str, %r)',
                  'y.maplabel(lambda l: (l, 1), %r)',
                  'y.maplabel(lambda l: "same", %r)',
                  'y.maplabel(lambda l: [l], %r)',
                  'y.maplabel(lambda l: str(l)[:1], %r)',
                  'y.take([0], %r)', 'y.take([], %r)', 'y.take([-1], %r)',
                  'y.take([0, 0], %r)', 'y.take([9], %r)', 'y.take(0, %r)',
                  'y.take([1, 0], %r)', 'y.take([0, -1], %r)',
                  'y.take([1, -1], %r)', 'y.take([0, -2], %r)',
                  'y.pull(E(%r), %r)', 'y.labelindex(E(%r), %r)',
                  'y.labelindex("no", %r)', 'y.pull("no", %r)',
                  'y.keep_label("!=", E(%r), %r)',
                  'y.keep_label("==", E(%r), %r)',
                  'y.keep_label("in", L(%r)[:1], %r)',
                  'y.keep_label("zz", E(%r), %r)',
                  'y.morph(L(%r)[::-1], %r)', 'y.morph(L(%r)[1:], %r)',
                  'y.morph(L(%r) + ["new"], %r)',
                  'y.morph(L(%r) + L(%r)[:1], %r)', 'y.morph([], %r)',
                  'y.morph(["new", "new"], %r)', 'y.morph([[1]], %r)',
                  'y.insertaxis(%r, "ins")', 'y.insertaxis(%r, [1, 2])',
                  'y.insertaxis(%r, [])', 'y.swapaxes(%r, 0)',
                  'y.swapaxes(-1, %r)',
                  'la.sortby(y, E(%r), %r)',
                  'la.union(%r, y, p)', 'la.intersection(%r, y, p)',
                  'la.align_axis([y, p], %r)',
                  'la.align_axis([y, q, p], %r, "outer")',
                  'la.align_axis([y, p], %r, "left")',
                  'la.align_axis([y, p], %r, "zz")',
                  'la.isaligned(y, p, %r)'):
            k = e.count('%r')
            pure.append(e % ((ax,) * k))
    for i in ('0', '-1', '1', '9', '-9', ':', '1:', ':1', '::-1', '::2',
              '0:0', '...', '[0]', '[]', '[-1]', '[0, 0]', '[1, 0]',
              '0, 0', ':, 0', '0, :', ':, [0]', '[0], :', ':, ::-1',
              '..., 0', ':, 1:', ':, :', ':, :, 0', '0, :, :', '0, 0, 0',
              ':, 0:0', '-1, 1:', 'y > 1', 'y.x > 1', 'None', '"a"',
              '1.5', 'np.array([0])', 'np.array([], int)', 'np.array([0, 0])',
              'y.x.ravel() > 1', '[True]', ':, np.array([0])', '[9]',
              ':, [0, 0]', '[1, -1]', '[0, -2]', ':, [1, -1]', 'np.array([0, -2])',
              ':, np.array([1, -1])', '[1, -1], :', '0:0, 0', '(0,) * n', '(slice(None),) * n',
              '(slice(1, None),) * n', '(0,) * (n + 1)'):
        pure.append('y[%s]' % i)
    for i in ('[E(0)]', 'E(0)', '[E(0)]:', ':[E(0)]', ':', '["no"]', 'L(0)',
              '[[E(0)], ]', '::2', '[E(0)]:[E(0)]', '0', '[L(0)]',
              '["no"]:', '[E(0)], [E(1)]', ':, [E(1)]', ':, 0',
              '[E(0)], :, :', '[]', 'None'):
        pure.append('y.lix[%s]' % i)
    for e in ('y.get([l[0] for l in y.label])', 'y.get(["no"] * n)',
              'y.get([])', 'y.keep_x(">", 2, False)', 'y.keep_x(">", 2)',
              'y.keep_x("zz", 2, False)', 'larry.fromtuples(y.totuples())',
              'larry.fromlist(y.tolist())', 'larry.fromdict(y.todict())',
              'y.flatten().unflatten()', 'la.stack("union", a=y, b=p)',
              'la.stack("intersection", a=y, b=q)',
              'la.align(y, y)', 'y.merge(y)', 'y.merge(y, update=True)'):
        pure.append(e)
    # constructor requests
    for e in ('larry(y.x)', 'larry(y.x, y.copylabel())',
              'larry(y.x, y.copylabel()[:-1])',
              'larry(y.x, y.copylabel() + [[1]])',
              'larry(y.x, [l + ["x"] for l in y.label])',
              'larry(y.x, [l[:-1] for l in y.label])',
              'larry(y.x, [l[:1] * len(l) for l in y.label])',
              'larry(y.x, [tuple(l) for l in y.label])',
              'larry(y.x.sum())', 'larry(y.x.sum(), [])', 'larry([])',
              'larry(y.x.ravel(), y.copylabel())',
              'larry(y.x[:1], y.copylabel())', 'larry(y.x, [])',
              'la.ones(label=y.copylabel())', 'la.zeros(y.shape)',
              'la.rand(label=y.copylabel())', 'la.lrange(y.shape)',
              'la.empty(label=[l + l for l in y.label])',
              'larry(y)', 'larry(np.matrix(y.x))'):
        pure.append(e)
    inplace = []
    for i in ('0', ':', '9', '0, 0', ':, 0', 'y > 1', 'y.x > 1', '[0]', '[]',
              '...', '1:', '::-1', '(0,) * n'):
        for v in ('5', 'nan', 'y', 'y.x', 'p', 'q', '[1, 2]', '"a"', 'y[%s]',
                  'y.x[0] + 1', 'y[::-1]', 'np.zeros((3, 3, 3))'):
            inplace.append('y[%s] = %s' % (i, v.replace('%s', i)))
    for i in ('[E(0)]', '[E(0)]:', '["no"]', ':'):
        for v in ('5', 'y', 'y.lix[%s]' % i, 'np.zeros((3, 3, 3))'):
            inplace.append('y.lix[%s] = %s' % (i, v))
    for e in ('y.set([l[0] for l in y.label], 5)', 'y.set(["no"] * n, 5)',
              'y.set([l[0] for l in y.label], "a")', 'y.set([], 5)',
              'y.fill(3)', 'y.fill(nan)', 'y.fill("a")', 'y.fill([1, 2, 3])',
              'y.shuffle()', 'y.shuffle(None)', 'y.shuffle(-1)',
              'y.shuffle(7)', 'y.shufflelabel()', 'y.shufflelabel(None)',
              'y.shufflelabel(-1)', 'y.shufflelabel(7)'):
        inplace.append(e)
    for ax in FEWAXES:
        inplace.append('y.flipaxis(%r, copy=False)' % (ax,))
        inplace.append('y.maplabel(lambda l: (0, l), %r, copy=False)' % (ax,))
        inplace.append('y.maplabel(lambda l: 1, %r, copy=False)' % (ax,))
        inplace.append('y.maplabel(lambda l: [], %r, copy=False)' % (ax,))
    return pure, inplace


def expand2():
    two = []
    for o in '+ - * / & | == != < >='.split():
        for a in ('p', 'q', 'r', 'y', '2', 'y.x', 'y[::-1]', 'nan', '"a"',
                  '[1, 2]', 'None', 'np.ones((2, 2))', 'y[:0]'):
            two.append('y %s %s' % (o, a))
        two.append('2 %s y' % o)
        two.append('y.x %s y' % o)
    for j in ('inner', 'outer', 'left', 'right', 'zz'):
        for f in 'add subtract multiply divide'.split():
            for m in ('ignore', '0'):
                two.append('la.%s(y, p, %r, True, %r)' % (
                    f, j, m if m == 'ignore' else 0))
            two.append('la.%s(y, r, %r)' % (f, j))
        for c in ('True', 'False'):
            two.append('la.align(y, p, %r, %s)' % (j, c))
            two.append('la.align(q, y, %r, %s)' % (j, c))
            two.append('la.align(y, r, %r, %s)' % (j, c))
        two.append('la.align(y, p, [%r] * n)' % j)
        two.append('la.align(y, p, [%r, "left"])' % j)
        two.append('la.binaryop(np.add, y, p, %r, missone=1, misstwo=2)' % j)
        two.append('la.binaryop(np.dot, y, p, %r)' % j)
        two.append('la.binaryop(lambda a, b: 3, y, p, %r)' % j)
    for a in 'pqr':
        for e in ('y.merge(%s)', 'y.merge(%s, update=True)',
                  'y.morph_like(%s)', '%s.morph_like(y)', '%s.merge(y)',
                  'la.isaligned(y, %s)', 'la.stack("union", u=y, v=%s)',
                  'y.group_mean(%s)', 'y.group_ranking(%s)',
                  'y.group_median(%s, -1)'):
            two.append(e % a)
    return two


PURE, INPLACE = expand()
TWO = expand2()
OPS = ([(e, False) for e in PURE] + [(e, True) for e in INPLACE] +
       [(e, False) for e in TWO])
CODE = {}


def code(e):
    if e not in CODE:
        CODE[e] = compile(e, '<%s>' % e, 'exec' if ' = ' in e else 'eval')
    return CODE[e]


def others(m):
    """p: labels overlap with those of the larry in another order; q: no
    labels in common; r: of another dimension."""
    lab = []
    for l in m.label:
        k = list(l)[::-1]
        k = k[:-1] if len(k) > 1 else k
        new = 'only p'
        while new in l:
            new += '+'
        lab.append(k + [new])
    p = mkm([len(l) for l in lab], label=lab, start=50)
    q = mkm([2] * m.ndim, label=[['q1', 'q2'] for l in m.label], start=80)
    r = mkm([1] * (m.ndim % 3 + 1), 'i')
    return p, q, r


class Stop(Exception):
    pass


def apply_op(m, e, inplace, trail):
    """Run the operation on fresh larrys; the list of larrys it gave."""
    ms = (m,) + others(m)
    y, p, q, r = [mk(k) for k in ms]
    held = [y, p, q, r]
    oldlab = y.label
    G = larry(np.array(list('ab' * len(m.label[0]))[:len(m.label[0])], 'S1').reshape(
        len(m.label[0])), [list(m.label[0])])
    def L(ax):
        return list(m.label[ax if ax is not None else 0])
    def E(ax):
        l = L(ax)
        return l[0] if l else 'none'
    env = {'y': y, 'p': p, 'q': q, 'r': r, 'n': m.ndim, 'L': L, 'E': E,
           'la': la, 'larry': larry, 'np': np, 'nan': nan, 'G': G}
    np.random.seed(5)
    err = None
    res = None
    try:
        if ' = ' in e:
            exec code(e) in env
        else:
            res = eval(code(e), env)
    except Exception as x:
        err = x
    what = '%s on %r%s' % (e, m, trail)
    out = []
    def look(v, name):
        if isinstance(v, larry):
            wellformed(v, '%s of %s' % (name, what))
            out.append(v)
        elif isinstance(v, (tuple, list)):
            for k in v:
                if isinstance(k, larry):
                    look(k, name)
    look(res, 'result')
    check(y.label is oldlab or inplace, lambda: what + ': other label list')
    for k, (h, was) in enumerate(zip(held, ms)):
        wellformed(h, 'operand %d of %s' % (k, what))
        if k or not inplace or err is not None:
            same_snap(snap(h), was, 'operand %d of %s %s' %
                      (k, what, 'refused with %r' % err if err else
                       'changed'))
    if inplace and err is None:
        out.append(y)
        if 'shuffle' not in e and 'axis' not in e and 'maplabel' not in e:
            check(y.label == m.label and y.x.shape == m.shape, what +
                  ': labels changed')
    return out, err


def akey(m):
    return (m.shape, repr(m.label), m.dt, tuple([there(v) for v in m.cells]))


def qkey(m):
    """Coarser states of the quick tier: kinds and order of the labels."""
    lab = []
    for l in m.label:
        try:
            up = [a < b for a, b in zip(l, l[1:])]
        except TypeError:
            up = None
        lab.append((repr(up), repr([type(v).__name__ for v in l])))
    miss = [there(v) for v in m.cells]
    return m.shape, repr(lab), m.dt, any(miss), all(miss), 'quick'


def there(v):
    if isinstance(v, (np.ndarray, larry)):
        return 'nested'
    return bool(v == v and v != '' and v is not None)


INITS = None


def inits(tier):
    out = []
    for s, lk, dt in [((2,), 's', 'f'), ((3,), 'i', 'f'), ((1,), 's', 'f'),
                      ((0,), 's', 'f'), ((2, 2), 'ss', 'f'),
                      ((2, 3), 'si', 'f'), ((1, 2), 'is', 'f'),
                      ((2, 0), 'ss', 'f'), ((0, 2), 'ss', 'f'),
                      ((0, 0), 'ss', 'f'), ((2, 1, 2), 'sss', 'f'),
                      ((2, 2, 2), 'sdi', 'f'), ((1, 1, 1), 'iii', 'f'),
                      ((0, 1, 2), 'sss', 'f'), ((2, 1, 1, 2), 'siss', 'f'),
                      ((2, 2), 'ii', 'i'), ((2,), 's', 'i'),
                      ((2, 2), 'sd', 'b'), ((2,), 's', 'S'),
                      ((2, 2), 'ss', 'S'), ((2,), 's', 'O'),
                      ((2, 2), 'tm', 'O'), ((3, 2), 'ds', 'g'),
                      ((2, 2), 'ss', 'c'), ((2,), 't', 'f'),
                      ((1, 3, 1), 'sis', 'f')]:
        m = mkm(s, lk, dt)
        out.append(m)
        if dt == 'f' and prod(s) > 1 and len(s) < 3:
            w = m.copy()
            w.cells[1] = nan
            out.append(w)
            w = m.copy()
            w.cells = [nan] * len(w.cells)
            out.append(w)
    return out


def seq_cases(tier):
    # every first operation of every initial larry
    for i in range(len(inits(tier))):
        for k in range(len(OPS)):
            yield i, k


def huge(labels):
    """unflatten of these labels would not fit."""
    n = 1
    try:
        for part in zip(*labels):
            n *= len(set(part))
    except TypeError:
        return False
    return n > 5000


def step(ctx, m, k, trail):
    e, inplace = OPS[k]
    if 'unflatten' in e and m.ndim == 1 and huge(m.label[0]):
        return []
    out, err = apply_op(m, e, inplace, trail)
    ctx.step(1)
    ctx.outcome((e, type(err).__name__ if err else
                 tuple([(len(o.label), o.x.size == 0) for o in out])))
    # larrys as elements of larrys (y[0] = array in an object larry) are not
    # followed further
    out = [snap(o) for o in out]
    return [o for o in out if 'nested' not in akey(o)[3]]


# States this process has already tried every operation from (without finding
# anything, otherwise the case would have ended).
EXPANDED = set()

BIG = 40


def seq_run(ctx, case):
    i, k = case
    m = inits(ctx.tier)[i]
    ctx.state(akey(m))
    depth = 1
    front = [(s, (OPS[k][0],)) for s in step(ctx, m, k, '')]
    seen = set([akey(m)])
    while front and depth < 2:
        new = []
        for s, trail in front:
            if akey(s) in seen or len(s.cells) > BIG:
                continue
            seen.add(akey(s))
            ctx.state(akey(s))
            key = akey(s) if ctx.tier != 'quick' else qkey(s)
            if key in EXPANDED:
                continue
            EXPANDED.add(key)
            for j in range(len(OPS)):
                t = ' after ' + ' ; '.join(trail)
                for o in step(ctx, s, j, t):
                    new.append((o, trail + (OPS[j][0],)))
        front = new
        depth += 1


def deep_cases(tier):
    """Depth-first part: the structure-changing operations to depth 4."""
    core = [k for k, (e, inp) in enumerate(OPS) if e in CORE]
    for i in (4, 0, 11, 7) if tier == 'quick' else range(0, 26, 2):
        for k in core:
            for k2 in core:
                yield i, k, k2


CORE = ['y.T', 'y[0]', 'y[1:]', 'y[::-1]', 'y[0:0]', 'y.take([1, 0], -1)',
        'y.squeeze()', 'y.insertaxis(0, "ins")', 'y.insertaxis(-1, "ins")',
        'y.flatten()', 'y.unflatten()', 'y.lag(1, -1)', 'y.vacuum()',
        'y.sum(axis=0)', 'y.sum(axis=-1)', 'y + p', 'y.merge(q)',
        'la.add(y, p, \'outer\', True, 0)', 'y.morph(L(0) + ["new"], 0)',
        'y.morph([], 0)', 'y.maplabel(str, None)', 'y.sortaxis(axis=None)',
        'y.pull(E(0), 0)', 'y.keep_label("!=", E(0), 0)',
        'y.cut_missing(0.5, 0)', 'y.swapaxes(-1, 0)', 'y.ranking(axis=0)',
        'y.shufflelabel(None)', 'y.fill(nan)', 'y.move_sum(2, -1)',
        'la.panel(y)', 'y.flipaxis(axis=-1)', 'y.flipaxis(0, copy=False)',
        'y.lix[[E(0)]:]', 'y > 1', 'y.astype(object)',
        'y.maplabel(lambda l: (0, l), 0, copy=False)',
        'y.keep_x(">", 2, False)', 'y.demean(axis=0)', 'y.group_mean(G, 0)',
        'y.morph_like(p)', 'la.align(y, p, \'left\', True)']


def deep_run(ctx, case):
    i, k, k2 = case
    m = inits(ctx.tier)[i]
    core = [j for j, (e, inp) in enumerate(OPS) if e in CORE]
    seen = set()
    limit = 3 if ctx.tier == 'quick' else 4
    front = []
    for s in step(ctx, m, k, ''):
        if len(s.cells) > BIG:
            continue
        for t in step(ctx, s, k2, ' after ' + OPS[k][0]):
            front.append((t, (OPS[k][0], OPS[k2][0])))
    depth = 2
    while front and depth < limit:
        new = []
        for s, trail in front:
            if akey(s) in seen or len(s.cells) > BIG:
                continue
            seen.add(akey(s))
            ctx.state(akey(s))
            key = akey(s), 'core', limit - depth
            if key in EXPANDED:
                continue
            EXPANDED.add(key)
            for j in core:
                for o in step(ctx, s, j, ' after ' + ' ; '.join(trail)):
                    new.append((o, trail + (OPS[j][0],)))
        front = new
        depth += 1


def chain_cases(tier):
    """Long histories: every operation n times in a row."""
    for i in range(len(inits(tier))):
        for k in range(len(OPS)):
            yield i, k


def chain_run(ctx, case):
    i, k = case
    m = inits(ctx.tier)[i]
    trail = ''
    for d in range(6):
        out = step(ctx, m, k, trail)
        out = [o for o in out if len(o.cells) <= 60 and o.ndim < 9]
        if not out or akey(out[0]) == akey(m):
            return
        m = out[0]
        trail = ' after %d times the same' % (d + 1)
        ctx.state(akey(m))


def size_cases(tier):
    for n in (7, 8, 9, 16, 17, 33, 64, 100, 129, 257, 1000):
        for form in ('1', 'row', 'col'):
            for k in range(len(OPS)):
                yield n, form, k


def size_run(ctx, case):
    n, form, k = case
    s = {'1': (n,), 'row': (2, n), 'col': (n, 2)}[form]
    m = mkm(s, 's')
    m.cells[n // 2] = nan
    ctx.state((n, form))
    step(ctx, m, k, '')


AXIAL = ['[0, 0]', '[1, -1]', '[1, 0]', 'np.array([0, 0])',
         'np.array([1, -1])', 'np.array([1, 0])', 'np.array([True, False])',
         '(0, 0)', '(1, 0)', '[0]', 'np.array([], int)', '[]', '0:0', '::-1',
         '0', 'np.array([-2, 0], np.int8)', '9', '[9]', 'np.array([9])',
         'larry(np.array([True, False]), [list(y.label[%d])])',
         'larry(np.array([True, False]), [list(y.label[%d][::-1])])']


def axial_cases(tier):
    for nd in range(1, 6):
        for ax in range(nd):
            for k in range(len(AXIAL)):
                yield nd, ax, k


def axial_run(ctx, case):
    """An index at any axis of a larry of any dimension"""
    nd, ax, k = case
    t = AXIAL[k]
    t = t % ax if '%d' in t else t
    m = mkm((2,) * nd, 's')
    ctx.state((m.key(), case))
    for e in ('y[' + ':, ' * ax + t + ']', 'y[' + ':, ' * ax + t + ',]',
              'y[' + '0, ' * ax + t + ',]',
              'y[' + '[0, 1], ' * ax + t + ',]',
              'y[' + ':, ' * ax + t + ', 0' * (nd - ax - 1) + ']',
              'y[' + ':, ' * ax + t + ', ::-1' * (nd - ax - 1) + ']',
              'y.take(%s, %d)' % (t if ':' not in t else '0', ax),
              'y.take(%s, %d)' % (t if ':' not in t else '0', ax - nd)):
        apply_op(m, e, False, '')
        ctx.step()


assert len([e for e, i in OPS if e in CORE]) == len(CORE), \
    sorted(set(CORE) - set([e for e, i in OPS]))

FAMILIES = [
    Family('sequences', seq_cases, seq_run,
           'all pairs of %d operations from every initial larry' % len(OPS)),
    Family('core sequences', deep_cases, deep_run,
           'all sequences of %d structural operations' % len(CORE)),
    Family('repeated', chain_cases, chain_run, 'each operation six times'),
    Family('any axis', axial_cases, axial_run),
    Family('sizes', size_cases, size_run),
]
BOUNDS = {'quick': 'all sequences of two of %d operation requests (valid and '
                   'invalid) from %d initial larrys, of three of %d '
                   'structural ones from 4; six times the same; sizes up to '
                   '1000' % (len(OPS), len(inits('')), len(CORE)),
          'thorough': 'four structural operations from 13 initial larrys'}
ASSUMPTIONS = ['labels are hashable and are not edited behind the larry\'s '
               'back']
RULE = 'well-formedness and unchanged operands after every operation'
