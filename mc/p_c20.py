"""C20: shuffles and resampling only rearrange, whatever the random numbers."""
import itertools
import random
import numpy as np
import la
from la import larry
from la.util.resample import cross_validation, bootstrap, split
import la.farray as farray
from core import Family, Fail, check
from model import M, mk, arr, snap, same, same_snap, raises, nan, prod, veq, \
    flat
import ref
from gen import mkm, labs


class Source(object):
    """Takes the place of NumPy's random functions and plays back outcomes."""
    def __init__(self, perms=(), draws=()):
        self.perms = list(perms)
        self.draws = list(draws)
        self.log = []

    def __enter__(self):
        r = np.random
        self.old = (r.shuffle, r.permutation, r.randint)
        r.shuffle, r.permutation, r.randint = (self.shuffle, self.permutation,
                                               self.randint)
        return self

    def __exit__(self, *a):
        r = np.random
        r.shuffle, r.permutation, r.randint = self.old

    def next(self, n):
        p = self.perms[len(self.log) % len(self.perms)]
        self.log.append(n)
        p = [i for i in p if i < n]
        return p + [i for i in range(n) if i not in p]

    def shuffle(self, x):
        n = len(x)
        p = self.next(n)
        new = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i]
               for i in p]
        for i in range(n):
            x[i] = new[i]

    def permutation(self, x):
        if isinstance(x, (int, long, np.integer)):
            return np.array(self.next(int(x)), dtype=int)
        x = np.asarray(x)
        return x[self.next(len(x))]

    def randint(self, *a, **kw):
        d = self.draws[min(len(self.log), len(self.draws) - 1)]
        self.log.append((a, kw))
        return np.array(d, dtype=int)


def rows(m, ax):
    """The slices along an axis, as values"""
    ax %= m.ndim
    out = []
    for i in range(m.shape[ax]):
        sel = [range(s) for s in m.shape]
        sel[ax] = [i]
        out.append(repr(m.select(sel).cells))
    return out


def shuffled(now, m, axes, what):
    """now is m with whole slices along the axes rearranged."""
    check(now.label == m.label and now.dt == m.dt, lambda:
          '%s changed the labels\n %r\n %r' % (what, m, now))
    for perm in itertools.product(*[itertools.permutations(range(m.shape[a]))
                                    for a in axes]):
        sel = [range(s) for s in m.shape]
        for a, p in zip(axes, perm):
            sel[a % m.ndim] = list(p)
        if repr(m.select(sel).cells) == repr(now.cells):
            return perm
    raise Fail('%s is not a rearrangement of slices\n was %r\n now %r' %
               (what, m.cells, now.cells))


def shuf_cases(tier):
    big = tier != 'quick'
    for s in [(0,), (1,), (2,), (3,), (4,), (1, 1), (2, 2), (3, 2), (2, 3),
              (1, 3), (3, 1), (0, 2), (2, 0), (3, 3), (2, 2, 2), (3, 2, 2),
              (2, 3, 2), (2, 2, 3), (1, 2, 3)] + [(5,), (4, 3), (3, 4)] * big:
        for dt in 'fibSO':
            for lay in 'CFRN':
                if dt != 'f' and lay != 'C' and not big:
                    continue
                yield s, dt, lay


def shuf_run(ctx, case):
    s, dt, lay = case
    nd = len(s)
    m = mkm(s, 'sdi'[:nd], dt)
    if dt in 'fi':
        m.cells = [v * 3 for v in m.cells]
    ctx.state((m.key(), lay))
    for ax in range(-nd, nd):
        n = s[ax]
        got = set()
        gotl = set()
        nperm = 0
        for p in itertools.permutations(range(n)):
            nperm += 1
            y = mk(m, lay)
            lid = [id(l) for l in y.label]
            with Source([p]) as src:
                r = y.shuffle(ax)
            check(r is None, 'shuffle returns something')
            perm = shuffled(snap(y), m, [ax], 'shuffle(%d)' % ax)
            if src.log == [n]:
                got.add(perm[0])
            check([id(l) for l in y.label] == lid, 'shuffle: label lists')
            # labels
            y = mk(m, lay)
            with Source([p]) as src:
                r = y.shufflelabel(ax)
            check(r is None, 'shufflelabel returns something')
            now = snap(y)
            check(now.cells == m.cells and now.dt == m.dt,
                  'shufflelabel changed values')
            for k in range(nd):
                if k == ax % nd:
                    check(sorted(now.label[k]) == sorted(m.label[k]),
                          lambda: 'shufflelabel(%d): %r' % (ax, now.label))
                else:
                    check(now.label[k] == m.label[k],
                          'shufflelabel(%d) changed axis %d' % (ax, k))
            if src.log == [n]:
                gotl.add(repr(now.label[ax]))
            # the array function
            x = arr(m, lay)
            with Source([p]) as src:
                farray.shuffle(x, ax)
            shuffled(M(m.label, flat(x), m.dt), m, [ax], 'farray.shuffle')
            ctx.step(3)
            ctx.outcome((s, ax, p))
        # different draws are different rearrangements: none is lost
        if prod(s) and dt != 'b':
            check(len(got) in (0, nperm), lambda: 'shuffle(%d): %d draws give '
                  '%d rearrangements' % (ax, nperm, len(got)))
        check(len(gotl) in (0, nperm), lambda: 'shufflelabel(%d): %d draws '
              'give %d orders' % (ax, nperm, len(gotl)))
    # all axes
    if prod(s) > 12 and s != (3, 2, 2) or 0 in s:
        return
    for ps in itertools.product(*[itertools.permutations(range(n))
                                  for n in s]):
        y = mk(m, lay)
        with Source(ps) as src:
            y.shuffle(None)
        shuffled(snap(y), m, range(nd), 'shuffle(None)')
        y = mk(m, lay)
        with Source(ps) as src:
            y.shufflelabel(None)
        now = snap(y)
        check(now.cells == m.cells, 'shufflelabel(None) changed values')
        for k in range(nd):
            check(sorted(now.label[k]) == sorted(m.label[k]),
                  'shufflelabel(None): labels')
        ctx.step(2)


def def_cases(tier):
    for s in [(3,), (3, 2), (2, 3)]:
        for p in itertools.permutations(range(s[0])):
            yield s, p


def def_run(ctx, case):
    """Default axis, refusals, other larrys made from the same lists."""
    s, p = case
    m = mkm(s, 's')
    ctx.state((m.key(), p))
    y = mk(m)
    z = y.copy()
    with Source([p]):
        y.shuffle()
    shuffled(snap(y), m, [0], 'shuffle()')
    same(z, m, 'a copy')
    y = mk(m)
    z = y.copy()
    with Source([p]):
        y.shufflelabel()
    check(snap(y).cells == m.cells and y.label[1:] == m.label[1:] and
          sorted(y.label[0]) == sorted(m.label[0]), 'shufflelabel()')
    same(z, m, 'a copy')
    y = mk(m)
    for ax in (len(s), -len(s) - 1):
        raises(lambda: y.shuffle(ax), 'shuffle(%d)' % ax)
        raises(lambda: y.shufflelabel(ax), 'shufflelabel(%d)' % ax)
    same(y, m, 'after a refused shuffle')
    ctx.step(6)


# the real generator, over a range of seeds -------------------------------------------

def seed_cases(tier):
    for s in [(2,), (3,), (4,), (3, 2), (2, 3), (3, 3), (4, 2), (2, 2, 3)]:
        for ax in range(-len(s), len(s)):
            yield s, ax


def seed_run(ctx, case):
    s, ax = case
    m = mkm(s, 'sdi'[:len(s)])
    n = s[ax]
    ctx.state((m.key(), ax))
    seen, lseen = set(), set()
    for seed in range(400 if ctx.tier == 'quick' else 1500):
        np.random.seed(seed)
        random.seed(seed)
        y = mk(m, 'CFRN'[seed % 4])
        y.shuffle(ax)
        seen.add(shuffled(snap(y), m, [ax], 'shuffle, seed %d' % seed)[0])
        y = mk(m)
        y.shufflelabel(ax)
        now = snap(y)
        check(now.cells == m.cells and all(
            [sorted(a) == sorted(b) if k == ax % len(s) else a == b
             for k, (a, b) in enumerate(zip(now.label, m.label))]),
            'shufflelabel, seed %d' % seed)
        lseen.add(tuple(now.label[ax]))
        ctx.step(2)
    k = prod(range(1, n + 1))
    check(len(seen) == k, lambda: 'shuffle of %d slices only gave %d '
          'rearrangements over %d seeds' % (n, len(seen), seed + 1))
    check(len(lseen) == k, lambda: 'shufflelabel of %d only gave %d orders' %
          (n, len(lseen)))


def all_cases(tier):
    for s in [(2, 2), (3, 2), (2, 3), (1, 3), (2, 2, 2), (1, 2, 3), (3, 1, 2),
              (2, 2, 2, 2), (1, 1, 1, 3), (2, 1, 3, 1), (1, 1, 2, 1, 3)]:
        yield s,


def all_run(ctx, case):
    """Over all axes: every axis is shuffled, in every order."""
    s, = case
    m = mkm(s, 'sdisd'[:len(s)])
    ctx.state(m.key())
    seen = [set() for n in s]
    moved = set()
    for seed in range(150):
        np.random.seed(seed)
        random.seed(seed)
        y = mk(m, 'CFRN'[seed % 4])
        if seed % 2:
            y.shufflelabel(None)
        else:
            y.shufflelabel(axis=None)
        now = snap(y)
        check(now.cells == m.cells, 'shufflelabel(None): values')
        for k in range(len(s)):
            check(sorted(now.label[k]) == sorted(m.label[k]),
                  'shufflelabel(None): labels')
            seen[k].add(tuple(now.label[k]))
        y = mk(m, 'CFRN'[seed % 4])
        y.shuffle(None)
        now = snap(y)
        check(now.label == m.label and sorted(now.cells) == sorted(m.cells),
              'shuffle(None)')
        if prod(s) <= 12:
            shuffled(now, m, range(len(s)), 'shuffle(None)')
        moved.add(repr(now.cells))
        ctx.step(2)
    for k, n in enumerate(s):
        f = prod(range(1, n + 1))
        check(len(seen[k]) == f, lambda: 'shufflelabel(None) of %r gave %d of '
              '%d orders along axis %d' % (s, len(seen[k]), f, k))
    check(len(moved) > 1, 'shuffle(None) never moves anything')


# cross validation ----------------------------------------------------------------------

def folds_ok(folds, n, kfold, what):
    check(len(folds) == kfold, lambda: '%s: %d folds' % (what, len(folds)))
    cover = []
    for tr, te in folds:
        check(sorted(list(tr) + list(te)) == range(n), lambda: '%s: train %r '
              'and test %r do not make up the whole' % (what, tr, te))
        check(len(te) >= n // kfold, lambda: '%s: fold of %d' %
              (what, len(te)))
        cover += list(te)
    check(sorted(cover) == range(n), lambda: '%s: test sets %r' %
          (what, [f[1] for f in folds]))


def cv_cases(tier):
    for n in range(2, 6 if tier == 'quick' else 8):
        for kfold in range(2, n + 1):
            for p in itertools.permutations(range(n)):
                yield n, kfold, p


def cv_run(ctx, case):
    n, kfold, p = case
    ctx.state(case)
    calls = []

    def shuf(x):
        calls.append(list(x))
        x[:] = [x[i] for i in p]
    folds = [(list(a), list(b)) for a, b in cross_validation(n, kfold, shuf)]
    folds_ok(folds, n, kfold, 'cross_validation(%d, %d, shuffle) with %r' %
             (n, kfold, p))
    check(len(calls) == 1 and sorted(calls[0]) == range(n),
          lambda: 'the shuffle function was called with %r' % (calls,))
    check([i for f in folds for i in f[1]] == [calls[0][i] for i in p],
          'the folds do not follow the shuffled order')
    with Source([p]):
        f2 = [(list(a), list(b)) for a, b in cross_validation(n, kfold)]
    folds_ok(f2, n, kfold, 'cross_validation(%d, %d)' % (n, kfold))
    # what the caller does with one fold does not matter for the next
    f3 = []
    for a, b in cross_validation(n, kfold, shuf):
        f3.append((list(a), list(b)))
        a.reverse()
        del a[0]
        b.append(99)
    check(f3 == folds, 'changing a fold in place changed a later one')
    # two iterations side by side
    g1 = cross_validation(n, kfold, shuf)
    g2 = cross_validation(n, kfold, lambda x: x.reverse())
    both = [(next(g1), next(g2)) for _ in range(kfold)]
    folds_ok([b[0] for b in both], n, kfold, 'side by side')
    folds_ok([b[1] for b in both], n, kfold, 'side by side')
    check([(list(b[0][0]), list(b[0][1])) for b in both] == folds,
          'side by side')
    # splitting with them
    m = mkm((n, 2), 'si')
    y = mk(m)
    for tr, te in folds:
        a, b = split(y, tr, te, 0)
        same(a, ref.take(m, tr, 0), 'training part')
        same(b, ref.take(m, te, 0), 'testing part')
    ctx.step(4 + len(folds))
    ctx.outcome(repr(folds))


def cvgrid_cases(tier):
    for n in range(2, 121 if tier == 'quick' else 301):
        yield n,


def cvgrid_run(ctx, case):
    """Every number of folds"""
    n, = case
    ctx.state(case)
    for kfold in range(2, n + 1):
        for f in (lambda x: None, lambda x: x.reverse()):
            folds_ok(list(cross_validation(n, kfold, f)), n, kfold,
                     'cross_validation(%d, %d)' % (n, kfold))
            ctx.step()


def cvseed_cases(tier):
    for n in range(2, 12) + [16, 17, 30, 31, 64, 99, 100, 101, 1000, 1025,
                                5000]:
        for kfold in sorted(set(range(2, min(n, 12) + 1) + [n // 2, n // 3,
                                                            n - 1, n])):
            if 2 <= kfold <= n and (n < 200 or kfold < 20):
                yield n, kfold


def cvseed_run(ctx, case):
    n, kfold = case
    ctx.state(case)
    for seed in range(30):
        np.random.seed(seed)
        folds = list(cross_validation(n, kfold))
        folds_ok(folds, n, kfold, 'cross_validation(%d, %d), seed %d' %
                 (n, kfold, seed))
        ctx.step()
    for f in (lambda x: None, lambda x: x.reverse(), lambda x: x.sort()):
        folds_ok(list(cross_validation(n, kfold, f)), n, kfold, 'shuffle')
        ctx.step()


def cvbad_cases(tier):
    for n in range(-2, 6):
        for kfold in range(-2, 9):
            if n < 2 or kfold < 2 or kfold > n:
                yield n, kfold


def cvbad_run(ctx, case):
    n, kfold = case
    ctx.state(case)
    raises(lambda: list(cross_validation(n, kfold)),
           'cross_validation(%d, %d)' % case)
    if n < 2 or kfold < 1:
        raises(lambda: list(bootstrap(n, kfold)), 'bootstrap(%d, %d)' % case)


# bootstrap ------------------------------------------------------------------------------

def boot_cases(tier):
    for n, k in [(2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (4, 1),
                 (5, 1)] + ([(2, 6), (3, 3), (6, 1)] if tier != 'quick'
                            else []):
        draws = list(itertools.product(range(n), repeat=n))
        if n ** (n * k) > 30000:
            for d in draws:
                yield n, k, (d,)
        else:
            for seq in itertools.product(draws, repeat=k):
                yield n, k, seq


def boot_run(ctx, case):
    n, k, seq = case
    ctx.state(case)
    good = [d for d in seq if len(set(d)) < n]
    # the play ends with a draw that has a test set
    tail = (0,) * n
    for nboot in range(1, k + 1):
        seqs = list(seq) + [tail]
        calls = []

        def randint(*a, **kw):
            calls.append((a, kw))
            return np.array(seqs[min(len(calls), len(seqs)) - 1])
        got = []
        for a, b in bootstrap(n, nboot, randint):
            got.append((list(a), list(b)))
            check(sorted(b) == [i for i in range(n) if i not in a] and b,
                  lambda: 'bootstrap: train %r test %r' % (a, b))
            check(len(a) == n and set(a) <= set(range(n)),
                  lambda: 'bootstrap: train %r' % (a,))
            a[:] = []
            b[:] = [5]
            if len(got) > nboot:
                break
        check(len(got) == nboot, lambda: 'bootstrap: %d samples of %d' %
              (len(got), nboot))
        want = (good + [tail] * nboot)[:nboot]
        check([tuple(g[0]) for g in got] == want, lambda: 'bootstrap does not '
              'use the drawn samples: %r from %r' % (got, seqs))
        with Source((), seqs) as src:
            g2 = [(list(a), list(b)) for a, b in bootstrap(n, nboot)]
        for a, b in g2:
            check(len(a) == n and b and
                  sorted(b) == [i for i in range(n) if i not in a],
                  'bootstrap: train %r test %r' % (a, b))
        check(len(g2) == nboot, 'bootstrap: number of samples')
        ctx.step(2)
        ctx.outcome(repr(got))


def bootsize_cases(tier):
    for n in range(2, 40) + [64, 100, 127, 128, 129, 255, 256, 257, 1000, 1025,
                             2500, 5000, 20000, 70000]:
        for d in range(6):
            yield n, d


def bootsize_run(ctx, case):
    n, d = case
    draw = [lambda i: i // 2, lambda i: 0, lambda i: n - 1,
            lambda i: max(1, i), lambda i: n - 1 - i + i % 2,
            lambda i: (7 * i) % n if (7 * i) % n else 1][d]
    train = [min(n - 1, draw(i)) for i in range(n)]
    if len(set(train)) == n:
        train[0] = train[1]
    test = sorted(set(range(n)) - set(train))
    ctx.state(case)
    got = list(bootstrap(n, 2, lambda *a, **k: np.array(train)))
    check(len(got) == 2, 'bootstrap(%d): %d samples' % (n, len(got)))
    for a, b in got:
        check(list(a) == train, lambda: 'bootstrap(%d): training sample %r...' %
              (n, list(a)[:20]))
        check(sorted(b) == test, lambda: 'bootstrap(%d): test set of %d, '
              'not %d' % (n, len(b), len(test)))
    ctx.step(2)


def reach_cases(tier):
    for n in range(2, 40) + [64, 100, 127, 128, 129, 256, 257, 1000]:
        yield n,


def reach_run(ctx, case):
    """Every element can be drawn: the generator may return every number in
    the range it is asked for, and these are the n elements."""
    n, = case
    ctx.state(case)
    old = np.random.randint
    for own in (True, False):
        seen = set()
        for j in range(n):
            calls = []

            def randint(low, high=None, size=None):
                if high is None:
                    low, high = 0, low
                calls.append((low, high, size))
                d = np.empty(size if size is not None else (), dtype=int)
                d.fill(low + min(j, high - low - 1))
                return d
            if own:
                a, b = next(bootstrap(n, 1, randint))
            else:
                np.random.randint = randint
                try:
                    a, b = next(bootstrap(n, 1))
                finally:
                    np.random.randint = old
            if not calls:
                return      # another source of random numbers
            check(len(a) == n and set(a) <= set(range(n)) and
                  sorted(b) == [i for i in range(n) if i not in a],
                  lambda: 'bootstrap(%d): %r %r' % (n, a, b))
            seen.update(a)
            ctx.step()
        check(seen == set(range(n)), lambda: 'bootstrap(%d) never draws %r' %
              (n, sorted(set(range(n)) - seen)))


def bootseed_cases(tier):
    for n in [2, 3, 4, 5, 9, 10, 16, 33, 100, 257]:
        for nboot in (1, 2, 5, 20):
            yield n, nboot


def bootseed_run(ctx, case):
    n, nboot = case
    ctx.state(case)
    for seed in range(40):
        np.random.seed(seed)
        got = list(bootstrap(n, nboot))
        check(len(got) == nboot, 'bootstrap(%d, %d): %d samples' %
              (n, nboot, len(got)))
        for a, b in got:
            check(len(a) == n and len(b) > 0 and
                  sorted(set(range(n)) - set(a)) == sorted(b),
                  lambda: 'bootstrap: train %r test %r' % (a, b))
        ctx.step()


# split ----------------------------------------------------------------------------------

def split_cases(tier):
    for s in [(1,), (2,), (3,), (4,), (2, 3), (3, 2), (2, 2, 3), (3, 1, 2)]:
        for ax in range(-len(s), len(s)):
            n = s[ax]
            for r in range(1, min(n, 3) + 1):
                for tr in itertools.permutations(range(-n, n), r):
                    if len(set([i % n for i in tr])) == r:
                        yield s, ax, tr


def split_run(ctx, case):
    s, ax, tr = case
    m = mkm(s, 'sdi'[:len(s)])
    n = s[ax]
    ctx.state((m.key(), ax, tr))
    y = mk(m)
    for te in [tr, tuple([i for i in range(n) if i not in tr]) or (0,),
               (n - 1,), tuple(range(n))]:
        for typ in (list, tuple, np.array):
            a, b = split(y, typ(tr), typ(te), ax)
            same(a, ref.take(m, tr, ax), 'training part', dtype='exact')
            same(b, ref.take(m, te, ax), 'testing part', dtype='exact')
            x = arr(m)
            a, b = split(x, typ(tr), typ(te), ax)
            check(np.array_equal(a, x.take(tr, ax)) and
                  np.array_equal(b, x.take(te, ax)), 'split of an array')
            ctx.step(2)
    same(y, m, 'operand')


FAMILIES = [
    Family('shuffle', shuf_cases, shuf_run,
           'every permutation the source can draw, every axis'),
    Family('defaults', def_cases, def_run),
    Family('seeds', seed_cases, seed_run,
           'the real generator: only rearrangements, and all of them'),
    Family('cross validation', cv_cases, cv_run, 'every permutation drawn'),
    Family('numbers of folds', cvgrid_cases, cvgrid_run),
    Family('cross validation sizes', cvseed_cases, cvseed_run),
    Family('refused', cvbad_cases, cvbad_run),
    Family('bootstrap', boot_cases, boot_run, 'every sample drawn'),
    Family('bootstrap reach', reach_cases, reach_run,
           'every element can be drawn'),
    Family('bootstrap, large samples', bootsize_cases, bootsize_run),
    Family('bootstrap sizes', bootseed_cases, bootseed_run),
    Family('split', split_cases, split_run, 'every index list'),
    Family('all axes', all_cases, all_run, '150 seeds'),
]
BOUNDS = {'quick': 'every permutation of up to 4 slices on 19 shapes, 4 '
                   'layouts; 400 seeds of the real generator; cross '
                   'validation with every permutation of n <= 5 and every '
                   'kfold; bootstrap with every sequence of draws for n=2 '
                   '(up to 4) and n=3 (up to 2), every draw for n <= 5',
          'thorough': 'n <= 7 for cross validation, n <= 6 for bootstrap, '
                      '1500 seeds'}
ASSUMPTIONS = ['the random source is np.random.shuffle, permutation or '
               'randint (played back) or the seeded NumPy generator']
