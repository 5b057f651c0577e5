"""Spaces of lane contents shared by the statistics modules."""
import itertools
from model import M, nan, inf, prod
from gen import mkm, labs, patterns

# value pools: dyadic values so that means and sums are exact
P5 = (nan, 1.0, 2.0, 4.5, -1.0)
P4 = (nan, 2.0, -0.5, 3.0)
P3 = (nan, 1.0, 3.0)
I3 = (3, 1, -2)


def spread(n, seed=0, nans=True, ties=True):
    """A deterministic lane with repeats and gaps for the size ladders."""
    out = []
    for i in range(n):
        k = (i * 7919 + 104729 * (seed + 1)) % 10007
        if nans and k % 7 == 3:
            out.append(nan)
        elif ties and k % 3 == 0:
            out.append(float(k % 11) - 5.0)
        else:
            out.append(k / 8.0 - 600.0)
    return out


def space(tier):
    """(shape, dtype, cells) - every content of every small shape"""
    big = tier != 'quick'
    for n in range(0, 7 if big else 6):
        pool = P5 if n < 5 or big and n < 6 else P4 if n < 6 else P3
        for c in patterns(n, pool):
            yield (n,), 'f', c
    for s in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]:
        for c in patterns(prod(s), P4):
            yield s, 'f', c
    for s in [(2, 3), (3, 2), (1, 2, 3)] + ([(2, 1, 3), (2, 4), (4, 2),
                                             (2, 2, 2)] if big else []):
        for c in patterns(prod(s), P3):
            yield s, 'f', c
    for s in [(0, 1), (1, 0), (0, 2), (2, 0), (0, 0), (2, 0, 3), (0, 1, 2),
              (2, 2, 0)]:
        yield s, 'f', ()
        yield s, 'i', ()
    yield (0,), 'i', ()
    for s in [(1,), (2,), (3,), (4,), (2, 2), (1, 3), (2, 3), (3, 1)]:
        for c in patterns(prod(s), I3):
            yield s, 'i', c
    for s in [(3,), (2, 2), (3, 2)]:
        for c in patterns(prod(s), P3):
            yield s, 'g', c
    if not big:
        for c in patterns(8, P3[:2]):
            yield (2, 2, 2), 'f', [v * (k + 1) for k, v in enumerate(c)]


# larger shapes, many lanes at once, layouts
LAYSHAPES = [(4,), (5,), (3, 4), (4, 3), (1, 5), (5, 1), (2, 3, 4), (4, 3, 2),
             (3, 2, 4), (1, 4, 3), (3, 1, 4), (4, 3, 1), (2, 3, 4, 2)]


def laycases(tier):
    for s in LAYSHAPES:
        for lay in 'CFRN':
            for dt in 'fig':
                for seed in range(4 if tier == 'quick' else 16):
                    yield s, lay, dt, seed


def laymodel(s, dt, seed):
    c = spread(prod(s), seed, nans=dt != 'i')
    if dt == 'i':
        c = [int(v) for v in c]
    return mkm(s, 'sid'[:len(s)] if len(s) < 4 else 'sids', dt, cells=c)


SIZES = [5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 48, 63, 64, 65,
         99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 999, 1000,
         1001, 1024, 1025]


def sizecases(tier):
    for n in SIZES + ([2047, 2048, 2049, 4096, 4097, 5000] if tier != 'quick'
                      else []):
        for how in ('1d', 'row', 'col'):
            for nans in (False, True):
                yield n, how, nans


def sizemodel(n, how, nans):
    s, ax = {'1d': ((n,), 0), 'row': ((2, n), 1), 'col': ((n, 2), 0)}[how]
    return mkm(s, 's' * len(s), 'f', cells=spread(prod(s), n, nans)), ax
