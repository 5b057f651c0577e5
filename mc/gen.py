"""Finite, ordered spaces of states the explorers start from."""
import datetime
import itertools
from model import M, prod, nan, inf

D = datetime.date
DTM = datetime.datetime


LADDER_LABELS = {
    'i': [2, 0, 1, 5, -3, 4, 11, 7],
    's': ['b', 'a', 'c', 'aa', 'B', '', 'd e', 'z'],
    'd': [D(2010, 3, 1), D(2009, 12, 31), D(2010, 1, 1), D(2011, 1, 1),
          D(2000, 2, 29), D(2001, 1, 1)],
    'e': [DTM(2010, 3, 1, 9, 30), DTM(2010, 3, 1, 9, 29), DTM(2009, 1, 1),
          DTM(2010, 3, 1, 9, 30, 1)],
    'f': [0.5, -1.0, 2.25, 10.0, 0.0, 3.0],
    't': [('a', 1), ('a', 0), ('b', 0), ('', 5)],
    'm': ['a', 1, None, 2.5, ('t', 0)],
    # labels that look like each other
    'q': ['2', 2, 10, ' 2', 1],
    'w': ['a', 'A', 'a ', 'aa', 'b'],
}


def labs(kind, n, start=0):
    """n distinct labels of the kind, in unsorted order"""
    base = LADDER_LABELS[kind]
    if start + n <= len(base):
        return base[start:start + n]
    if kind == 'i':
        return [(i * 7919 + 3) % 10007 for i in range(start, start + n)]
    if kind == 's':
        return ['k%d' % ((i * 7919 + 3) % 10007)
                for i in range(start, start + n)]
    if kind == 'd':
        return [D.fromordinal(730000 + (i * 7919 + 3) % 10007)
                for i in range(start, start + n)]
    if kind == 'f':
        return [((i * 7919 + 3) % 10007) / 4.0
                for i in range(start, start + n)]
    raise ValueError((kind, n))


def vals(n, dt='f', start=1):
    """n distinct cell values of the dtype (as distinct as the dtype allows)

    Among them one zero and, from three on, negative ones, and values that
    neither float32 nor int16 can hold."""
    if dt == 'f':
        return [v * 1.1 for v in vals(n, 'j', start)]
    if dt == 'g':
        return [v * 1.5 for v in vals(n, 'j', start)]
    if dt == 'i':
        return [v if k != (start + 3) % 5 else 2 ** 25 + start
                for k, v in enumerate(vals(n, 'j', start))]
    if dt == 'j':
        return [0 if k == start % 4 else
                -(start + k) if k % 3 == 2 else start + k for k in range(n)]
    if dt == 'b':
        return [bool(((start + k) * 5 // 3) % 2) for k in range(n)]
    if dt == 'S':
        # not missing, though blank or false in other ways
        return [' ' if k == start % 4 else '0' if k == (start + 2) % 7 + 2
                else 'v%d' % (start + k) for k in range(n)]
    if dt == 'O':
        pool = ['o', 3, 2.5, None, (1, 2)]
        return [0 if k == start % 3 else '' if k == (start + 1) % 5 + 1
                else pool[(start + k) % 4] if (start + k) % 7 == 3
                else 'o%d' % (start + k) for k in range(n)]
    if dt == 'c':
        return [complex(start + k, -k) for k in range(n)]
    raise ValueError(dt)


def mkm(shape, lk='i', dt='f', start=1, cells=None, label=None):
    if label is None:
        if len(lk) == 1:
            lk = lk * len(shape)
        label = [labs(k, n) for k, n in zip(lk, shape)]
    if cells is None:
        cells = vals(prod(shape), dt, start)
    return M(label, cells, dt)


def shapes(maxes, minsize=0):
    """All shapes with ndim == i+1 and every dim <= maxes[i], small first"""
    out = []
    for i, mx in enumerate(maxes):
        if mx is None:
            continue
        for s in itertools.product(range(minsize, mx + 1), repeat=i + 1):
            out.append(s)
    out.sort(key=lambda s: (len(s), prod(s), s))
    return out


def subsets(n):
    return itertools.product((0, 1), repeat=n)


def patterns(n, alphabet):
    return itertools.product(alphabet, repeat=n)
