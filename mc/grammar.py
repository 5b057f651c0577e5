"""Index grammar: tokens (plain tuples) that turn into real index objects and
into the positions they must select, per axis."""
import itertools
import numpy as np
from la import larry

REFUSE = 'refuse'


def token(tok, labels):
    """(index object, positions): positions is an int for a scalar, a list of
    positions for a sequence or slice, REFUSE when it has to be refused."""
    n = len(labels)
    k = tok[0]
    if k == 'i':
        v = tok[1]
        obj = {'int': int, 'np64': np.int64, 'np32': np.int32,
               'long': long}.get(tok[2]) or np.dtype(tok[2]).type
        obj = obj(v)
        if -n <= v < n:
            return obj, v % n
        return obj, REFUSE
    if k == 's':
        s = slice(*tok[1:])
        return s, range(n)[s]
    if k == 'S':                # the ends of the slice are of some type
        typ = {'long': long}.get(tok[4]) or np.dtype(tok[4]).type
        return (slice(*[z if z is None else typ(z) for z in tok[1:4]]),
                range(n)[slice(*tok[1:4])])
    if k == 'k':                # a list of integers of some type
        typ = {'long': long}.get(tok[2]) or np.dtype(tok[2]).type
        obj, pos = token(('l', tok[1]), labels)
        return [typ(z) for z in obj], pos
    if k in 'lta':
        v = list(tok[1])
        if k == 'l':
            obj = v
        elif k == 't':
            obj = tuple(v)
        else:
            obj = np.array(v, dtype=tok[2])
        if [i for i in v if not -n <= i < n]:
            return obj, REFUSE
        pos = [i % n for i in v]
        if len(set(pos)) != len(pos):
            return obj, REFUSE
        return obj, pos
    if k == 'm':
        obj = np.array(tok[1], dtype=bool)
        pos = [i for i, z in enumerate(tok[1]) if z]
        if [i for i in pos if i >= n]:
            return obj, REFUSE
        return obj, pos
    if k == 'L':
        mask = (tok[1] + (False,) * n)[:n]
        pos = [i for i, z in enumerate(mask) if z]
        mask = np.array(mask, dtype=bool)
        lab = list(labels)
        how = tok[2]
        if how == 'ok':
            return larry(mask, [lab]), pos
        if how == 'rev':        # same labels in another order
            return larry(mask, [lab[::-1]]), REFUSE if n > 1 else pos
        if how == 'other':
            lab = lab[:-1] + ['other'] if lab else ['other']
            if len(mask) != len(lab):
                mask = np.ones(len(lab), bool)
            return larry(mask, [lab]), REFUSE
        if how == 'long':
            return larry(np.ones(n + 1, bool), [lab + ['other']]), REFUSE
        if how == 'short':
            if n < 2:
                return larry(np.ones(n + 1, bool), [lab + ['o']]), REFUSE
            return larry(mask[:-1], [lab[:-1]]), REFUSE
        if how == 'int':
            return larry(mask.astype(int), [lab]), REFUSE
        if how == 'float':
            return larry(mask.astype(float), [lab]), REFUSE
        if how == '2d':
            return larry(mask.reshape(-1, 1), [lab, [0]]), REFUSE
    if k == 'x':
        return {'none': None, 'ell': Ellipsis, 'str': 'a', 'dict': {},
                'arr2': np.zeros((1, 1), int), 'arr0': np.array('q'),
                'obj': object(), 'bool2': np.ones((2, 2), bool)}[tok[1]], \
            REFUSE
    raise ValueError(tok)


def ints(n, typs=('int',)):
    for v in range(-n - 1, n + 1):
        for t in typs:
            yield ('i', v, t)
    if n:
        yield ('i', 99, 'int')
        yield ('i', -99, 'int')


def slices(n, full=True):
    if full:
        ends = [None] + range(-n - 2, n + 3)
        steps = (None, 1, 2, 3, -1, -2, -3)
    else:
        ends = [None, 0, 1, -1, n]
        steps = (None, 2, -1)
    for a in ends:
        for b in ends:
            for c in steps:
                yield ('s', a, b, c)


def seqs(n, full=True):
    """position lists without repeats in every order (negative spelling too),
    then ones with repeats and out of range"""
    top = n if full else min(n, 2)
    for r in range(0, top + 1):
        for p in itertools.permutations(range(n), r):
            yield p
            if r:
                yield tuple([v - n for v in p])
            if r > 1:
                yield (p[0] - n,) + p[1:]
    if not full and n > 2:
        yield tuple(range(n))
        yield tuple(range(n)[::-1])
    if n:
        yield (0, 0)
        yield (0, -n)
        yield (n - 1, -1)
        yield (n - 1, 0, n - 1)
    yield (n,)
    yield (-n - 1,)
    yield (0, n)


def masks(n):
    for m in itertools.product((False, True), repeat=n):
        yield m


def tokens(n, full=True):
    for t in ints(n, ('int', 'np64', 'np32', 'long') if full else ('int',
                                                                   'np64')):
        yield t
    for t in slices(n, full):
        yield t
    for s in seqs(n, full):
        yield ('l', s)
        yield ('a', s, 'int64')
        if full:
            yield ('a', s, 'int32')
            yield ('a', s, 'int8')
    for m in masks(n):
        yield ('m', m)
        yield ('L', m, 'ok')
        if full or all(m) or sum(m) == 1 and m[0]:
            for how in ('rev', 'other', 'int', 'float', '2d', 'short'):
                if how == 'rev' and n < 2:
                    continue
                yield ('L', m, how)
    yield ('L', (True,) * n, 'long')
    yield ('m', (False,) * n + (True,))
    for x in ('none', 'ell', 'str', 'dict', 'arr2', 'obj', 'bool2'):
        yield ('x', x)


def typed(n):
    """the integers of an index are of every type"""
    for t in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'long'):
        uns = t[0] == 'u'
        for v in range(-n - 1, n + 1):
            if not uns:     # (not among the scalars that isscalar documents)
                yield ('i', v, t)
        for a, b, c in itertools.product((None, 0, 1, n, -1), (None, n, 1, -1),
                                         (None, 1, 2, -1)):
            if not uns or -1 not in (a, b, c):
                yield ('S', a, b, c, t)
        for q in seqs(n, False):
            if not uns or not [v for v in q if v < 0]:
                yield ('k', q, t)
                if t not in ('long', 'u8'):    # take refuses uint64
                    yield ('a', q, t)


SMALL = [('i', 0, 'int'), ('i', -1, 'int'), ('i', 1, 'np64'), ('i', 9, 'int'),
         ('s', None, None, None), ('s', 1, None, None), ('s', None, -1, None),
         ('s', None, None, -1), ('s', 0, 0, None), ('s', -1, None, -2),
         ('s', 0, 1, None), ('l', ()), ('l', (0,)), ('l', (1, 0)),
         ('l', (-1, 0)), ('a', (-1,), 'int64'), ('a', (1, 0), 'int64'),
         ('l', (0, 0)), ('l', (5,)), ('m', 'odd'), ('m', 'all'),
         ('m', 'none'), ('L', 'even', 'ok'), ('L', 'even', 'rev'),
         ('x', 'none'), ('x', 'ell'), ('x', 'str')]


def small(n):
    for t in SMALL:
        if t[0] in 'mL' and isinstance(t[1], str):
            mask = {'odd': [i % 2 == 1 for i in range(n)],
                    'even': [i % 2 == 0 for i in range(n)],
                    'all': [True] * n, 'none': [False] * n}[t[1]]
            t = (t[0], tuple(mask)) + t[2:]
        yield t
