"""Axes and counts given as other kinds of integers, shared by several modules.

An axis (or a window, a number of positions) is an integer; NumPy hands out
integers of its own types, Python 2 long ones.  What an operation answers may
not depend on which of them it is given.  The oracle is the same call with a
plain int, which the other families compare with the definition.
"""
import numpy as np
from la import larry
from core import Fail, Family, check
from gen import mkm
from model import mk, snap, nan

KINDS = [('int64', np.int64), ('long', long), ('int32', np.int32)]
SHAPES = [(3,), (2, 3), (3, 3), (2, 1, 3), (2, 2, 2), (1, 2, 1, 2)]


def cases(tier):
    for s in SHAPES:
        for k in range(len(KINDS)):
            for dt in 'fi':
                yield s, k, dt


def value(r):
    if isinstance(r, larry):
        return 'larry', repr(snap(r))
    if isinstance(r, np.ndarray):
        return 'array', r.shape, str(r.dtype), repr(r.tolist())
    if isinstance(r, (tuple, list)):
        return tuple([value(z) for z in r])
    return type(r).__name__, repr(r)


def attempt(f):
    try:
        return value(f())
    except Exception as e:
        return 'raises', type(e).__name__


def family(calls):
    """calls: (name, function of a larry, an axis and a kind of integer)"""
    def run(ctx, case):
        s, k, dt = case
        m = mkm(s, 'sids'[:len(s)], dt)
        if dt == 'f' and m.size > 2:
            m.cells[2] = nan
        name, kind = KINDS[k]
        ctx.state((m.key(), name))
        for what, f in calls:
            for ax in range(-len(s), len(s)):
                a, b = mk(m), mk(m)
                want = attempt(lambda: f(a, ax, int))
                got = attempt(lambda: f(b, kind(ax), kind))
                check(got == want or want[0] == got[0] == 'raises', lambda:
                      '%s with axis %s(%d) of %r:\n got  %r\n want %r' %
                      (what, name, ax, m, got, want))
                check(value(a) == value(b), lambda: '%s with axis %s(%d) of '
                      '%r leaves %r behind, not %r' % (what, name, ax, m, b,
                                                       a))
                ctx.step()
                ctx.outcome(got[0])
    return Family('kinds of integers', cases, run,
                  'axes and counts as NumPy and long integers')


def meth(*names):
    """Methods that take only an axis"""
    return [(n, (lambda n: lambda y, ax, I: getattr(y, n)(ax))(n))
            for n in names]
