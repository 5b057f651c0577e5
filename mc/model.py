"""The boring reference model: a labelled array is a tuple of label lists and
a flat list of Python values in C order, plus the kind of the dtype."""
import itertools
import math
import numpy as np
from la import larry

from core import Fail, check

nan = float('nan')
inf = float('inf')


# values ---------------------------------------------------------------------

def isnan(v):
    return isinstance(v, (float, np.floating)) and v != v


def veq(a, b, rtol=0.0, atol=0.0):
    """Same value (NaN equals NaN), optionally within a tolerance."""
    an = isnan(a)
    bn = isnan(b)
    if an or bn:
        return an and bn
    if a is None or b is None:
        return a is b
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        if a != a or b != b:
            return veq(a.real, b.real) and veq(a.imag, b.imag)
    if isinstance(a, str) != isinstance(b, str):
        return False
    if a == b:
        return True
    if rtol or atol:
        try:
            most = max(abs(a), abs(b))
            return most != inf and abs(a - b) <= atol + rtol * most
        except TypeError:
            return False
    return False


def pyval(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def flat(arr):
    """Values of an array in C order as Python objects."""
    return arr.ravel().tolist()


def strides(shape):
    st = []
    n = 1
    for s in reversed(shape):
        st.append(n)
        n *= s
    return st[::-1]


def prod(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def indices(shape):
    return itertools.product(*[range(s) for s in shape])


class M(object):
    """Reference labelled array."""
    __slots__ = ('label', 'cells', 'dt')

    def __init__(self, label, cells, dt='f'):
        self.label = [list(l) for l in label]
        self.cells = list(cells)
        self.dt = dt
        assert prod(self.shape) == len(self.cells), (label, cells)

    @property
    def shape(self):
        return tuple([len(l) for l in self.label])

    @property
    def ndim(self):
        return len(self.label)

    @property
    def size(self):
        return len(self.cells)

    def at(self, idx):
        st = strides(self.shape)
        return self.cells[sum([i * s for i, s in zip(idx, st)])]

    def put(self, idx, v):
        st = strides(self.shape)
        self.cells[sum([i * s for i, s in zip(idx, st)])] = v

    def copy(self):
        return M(self.label, self.cells, self.dt)

    def items(self):
        for k, idx in enumerate(indices(self.shape)):
            yield idx, self.cells[k]

    def asdict(self):
        d = {}
        for idx, v in self.items():
            d[tuple([l[i] for l, i in zip(self.label, idx)])] = v
        return d

    def key(self):
        return (self.shape, repr(self.label), repr(self.cells), self.dt)

    def __repr__(self):
        return 'M(label=%r, cells=%r, dt=%r)' % (self.label, self.cells,
                                                 self.dt)

    # building blocks ---------------------------------------------------------
    def select(self, idxlists):
        """Orthogonal selection: idxlists[ax] is a list of positions."""
        label = [[l[i] for i in ix] for l, ix in zip(self.label, idxlists)]
        cells = [self.at(idx) for idx in itertools.product(*idxlists)]
        return M(label, cells, self.dt)

    def permute(self, axes):
        label = [self.label[a] for a in axes]
        shape = tuple([len(l) for l in label])
        out = []
        for idx in indices(shape):
            src = [0] * len(axes)
            for k, a in enumerate(axes):
                src[a] = idx[k]
            out.append(self.at(src))
        return M(label, out, self.dt)

    def along(self, axis):
        """Yield (other_index, [positions of the lane])"""
        ax = axis % self.ndim
        other = [range(s) for k, s in enumerate(self.shape) if k != ax]
        for o in itertools.product(*other):
            lane = []
            for j in range(self.shape[ax]):
                lane.append(o[:ax] + (j,) + o[ax:])
            yield o, lane

    def map(self, f, dt=None):
        return M(self.label, [f(v) for v in self.cells], dt or self.dt)

    def reduce(self, f, axis, dt='f'):
        """f maps a lane (list) to a value. Returns value or M."""
        if axis is None:
            return f(list(self.cells))
        ax = axis % self.ndim
        out = [f([self.at(i) for i in lane]) for o, lane in self.along(ax)]
        if self.ndim == 1:
            return out[0]
        label = [l for k, l in enumerate(self.label) if k != ax]
        return M(label, out, dt)

    def lanes(self, f, axis, dt='f'):
        """f maps a lane to a lane of the same length. Returns M."""
        out = self.copy()
        out.dt = dt
        if axis is None:
            out.cells = list(f(list(self.cells)))
            return out
        for o, lane in self.along(axis % self.ndim):
            res = f([self.at(i) for i in lane])
            for i, v in zip(lane, res):
                out.put(i, v)
        return out


# implementation side -----------------------------------------------------------

DT = {'f': np.float64, 'g': np.float32, 'i': np.int64, 'j': np.int32,
      'b': np.bool_, 'S': None, 'O': np.object_, 'c': np.complex128}


def arr(m, layout='C'):
    """A numpy array holding the model's cells, in the given memory layout."""
    dt = DT[m.dt]
    if m.dt == 'S':
        w = max([1] + [len(v) for v in m.cells])
        dt = np.dtype('S%d' % max(w, 3))
    x = np.empty(len(m.cells), dtype=dt)
    for i, v in enumerate(m.cells):
        x[i] = v
    x = x.reshape(m.shape)
    return relayout(x, layout)


def relayout(x, layout):
    if layout == 'C':
        return x
    if layout == 'F':
        return np.asfortranarray(x) if x.ndim else x
    if layout == 'R':       # negative strides, a view
        sl = tuple([slice(None, None, -1)] * x.ndim)
        return x[sl].copy()[sl]
    if layout == 'N':       # every other element of a larger buffer
        big = np.empty([2 * s + 1 for s in x.shape], dtype=x.dtype)
        if x.dtype == object:
            big.fill(None)
        elif x.dtype.kind == 'S':
            big.fill('zz')
        elif x.dtype.kind == 'f':
            big.fill(-777)
        else:
            big.fill(1)
        sl = tuple([slice(1, None, 2)] * x.ndim)
        big[sl] = x
        return big[sl]
    raise ValueError(layout)


def mk(m, layout='C'):
    """The implementation's larry for a model state."""
    return larry(arr(m, layout), [list(l) for l in m.label])


def kind(dtype):
    k = dtype.kind
    if k == 'f':
        return 'g' if dtype.itemsize == 4 else 'f'
    if k in 'iu':
        return 'j' if dtype.itemsize == 4 else 'i'
    return k


def snap(lar):
    """Implementation larry -> model."""
    m = M.__new__(M)
    m.label = [list(l) for l in lar.label]
    m.cells = flat(lar.x)
    m.dt = kind(lar.x.dtype)
    return m


def wellformed(lar, what='result'):
    check(type(lar) is larry, lambda: '%s is a %s, not a larry: %r' %
          (what, type(lar).__name__, lar))
    check(type(lar.x) is np.ndarray, lambda: '%s: x is %s' %
          (what, type(lar.x)))
    check(type(lar.label) is list, lambda: '%s: label is %s' %
          (what, type(lar.label)))
    check(lar.x.ndim >= 1, lambda: '%s is 0d: %r' % (what, lar))
    check(len(lar.label) == lar.x.ndim, lambda: '%s: %d label axes for %dd '
          'data (label=%r shape=%r)' % (what, len(lar.label), lar.x.ndim,
                                        lar.label, lar.x.shape))
    for ax, l in enumerate(lar.label):
        check(type(l) is list, lambda: '%s: label axis %d is a %s' %
              (what, ax, type(l)))
        check(len(l) == lar.x.shape[ax], lambda: '%s: axis %d has %d labels '
              'for %d positions' % (what, ax, len(l), lar.x.shape[ax]))
        try:
            n = len(set(l))
        except TypeError:
            raise Fail('%s: unhashable label along axis %d: %r' %
                       (what, ax, l))
        check(n == len(l), lambda: '%s: duplicate labels along axis %d: %r' %
              (what, ax, l))


PLAIN = (bool, int, long, float)


def labels_eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if not (p == q):
                return False
            if type(p) is not type(q) and not (
                    type(p) in PLAIN and type(q) in PLAIN):
                return False        # (1 and 1.0 are the same label)
    return True


DTK = {'f': 'f', 'g': 'f', 'i': 'i', 'j': 'i', 'b': 'b', 'S': 'S', 'O': 'O',
       'c': 'c'}


def same(got, want, what='result', rtol=0.0, atol=0.0, dtype=True, key=None):
    """got: implementation value (larry or scalar); want: model or scalar."""
    if isinstance(want, M):
        wellformed(got, what)
        check(got.x.shape == want.shape and labels_eq(got.label, want.label),
              lambda: '%s: labels differ\n got  %r shape %r\n want %r shape %r'
              % (what, got.label, got.x.shape, want.label, want.shape), key)
        gc = flat(got.x)
        wc = want.cells
        if gc != wc or want.dt == 'O':    # fast path for exact equality
            for k in range(len(wc)):
                if not veq(gc[k], wc[k], rtol, atol) or \
                        want.dt == 'O' and type(gc[k]) is not type(wc[k]):
                    raise Fail('%s: values differ at flat position %d\n'
                               ' got  %r\n want %r\n label %r' %
                               (what, k, gc, wc, want.label), key)
        if dtype:
            gk = kind(got.x.dtype)
            ok = gk == want.dt if dtype == 'exact' else \
                DTK.get(gk) == DTK[want.dt]
            check(ok, lambda: '%s: dtype is %s, want kind %s' %
                  (what, got.x.dtype, want.dt), key)
    else:
        check(not isinstance(got, larry), lambda: '%s: got a larry %r, want '
              'the value %r' % (what, snap(got), want), key)
        if isinstance(got, np.ndarray):
            check(got.ndim == 0, lambda: '%s: got an array %r, want the value'
                  ' %r' % (what, got, want), key)
            got = got[()]
        check(veq(pyval(got), want, rtol, atol), lambda: '%s: got %r, want %r'
              % (what, got, want), key)


def same_snap(now, was, what):
    """Two snapshots of the same larry must be identical."""
    check(now.label == was.label and now.dt == was.dt and
          len(now.cells) == len(was.cells) and
          all([veq(a, b) and type(a) is type(b)
               for a, b in zip(now.cells, was.cells)]),
          lambda: '%s\n before %r\n after  %r' % (what, was, now))


def raises(f, what):
    """f() must raise an ordinary exception."""
    try:
        r = f()
    except Exception as e:
        return e
    if isinstance(r, larry):
        r = snap(r)
    raise Fail('%s: expected an error, got %r' % (what, r))
