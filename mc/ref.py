"""Reference semantics of the label-aware operations, written on model.M."""
from model import M, nan, isnan, indices

MISS = {'f': nan, 'g': nan, 'c': complex(nan, 0), 'S': '', 'O': None}


def ismiss(v, dt):
    if dt in 'fg':
        return isnan(v)
    if dt == 'S':
        return v == ''
    if dt == 'O':
        return v is None
    if dt == 'c':
        return v != v
    return False


def castf(m):
    """Cast to float, as needed to hold a missing marker."""
    return M(m.label, [float(v) for v in m.cells], 'f')


def sortaxis(m, axis=None, reverse=False):
    axes = range(m.ndim) if axis is None else [axis % m.ndim]
    ix = [range(n) for n in m.shape]
    for ax in axes:
        ix[ax] = sorted(ix[ax], key=lambda i: m.label[ax][i], reverse=reverse)
    return m.select(ix)


def flipaxis(m, axis=None):
    axes = range(m.ndim) if axis is None else [axis % m.ndim]
    ix = [range(n) for n in m.shape]
    for ax in axes:
        ix[ax] = ix[ax][::-1]
    return m.select(ix)


def transpose(m):
    return m.permute(range(m.ndim)[::-1])


def swapaxes(m, a, b):
    axes = range(m.ndim)
    a %= m.ndim
    b %= m.ndim
    axes[a], axes[b] = axes[b], axes[a]
    return m.permute(axes)


def squeeze(m):
    label = [l for l in m.label if len(l) != 1]
    return M(label, m.cells, m.dt)


def insertaxis(m, axis, name):
    nd = m.ndim + 1
    label = list(m.label)
    label.insert(axis % nd, [name])
    return M(label, m.cells, m.dt)


def flatten(m, order='C'):
    if order == 'C':
        lab = [tuple([l[i] for l, i in zip(m.label, idx)])
               for idx in indices(m.shape)]
        return M([lab], m.cells, m.dt)
    lab = []
    cells = []
    for ridx in indices(m.shape[::-1]):
        idx = ridx[::-1]
        lab.append(tuple([l[i] for l, i in zip(m.label, idx)]))
        cells.append(m.at(idx))
    return M([lab], cells, m.dt)


def fromrows(keys, values):
    """Rows of (label tuple, value) -> sorted labels, NaN where not given."""
    nd = len(keys[0])
    label = [sorted(set([k[a] for k in keys])) for a in range(nd)]
    out = M(label, [nan] * _prod([len(l) for l in label]), 'f')
    for k, v in zip(keys, values):
        out.put([l.index(p) for l, p in zip(label, k)], float(v))
    return out


def _prod(s):
    n = 1
    for i in s:
        n *= i
    return n


def take(m, ix, axis):
    sel = [range(n) for n in m.shape]
    n = m.shape[axis % m.ndim]
    sel[axis % m.ndim] = [i % n for i in ix]
    return m.select(sel)


def morph(m, label, axis):
    ax = axis % m.ndim
    pos = dict([(l, i) for i, l in enumerate(m.label[ax])])
    if [l for l in label if l not in pos] and m.dt not in MISS:
        m = castf(m)
    new = list(m.label)
    new[ax] = list(label)
    cells = []
    for idx in indices([len(l) for l in new]):
        want = label[idx[ax]]
        if want in pos:
            cells.append(m.at(idx[:ax] + (pos[want],) + idx[ax + 1:]))
        else:
            cells.append(MISS[m.dt])
    return M(new, cells, m.dt)


def morph_like(m, other):
    for ax in range(m.ndim):
        m = morph(m, other.label[ax], ax)
    return m


def lag(m, n, axis):
    ax = axis % m.ndim
    size = m.shape[ax]
    k = min(abs(n), size)
    if n > 0:
        lab = m.label[ax][k:]
        ix = range(size)[:size - k]
    else:
        lab = m.label[ax][:size - k]
        ix = range(size)[k:]
    sel = [range(s) for s in m.shape]
    sel[ax] = ix
    out = m.select(sel)
    out.label[ax] = lab
    return out


KEEP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
        '<': lambda a, b: a < b, '>': lambda a, b: a > b,
        '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
        'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}


def keep_label(m, op, value, axis):
    ax = axis % m.ndim
    ix = [i for i, l in enumerate(m.label[ax]) if KEEP[op](l, value)]
    if not ix:
        return M([[]], [], 'f')
    sel = [range(s) for s in m.shape]
    sel[ax] = ix
    return m.select(sel)


def maplabel(m, f, axis=None):
    axes = range(m.ndim) if axis is None else [axis % m.ndim]
    label = list(m.label)
    for ax in axes:
        label[ax] = [f(l) for l in label[ax]]
    return M(label, m.cells, m.dt)


def pull(m, name, axis):
    ax = axis % m.ndim
    i = m.label[ax].index(name)
    sel = [range(s) for s in m.shape]
    sel[ax] = [i]
    out = m.select(sel)
    if m.ndim == 1:
        return out.cells[0]
    label = [l for k, l in enumerate(out.label) if k != ax]
    return M(label, out.cells, m.dt)


def joinlabels(l1, l2, join):
    """Labels of an aligned axis; None for skip"""
    if join == 'skip':
        return None
    if join == 'left':
        return list(l1)
    if join == 'right':
        return list(l2)
    if list(l1) == list(l2):
        return list(l1)
    if join == 'inner':
        return sorted([l for l in l1 if l in l2])
    if join == 'outer':
        return sorted(list(l1) + [l for l in l2 if l not in l1])
    raise ValueError(join)


def align(m1, m2, joins):
    for ax, j in enumerate(joins):
        lab = joinlabels(m1.label[ax], m2.label[ax], j)
        if lab is None:
            continue
        m1 = morph(m1, lab, ax)
        m2 = morph(m2, lab, ax)
    return m1, m2
