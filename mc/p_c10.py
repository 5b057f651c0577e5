"""C10: assignment changes exactly the addressed cells."""
import itertools
import numpy as np
from la import larry
from core import Family, Fail, check
from model import (M, mk, arr, snap, same, same_snap, raises, wellformed,
                   prod, indices, kind)
import gen
from gen import mkm, labs, shapes
from grammar import token, tokens, small, REFUSE
from p_c09 import ltoken, ltokens, lsmall, ABSENT

nan, inf = np.nan, np.inf
NEW = {'f': 900.5, 'g': 900.5, 'i': 900, 'j': 900, 'b': None, 'S': 'n', 'O':
       'new', 'c': 9j}


def newvals(dt, n, was=None):
    if dt == 'b':
        return [not w for w in was] if was else [True] * n
    order = [(k + 1) % n for k in range(n)]     # not in ascending order
    if dt in 'SO':
        return ['n%d' % k for k in order]
    return [NEW[dt] + k for k in order]


def region(m, sel):
    """(cell positions in order, labels, shape) of the addressed region"""
    lists = [[s] if isinstance(s, int) else s for s in sel]
    cells = list(itertools.product(*lists))
    lab = [[l[i] for i in s] for l, s in zip(m.label, sel)
           if not isinstance(s, int)]
    return cells, lab


def put(m, cells, values):
    w = m.copy()
    for c, v in zip(cells, values):
        w.put(c, v)
    return w


def nparr(vals, shape, dt):
    return arr(M([range(n) for n in shape], vals, dt)) if shape else \
        np.array(vals[0], dtype=np.asarray(vals[0]).dtype)


def totuple(v):
    return tuple([totuple(z) for z in v]) if isinstance(v, list) else v


def larr(vals, lab, dt):
    return larry(nparr(vals, [len(l) for l in lab], dt),
                 [list(l) for l in lab])


def attempt(ctx, m, lay, index, value, want, what, via='item'):
    """want: model after the assignment, or None when it must be refused"""
    y = mk(m, lay)
    lid = [id(y.label)] + [id(l) for l in y.label]
    base = y.x
    vsnap = snap(value) if isinstance(value, larry) else None

    def go():
        if via == 'lix':
            y.lix[index] = value
        else:
            y[index] = value
    if want is None:
        raises(go, what)
        same_snap(snap(y), m, what + ': refused assignment changed the larry')
    else:
        go()
        same(y, want, what, dtype='exact')
        check(y.x is base, what + ': the data array was replaced')
    check([id(y.label)] + [id(l) for l in y.label] == lid,
          what + ': the label lists were replaced')
    if vsnap is not None:
        same_snap(snap(value), vsnap, what + ': the value changed')
    ctx.step()
    ctx.outcome(repr(want))


def values_for(ctx, m, lay, index, sel, what, via='item', keepdims=False,
               full=True):
    """Assign every kind of value to the region and compare."""
    cells, lab = region(m, sel)
    if keepdims:
        lab = [[l[i] for i in ([s] if isinstance(s, int) else s)]
               for l, s in zip(m.label, sel)]
    shape = [len(l) for l in lab]
    n = len(cells)
    was = [m.at(c) for c in cells]
    nv = newvals(m.dt, n, was)
    scal = nv[0] if nv else newvals(m.dt, 1)[0]
    go = lambda v, want, w: attempt(ctx, m, lay, index, v, want,
                                    '%s = %s' % (what, w), via)
    go(scal, put(m, cells, [scal] * n), 'scalar')
    ok = put(m, cells, nv)
    if lab and (shape or n):
        go(nparr(nv, shape, m.dt), ok, 'array')
        go(larr(nv, lab, m.dt), ok, 'aligned larry')
        if n:
            lst = nparr(nv, shape, m.dt).tolist()
            go(lst, ok, 'list')
            go(totuple(lst), ok, 'tuple')
        # another memory layout of the value
        if full:
            v = larr(nv, lab, m.dt)
            go(larry(np.asfortranarray(v.x), v.label), ok, 'F larry')
            go(larry(v.x[tuple([slice(None, None, -1)] * v.ndim)].copy()
                     [tuple([slice(None, None, -1)] * v.ndim)], v.label), ok,
               'R larry')
    for ax in range(len(lab)):
        if len(lab[ax]) > 1:
            bad = list(lab)
            bad[ax] = lab[ax][::-1]
            go(larr(nv, bad, m.dt), None, 'larry in another order')
            bad[ax] = lab[ax][1:] + lab[ax][:1]
            go(larr(nv, bad, m.dt), None, 'larry in another order')
        if lab[ax]:
            bad = list(lab)
            bad[ax] = lab[ax][:-1] + ['other']
            go(larr(nv, bad, m.dt), None, 'larry with another label')
            if full and len(lab[ax]) > 1:
                bad[ax] = lab[ax][:-1]
                k = prod([len(l) for l in bad])
                go(larr(newvals(m.dt, k, [True] * k), bad, m.dt), None,
                   'larry with a label less')
        if full:
            bad = list(lab)
            bad[ax] = lab[ax] + ['more']
            k = prod([len(l) for l in bad])
            go(larr(newvals(m.dt, k, [True] * k), bad, m.dt), None,
               'larry with a label more')
            if len(lab[ax]) > 0 and len([s for s in shape if s]) == len(shape):
                shp = list(shape)
                shp[ax] += 1
                if shape[ax] != 1:
                    go(nparr(newvals(m.dt, prod(shp), [True] * prod(shp)),
                             shp, m.dt), None, 'array of another shape')
    if full and lab and n and not keepdims:
        k = prod(shape)
        go(larr(nv, lab + [['extra']], m.dt), None, 'larry with an axis more')
        if len(lab) > 1:
            go(larr(nv[:shape[-1]], lab[-1:], m.dt), None,
               'larry with an axis less')
            # NumPy broadcasting of an array along the leading axes
            row = newvals(m.dt, shape[-1], [True] * shape[-1])
            go(nparr(row, shape[-1:], m.dt),
               put(m, cells, row * (n // max(shape[-1], 1))), 'row')
    if not lab:
        go(larr(newvals(m.dt, 2, [True] * 2), [['q', 'r']], m.dt), None,
           'larry for one cell')
    if full and m.dt in 'fij' and n:
        go('x y', None, 'text')
        go({}, None, 'dict')
        go(None if m.dt != 'f' else 'q', None, 'None')
        if n > 1 and lab:
            v = nparr(nv, shape, m.dt).astype(object)
            v.flat[n - 1] = 'bad'
            go(v, None, 'array with a bad last value')
            go(v.tolist(), None, 'list with a bad last value')
            go(larry(v, [list(l) for l in lab]), None,
               'larry with a bad last value')


def isseq(t):
    return t[0] in 'ltamL'


def idxone(ctx, m, lay, toks, bare, full=True):
    if len([t for t in toks if isseq(t)]) > 1:
        return
    if [t for t in toks if t[0] == 'x' and t[1] != 'str'] or \
            [t for t in toks if t[0] == 'm' and t[1] == ()]:
        return
    what = 'y[%r] of %r' % (toks, m)
    objs = []
    sel = []
    for ax, t in enumerate(toks):
        o, p = token(t, m.label[ax])
        objs.append(o)
        sel.append(p)
    index = objs[0] if bare else tuple(objs)
    sel += [range(n) for n in m.shape[len(toks):]]
    if [t for t in toks if t[0] == 'L']:
        # a larry in an index addresses the whole larry (1d)
        if not bare or m.ndim > 1 or toks[0][2] in ('int', 'float', '2d'):
            return
    if REFUSE in sel:
        dup = [t for t, p in zip(toks, sel) if p == REFUSE and t[0] in 'lta'
               and not [v for v in t[1] if not
                        -m.shape[toks.index(t)] <= v < m.shape[toks.index(t)]]]
        if dup:
            # a position given twice: NumPy assigns twice
            if len(toks) == 1:
                pos = sorted(set([v % m.shape[0] for v in toks[0][1]]))
                cells, lab = region(m, [pos] + sel[1:])
                v = newvals(m.dt, 1, [True])[0]
                attempt(ctx, m, lay, index, v, put(m, cells, [v] *
                        len(cells)), what)
                n = len(toks[0][1])
                dlab = [[m.label[0][k] for k in toks[0][1]]] + m.label[1:]
                raises(lambda: mk(m)[index], 'y[dup]')
            return
        if 0 in [len(p) for p in sel if isinstance(p, list)]:
            return      # nothing addressed: NumPy does not check the rest
        attempt(ctx, m, lay, index, newvals(m.dt, 1, [True])[0], None, what)
        return
    values_for(ctx, m, lay, index, sel, what, full=full)


def d1_cases(tier):
    for n in range(0, 5 if tier == 'quick' else 6):
        for lk in 'sdi':
            for dt in 'fibSOc':
                for lay in 'CRN':
                    if (lay != 'C' or lk != 's') and dt not in 'fi':
                        continue
                    yield n, lk, dt, lay


def d1_run(ctx, case):
    n, lk, dt, lay = case
    m = mkm((n,), lk, dt)
    ctx.state((m.key(), lay))
    for t in tokens(n, False):
        idxone(ctx, m, lay, (t,), True)
        idxone(ctx, m, lay, (t,), False)


def d2_cases(tier):
    for s in itertools.product(range(4), repeat=2):
        for t in tokens(s[0], tier != 'quick'):
            yield s, t


def d2_run(ctx, case):
    s, t = case
    m = mkm(s, 'sd')
    ctx.state((m.key(), t))
    idxone(ctx, m, 'C', (t,), True)
    idxone(ctx, m, 'C', (t,), False)
    for u in small(s[1]):
        idxone(ctx, m, 'C', (t, u), False)
    for u in small(s[0]):
        for v in tokens(s[1], False) if t[0] == 'i' and t[1] == 0 else ():
            idxone(ctx, m, 'C', (u, v), False, full=False)


def d3_cases(tier):
    for s in [(2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1), (2, 0, 2),
              (3, 2, 2)]:
        for lay in 'CF' if tier == 'quick' else 'CFRN':
            for dt in 'fi' if tier == 'quick' else 'fiSO':
                for t in small(s[0]):
                    yield s, lay, dt, t


def d3_run(ctx, case):
    s, lay, dt, t = case
    m = mkm(s, 'sid', dt)
    ctx.state((m.key(), t, lay))
    idxone(ctx, m, lay, (t,), True)
    for u in small(s[1]):
        idxone(ctx, m, lay, (t, u), False, full=lay == 'C')
        for v in small(s[2]):
            idxone(ctx, m, lay, (t, u, v), False, full=False)


# masks, fill, set, lix -----------------------------------------------------------

def mask_cases(tier):
    for s in [(1,), (3,), (4,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 3),
              (2, 2, 2), (1, 2, 2), (0,), (2, 0)]:
        n = prod(s)
        if n > 6 and tier == 'quick' and len(s) < 3:
            continue
        for mask in itertools.product((False, True), repeat=n):
            for lay in 'CFR':
                yield s, mask, lay


def mask_run(ctx, case):
    s, mask, lay = case
    for dt in 'fiSOb':
        m = mkm(s, 'sdi'[:len(s)], dt)
        ctx.state((m.key(), mask))
        ix = mk(M(m.label, mask, 'b'), lay)
        cells = [c for c, z in zip(indices(s), mask) if z]
        nv = newvals(dt, len(cells), [m.at(c) for c in cells])
        scal = (nv or newvals(dt, 1))[0]
        attempt(ctx, m, 'C', ix, scal, put(m, cells, [scal] * len(cells)),
                'y[mask %r] = scalar' % (mask,))
        attempt(ctx, m, lay, ix, scal, put(m, cells, [scal] * len(cells)),
                'y[mask] = scalar')
        if cells:
            attempt(ctx, m, lay, ix, nparr(nv, [len(nv)], dt),
                    put(m, cells, nv), 'y[mask] = array')
        for ax in range(len(s)):
            if not s[ax]:
                continue
            lab = [list(l) for l in m.label]
            lab[ax] = lab[ax][:-1] + ['other']
            bad = [larry(ix.x.copy(), lab)]
            if s[ax] > 1:
                lab = [list(l) for l in m.label]
                lab[ax] = lab[ax][::-1]
                bad.append(larry(ix.x.copy(), lab))
            if len(s) > 1:
                bad.append(larry(ix.x.any(ax),
                                 [list(l) for k, l in enumerate(m.label)
                                  if k != ax]))
            for b in bad:
                attempt(ctx, m, lay, b, scal, None, 'unaligned mask')
        # comparison as a mask
        if dt in 'fi':
            y = mk(m, lay)
            y[y > 2] = 0
            same(y, m.map(lambda v: 0 if v > 2 else v), 'y[y > 2] = 0',
                 dtype='exact')
            ctx.step()


def setfill_cases(tier):
    for s in shapes([4, 3, 2] if tier == 'quick' else [5, 4, 3, 2]):
        for lk in 'isdft':
            for dt in 'fijgbSOc':
                for lay in 'CFRN':
                    if lay != 'C' and dt not in 'fS':
                        continue
                    if lk != 's' and dt not in 'fi':
                        continue
                    if max(s) > 4 and lk == 't':
                        continue
                    yield s, lk, dt, lay


def setfill_run(ctx, case):
    s, lk, dt, lay = case
    m = mkm(s, lk, dt)
    ctx.state((m.key(), lay))
    bad = ABSENT[lk]
    nv = newvals(dt, 1, [False])[0]
    axl = [list(l) + [bad] for l in m.label]
    for lab in itertools.product(*axl):
        for seq in (list(lab), tuple(lab)):
            y = mk(m, lay)
            if bad in lab:
                raises(lambda: y.set(seq, nv), 'set(%r)' % (seq,))
                want = m
            else:
                pos = [l.index(z) for l, z in zip(m.label, lab)]
                v = nv if dt != 'b' else not m.at(pos)
                check(y.set(seq, v) is None, 'set returns something')
                want = put(m, [pos], [v])
            same(y, want, 'set(%r) of %r' % (seq, m), dtype='exact')
            ctx.step()
    full = [l[0] if l else 0 for l in m.label]
    y = mk(m, lay)
    raises(lambda: y.set(full[:-1], nv), 'set with too few labels')
    raises(lambda: y.set(full + full[:1], nv), 'set with too many labels')
    if dt in 'fij' and 0 not in s:
        raises(lambda: y.set(full, 'text'), 'set to text')
        raises(lambda: y.fill('text'), 'fill with text')
    same_snap(snap(y), m, 'a refused set changed the larry')
    y = mk(m, lay)
    x = y.x
    check(y.fill(nv) is None, 'fill returns something')
    same(y, m.map(lambda v: nv), 'fill', dtype='exact')
    check(y.x is x, 'fill replaced the array')
    ctx.step(4)


# one value of another type: it must arrive as the array's type has it
VALUES = {
    'i': [0, 1, -1, 7, 2 ** 31, 2 ** 53 + 1, 2 ** 62 + 1, -2 ** 62 - 1,
          2 ** 63 - 1, -2 ** 63, True, False, 2L, np.int64(2 ** 62 + 3),
          np.int32(-5), np.int8(-5), np.uint8(200), np.bool_(True), 2.0, 2.5,
          -2.5, 2.75, -0.25, 1e15, np.float64(-3.5), np.float32(3.5)],
    'j': [0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, True, 2.5, -2.5, np.int64(9),
          np.uint8(200), np.float64(-3.75)],
    'f': [0, 1, -1, True, 2 ** 53 - 1, -0.1, 1e300, 5e-324, nan, inf, -inf,
          np.float32(0.5), np.int64(-9), np.uint8(200), np.bool_(False), 3L],
    'g': [0, 1, -1, True, 0.5, nan, inf, -inf, np.float64(-0.25)],
    'b': [True, False, 0, 1, 2, -1, 0.0, 0.5, np.bool_(True), np.int64(0),
          np.int64(4), nan],
    'c': [0, 1, True, 2.5, 1 - 2j, nan, np.float64(3)],
    'S': ['', 'a', 'abc', 'ABC', ' a', np.str_('zz')],
    'O': [0, 'a', None, 2.5, 'long text', True, 2 ** 70, nan],
}
CAST = {'i': int, 'j': int, 'f': float, 'g': float, 'b': bool, 'c': complex,
        'S': str, 'O': lambda v: v}


def value_cases(tier):
    for dt in 'ijfgbcSO':
        for s in [(1,), (2,), (3,), (2, 2), (1, 3), (2, 2, 2)]:
            for lay in 'CF':
                yield s, dt, lay


def value_run(ctx, case):
    s, dt, lay = case
    m = mkm(s, 's', dt)
    ctx.state(case)
    lab = [l[-1] for l in m.label]
    pos = [n - 1 for n in s]
    every = list(indices(s))
    last = [i for i in every if i[0] == s[0] - 1]

    def setitem(y, index, v):
        y[index] = v

    def setlix(y, index, v):
        y.lix[index] = v
    for v in VALUES[dt]:
        w = CAST[dt](v)
        jobs = [('set', [pos], lambda y: y.set(lab, v)),
                ('set, tuple', [pos], lambda y: y.set(tuple(lab), v)),
                ('fill', every, lambda y: y.fill(v)),
                ('[...]', [pos], lambda y: setitem(y, tuple(pos), v)),
                ('[-1]', last, lambda y: setitem(y, -1, v)),
                ('[:]', every, lambda y: setitem(y, slice(None), v)),
                ('[[i]]', last, lambda y: setitem(y, [s[0] - 1], v)),
                ('mask', every, lambda y: setitem(
                    y, larry(np.ones(s, bool), [list(l) for l in m.label]), v)),
                ('lix', last, lambda y: setlix(y, [lab[0]], v)),
                ('lix[:]', every, lambda y: setlix(y, slice(None), v))]
        for what, cells, go in jobs:
            y = mk(m, lay)
            x = y.x
            go(y)
            same(y, put(m, cells, [w] * len(cells)), '%s = %r (%s) in %r' %
                 (what, v, type(v), m), dtype='exact')
            check(y.x is x, what + ': the data array was replaced')
            ctx.step()


def lix_cases(tier):
    for n in range(1, 5):
        for lk in 'ism':
            yield (n,), lk, None
    for s in itertools.product(range(1, 4), repeat=2):
        for lk in ('is', 'sd', 'ms'):
            for t in ltokens(s[0], tier != 'quick'):
                yield s, lk, t
    for s in [(2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)]:
        for t in lsmall(s[0]):
            yield s, 'isd', t


def lixone(ctx, m, toks, bare=False, full=True):
    what = 'lix[%r] of %r' % (toks, m)
    objs = []
    sel = []
    for ax, t in enumerate(toks):
        o, p = ltoken(t, m.label[ax])
        if isinstance(p, int) and t[0] == 'i' and not bare:
            p = [p]
        objs.append(o)
        sel.append(p)
    if [t for t in toks if t[0] == 'l' and len(set(t[1])) < len(t[1])]:
        return              # a label twice
    if [p for p in sel if p == []] and None in sel:
        return
    if not bare:
        sel += [range(n) for n in m.shape[len(toks):]]
        index = tuple(objs)
    else:
        index = objs[0]
        p = sel[0]
        if p is not None and isinstance(index, list) and len(p) == 1:
            p = p[0]
        sel = [p] + [range(n) for n in m.shape[1:]]
    if None in sel:
        attempt(ctx, m, 'C', index, newvals(m.dt, 1, [True])[0], None, what,
                'lix')
        return
    values_for(ctx, m, 'C', index, sel, what, 'lix', keepdims=not bare,
               full=full)


def lix_run(ctx, case):
    s, lk, t = case
    m = mkm(s, lk)
    ctx.state((m.key(), repr(t)))
    if len(s) == 1:
        for dt in 'fiSO':
            m = mkm(s, lk, dt)
            for t in ltokens(s[0], True):
                lixone(ctx, m, (t,), True)
                lixone(ctx, m, (t,))
    elif len(s) == 2:
        lixone(ctx, m, (t,), True)
        lixone(ctx, m, (t,))
        for u in ltokens(s[1], False):
            lixone(ctx, m, (t, u), full=False)
    else:
        lixone(ctx, m, (t,), True)
        for u in lsmall(s[1]):
            lixone(ctx, m, (t, u), full=False)
            for v in lsmall(s[2]):
                lixone(ctx, m, (t, u, v), full=False)


SIZES = [5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257,
         513, 1000, 1025]


def ladder_cases(tier):
    for n in SIZES:
        for sh in ('1', 'row', 'col'):
            yield n, sh


def ladder_run(ctx, case):
    n, sh = case
    s, a = {'1': ((n,), 0), 'row': ((2, n), 1), 'col': ((n, 2), 0)}[sh]
    m = mkm(s, 's' * len(s))
    ctx.state(m.key())
    toks = [('i', v, 'int') for v in (0, n - 1, -n, n // 2)]
    toks += [('s', None, None, -1), ('s', n // 2, None, None),
             ('s', 1, -1, 3), ('s', None, None, None),
             ('l', tuple(range(0, n, 2))), ('a', tuple(range(n)[::-1]), 'int'),
             ('m', tuple([i % 3 == 0 for i in range(n)]))]
    for v in (2 ** 31, 2 ** 32 + 1, -2 ** 32, 2 ** 62):
        toks += [('i', v, 'int'), ('l', (0, v)), ('s', None, v, None)]
    for t in toks:
        pre = (('s', None, None, None),) if a else ()
        idxone(ctx, m, 'C', pre + (t,), False, full=False)
        if not a:
            idxone(ctx, m, 'F', (t,), True, full=False)
    for i in (0, n // 2, n - 1):
        y = mk(m)
        lab = [l[1 % len(l)] for l in m.label]
        lab[a] = m.label[a][i]
        y.set(lab, -1.5)
        pos = [1 % k for k in s]
        pos[a] = i
        same(y, put(m, [pos], [-1.5]), 'set', dtype='exact')
        pre = (('s', None, None, None),) if a else ()
        for t in (('l', (i,), None), ('s', (i,), None, None),
                  ('s', None, (i,), None), ('l', tuple(range(n)[::-1]), None)):
            lixone(ctx, m, pre + (t,), full=False)
        ctx.step()


FAMILIES = [
    Family('one axis', d1_cases, d1_run, 'every index token x every value'),
    Family('two axes', d2_cases, d2_run),
    Family('three axes', d3_cases, d3_run),
    Family('masks', mask_cases, mask_run, 'every boolean larry as an index'),
    Family('set and fill', setfill_cases, setfill_run),
    Family('values of other types', value_cases, value_run),
    Family('lix', lix_cases, lix_run),
    Family('sizes', ladder_cases, ladder_run),
]
BOUNDS = {'quick': 'index grammar (1d n<=4, 2d n<=3, 3d small tokens) x value '
                   'kinds (scalar, array, list, aligned and 6 kinds of '
                   'unaligned larry, wrong shapes, uncastable values); all '
                   'masks of up to 8 cells; set for every label combination; '
                   'lix grammar; sizes up to 1025',
          'thorough': 'full grammar on axis 0 of 2d, more dtypes and layouts'}
ASSUMPTIONS = ['several sequences in one index (NumPy pairs them), larrys '
               'inside an index tuple and masks with a value array of another '
               'length are outside the alphabet']
