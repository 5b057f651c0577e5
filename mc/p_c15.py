"""C15: an archive operation that fails or dies loses no other data.

Three exhaustive fault injectors drive the real code on real files:
 * the process ends before (or in the middle of) every file-system call that a
   repack makes, found by counting the calls in a preloaded shim;
 * every file-system call of a repack fails in turn (alone, or with all that
   follow, or after writing half);
 * every call that la.io makes into h5py or os, and every HDF5 call below it,
   raises in turn, for every archive operation.
Besides, every kind of call that is refused is placed in short histories.
"""
import ctypes
import datetime
import itertools
import os
import shutil
import random
import signal
import sys
import numpy as np
import h5py
import la
import la.io
from la import larry, IO
from la.io import save, load, delete, repack, is_archived_larry, \
    archive_directory
from core import Family, Fail, check
from model import M, mk, snap, same, nan
import p_c14
from p_c14 import VALS, Arch, fresh, strict, norm

LEVEL = 'fault_enumeration'
ENOSPC, EIO = 28, 5
COUNT, CRASH, TORN, FAIL, STICKY, SHORT = 1, 2, 3, 4, 5, 6

_shim = []


def shim():
    if not _shim:
        lib = ctypes.CDLL(os.environ['LA_SHIM'])
        lib.shim_log.restype = ctypes.c_char_p
        lib.shim_arm(COUNT, -1, '/dev/', 0)
        fd = os.open('/dev/null', os.O_WRONLY | os.O_CREAT)
        os.close(fd)
        if lib.shim_count() == 0:
            raise SystemExit('the shim is not active')
        lib.shim_off()
        _shim.append(lib)
    return _shim[0]


BIG = M([range(300, 0, -1)], [i * 0.5 for i in range(300)], 'f')
POOL = VALS + [BIG, M([[0, 1]], [1., 2.], 'f')]
ODDVAL = len(POOL) - 1

# name -> (operations, own data set?)
FIX = {
    'one': [('io', 'set', 'a', 0)],
    'nested': [('io', 'set', 'a', 0), ('io', 'set', 'a/b', 1),
               ('io', 'set', 'g/h/a', 1), ('io', 'set', 'z', 3)],
    'holes': [('io', 'set', 'q', 4), ('io', 'set', 'a', 2),
              ('io', 'set', 'g/a', 4), ('io', 'del', 'q'),
              ('io', 'set', 'a', 1)],
    'own': [('io', 'set', 'a', 0), ('own',), ('io', 'set', 'own/a', 3)],
    'many': [('io', 'set', 'a', 0)] +
            [('io', 'set', 'k%d' % i, i % 5) for i in range(11)] +
            [('io', 'del', 'k3')],
    'empty': [('io', 'set', 'a', 0), ('io', 'del', 'a')],
}


def build(path, name):
    """Returns the model of the archive that is made at path."""
    m = Arch()
    h5py.File(path).close()
    for op in FIX[name]:
        if op[0] == 'own':
            f = h5py.File(path)
            f['own/data'] = np.arange(5.)
            f['top'] = 'text'
            f['own'].attrs['note'] = 3
            f.attrs['title'] = 'an archive'
            f.close()
            continue
        check(m.apply(op, POOL) is None, 'fixture')
        p_c14.act(path, None, op, POOL)
    return m


def holds(target, m, own, but=(), what=''):
    """The archive's larrys are those of the model, apart from some keys."""
    keys = archive_directory(target)
    want = [k for k in m.d if k not in but]
    check(sorted([k for k in keys if k not in but]) == sorted(want),
          lambda: '%s: keys are %r, want %r' % (what, keys, sorted(m.d)))
    for k in want:
        strict(load(target, k), POOL[m.d[k]], '%s: load(%r)' % (what, k))
    if own:
        f = target if isinstance(target, h5py.File) else h5py.File(target, 'r')
        try:
            check('own/data' in f and f['own/data'][:].tolist() ==
                  [0, 1, 2, 3, 4], '%s: data that is no larry' % what)
            check('top' in f and f['top'][()] == 'text' and
                  f['own'].attrs['note'] == 3 and
                  f.attrs['title'] == 'an archive',
                  '%s: data that is no larry' % what)
        finally:
            if f is not target:
                f.close()


def intact(path, m, own):
    """Some file in the directory holds the whole archive."""
    d = os.path.dirname(path)
    names = sorted(os.listdir(d))
    # the archive itself first
    names.sort(key=lambda n: n != os.path.basename(path))
    why = []
    for n in names:
        try:
            holds(os.path.join(d, n), m, own)
            return n
        except Exception as e:
            why.append('%s: %s' % (n, str(e)[:200]))
    raise Fail('the contents are in no file of the directory: %s' %
               '; '.join(why))


def works(path, m, own, what):
    """The archive can be used again under its own name."""
    m = m.copy()
    holds(path, m, own, what=what)
    io = IO(path)
    check(sorted(io.keys()) == sorted(m.d), lambda: '%s: keys' % what)
    for op in [('io', 'set', 'new/one', 1), ('io', 'set', 'a', 4),
               ('fn', 'set', 'another', 0), ('io', 'repack'),
               ('h', 'set', 'third', 1), ('io', 'del', 'new/one'),
               ('fn', 'del', 'a')]:
        check(m.apply(op, POOL) is None, 'model')
        h = p_c14.act(path, None, op, POOL)
        if h is not None:
            h.close()
        holds(path, m, own, what='%s, then %r' % (what, op))


def do_repack(path, how):
    if how == 'io':
        IO(path).repack()
    elif how == 'fn':
        repack(path)
    else:
        h = h5py.File(path)
        h = repack(h)
        h.close()


_children = [0]


def inject(path, how, mode, k, err, after=None):
    """Run a repack in a child; returns (signal or None, steps, outcome)."""
    lib = shim()
    d = os.path.dirname(path) + '/'
    out = os.path.join(os.path.dirname(d[:-1]), 'out')
    if os.path.exists(out):
        os.remove(out)
    sys.stdout.flush()
    # a child must not draw the names of temporary files its parent will draw
    _children[0] += 1
    pid = os.fork()
    if pid == 0:
        try:
            random.seed(_children[0])
            np.random.seed(_children[0])
            lib.shim_arm(mode, k, d, err)
            try:
                do_repack(path, how)
                res = 'ok'
            except Exception as e:
                res = 'raised %s' % type(e).__name__
            sys.exc_clear()
            n = lib.shim_count()
            log = lib.shim_log()
            fl = lib.shim_failed()
            lib.shim_off()
            msg = ''
            if after is not None:
                try:
                    after(res, fl)
                except Exception as e:
                    msg = '%s: %s' % (type(e).__name__, e)
            with open(out, 'w') as f:
                f.write(repr((res, n, log, fl, msg)))
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return os.WTERMSIG(st), None
    if os.WEXITSTATUS(st) == 77:
        return 'died', None
    with open(out) as f:
        return None, eval(f.read())


REPACKS = ('io', 'fn', 'h')


def crash_cases(tier):
    fixes = ['one', 'nested', 'holes', 'own', 'many', 'empty']
    if tier == 'quick':
        fixes.remove('many')
    for fix in fixes:
        for how in REPACKS:
            for mode in (CRASH, TORN):
                yield fix, how, mode


def crash_run(ctx, case):
    fix, how, mode = case
    path = fresh(ctx)
    m = build(path, fix)
    own = fix == 'own'
    image = open(path, 'rb').read()
    k = 0
    while True:
        for n in os.listdir(os.path.dirname(path)):
            os.remove(os.path.join(os.path.dirname(path), n))
        with open(path, 'wb') as f:
            f.write(image)
        sig, res = inject(path, how, mode, k, 0)
        try:
            where = intact(path, m, own)
        except Fail as e:
            raise Fail('%s repack of %r dies at step %d: %s' %
                       (how, fix, k, e))
        ctx.step(1)
        ctx.state((fix, how, mode, k))
        ctx.outcome((fix, k, where.split('_')[-2:][0]))
        if res is not None:     # it came to its end
            check(res[0] == 'ok', lambda: 'repack: %r' % (res,))
            check(res[1] <= k, lambda: 'steps %r' % (res,))
            check(os.listdir(os.path.dirname(path)) ==
                  [os.path.basename(path)], 'other files are left')
            check(k >= 3, lambda: 'only %d steps' % k)
            works(path, m, own, 'repacked')
            return
        check(sig == 'died', lambda: 'repack ended by signal %r' % sig)
        k += 1
        check(k < 2000, 'too many steps')


def fail_cases(tier):
    fixes = ['one', 'nested', 'holes', 'own', 'many', 'empty']
    if tier == 'quick':
        fixes = ['nested', 'own', 'empty']
    for fix in fixes:
        for how in REPACKS:
            for mode in (FAIL, STICKY, SHORT):
                yield fix, how, mode, ENOSPC
                if tier != 'quick' and mode != SHORT:
                    yield fix, how, mode, EIO
                    yield fix, how, mode, 13


def fail_run(ctx, case):
    fix, how, mode, err = case
    path = fresh(ctx)
    m = build(path, fix)
    own = fix == 'own'
    image = open(path, 'rb').read()

    def after(res, nfailed):
        # in the process that saw the failure
        if mode != STICKY:
            works(path, m, own, 'repack %s' % res)

    k = 0
    while True:
        for n in os.listdir(os.path.dirname(path)):
            os.remove(os.path.join(os.path.dirname(path), n))
        with open(path, 'wb') as f:
            f.write(image)
        sig, res = inject(path, how, mode, k, err, after)
        what = '%s repack of %r, step %d fails (mode %d)' % (how, fix, k, mode)
        ctx.step(1)
        ctx.state((fix, how, mode, err, k))
        if res is None:
            # HDF5 itself may not survive that
            if mode == STICKY:
                intact(path, m, own)
            else:
                check(mode == FAIL and sig == signal.SIGSEGV,
                      lambda: '%s: ended by %r' % (what, sig))
                works(path, m, own, what)
        elif mode == STICKY:
            intact(path, m, own)
        else:
            check(res[4] == '', lambda: '%s: %s' % (what, res[4]))
            if mode == FAIL and res[3]:
                ctx.outcome((fix, how, k, res[0]))
        if res is not None and res[1] <= k:
            check(res[0] == 'ok', lambda: '%s: %r' % (what, res))
            return
        k += 1
        check(k < 2000, 'too many steps')


def short_cases(tier):
    for fix in ['one', 'nested', 'holes', 'own', 'many']:
        for op in MUTS:
            yield fix, op


def short_run(ctx, case):
    """Writes that are accepted only by half at first are not an error."""
    fix, op = case
    lib = shim()
    path = fresh(ctx)
    m = build(path, fix)
    image = open(path, 'rb').read()
    m2 = m.copy()
    if m2.apply(op, POOL) is not None:
        return
    k = 0
    while True:
        with open(path, 'wb') as f:
            f.write(image)
        lib.shim_arm(SHORT, k, os.path.dirname(path) + '/', 0)
        try:
            h = p_c14.act(path, None, op, POOL)
            if h is not None:
                h.close()
        finally:
            n = lib.shim_count()
            lib.shim_off()
        holds(path, m2, fix == 'own', what='%r, short write %d' % (op, k))
        ctx.step(1)
        ctx.state((fix, op, k))
        if n <= k:
            return
        k += 1


# faults in the library calls -----------------------------------------------------

class Injected(IOError):
    pass


SKIP = set(['close', '_close', 'dec_ref', '__enter__', '__exit__', '__del__',
            '__nonzero__', 'inc_ref', 'get_type', 'get_ref', 'valid'])


class Probe(object):
    """Counts library calls below la.io; the n-th one raises."""
    def __init__(self, n, deep):
        self.n = n
        self.count = 0
        self.deep = deep
        self.hit = None
        f = la.io.__file__
        self.here = f[:-1] if f.endswith('c') else f
        self.lib = os.path.dirname(h5py.__file__)

    def point(self, name):
        if self.hit is not None or name in SKIP:
            return
        k = self.count
        self.count += 1
        if k == self.n:
            self.hit = name
            raise Injected('injected into ' + name)

    def __call__(self, frame, event, arg):
        if event == 'call':
            back = frame.f_back
            fn = frame.f_code.co_filename
            if back is not None and back.f_code.co_filename == self.here \
                    and fn != self.here and fn.startswith(self.lib):
                self.point(frame.f_code.co_name)
        elif event == 'c_call':
            fn = frame.f_code.co_filename
            mod = getattr(arg, '__module__', None) or ''
            owner = type(getattr(arg, '__self__', None)).__module__ or ''
            if fn == self.here and (mod in ('posix',) or
                                    mod.startswith('h5py')):
                self.point(arg.__name__)
            elif self.deep and fn.startswith(self.lib) and \
                    (mod.startswith('h5py.h5') or owner.startswith('h5py.h5')):
                self.point(arg.__name__)


MUTS = [('io', 'set', 'n', 4), ('io', 'set', 'n/m/o', 1), ('io', 'set', 'a', 3),
        ('io', 'set', 'a', 0), ('io', 'set', 'a/c', 0), ('io', 'del', 'a'),
        ('fn', 'set', 'n', 1), ('fn', 'set', 'a/d/e', 0), ('fn', 'del', 'a'),
        ('h', 'set', 'n', 1), ('h', 'set', 'p/q', 0), ('h', 'del', 'a')]
OPS = MUTS + [('io', 'clear'), ('io', 'repack'), ('fn', 'repack'),
              ('h', 'repack'), ('io', 'load'), ('io', 'keys'), ('io', 'read'),
              ('io', 'write'), ('io', 'label')]


STRIDE = 8


def lib_cases(tier):
    if tier == 'quick':
        some = [('nested', True), ('one', False), ('own', False)]
    else:
        some = [(f, d) for f in ('one', 'nested', 'holes', 'own', 'many')
                for d in (False, True)]
    for fix, deep in some:
        for op in OPS:
            for first in range(STRIDE):
                yield fix, op, deep, first


def other(path, op, m):
    verb = op[1]
    io = IO(path)
    if verb == 'load':
        load(path, sorted(m.d)[0])
    elif verb == 'keys':
        len(io)
    elif verb == 'read':
        io[sorted(m.d)[0]][:]
    elif verb == 'label':
        l = io[sorted(m.d)[0]]
        l.shape, l.dtype, l.size
    elif verb == 'write':
        y = io['a']
        y[:] = y[:]


def lib_run(ctx, case):
    fix, op, deep, k = case
    path = fresh(ctx)
    m = build(path, fix)
    own = fix == 'own'
    m2 = m.copy()
    if op[1] in ('set', 'del', 'clear', 'repack'):
        if m2.apply(op, POOL) is not None:
            return
    image = open(path, 'rb').read()
    while True:
        for n in os.listdir(os.path.dirname(path)):
            os.remove(os.path.join(os.path.dirname(path), n))
        with open(path, 'wb') as f:
            f.write(image)
        what = '%r on %r, library call %d' % (op, fix, k)
        h = h5py.File(path) if op[0] == 'h' else None
        val = mk(POOL[op[3]]) if op[1] == 'set' else None
        probe = Probe(k, deep)
        err = None
        res = None
        try:
            sys.setprofile(probe)
            try:
                if op[1] in ('set', 'del', 'clear', 'repack'):
                    res = perform(path, h, op, val)
                else:
                    other(path, op, m)
            finally:
                sys.setprofile(None)
        except Exception as e:
            err = e
        sys.exc_clear()
        ctx.step(1)
        ctx.state((fix, op, deep, k))
        if err is None and probe.hit is None:
            if isinstance(res, h5py.File):
                res.close()
            if h is not None:
                if op[1] != 'repack':
                    holds(h, m2, own, what=what)
                    h.close()
            holds(path, m2, own, what=what)
            return
        check(probe.hit is not None, lambda: '%s: raised %r' % (what, err))
        what = '%s (%s) fails: %r' % (what, probe.hit, err)
        ctx.outcome((op, probe.hit))
        if isinstance(res, h5py.File):
            res.close()
        # which keys may have changed?
        but = ()
        if op[1] in ('set', 'del'):
            but = (norm(op[2]),)
        elif op[1] == 'clear':
            but = tuple(m.d)
        if h is not None and h.id.valid:
            holds(h, m, own, but, what)
            # still open and usable
            save(h, mk(POOL[1]), 'vv')
            strict(load(h, 'vv'), POOL[1], what)
            delete(h, 'vv')
            h.close()
        holds(path, m, own, but, what)
        now = m.copy()
        for b in but:
            settle(path, b, m, m2, now, what)
        if err is None:
            # the fault was dealt with: then it must have been done
            done = archive_directory(path)
            check(op[1] not in ('set', 'del', 'clear') or now.d == m2.d,
                  lambda: '%s: reported success, holds %r' % (what, done))
        works2(path, now, own, what)
        k += STRIDE
        check(k < 5000, 'too many calls')


def settle(path, b, m, m2, now, what):
    """The key that was being written holds the old, the new or nothing."""
    keys = archive_directory(path)
    now.d.pop(b, None)
    if b not in keys:
        return
    got = load(path, b)
    for src in (m.d, m2.d):
        if b in src:
            try:
                strict(got, POOL[src[b]], what)
                now.d[b] = src[b]
                return
            except Fail:
                pass
    raise Fail('%s: %r holds neither the old nor the new larry: %r' %
               (what, b, snap(got)))


def works2(path, m, own, what):
    """As works(), shorter."""
    m = m.copy()
    for op in [('io', 'set', 'a', 1), ('fn', 'set', 'n2/a', 0),
               ('io', 'set', 'n', 0), ('io', 'repack'), ('fn', 'del', 'n')]:
        check(m.apply(op, POOL) is None, 'model')
        p_c14.act(path, None, op, POOL)
        if op[1] in ('repack', 'del'):
            holds(path, m, own, what='%s, then %r' % (what, op))


def perform(path, h, op, val):
    how, verb = op[:2]
    target = h if how == 'h' else path
    if verb == 'set':
        if how == 'io':
            IO(path)[op[2]] = val
        else:
            save(target, val, op[2])
    elif verb == 'del':
        if how == 'io':
            del IO(path)[op[2]]
        else:
            delete(target, op[2])
    elif verb == 'clear':
        IO(path).clear()
    elif verb == 'repack':
        if how == 'io':
            IO(path).repack()
        else:
            return repack(target)


# refusals at every position of short histories ---------------------------------------

class Odd(larry):
    pass


def _lar(label, x=None):
    n = len(label)
    return larry(np.arange(1. * n) if x is None else x, [label])


REFUSED = [
    ('mixed label', lambda: _lar([1, 'a'])),
    ('object label', lambda: _lar([None, 'a'])),
    ('tuple label', lambda: _lar([('a', 1), ('b', 2)])),
    ('unicode label', lambda: _lar([u'a', u'b'])),
    ('second label', lambda: larry([[1.], [2.]], [['a', 'b'], [None]])),
    ('null label', lambda: _lar(['a\0', 'b'])),
    ('long label', lambda: _lar([2 ** 70, 1])),
    ('delta label', lambda: _lar([datetime.timedelta(1)])),
    ('object data', lambda: _lar(['a', 'b'], np.array(['a', None]))),
    ('unicode data', lambda: _lar(['a'], np.array([u'a']))),
    ('date data', lambda: _lar(['a'], np.array(['2010-01-01'], 'M8[D]'))),
    ('array', lambda: np.arange(3.)),
    ('list', lambda: [1, 2]),
    ('none', lambda: None),
]
BADKEYS = ['', '/', 1, None, u'a', ('a',), 'a/x', 'a/0', 'a/x/y', 'own/data',
           'own/data/a']


def refuse_cases(tier):
    for fix in ['one', 'nested', 'own'] + ['holes', 'many'] * (tier !=
                                                               'quick'):
        for i in range(len(REFUSED)):
            for key in ('a', 'fresh', 'g/h/a', 'a/b', 'p/q/r'):
                for how in ('io', 'fn', 'h'):
                    yield fix, 'value', i, key, how
        for j in range(len(BADKEYS)):
            for how in ('io', 'fn', 'h'):
                yield fix, 'key', j, '', how
        for how in ('io', 'fn', 'h'):
            yield fix, 'absent', 0, '', how
            yield fix, 'present', 0, '', how
            yield fix, 'subclass', 0, '', how


def attempt(path, h, how, key, value):
    if how == 'io':
        IO(path)[key] = value
    elif how == 'fn':
        save(path, value, key)
    else:
        save(h, value, key)


def refuse_run(ctx, case):
    fix, kind, i, key, how = case
    path = fresh(ctx)
    m = build(path, fix)
    own = fix == 'own'
    if kind == 'key' and fix != 'own' and BADKEYS[i] in ('own/data',
                                                         'own/data/a'):
        return
    nexts = [('io', 'set', 'a', 1), ('fn', 'set', 'a/d', 0),
             ('io', 'del', 'a'), ('fn', 'repack'), ('io', 'clear'),
             ('h', 'set', 'w', 0), ('io', 'set', 'fresh', 0),
             ('fn', 'set', 'p/q/r', 1), ('fn', 'set', 'p', 1),
             ('again',)]
    image = open(path, 'rb').read()
    ctx.state(case)
    for nxt in nexts:
        with open(path, 'wb') as f:
            f.write(image)
        mm = m.copy()
        times = 2 if nxt[0] == 'again' else 1
        for t in range(times):
            h = h5py.File(path) if how == 'h' else None
            try:
                e = None
                try:
                    if kind == 'value':
                        attempt(path, h, how, key, REFUSED[i][1]())
                    elif kind == 'key':
                        attempt(path, h, how, BADKEYS[i], mk(VALS[1]))
                    elif kind == 'absent':
                        if how == 'io':
                            del IO(path)['nothing/here']
                        else:
                            delete(path if how == 'fn' else h, 'nothing/here')
                    elif kind == 'present':
                        if how == 'io':
                            IO(path)['nothing/here']
                        else:
                            save(path if how == 'fn' else h, mk(VALS[1]), 'a')
                    elif kind == 'subclass':
                        attempt(path, h, how, 'a', Odd([1., 2.]))
                except Exception as e:
                    e = e
                sys.exc_clear()
                if kind == 'subclass' and e is None:
                    # saved as the larry that it is
                    mm.d['a'] = ODDVAL
                else:
                    check(e is not None, lambda: '%r is not refused' %
                          (case,))
                if h is not None:
                    holds(h, mm, own, what='%r refused' % (case,))
            finally:
                if h is not None:
                    h.close()
            holds(path, mm, own, what='%r refused' % (case,))
        if nxt[0] != 'again':
            if mm.apply(nxt, POOL) is None:
                h = p_c14.act(path, None, nxt, POOL)
                if h is not None:
                    h.close()
                holds(path, mm, own, what='%r refused, then %r' % (case, nxt))
        ctx.step(1)
        ctx.outcome((case, nxt))
    names = os.listdir(os.path.dirname(path))
    check(names == [os.path.basename(path)], lambda: 'files %r' % names)


# two processes' worth of leftovers ----------------------------------------------------

def left_cases(tier):
    for fix in ['nested'] + ['one', 'holes'] * (tier != 'quick'):
        for how in REPACKS:
            for mode in (CRASH, FAIL):
                yield fix, how, mode


def left_run(ctx, case):
    """A repack that ended at any step, then a second one that goes through
    or ends at any step: the contents are still there (if the first one left
    the archive under its name)."""
    fix, how, mode = case
    path = fresh(ctx)
    m = build(path, fix)
    image = open(path, 'rb').read()
    d = os.path.dirname(path)
    j = 0
    while True:
        k = 0
        while True:
            for n in os.listdir(d):
                os.remove(os.path.join(d, n))
            with open(path, 'wb') as f:
                f.write(image)
            sig, res = inject(path, how, mode, j, ENOSPC)
            if not os.path.exists(path):
                intact(path, m, False)
                last = True
                break
            sig2, res2 = inject(path, how, CRASH, k, 0)
            intact(path, m, False)
            ctx.step(1)
            ctx.state((fix, how, mode, j, k))
            last = res is not None and res[1] <= j
            if res2 is not None:
                break
            k += 3 if ctx.tier == 'quick' else 1
        if res is not None and res[1] <= j:
            return
        j += 1
        check(j < 2000, 'too many steps')


FAMILIES = [
    Family('repack dies', crash_cases, crash_run,
           'before every file-system step, and in the middle of every write'),
    Family('repack fails', fail_cases, fail_run,
           'every file-system step fails, alone or with all later ones'),
    Family('short writes', short_cases, short_run,
           'every write of every operation is first done by half'),
    Family('library faults', lib_cases, lib_run,
           'every library call of every operation raises'),
    Family('refusals', refuse_cases, refuse_run,
           'every kind of refused call, then every kind of next operation'),
    Family('repack twice', left_cases, left_run,
           'interrupted at any step, then again at any step'),
]
BOUNDS = {'quick': '6 archives of up to 12 larrys; every file-system step of '
                   '3 ways to repack; every library call of 22 operations; '
                   '29 refused calls x 10 next operations',
          'thorough': 'as quick, with HDF5 calls below h5py for all archives, '
                      'three error codes and every pair of interruptions'}
ASSUMPTIONS = ['a process that dies leaves what it wrote (no loss of power)',
               'HDF5 gives no guarantee when its own writes into an archive '
               'fail half way, so file-system faults are injected into '
               'repacks only; other operations get faults in every library '
               'call', 'closing a file does not fail in the library faults']
RULE = ('a state is one fault point of one operation on one archive; all '
        'larrys not being written are read back and compared')
