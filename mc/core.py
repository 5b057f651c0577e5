"""Explicit-state exploration engine (Python 2.7).

A property module provides FAMILIES, a list of Family objects.  A family is a
finite, deterministically ordered space of cases (simplest first) together
with a function that drives the real la code through one case and compares
every observable step with the reference model.  The engine

  * shards every family over worker processes (case index modulo workers),
  * counts distinct canonical states, executed-and-compared transitions and
    completed traces, all measured while running,
  * turns a disagreement, an unexpected exception, a hang or the death of the
    process into a violation with a replay file,
  * never samples: every case of every family below the tier's bound is run,
    and if the safety deadline cuts a family short, the evidence says so.
"""
import ast
import gc
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback


class Fail(Exception):
    """The property does not hold on this case. key identifies the failure."""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Hang(Exception):
    pass


def check(cond, msg, key=None):
    if not cond:
        if callable(msg):
            msg = msg()
        raise Fail(msg, key)


class Family(object):
    def __init__(self, name, cases, run, doc=''):
        self.name = name
        self.cases = cases      # cases(tier) -> iterator of plain tuples
        self.run = run          # run(ctx, case)
        self.doc = doc


class Ctx(object):
    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.known = {}
        self._dir = None

    def state(self, key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key))

    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='w', dir=self.scratch)
        return self._dir


CASE_SECONDS = 60


def _alarm(signum, frame):
    raise Hang('the call did not return within %d s' % CASE_SECONDS)


def run_case(ctx, fam, case):
    """Run one case; return None or (key, message)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        try:
            fam.run(ctx, case)
            return None
        except Fail as e:
            return (e.key, str(e))
        except Hang as e:
            return ('hang', 'no answer: %s\n%s' % (e, traceback.format_exc()))
        except (KeyboardInterrupt, SystemExit) as e:
            return ('exit', 'unexpected %r\n%s' % (e, traceback.format_exc()))
        except Exception as e:
            return ('exception', 'unexpected exception %s: %s\n%s' %
                    (type(e).__name__, e, traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _quietfd():
    # the code under test may print; keep stdout for our own lines
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


MAXFAIL = 400
# Seconds the workers go on looking for other violations after the first one
AFTERFAIL = float(os.environ.get('LA_AFTERFAIL', '20'))


def _worker(fams, tier, scratch, wid, nw, shm, path, deadline, known):
    import la.missing   # noqa  (loads everything before the clock starts)
    _quietfd()
    ctx = Ctx(tier, scratch)
    fails = []
    counts = {}
    capped = []
    samples = {}
    famtime = {}
    for fi, fam in enumerate(fams):
        n = 0
        t0 = time.time()
        stop = False
        for i, case in enumerate(fam.cases(tier)):
            if i % nw != wid:
                continue
            first = struct.unpack_from('d', shm, 8 * nw)[0]
            if time.time() > deadline or (first and
                                          time.time() > first + AFTERFAIL):
                capped.append(fam.name)
                stop = True
                break
            struct.pack_into('ii', shm, 8 * wid, fi, i)
            tr0 = ctx.transitions
            r = run_case(ctx, fam, case)
            n += 1
            ctx.traces += 1
            if ctx.transitions == tr0:
                ctx.transitions += 1
            if r is None:
                if n <= 1 and wid < 2:
                    samples.setdefault(fam.name, []).append(repr(case)[:300])
            else:
                key, msg = r
                if key in known:
                    ctx.known.setdefault(key, (fam.name, i, repr(case)[:300]))
                    continue
                fails.append((fi, i, key, msg, repr(case)))
                if not struct.unpack_from('d', shm, 8 * nw)[0]:
                    struct.pack_into('d', shm, 8 * nw, time.time())
                if key == 'hang':
                    stop = True
                    break
                if len([1 for f in fails if f[0] == fi]) >= 20:
                    break
        counts[fam.name] = n
        famtime[fam.name] = time.time() - t0
        if len(fails) >= MAXFAIL or stop and (
                fails or struct.unpack_from('d', shm, 8 * nw)[0]):
            break
    struct.pack_into('ii', shm, 8 * wid, -1, -1)
    with open(path, 'wb') as f:
        pickle.dump((ctx.states, ctx.transitions, ctx.traces, len(ctx.outcomes),
                     ctx.outcomes, fails, counts, capped, samples, famtime,
                     ctx.known), f, 2)


def explore(fams, tier, scratch, nw, budget, known):
    shm = mmap.mmap(-1, 8 * nw + 8)
    for w in range(nw):
        struct.pack_into('ii', shm, 8 * w, -2, -2)
    deadline = time.time() + budget
    gc.collect()
    pids = {}
    for w in range(nw):
        path = os.path.join(scratch, 'res%d' % w)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(fams, tier, scratch, w, nw, shm, path, deadline, known)
            except:
                traceback.print_exc()
                code = 70
            os._exit(code)
        pids[pid] = w
    results = []
    deaths = []
    broken = []
    seen = dict((pid, (None, time.time())) for pid in pids)
    stuck = set()
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            # a case that never gets back to the interpreter is a hang
            time.sleep(0.02)
            now = time.time()
            for p, w in pids.items():
                at = struct.unpack_from('ii', shm, 8 * w)
                if at != seen[p][0]:
                    seen[p] = (at, now)
                elif at[0] >= 0 and now - seen[p][1] > CASE_SECONDS + 30:
                    stuck.add(p)
                    os.kill(p, signal.SIGKILL)
                    seen[p] = (at, now)
            continue
        if pid not in pids:
            continue
        w = pids.pop(pid)
        if pid in stuck:
            fi, i = struct.unpack_from('ii', shm, 8 * w)
            deaths.append((fi, i, signal.SIGKILL, w))
        elif os.WIFSIGNALED(st):
            fi, i = struct.unpack_from('ii', shm, 8 * w)
            if fi < 0 or os.WTERMSIG(st) in (signal.SIGKILL, signal.SIGTERM):
                broken.append('worker %d ended by signal %d' %
                              (w, os.WTERMSIG(st)))
            else:
                deaths.append((fi, i, os.WTERMSIG(st), w))
        elif os.WEXITSTATUS(st) != 0:
            broken.append('worker %d exited with %d' % (w, os.WEXITSTATUS(st)))
        else:
            with open(os.path.join(scratch, 'res%d' % w), 'rb') as f:
                results.append(pickle.load(f))
    return results, deaths, broken


def nth_case(fam, tier, index):
    for i, case in enumerate(fam.cases(tier)):
        if i == index:
            return case
    raise SystemExit('case %d of %s does not exist' % (index, fam.name))


def replay_once(fams, tier, scratch, fi, index, prefix=None):
    """Re-run one case in a fresh fork. Returns message or None.
    prefix=(wid, nw): first run every case that shard ran before it."""
    path = os.path.join(scratch, 'replay_out')
    if os.path.exists(path):
        os.remove(path)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            _quietfd()
            ctx = Ctx(tier, scratch)
            r = None
            if prefix is not None:
                wid, nw = prefix
                for fj in range(fi + 1):
                    for i, case in enumerate(fams[fj].cases(tier)):
                        if i % nw != wid:
                            continue
                        if fj == fi and i > index:
                            break
                        r = run_case(ctx, fams[fj], case)
            else:
                r = run_case(ctx, fams[fi], nth_case(fams[fi], tier, index))
            with open(path, 'wb') as f:
                pickle.dump(r, f, 2)
        except:
            traceback.print_exc()
            os._exit(70)
        os._exit(0)
    limit = time.time() + (CASE_SECONDS + 20 if prefix is None else 240)
    while True:
        got, st = os.waitpid(pid, os.WNOHANG)
        if got:
            break
        if time.time() > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return 'the replayed case gave no answer and was killed'
        time.sleep(0.01)
    if os.WIFSIGNALED(st):
        return 'process killed by signal %d' % os.WTERMSIG(st)
    if os.WEXITSTATUS(st) != 0:
        return None
    with open(path, 'rb') as f:
        r = pickle.load(f)
    return None if r is None else r[1]
