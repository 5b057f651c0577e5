"""Driver: build a scratch copy of la, explore one property, write evidence."""
import imp
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LA_REPO', '/repo')
sys.path.insert(0, HERE)


def log(*a):
    sys.stderr.write(' '.join(map(str, a)) + '\n')
    sys.stderr.flush()


SETUP = """
from distutils.core import setup
from distutils.extension import Extension
setup(name='cflabel', ext_modules=[Extension('%s', sources=['%s'])])
"""


def build(scratch, tracked=False):
    """Copy the la package and build its extension out of place."""
    pkg = os.path.join(scratch, 'la')
    shutil.copytree(os.path.join(REPO, 'la'), pkg,
                    ignore=shutil.ignore_patterns('*.so', '*.pyc', 'build',
                                                  '__pycache__', 'tests'))
    log_path = os.path.join(scratch, 'build.log')
    def compile_ext(workdir, csrc, modname):
        with open(os.path.join(workdir, 'setup.py'), 'w') as f:
            f.write(SETUP % (modname, csrc))
        with open(log_path, 'a') as lf:
            rc = subprocess.call([sys.executable, 'setup.py', 'build_ext',
                                  '--inplace'], cwd=workdir, stdout=lf,
                                 stderr=subprocess.STDOUT)
        if rc:
            with open(log_path) as lf:
                log(lf.read()[-3000:])
            log('cannot build the extension')
            sys.exit(3)
        return os.path.join(workdir, modname + '.so')
    if os.environ.get('LA_PREBUILT'):
        # only to try many planted changes of Python files quickly
        shutil.copy(os.environ['LA_PREBUILT'],
                    os.path.join(pkg, 'cflabel.so'))
        return
    w = os.path.join(scratch, 'pyx')
    os.mkdir(w)
    shutil.copy(os.path.join(REPO, 'la', 'src', 'cflabel.pyx'), w)
    with open(log_path, 'a') as lf:
        rc = subprocess.call([sys.executable, '-m', 'cython', 'cflabel.pyx'],
                             cwd=w, stdout=lf, stderr=subprocess.STDOUT)
    if rc:
        with open(log_path) as lf:
            log(lf.read()[-3000:])
        log('cython failed')
        sys.exit(3)
    so = compile_ext(w, 'cflabel.c', 'cflabel')
    shutil.copy(so, pkg)
    if tracked:
        w2 = os.path.join(scratch, 'tracked')
        os.mkdir(w2)
        shutil.copy(os.path.join(REPO, 'la', 'src', 'cflabel.c'), w2)
        compile_ext(w2, 'cflabel.c', 'cflabel')


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return dict((e['key'], e['what']) for e in d.get('findings', [])
                if e['property'] == prop)


def with_shim():
    """Start this program again with the file-system shim loaded."""
    d = tempfile.mkdtemp(prefix='lamcshim.')
    try:
        so = os.path.join(d, 'shim.so')
        rc = subprocess.call(['gcc', '-shared', '-fPIC', '-O1', '-o', so,
                              os.path.join(HERE, 'shim.c'), '-ldl'])
        if rc:
            log('cannot build the shim')
            return 3
        env = dict(os.environ, LA_SHIM=so, LD_PRELOAD=so)
        sys.stdout.flush()
        return subprocess.call([sys.executable] + sys.argv, env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    replay = None
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            replay = json.load(f)
        prop, tier = replay['property'], replay['tier']
    else:
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    t0 = time.time()
    if prop == 'C15' and 'LA_SHIM' not in os.environ:
        sys.exit(with_shim())
    os.environ.pop('LD_PRELOAD', None)
    scratch = tempfile.mkdtemp(prefix='lamc.')
    try:
        rc = run(prop, tier, scratch, t0, replay, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, scratch, t0, replay, only):
    build(scratch, tracked=(prop == 'C21'))
    sys.path.insert(0, scratch)
    os.environ['LA_SCRATCH'] = scratch
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    import la
    assert os.path.dirname(os.path.abspath(la.__file__)) == \
        os.path.join(scratch, 'la'), la.__file__
    import core
    mod = __import__('p_' + prop.lower())
    fams = mod.FAMILIES
    names = [f.name for f in fams]
    assert len(set(names)) == len(names)
    if only:
        fams = [f for f in fams if f.name in only]
    if replay is not None:
        fi = names.index(replay['family'])
        msg = core.replay_once(fams, tier, scratch, fi, replay['index'],
                               tuple(replay['prefix'])
                               if replay.get('prefix') else None)
        if msg is None:
            print('replay of %s %s[%d]: the property held' %
                  (prop, replay['family'], replay['index']))
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s' %
              (prop, os.path.abspath(sys.argv[2])))
        return 1
    nw = int(os.environ.get('LA_WORKERS', '8'))
    budget = {'quick': 600, 'thorough': 780}[tier]
    known = load_known(prop)
    results, deaths, broken = core.explore(fams, tier, scratch, nw, budget,
                                           known)
    states = set()
    outcomes = set()
    tr = traces = 0
    fails = []
    counts = {}
    capped = set()
    samples = []
    ftime = {}
    seen_known = {}
    for (s, t, c, _, o, f, cn, cp, sm, ft, kn) in results:
        states |= s
        outcomes |= o
        tr += t
        traces += c
        fails += f
        capped |= set(cp)
        for k, v in cn.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in ft.items():
            ftime[k] = ftime.get(k, 0) + v
        for k, v in sm.items():
            for one in v:
                samples.append('%s: %s' % (k, one))
        seen_known.update(kn)
    dead = [(fi, i, 'death', 'process killed by signal %d' % sig, '')
            for (fi, i, sig, w) in deaths]
    fails = sorted(fails + dead, key=lambda f: (f[0], f[1]))
    # keep the first failure of every family and key
    picked = []
    seen = set()
    for f in fails:
        k = (f[0], f[2])
        if k in seen:
            continue
        seen.add(k)
        picked.append(f)
    rc = 0
    n = 0
    for (fi, i, key, msg, case) in picked[:12]:
        pre = None
        again = core.replay_once(fams, tier, scratch, fi, i)
        if again is None:
            pre = (i % nw, nw)
            again = core.replay_once(fams, tier, scratch, fi, i, pre)
        path = os.path.join(VERIF, 'replays', '%s_%d.json' % (prop, n))
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier,
                       'family': fams[fi].name, 'index': i, 'prefix': pre,
                       'reproduced': again is not None, 'key': key,
                       'case': case, 'message': msg,
                       'how': 'bash /verif/check.sh --replay ' + path}, f,
                      indent=1)
        n += 1
        print('--- %s[%d] %s\n%s' % (fams[fi].name, i, case[:600],
                                     msg[:2500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for key in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    if broken and rc == 0:
        log('\n'.join(broken))
        rc = 3
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': getattr(mod, 'LEVEL', 'model_checking'),
          'coverage': {
              'states': len(states), 'transitions': tr,
              'traces_validated_against_impl': traces,
              'distinct_outcomes': len(outcomes),
              'samples': samples[:12],
              'families': dict((f.name, {'cases': counts.get(f.name, 0),
                                         'cpu_s': round(ftime.get(f.name, 0), 2),
                                         'what': f.doc}) for f in fams),
              'capped_families': sorted(capped),
              'exhaustive': not capped and not broken,
              'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
          },
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': len(picked),
          'wall_s': round(time.time() - t0, 2)}
    if ev['level'] in ('fault_enumeration', 'exploration'):
        ev['coverage']['evaluations'] = traces
        ev['coverage']['distinct_nontrivial'] = len(states)
        ev['coverage']['rule'] = getattr(mod, 'RULE', '')
    if not only:
        d = os.path.join(VERIF, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        tmp = os.path.join(d, prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.rename(tmp, os.path.join(d, prop + '.json'))
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d families=%d '
          'capped=%s wall=%.1fs' % (prop, tier, len(states), tr, traces,
                                    len(outcomes), len(fams),
                                    ','.join(sorted(capped)) or 'none',
                                    time.time() - t0))
    if os.environ.get('LA_TIMES'):
        for f in fams:
            print('   %-28s cases=%-8d cpu=%.2fs' %
                  (f.name, counts.get(f.name, 0), ftime.get(f.name, 0)))
    return rc


main()
