"""mkdesign.py: rewrite the per-property section of DESIGN.md from the modules."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
DUMP = r'''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, '/repo')
out = {}
for i in list(range(1, 29)) + [30]:
    p = 'C%%02d' %% i
    m = __import__('p_c%%02d' %% i)
    out[p] = dict(doc=m.__doc__, fams=[(f.name, f.doc) for f in m.FAMILIES],
                  bounds=getattr(m, 'BOUNDS', {}),
                  level=getattr(m, 'LEVEL', 'model_checking'),
                  assume=getattr(m, 'ASSUMPTIONS', []))
sys.stdout.write(json.dumps(out))
''' % os.path.join(HERE, 'mc')

ORACLE = {
 'C01': ('the well-formedness predicate itself (one list of labels per axis, '
         'lengths, uniqueness, at least one dimension) plus a snapshot of '
         'every operand',
         'a malformed larry needs two steps to show: one that leaves it '
         'behind and one that trips over it; validate=False constructors are '
         'reached from many call sites'),
 'C02': ('M.permute/select/relabel of the reference model: a dictionary from '
         'label tuples to values and the list of labels asked for',
         'tests use ascending labels, where position and label agree; every '
         'order of the labels and every axis spelling is enumerated'),
 'C03': ('ref.align: set operations on the labels and a lookup per cell',
         'which labels are missing on which side of which axis, in which '
         'order, with which dtype, decides the branch taken'),
 'C04': ('the scalar Python/NumPy operator applied per common label tuple',
         'branches on equal labels, axis by axis; permutations of equal label '
         'sets and partial overlaps in 2d and 3d are all enumerated'),
 'C05': ('ref.align, then the fill rules, then the scalar function per cell',
         'all missing patterns of both operands under every join and fill '
         'pair'),
 'C06': ('deep snapshots of the operands before and after, and in-place '
         'changes (data and labels) of result and operands afterwards',
         'sharing only shows when the result is modified later'),
 'C07': ('plain Python folds over the non-missing values of each lane',
         'every subset of missing cells, every axis, empty lanes, dtypes '
         'without NaN'),
 'C08': ('index arithmetic on Python lists (and NumPy itself where the index '
         'is one NumPy supports)',
         'the grammar covers every slice end and step, every list and mask '
         'on several axes at once'),
 'C09': ('list.index on the label lists and the model for rectangles',
         'labels in every order, probes between, below and above the labels'),
 'C10': ('the set of addressed cells computed on the model; everything else '
         'must be unchanged, also after a refusal',
         'partial writes before an error and unaligned values in the same '
         'shape are invisible to value-based tests'),
 'C11': ('the model table after the same mutators; every reader after every '
         'step',
         'stale caches need read - mutate - read sequences on one or two '
         'objects'),
 'C12': ('union of the two tables with the precedence rule',
         'all missing patterns on all overlaps; merge histories'),
 'C13': ('the multiset of (labels, value) pairs',
         'subsets of cells in every order, delimiters, quoting'),
 'C14': ('a Python dictionary of models',
         'histories: which keys were deleted, overwritten, nested, reopened'),
 'C15': ('the dictionary before (or after) the operation must be readable in '
         'full from some archive in the directory, and the other larrys '
         'unchanged',
         'crash points and library failures do not occur in tests at all'),
 'C16': ('the same index on the larry in memory',
         'HDF5 selections differ from NumPy for negative, unordered, scalar '
         'and empty selections'),
 'C17': ('the statistic over the explicit window list',
         'window/skip/axis corners, NaN patterns, strides on every layout'),
 'C18': ('the definition evaluated per lane in exact or plain float '
         'arithmetic',
         'ties, single valid values, all-missing lanes, negative axes'),
 'C19': ('a dictionary from group to the values of its members',
         'group larry in every order, with extra or missing labels'),
 'C20': ('permutation/partition predicates; the random source is replayed so '
         'that every outcome is enumerated',
         'random tests see few outcomes'),
 'C21': ('a linear search over the label list',
         'three implementations (pyx, committed C, fallback) are compared '
         'on the same exhaustive space'),
 'C22': ('cell-by-cell definitions',
         'patterns of missing slices in up to four dimensions'),
 'C23': ('the requested labels/values computed directly',
         'the combinations of optional arguments and earlier calls'),
 'C24': ('sums over pairs of observed values, set operations, stable order '
         'predicates',
         'all missing patterns and label overlaps'),
 'C25': ('structural comparison of the models with the documented tolerance',
         'a comparison helper is only wrong on near misses: all one-'
         'difference pairs are enumerated'),
 'C26': ('the table the stand-in server answered from',
         'no test runs this code (it needs the network)'),
 'C27': ('math/cmath per cell', 'special values, dtypes, layouts'),
 'C28': ('the text the labels and the data require',
         'lengths around ten, several axes, archive histories'),
 'C30': ('the number of cells that the index selects; a memory limit that '
         'is far below the size of the array',
         'tests compare values; loading everything first gives the same '
         'values'),
}


def wrap(text, indent=''):
    out, line = [], indent
    for w in text.split():
        if len(line) + len(w) + 1 > 78 and line.strip():
            out.append(line.rstrip())
            line = indent
        line += w + ' '
    out.append(line.rstrip())
    return '\n'.join(out)


def main():
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    mods = json.loads(subprocess.check_output(
        ['/opt/py27/usr/bin/python2.7', '-W', 'ignore', '-c', DUMP], env=env))
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    out = []
    for p in props:
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        if i not in mods:
            out.append('Not applicable, see MANIFEST.json: %s\n' % [
                n['reason'] for n in json.load(open(os.path.join(
                    HERE, 'MANIFEST.json')))['not_applicable']
                if n['property'] == i][0])
            continue
        m = mods[i]
        oracle, why = ORACLE[i]
        fams = '; '.join('*%s*%s' % (n, ' (%s)' % d if d else '')
                         for n, d in m['fams'])
        doc = m['doc'].split('\n\n', 1)
        if len(doc) > 1:
            out.append(wrap(doc[1].replace(' * ', ' - ')))
        out.append(wrap('Enumerated: %s.' % fams))
        out.append(wrap('Oracle: %s.' % oracle))
        out.append(wrap('Bounds, quick: %s. Thorough: %s.' % (
            m['bounds'].get('quick', ''), m['bounds'].get('thorough', ''))))
        if m['assume']:
            out.append(wrap('Outside: %s.' % '; '.join(m['assume'])))
        out.append(wrap('Beyond the tests: %s. Level: %s.\n' % (
            why, m['level'])))
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = '<!-- properties -->', '<!-- end properties -->'
    body = '%s\n%s\n%s' % (a, '\n'.join(out), b)
    if a in s:
        s = s[:s.index(a)] + body + s[s.index(b) + len(b):]
    else:
        s = s.rstrip() + '\n\n## Properties\n\n' + body + '\n'
    a, b = '<!-- planted -->', '<!-- end planted -->'
    seeds = {}
    root = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(root) if os.path.isdir(root) else []):
        meta = json.load(open(os.path.join(root, d, 'meta.json')))
        seeds.setdefault(meta['property'], []).append(
            d.split('-', 1)[1])
    rows = [wrap('- %s catches: %s.' % (p, ', '.join(seeds[p])))
            for p in sorted(seeds)]
    if seeds:
        s = s[:s.index(a)] + a + '\n' + '\n'.join(rows) + '\n' + \
            s[s.index(b):]
    open(path, 'w').write(s)


main()
