#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = set('C' + os.path.basename(p)[3:5] for p in glob.glob(os.path.join(here, 'mc', 'p_c*.py')))
NA = {
 'C29': 'A statement about probability distributions: enumerating executions cannot decide it, because every sequence of values is a possible outcome; a statistical test would be sampling.',
}
TECH = {
 'C30': 'exhaustive enumeration of indices on archived larrys that do not fit into the memory limit, with a monitor that counts the cells read',
 'C11': 'explicit-state exploration of the real code: every interleaving of mutators and readers up to a depth, against a table model',
 'C14': 'explicit-state exploration: every history of archive operations up to a depth on real HDF5 files, against a dictionary model',
 'C15': 'exhaustive crash and fault injection: every file-system step of every operation fails or is the last one, contents checked afterwards',
 'C20': 'exhaustive enumeration of every outcome of the random source (controlled scheduler of the RNG)',
 'C26': 'exhaustive enumeration of every combination of stubbed server answers up to a bound, against a table model',
}
DEFAULT = 'bounded exhaustive enumeration of inputs and operation sequences on the real code, each step compared with a reference model'
NOTE = {}
checks = []
na = []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in have:
        src = open(os.path.join(here, 'mc', 'p_%s.py' % i.lower())).read()
        level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in src else 'model_checking'
        checks.append({'property': i, 'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH.get(i, DEFAULT), 'level': level,
            'level_note': NOTE.get(i, 'Every case below the bounds stated in the evidence file is run on the real code and compared step by step with an independent model; nothing is sampled. Says nothing beyond those bounds and value alphabets.')})
    else:
        na.append({'property': i, 'reason': 'No check built yet.'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
