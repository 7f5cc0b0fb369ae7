#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the check modules."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
    'C01': 'runtime monitoring: object identities observed in fresh processes under enumerated and random orders of first use',
    'C02': 'runtime monitoring: online oracle over conversions',
    'C03': 'runtime monitoring: cross-execution monitor comparing re-encoded calls',
    'C04': 'runtime monitoring: conservation checker over edit lists, direct and at interposed nested calls',
    'C05': 'runtime monitoring: trace-specification checker (search for an explaining run) over edit lists',
    'C10': 'runtime monitoring: model-based monitor over interleaved histories of operations',
    'C11': 'runtime monitoring: online oracle plus before/after state monitor',
    'C19': 'runtime monitoring: model-based monitor over histories, aliasing observed after each operation',
    'C20': 'runtime monitoring: round-trip monitor with injected file corruption',
    'C22': 'runtime monitoring: reference monitor under interposed, permuted directory listings',
    'C23': 'runtime monitoring: resource-leak monitor (interposed open, descriptor table) with injected I/O faults at every file operation',
    'C24': 'runtime monitoring: purity monitor over call histories (frozen arguments, memoised results, re-entrant and raising callbacks)',
    'C25': 'runtime monitoring: seeded thread scheduler at statement granularity with a sequential-result oracle',
    'C26': 'runtime monitoring: monitor of laws over related executions',
    'C27': 'runtime monitoring: recording weight functions plus online oracle',
    'C28': 'runtime monitoring: refusal monitor over invalid calls',
    'C29': 'runtime monitoring: cross-process equality and independence monitor over chains of copy routes',
}
DEFAULT = 'runtime monitoring: online oracle (exact reference model) over generated workloads'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    m = importlib.import_module('rv.checks.' + p['id'].lower())
    interp = 'PyPy 3.9 and CPython 3.12' if m.INTERPRETERS == 'both' else 'PyPy 3.9'
    note = ('Every execution observed is judged by an oracle that is independent of the code; no claim beyond the executions of the '
            'run (the small scopes named are enumerated completely). Runs on %s with differing hash seeds. %s.' % (interp, m.RULE[0].upper() + m.RULE[1:]))
    assume = getattr(m, 'ASSUMPTIONS', [])
    if assume:
        note += ' Assumes: ' + '; '.join(assume) + '.'
    checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s --tier quick' % p['id'],
                   'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH.get(p['id'], DEFAULT),
                   'level': getattr(m, 'LEVEL', 'exploration'), 'level_note': note})
out = {'version': 1, 'setup_cmd': 'bin/selftest', 'checks': checks, 'not_applicable': [],
       'notes': 'No hooks in /repo: the package is observed from outside (calls, interposed public names, interposed open/listdir, '
                'line tracing). The code under test is imported from /repo as it is; nothing is built. VERIF_SEED seeds every random choice.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks))
