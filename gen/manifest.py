#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'lib'))
import props
allp = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
NA = {}
TECH = 'deterministic simulation with fault injection: seeded search over call histories, allocation/solver/stream faults%s, real library code in one simulated process, %s'
ORACLE = {
    'C01': 'exact polygon clipping as reference model', 'C02': 'conservation and constancy checked against a reference model after every apply',
    'C03': 'history of the cursor checked against a reference model', 'C04': 'exact clipping and stream function as reference model',
    'C05': 'inverse bilinear map as reference model', 'C06': 'invariants recomputed at every pause of the search', 'C07': 'progress within a bounded number of steps once faults stop',
    'C08': 'exact clipping as reference model', 'C09': 'exact clipping as reference model', 'C10': 'refinement against a fresh object',
    'C11': 'every thread compared bit by bit with its run alone', 'C12': 'guard words and page protection checked after every call',
    'C13': 'conservation of memory checked by the simulated heap', 'C14': 'atomic failure and recovery checked after each failed allocation',
    'C15': 'same history in a different environment must give the same bits', 'C16': 'AddressSanitizer on the simulated heap',
    'C17': 'containment and recovery checked after each failed solve', 'C18': 'refinement of the Python class against a model of the C interface',
    'C19': 'extended precision elimination as reference model', 'C20': 'exact clipping as reference model',
    'C21': 'geometry in extended precision as reference model, old addresses read again', 'C25': 'model of the options compared after every step', 'C26': 'closed formulas in extended precision as reference model, guard words',
    'C22': 'enumeration checked against a counter model after every query', 'C23': 'containment and nesting checked at every level', 'C24': 'points checked bit by bit through addresses old and new',
    'C27': 'monotone chain in extended precision as reference model'}
checks = []
for p in allp:
    i = p['id']
    if i in props.SPECS:
        extra = ', preemptive schedules of the caller threads' if i == 'C11' else ''
        tech = TECH % (extra, ORACLE[i])
        if props.SPECS[i].get('technique'):
            tech = props.SPECS[i]['technique']
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': tech, 'level': 'exploration',
                       'level_note': props.SPECS[i].get('note') or 'Sampled executions of the real code; quick %d, thorough %d simulated runs. A bug that needs inputs outside of the generated families, or that shows below the tolerance of the oracle, is missed.' % (props.SPECS[i]['quick'], props.SPECS[i]['thorough']),
                       'evidence_file': 'evidence/%s.json' % i})
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh objects build/objects',
     'hooks': {'guard': 'SIGRID_SIM', 'enable': 'No hook in /repo is needed or present: allocation, LAPACK, streams and scheduling are intercepted at link time and by compiler instrumentation (sim/build.sh).', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'check under construction')} for p in allp if p['id'] not in props.SPECS],
     'notes': 'Seeds: VERIF_SEED. Replay: python3 check.py <property> --replay <file>. Replay files go to replays/, builds to build/ (both ignored by git).'}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, '..', 'MANIFEST.json'), 'a').write('\n')
