#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py."""
import json, os
import vbuild
from plans import PLANS

ids = [json.loads(l)['id'] for l in open(os.path.join(vbuild.VERIF, 'properties.jsonl'))]
NOTE = 'Exhaustive within the bounds written to the evidence file; assumes MPI as implemented by mpisim, and trusts the compiler, libsc, zlib and the reference model in ref/.'
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in PLANS:
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': PLANS[i].get('technique', 'explicit-state model checking: exhaustive bounded exploration of the real code on simulated MPI ranks against a reference model'),
                            'level': 'model_checking', 'level_note': PLANS[i].get('note', '') + NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
with open(os.path.join(vbuild.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
