#!/usr/bin/env python3
"""Compiles everything the quick checks need into /verif/build/cache."""
import sys
from concurrent.futures import ThreadPoolExecutor
import vbuild
from plans import PLANS

flavors = sorted({r.get('flavor', 'rel') for p in PLANS.values() for r in p['runs'] if 'quick' in r.get('tiers', ('quick',))})
for f in flavors:
    vbuild.p4est_object(f)
jobs = {(r['src'], r['dim'], r.get('flavor', 'rel'), tuple(r.get('defs', ())), tuple(r.get('cflags', ()))) for p in PLANS.values() for r in p['runs'] if 'quick' in r.get('tiers', ('quick',))}
with ThreadPoolExecutor(6) as ex:
    list(ex.map(lambda j: vbuild.harness(*j), sorted(jobs)))
print('built %d harnesses' % len(jobs))
