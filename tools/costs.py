#!/usr/bin/env python3
"""Record the cost of the last quick runs (from evidence) for DESIGN.md."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = {}
for f in sorted(glob.glob('evidence/*.json')):
    d = json.load(open(f)); c = d['coverage']
    if d['tier'] == 'quick':
        out[d['property']] = '%d instances, %d paths, %d obligations, %d queries, %d s solver, %d s wall' % (
            c['instances'], c['paths'], c['obligations'], c['queries'], round(c['solver_seconds']), round(d['wall_s']))
json.dump(out, open('tools/cost.json', 'w'), indent=1)
