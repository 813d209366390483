#!/usr/bin/env python3
"""Assemble DESIGN.md."""
import ast
import glob
import json
import os
import textwrap

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)


def consts(f):
    out = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('EXPLAIN', 'BOUNDS', 'OUTSIDE', 'STUBS', 'WHY'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def wrap(s, ind='  '):
    return textwrap.fill(s, 108, initial_indent='* ', subsequent_indent=ind)


seeds = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((f.split('/')[1], d))
cost = {}
if os.path.exists('tools/cost.json'):
    cost = json.load(open('tools/cost.json'))
o = [open('tools/design_head.md').read(), '## Properties and how each is decided\n']
for l in open('properties.jsonl'):
    p = json.loads(l)
    c = consts('checks/%s.py' % p['id'].lower())
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append(wrap('Specified: ' + p['statement']))
    o.append(wrap('Decided by: ' + c['EXPLAIN']))
    if 'WHY' in c:
        o.append(wrap('Beyond tests: ' + c['WHY']))
    o.append(wrap('Bounds, quick: ' + c['BOUNDS']['quick']))
    o.append(wrap('Bounds, thorough (in addition): ' + c['BOUNDS']['thorough']))
    o.append(wrap('Outside: ' + c['OUTSIDE']))
    if c.get('STUBS'):
        o.append(wrap('Models at the boundary: ' + '; '.join(c['STUBS'])))
    if p['id'] in cost:
        o.append(wrap('Cost of the quick run (8 cores): ' + cost[p['id']]))
    for s, d in seeds.get(p['id'], []):
        o.append(wrap('Planted, caught (%s): %s' % (s, d['what_it_breaks'])))
    o.append('')
o.append('## Catch matrix\n')
o.append('Each planted change is run against its own property\'s check (all listed are caught, exit 1 with a\n'
         'VIOLATION line, and the demonstration fails with and passes without the change).\n')
o.append('| change | property | needs |\n|---|---|---|')
for p in sorted(seeds):
    for s, d in seeds[p]:
        o.append('| %s | %s | %s |' % (s, p, d['needs'].replace('|', '/')))
o.append('''
Besides the planted changes, `tools/mutate.py` applies syntactic mutations to a file in a copy and runs the
checks of the properties anchored there. Survivors were reviewed by hand: they are equivalent (e.g. spin-up and
spin-down dimension swapped where the code requires them equal, performance hints, work-array sizes), or they
led to new instances (C05 total charges, C12 `some_*` and argument checks of the assembly, C14 `deflate_*` and
`bconverge_*`, `defaults_*` in C11/C12, `numbers_*` in C01).
''')
open('DESIGN.md', 'w').write('\n'.join(o))
