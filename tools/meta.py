"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, claim=True, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    if claim is True:
        CHECKS.append((id, technique or 'symbolic execution of the Python source + SMT (z3)', note))
    else:
        NA.append(dict(property=id, reason=claim))


CHECKS = []
ENG = ('Bounded: within the stated sizes the solver decides the assertion for every value; real '
       'arithmetic stands for float64, structures beyond the bounds are not covered. ')

prop('C01', 'Sector bases list every configuration exactly once, in order',
     'For every number of sites and every particle number, the generated basis contains exactly '
     'the bit patterns with that many particles, each once, in increasing order, and its length '
     'is the advertised sector dimension. Sector index arithmetic numbers the sectors bijectively.',
     ['inputs'], 'all site counts and particle numbers within the bound',
     'The existing tests print bases for two sizes; a wrong next-permutation shows only for '
     'particular bit patterns.',
     ['edpyt/sector.py', 'edpyt/operators.py', 'edpyt/lookup.py', 'edpyt/espace.py'],
     [('next-permutation bit trick', 'edpyt/sector.py generate_states'),
      ('binomial dimensions', 'edpyt/sector.py binom/get_sector_dim')],
     note='Inductive step decided over all 32-bit patterns of up to 16 sites.')

prop('C02', 'Creation and annihilation operators obey fermionic algebra',
     'Applying creation and annihilation operators to any configuration yields the configuration '
     'and the sign prescribed by the anticommutation relations. The operators are mutually '
     'inverse where allowed, flip only the addressed site, and occupation tests read that site.',
     ['inputs'], 'every configuration and every pair of sites within the bound',
     'No test executes the operators; signs depend on the number of occupied sites in between.',
     ['edpyt/operators.py'],
     [('sign counting by popcount of the masked state', 'edpyt/operators.py fsgn/cdg/c')])

prop('C03', 'State lookups and representation changes are mutually inverse',
     'Looking up any configuration of a sector returns its position in the basis, for every basis '
     'representation. Moving between sectors by adding or removing a particle lands in the right '
     'sector or is reported impossible, and configuration/bit-array conversions invert each other.',
     ['inputs'], 'every configuration of every sector within the bound',
     'The lookups are binary searches and bijections; a test samples a few states only.',
     ['edpyt/lookup.py', 'edpyt/sector.py', 'edpyt/shared.py', 'edpyt/espace.py'],
     [('binary search', 'edpyt/lookup.py binsearch'),
      ('sector moves', 'edpyt/lookup.py get_c_sector/get_cdg_sector')])

prop('C04', 'Spin-resolved Hamiltonian equals its second-quantised definition',
     'In every spin-resolved sector, the matrix built from one-body energies, hoppings and '
     'Coulomb interactions has exactly the matrix elements of the corresponding second-quantised '
     'operator, including signs. The matrix is symmetric whenever the one-body terms are.',
     ['inputs'], 'all real one-body and interaction parameters, every sector within the bound',
     'Tests compare no matrix elements; sign errors need particular occupations between sites.',
     ['edpyt/build_mb_ham.py', 'edpyt/ham_local.py', 'edpyt/ham_hopping.py'],
     [('diagonal construction', 'edpyt/ham_local.py'), ('hopping with sign', 'edpyt/ham_hopping.py')])

prop('C05', 'Spin exchange and pair hopping match second quantisation',
     'In every spin-resolved sector the exchange and pair-hopping contributions equal the matrix '
     'elements of the defining operators, alone or combined with all other terms, for full or '
     'absent coupling matrices.',
     ['inputs', 'configurations'], 'all coupling values, every sector and combination of terms '
     'within the bound',
     'No test builds a Hamiltonian with exchange; the fermionic sign of the two-body moves is only '
     'visible in matrix elements.',
     ['edpyt/ham_non_local.py', 'edpyt/build_mb_ham.py'],
     [('two-body moves', 'edpyt/ham_non_local.py')])

prop('C06', 'Total-charge and spin-resolved representations agree',
     'The Hamiltonian built in the total-charge basis is block-diagonal in spin when no spin mixing '
     'is present, and every block equals the spin-resolved sector matrix in a common state ordering '
     'convention, for the same physical parameters.',
     ['inputs', 'configurations'], 'all parameters, every particle number within the bound',
     'Two independent encodings of the same operator are never compared by a test.',
     ['edpyt/build_mb_ham.py', 'edpyt/ham_local.py', 'edpyt/ham_hopping.py', 'edpyt/ham_non_local.py'],
     [('spin-orbital construction', 'edpyt/ham_hopping.py, edpyt/ham_non_local.py')])

prop('C07', 'Matrix-free product equals the dense Hamiltonian',
     'For every Hamiltonian and vector, the matrix-free product equals the product with the dense '
     'matrix, in either calling form, and leaves the input vector unchanged.',
     ['inputs', 'configurations'], 'all vectors and parameters, every combination of operators '
     'within the bound',
     'No test calls the product; a wrong block stride shows only in non-square sectors.',
     ['edpyt/matvec_product.py', 'edpyt/build_mb_ham.py'],
     [('operator list applied in order', 'edpyt/matvec_product.py')])

prop('C08', 'Compiled sparse kernels compute the exact product safely',
     'The compiled spin-up, spin-down and general sparse products accumulate exactly the product of '
     'the stored matrix, for every row-compressed structure including empty rows and duplicates. '
     'No access leaves the arrays, parallel iterations do not interfere, and unsupported inputs '
     'are rejected.',
     ['inputs', 'schedules'], 'every structure, value, vector and iteration order within the bound',
     'The existing tests use a few random matrices; empty rows, duplicates and racing iterations '
     'are not covered.',
     ['edpyt/psparse.pyx', 'edpyt/cs_gaxpy.c'],
     [('row loops over blocks', 'edpyt/psparse.pyx'), ('gaxpy kernels', 'edpyt/cs_gaxpy.c')],
     technique='symbolic execution of the Cython parse tree and LLVM IR + SMT (z3)')

for extra in sorted(f for f in os.listdir(os.path.join(ROOT, 'tools')) if f.startswith('meta_')):
    exec(open(os.path.join(ROOT, 'tools', extra)).read())

have = set(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'checks')) if f.startswith('c') and f[1:3].isdigit())
checks = []
for id, tech, note in CHECKS:
    if id not in have:
        NA.append(dict(property=id, reason='check under construction'))
        continue
    checks.append(dict(property=id, quick_cmd='python3-vt check.py %s --tier quick' % id,
                       thorough_cmd='python3-vt check.py %s --tier thorough' % id,
                       technique=tech, level='other',
                       level_note=ENG + (note or 'Counterexamples are replayed on the real code '
                                         'before they are reported.')))
for p in P:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy, scipy, Cython"',
                   checks=checks, not_applicable=NA,
                   notes='One entry point (check.py); harnesses in checks/, engine in symx/.'),
              f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(NA), 'na')
