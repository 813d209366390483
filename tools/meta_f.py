prop('C25', 'Stationary populations solve the master equation and conserve charge',
     'The stationary solution of the rate equations is a probability vector annihilated by the rate '
     'matrix, whatever the order and normalisation in which the eigensolver returns its modes. Currents '
     'follow from it linearly and the rate matrix conserves the total probability.',
     ['inputs', 'configurations'], 'all rates within the bound on the number of states',
     'No test covers it; a wrong mode or normalisation shows only for particular spectra.',
     ['edpyt/rates.py', 'edpyt/sqtnl.py'],
     [('stationary mode', 'edpyt/rates.py stationary_solution')],
     note='Eigenpairs are closed forms or free eigenpairs satisfying the eigenvalue equation.')

prop('C26', 'Impurity and lattice Green functions obey Dyson and hybridisation identities',
     'The impurity Hamiltonian, hybridisation, self-energy and free Green function of an impurity '
     'solver always belong to the same bath and chemical potential, for every history of fits and '
     'updates, and satisfy the Dyson equation. Lattice Green functions, Weiss fields and '
     'hybridisations are the ones their band structure prescribes, and at least for the atom and the '
     'uncorrelated impurity the solution is the exact one.',
     ['inputs', 'histories'], 'all bath parameters, frequencies, potentials and update histories within the bound',
     'Tests cover one converged run; an object keeping a stale bath or potential is a history effect.',
     ['edpyt/dmft.py', 'edpyt/gf_lanczos.py'],
     [('impurity state', 'edpyt/dmft.py Gfimp/SpinGfimp'),
      ('lattice functions', 'edpyt/dmft.py Gfhybrid/Gfhilbert/HT')])

prop('C27', 'The self-consistency loop mixes, stops and reports as documented',
     'Every DMFT iteration fits a causal hybridisation, solves, inserts the self-energy into the '
     'lattice and produces the new hybridisation; the loop stops exactly when the residual of two '
     'successive hybridisations is within tolerance and otherwise reports failure. Mixing is linear, '
     'occupancy is adjusted when a goal is given, and magnetic runs treat the spins apart.',
     ['inputs', 'histories'], 'all hybridisations, mixing weights, tolerances and iteration counts within the bound',
     'The loop needs a full run; ordering and clamping errors still converge on the sampled case.',
     ['edpyt/dmft.py'],
     [('iteration', 'edpyt/dmft.py DMFT.step/__call__/solve'),
      ('causality', 'edpyt/dmft.py initialize/distance')])

prop('C28', 'Real-space DMFT maps sites to impurities consistently on every rank',
     'The local Green functions, Weiss fields, hybridisations and occupations of a nanostructure equal '
     'those of the full matrix with the self-energy of every site taken from its own equivalent '
     'orbital, serially and on every rank. The impurity container acts on each impurity with its own '
     'bath, potential and occupation.',
     ['inputs', 'configurations', 'schedules'],
     'all Hamiltonians, overlaps, self-energies, site maps and ranks within the bound',
     'No test runs it; mistakes appear only for site maps that differ from the identity or several ranks.',
     ['edpyt/nano_dmft.py', 'edpyt/integrate_gf.py', 'edpyt/observs.py'],
     [('site map and gather', 'edpyt/nano_dmft.py Gfloc'),
      ('container', 'edpyt/nano_dmft.py Gfimp')])

prop('C29', 'Occupation integrals sum the right poles, weights and tails',
     'The poles and residues of the Fermi function expansion are those of its continued fraction, and '
     'the occupation from a contour or Matsubara sum equals the documented expression for every '
     'Green function, every shape and every chemical potential, with the tail correction of the last '
     'frequency.',
     ['inputs', 'configurations'], 'all Green-function values, potentials, radii and temperatures within the bound',
     'Only a converged number is sampled by tests; shape and weight errors cancel for symmetric cases.',
     ['edpyt/integrate_gf.py'],
     [('continued fraction', 'edpyt/integrate_gf.py zero_fermi'),
      ('contour', 'edpyt/integrate_gf.py integrate_gf'), ('Matsubara', 'edpyt/integrate_gf.py matsum_gf')])
