MIXED = 'symbolic execution of the Python source and the Cython parse tree + SMT (z3)'

prop('C09', 'Distributed runs reproduce the serial result on every rank',
     'Splitting the vectors over any number of ranks gives the same Hamiltonian product, Lanczos '
     'coefficients, number of steps and occupations as the serial run, on every rank. '
     'Slab transpositions round-trip, configurations that cannot be distributed are rejected by '
     'all ranks, and no run deadlocks.',
     ['inputs', 'schedules', 'configurations'], 'all vectors, Hamiltonians and rank counts within the bound',
     'The tests run one rank; a wrong displacement or a rank-dependent exit appears only with more.',
     ['edpyt/vector_transpose.py', 'edpyt/matvec_product.py', 'edpyt/lanczos.py', 'edpyt/observs.py'],
     [('Alltoallw transposition', 'edpyt/vector_transpose.py'),
      ('distributed reductions', 'edpyt/lanczos.py sl_step, edpyt/observs.py')],
     note='MPI is a simulated communicator with mpi4py buffer rules; the ranks run the real code. ')

prop('C10', 'Transition matrix elements equal the second-quantised operators',
     'The projections of creation and annihilation operators between eigenstates of neighbouring '
     'sectors equal the matrix elements of the operators, with correct signs. This holds for every '
     'site, spin, sector pair, representation and set of eigenvectors.',
     ['inputs'], 'all eigenvectors, sectors, sites and spins within the bound',
     'Signs and index maps depend on sector shapes that no test visits.',
     ['edpyt/gf_exact.py', 'edpyt/gf_lanczos.py', 'edpyt/_psparse.c', 'edpyt/sqtnl.py', 'edpyt/cotnl.py'],
     [('projection over the untouched spin', 'edpyt/gf_exact.py project_exact_up/dw'),
      ('start vectors of the recursion', 'edpyt/gf_lanczos.py project_up/dw')])

prop('C11', 'Exact Green functions equal the Lehmann representation',
     'Green functions from a complete spectrum equal the Lehmann sum of electron and hole parts with '
     'Boltzmann weights divided by the partition function, diagonal and off-diagonal, for both spins, '
     'all sites, temperatures and complex frequencies. The Gf container evaluates the same numbers.',
     ['inputs'], 'all spectra, eigenvectors, temperatures and frequencies within the bound',
     'Tests compare plots or one system; weights and signs enter only with several thermal states.',
     ['edpyt/gf_exact.py', 'edpyt/gf2_exact.py'],
     [('pole and residue collection', 'edpyt/gf_exact.py build_gf_exact')])

prop('C12', 'Lanczos Green functions combine every thermal excitation correctly',
     'For every set of retained states, the Lanczos Green function is the Boltzmann-weighted sum of '
     'the recursion fractions started from c|state> and c+|state>, with the shift and sign of the '
     'definition, normalised by the partition function, for both representations, spins, merged or '
     'separate parts and off-diagonal elements. The eigenspace passed in is not modified.',
     ['inputs', 'configurations'], 'all states, parameters, coefficients and frequencies within the bound',
     'Thermal weights, vanishing excitations and small arrival sectors need particular eigenspaces.',
     ['edpyt/gf_lanczos.py', 'edpyt/gf2_lanczos.py'],
     [('assembly over sectors and states', 'edpyt/gf_lanczos.py build_gf_lanczos'),
      ('off-diagonal combination', 'edpyt/gf2_lanczos.py build_gf_offdiag')])

prop('C13', 'The continued-fraction kernel is exact, causal and race-free',
     'The compiled kernel returns b0/(z-a0-b1/(z-a1-...)) for every coefficient list and frequency '
     'array, leaves its arguments unchanged and has independent parallel iterations. With '
     'non-negative weights the result has non-positive imaginary part in the upper half plane.',
     ['inputs', 'schedules'], 'all coefficients, frequencies and iteration orders within the bound',
     'The test compares one random list; depth-one lists, scalars and races are not covered.',
     ['edpyt/continued_fraction.pyx'],
     [('backward recurrence in a parallel loop', 'edpyt/continued_fraction.pyx')],
     technique=MIXED)
