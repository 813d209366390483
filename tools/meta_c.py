
prop('C14', 'Lanczos recursion returns the exact projection and start-vector basis',
     'For every operator and start vector the recursion returns the coefficients of the tridiagonal '
     'projection in the Krylov basis, stops exactly where that space ends or the energy settles, and '
     'the second pass returns the combinations of that basis; the block recursion and the LAPACK '
     'drivers return the requested eigenpairs.',
     ['inputs', 'histories'], 'all tridiagonal matrices, start norms and breakdown positions within the bound',
     'Early termination and breakdown need special start vectors; tests use random ones.',
     ['edpyt/lanczos.py', 'edpyt/tridiag.py'],
     [('three-term recurrence', 'edpyt/lanczos.py'), ('block recursion', 'edpyt/lanczos.py build_bd_tridiag')])

prop('C15', 'Occupations are Boltzmann averages of the number operators',
     'For every eigenspace the occupation of each site and spin is the thermal average of its number '
     'operator, normalised by the partition function, for either memory order of the eigenvectors, '
     'and computing it does not modify the eigenspace. Ground-state occupations and entropy weights '
     'follow the same definition.',
     ['inputs', 'configurations'], 'all eigenvectors, energies and temperatures within the bound',
     'Tests compare one system; memory order and several thermal sectors are not covered.',
     ['edpyt/observs.py', 'edpyt/espace.py'],
     [('number operator over both spins', 'edpyt/observs.py get_occupation')])

prop('C16', 'Spectrum bookkeeping keeps exactly the requested low-energy states',
     'Every sector is diagonalised with its own Hamiltonian and keeps the requested number of its '
     'lowest states. The ground energy is the global minimum, screening keeps exactly the states '
     'whose thermal weight exceeds the cutoff, and the requested numbers adapt to the states kept '
     'without losing sectors.',
     ['inputs', 'histories', 'configurations'], 'all spectra, cutoffs, counts and sectors within the bound',
     'Sector order, degenerate energies and adaptive counts come in combinations no test visits.',
     ['edpyt/espace.py', 'edpyt/eigh_arpack.py'],
     [('sector loop', 'edpyt/espace.py build_espace'), ('screening', 'edpyt/espace.py screen_espace')])

prop('C17', 'The ARPACK driver follows the protocol and reports the failing phase',
     'Each product requested by the reverse-communication interface is answered with the operator '
     'applied to the requested vector. The solver is asked for the lowest states with admissible '
     'dimensions, exactly the converged pairs are returned, and a failure of either phase is '
     'reported with that phase\'s own status.',
     ['inputs', 'histories', 'faults'], 'all request orders, vectors and status codes within the bound',
     'Failures and unusual request positions never occur in the tests.',
     ['edpyt/eigh_arpack.py'],
     [('reverse communication', 'edpyt/eigh_arpack.py eigsh')])
