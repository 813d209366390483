prop('C30', 'Distributional ED fits, weights and averages its realisations correctly',
     'Every sampled pole set lies at the inverse cumulative distribution of the density; the Anderson '
     'model fitted to it has the sampled Green function; and self-energy, occupations and entropy are '
     'the averages over exactly the accepted realisations of each impurity, with the chemical potential '
     'and interaction of that realisation, in the single- and multi-orbital solvers.',
     ['inputs', 'histories', 'configurations'],
     'all poles, densities, couplings and acceptance patterns within the bound',
     'The solver is stochastic; a wrong weight or a leaked rejected realisation is lost in the noise.',
     ['edpyt/dedlib.py', 'edpyt/dedlib_dev.py'],
     [('fit', 'edpyt/dedlib.py Gf0/Gfimp.fit'), ('models', 'edpyt/dedlib.py build_siam/build_moam'),
      ('averages', 'edpyt/dedlib.py siam_solve/moam_solve, dedlib_dev.py ded_solve/ded_solve_multi')])

prop('C31', 'Printed and displayed spectra show every state with its own label',
     'The printed spectrum lists every eigenstate once, sorted by energy, with its sector and every '
     'amplitude next to the configuration it belongs to; a configuration is shown with the spins of '
     'each site, and the charge diagram draws each energy at its particle number.',
     ['inputs'], 'all configurations and energy orders within the bound',
     'Only visual output; a label paired with the wrong amplitude looks plausible.',
     ['edpyt/eshow.py'],
     [('configuration text', 'edpyt/eshow.py fock'), ('listing', 'edpyt/eshow.py eprint'),
      ('diagram', 'edpyt/eshow.py pdisplay')])
