prop('C22', 'Sequential tunnelling rates equal the golden rule for every transition',
     'The sequential-tunnelling rate and current matrices contain, for every pair of many-body states '
     'that differ by one electron, exactly the golden-rule rate through every lead, and nothing '
     'elsewhere. Empty and full charge sectors are included and every transition has its reverse.',
     ['inputs', 'configurations'], 'all eigenvectors, spectra, leads and temperatures within the bound',
     'No test runs the transport modules; a missing transition or reversed lead still gives a current.',
     ['edpyt/sqtnl.py', 'edpyt/sqtunneling.py', 'edpyt/gf_exact.py'],
     [('transition elements', 'edpyt/sqtunneling.py build_transition_elements'),
      ('rate assembly', 'edpyt/sqtnl.py build_rate_and_current_matrices')])

prop('C23', 'Cotunnelling amplitudes sum all virtual electron and hole processes',
     'A cotunnelling amplitude is the coherent sum over all virtual states with one electron more and '
     'one less, with their fermionic signs and energy denominators, for every spin pair and sector. '
     'Rate and current matrices are assembled from the squared amplitudes and the thermal factor.',
     ['inputs', 'configurations'], 'all eigenvectors, spectra, energies, couplings and potentials within the bound',
     'No test covers cotunnelling; interference signs and edge sectors are invisible in totals.',
     ['edpyt/cotunneling.py', 'edpyt/cotnl.py', 'edpyt/gf_exact.py'],
     [('virtual states', 'edpyt/cotunneling.py project_add/project_sub'),
      ('amplitude', 'edpyt/cotunneling.py Gf2/Sigma')])

prop('C24', 'Cotunnelling integrals equal their closed forms including all interference',
     'The regularised energy integrals of single and interfering poles equal their closed forms for all '
     'pole positions, potentials and temperatures, including the zero-bias limit. Exact and numerical '
     'integration of a rate use the poles, weights and Fermi factors of its own amplitude.',
     ['inputs'], 'all weights, poles, potentials and temperatures within the bound',
     'Missing interference terms and wrong limits need particular poles and biases to show.',
     ['edpyt/integrals.py', 'edpyt/cotunneling.py', 'edpyt/cotnl.py'],
     [('closed forms', 'edpyt/integrals.py I1/I2/Gamma1/Gamma2/Gamma4'),
      ('rate integration', 'edpyt/cotnl.py Sigma.integrate')],
     note='One finding is recorded (default integration keeps the first virtual state only).')
