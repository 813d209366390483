
LLVM = 'symbolic execution of LLVM IR compiled from the C sources + SMT (z3)'

prop('C18', 'The Python bath fit minimises the true distance with its exact gradient',
     'The objective handed to the minimiser is the mean squared distance between the bath '
     'hybridisation and the target at the Matsubara frequencies and the gradient is its exact '
     'derivative, in any order of evaluations. The result is stored in place. The initial bath is '
     'symmetric, ascending and spans the bandwidth.',
     ['inputs', 'histories'], 'all parameters, targets, temperatures, bandwidths and call orders within the bound',
     'A wrong gradient or a stale buffer still converges somewhere; tests never fit in Python.',
     ['edpyt/fit_cg.py'],
     [('objective and gradient over shared buffers', 'edpyt/fit_cg.py Chi2, dChi2')])

prop('C19', 'The C bath fit evaluates the true objective and gradient safely',
     'The objective and gradient of the C fit are the mean squared distance to the target at the '
     'Matsubara frequencies and its exact derivative, in any order of evaluations. The parameters '
     'passed to an evaluation are not changed, no access leaves its buffer and all memory is released.',
     ['inputs', 'histories'], 'all parameters, targets and call orders within the bound',
     'The C tests compare one fit; buffer overruns and leaks do not show in it.',
     ['edpyt_backend/bath.c', 'edpyt_backend/fit.c', 'edpyt_backend/util.c'],
     [('objective', 'edpyt_backend/bath.c'), ('buffers', 'edpyt_backend/fit.c')], technique=LLVM)

prop('C20', 'C and Python fits start from the same, fully defined bath',
     'The C initial bath sets every parameter and equals the Python initial bath for every number of '
     'bath sites and bandwidth. The Python wrappers of the C fit pass defined start parameters, '
     'matching sizes and the target in the expected layout, and return the parameters found.',
     ['inputs', 'configurations'], 'every number of bath sites and bandwidth within the bound',
     'Odd and tiny baths take separate branches; reading unset memory often looks fine.',
     ['edpyt_backend/bath.c', 'edpyt_backend/fit_wrap.py', 'edpyt/fit_cffi.py', 'edpyt/fit_cg.py'],
     [('initial bath', 'edpyt_backend/bath.c init_bath'), ('wrapper', 'edpyt_backend/fit_wrap.py')],
     technique=LLVM)

prop('C21', 'The C minimiser never worsens the fit and reports what it returns',
     'For every objective, bracketing returns a valid bracket, the line minimisation returns the best '
     'point it evaluated inside it, and the conjugate-gradient loop searches along Polak-Ribiere '
     'directions from the current gradient and stops only when converged or stationary. The reported '
     'value belongs to the returned parameters and memory is released.',
     ['inputs', 'histories'], 'all objectives, over all branch histories within the bound',
     'A minimiser that loses its best point still ends; only the history shows it.',
     ['edpyt_backend/mnbrak.c', 'edpyt_backend/dbrent.c', 'edpyt_backend/dlinmin.c',
      'edpyt_backend/frprmn.c', 'edpyt_backend/f1dim.c', 'edpyt_backend/df1dim.c'],
     [('line search', 'edpyt_backend/dbrent.c'), ('conjugate gradients', 'edpyt_backend/frprmn.c')],
     technique=LLVM)
