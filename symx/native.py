"""Builds the repository's Cython extensions for the interpreter running the
checks, so that counterexamples are replayed on compiled code as well."""
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

import numpy as np

from . import world as _world

SPEC = {'_psparse': (['edpyt/psparse.pyx'], ['edpyt/cs_gaxpy.c', 'edpyt/cs.h']),
        '_continued_fraction': (['edpyt/continued_fraction.pyx'], [])}
_cache = {}


def ext(name):
    """Compiled extension module, or None when it does not build here."""
    if name in _cache:
        return _cache[name]
    pyx, extra = SPEC[name]
    hsh = hashlib.sha1()
    for f in pyx + extra:
        with open(os.path.join(_world.REPO, f), 'rb') as fh:
            hsh.update(fh.read())
    d = os.path.join(tempfile.gettempdir(), 'symx_native_%d_%s_%s' % (os.getuid(), name,
                                                                     hsh.hexdigest()[:16]))
    so = os.path.join(d, name + '.so')
    try:
        if not os.path.exists(so):
            t = tempfile.mkdtemp(prefix='symx_build_')
            try:
                src = os.path.join(t, name + '.pyx')
                shutil.copy(os.path.join(_world.REPO, pyx[0]), src)
                cs = []
                for f in extra:
                    shutil.copy(os.path.join(_world.REPO, f), t)
                    if f.endswith('.c'):
                        cs.append(os.path.join(t, os.path.basename(f)))
                subprocess.run([sys.executable, '-m', 'cython', src], check=True, cwd=t,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-w', '-fopenmp',
                                '-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(),
                                '-I' + t, os.path.join(t, name + '.c')] + cs +
                               ['-o', os.path.join(t, name + '.so')], check=True,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.makedirs(d, exist_ok=True)
                os.replace(os.path.join(t, name + '.so'), so)
            finally:
                shutil.rmtree(t, ignore_errors=True)
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    except Exception:
        m = None
    _cache[name] = m
    return m
