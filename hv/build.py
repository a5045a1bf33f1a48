"""Compile the Cython parts of /repo's *current working tree* into a scratch
directory.  Nothing is ever written below /repo.

Every ``hyvr/geo/X.pyx`` that has no ``X.py`` next to it is a module that only
exists after compilation.  The scratch directory is appended to
``hyvr.geo.__path__`` by the workers (hv/sut.py).

variants
  plain   : as a user would build it (-O1)
  checked : Cython's own bounds/wraparound/None checks forced on
  asan    : checked + gcc AddressSanitizer + UndefinedBehaviorSanitizer
"""
import os
import re
import subprocess
import sys
import sysconfig

REPO = os.environ.get('HV_REPO', '/repo')
PY = sys.executable


class BuildError(Exception):
    pass


def sources():
    geo = os.path.join(REPO, 'hyvr', 'geo')
    out = []
    for f in sorted(os.listdir(geo)):
        if f.endswith('.pyx') and not os.path.exists(os.path.join(geo, f[:-4] + '.py')):
            out.append(f[:-4])
    return out


def build(dest, variant='plain'):
    """returns the directory holding the compiled modules"""
    import numpy
    os.makedirs(dest, exist_ok=True)
    incs = ['-I' + sysconfig.get_path('include'), '-I' + numpy.get_include()]
    flags = {'plain': ['-O1'],
             'checked': ['-O1'],
             'asan': ['-O1', '-g', '-fno-omit-frame-pointer',
                      '-fsanitize=address,undefined',
                      '-fno-sanitize=alignment', '-fsanitize-recover=undefined']}[variant]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    procs = []
    for m in sources():
        src = os.path.join(REPO, 'hyvr', 'geo', m + '.pyx')
        opts = []
        if variant != 'plain':
            # function decorators in the source switch the checks off: rewrite
            # them in a scratch copy
            txt = open(src).read()
            txt = re.sub(r'boundscheck\(False\)', 'boundscheck(True)', txt)
            txt = re.sub(r'nonecheck\(False\)', 'nonecheck(True)', txt)
            d = os.path.join(dest, 'src')
            os.makedirs(d, exist_ok=True)
            src = os.path.join(d, m + '.pyx')
            with open(src, 'w') as f:
                f.write(txt)
            opts = ['-X', 'boundscheck=True', '-X', 'nonecheck=True', '-X', 'initializedcheck=True']
        c = os.path.join(dest, m + '.c')
        so = os.path.join(dest, m + '.so')
        cy = ' '.join([PY, '-m', 'cython', '-3', '-w', REPO, '--module-name', 'hyvr.geo.' + m] + opts
                      + ['-o', c, src])
        gc = ' '.join(['gcc'] + flags + ['-w', '-fPIC', '-shared'] + incs + [c, '-o', so])
        procs.append((m, subprocess.Popen(['bash', '-c', cy + ' && ' + gc], env=env, cwd=dest,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = []
    for m, p in procs:
        out, _ = p.communicate(timeout=600)
        if p.returncode:
            bad.append((m, out.decode(errors='replace')[-2000:]))
    if bad:
        raise BuildError('\n'.join('%s:\n%s' % b for b in bad))
    return dest
