"""C26: the command line."""
import os
import subprocess
import sys
import numpy as np
from hv import work, gen, sut, audit, obs
from hv.checks import c05
BUILD = None
RULE = ('"python -m hyvr" in a fresh process, from another directory, with absolute and relative file names, with and without --overwrite (before '
        'or after the file name), for valid, invalid and missing files and for existing and new run directories; (fault) with files limited to a random size, so that a write fails at a random point; (library) with a missing library that only one of several formats needs; (locale) with names outside of ASCII under a locale that is not UTF-8, and the backup used again; (testcase) without a file name, in a package that has its test case: '
        'all outputs are written to a temporary place, and nothing is left: status 0 exactly when the '
        'results are complete, otherwise a non-zero status with a message on standard error and untouched files; distinct by situation')
ASSUMPTIONS = ['models of sheets only, which need no compiled parts']


def cases(tier, seed):
    n = work.n_cases(tier, 192, 2400)
    kinds = ['new', 'exists', 'overwrite', 'overwrite', 'option', 'invalid', 'missing', 'option_flag', 'invalid_overwrite', 'deny_flag', 'usage', 'fault', 'fault', 'library', 'locale', 'testcase']
    return [dict(seed='C26/%s/%d' % (seed, i), kind=kinds[i % len(kinds)]) for i in range(n)]


def sizes(d):
    out = {}
    for q, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(q, f)
            out[os.path.relpath(p, d)] = os.path.getsize(p)
    return out


def complete(f, size):
    try:
        if f.endswith('.npz'):
            return bool(obs.load_npz(f))
        if f.endswith('.mat'):
            import scipy.io
            return bool(scipy.io.loadmat(f))
        if f.endswith('.pickle'):
            import pickle
            with open(f, 'rb') as h:
                pickle.load(h)
            return True
        if f.endswith('.vtr'):
            with open(f, 'rb') as h:
                return h.read().rstrip().endswith(b'</VTKFile>')
        return os.path.getsize(f) == size
    except Exception:
        return False


def fault(r, spec, base, rundir, args, cwd, env, m):
    """a write fails: the status must tell"""
    import shutil
    cmd = [sys.executable, '-B', '-m', 'hyvr'] + args
    kw = dict(cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
    p = subprocess.run(cmd, **kw)
    st = {'processes': 2, 'faults': 1}
    if p.returncode != 0:
        m.add('a valid model gives status %d: %s', p.returncode, p.stderr[-400:])
        return {'violations': m, 'stats': st}
    full = sizes(rundir)
    big = sorted(set(full.values()))
    shutil.rmtree(rundir)
    # somewhere in or just below one of the files
    lim = r.choice([big[0] // 2, r.choice(big) - 1, r.choice(big) - 1, r.choice(big) // 2, r.randint(1, big[-1]), big[-1] - 1])
    lim = max(lim, 1)

    def limit():
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
    p = subprocess.run(cmd, preexec_fn=limit, **kw)
    got = sizes(rundir) if os.path.isdir(rundir) else {}
    short = sorted(f for f in full if not complete(os.path.join(rundir, f), full[f])) if p.returncode == 0 else []
    st['faults_seen'] = int(p.returncode != 0)
    if p.returncode == 0 and short:
        m.add('files limited to %d bytes: status 0, but %s are incomplete (%s of %s bytes)', lim, short[:3], [got.get(f) for f in short[:3]],
              [full[f] for f in short[:3]])
    if p.returncode < 0:
        m.add('files limited to %d bytes: killed by signal %d', lim, -p.returncode)
    if p.returncode > 0 and not p.stderr.strip():
        m.add('files limited to %d bytes: failed without a message on standard error', lim)
    return {'violations': m, 'stats': st, 'sig': ['fault', lim, p.returncode],
            'sample': {'kind': 'fault', 'limit': lim, 'sizes': full, 'status': p.returncode, 'stderr': p.stderr.strip()[-120:]}}


LIB = {'h5': 'h5py', 'vtr': 'pyevtk', 'mf': 'flopy'}


def library(r, spec, tmp, ini, cwd, m):
    """a format whose library is missing is left out, everything else is written"""
    bad = r.choice(sorted(LIB))
    outs = ['npz', 'py', 'mat', bad]
    r.shuffle(outs)
    spec['run'].update(outputs=outs, runname='r', numsim=r.choice([1, 2]), overwrite_old_output=None)
    spec['model']['hydraulics'] = True
    gen.write(spec, ini, r)
    lib = os.path.join(tmp, 'lib')
    os.makedirs(os.path.join(lib, LIB[bad]))
    with open(os.path.join(lib, LIB[bad], '__init__.py'), 'w') as f:
        f.write('raise ImportError("No module named %s")\n' % LIB[bad])
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'HV_EXT')}
    env['PYTHONPATH'] = lib + os.pathsep + sut.REPO
    p = subprocess.run([sys.executable, '-B', '-m', 'hyvr', ini], cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
    st = {'processes': 1, 'missing_library': 1}
    rundir = os.path.join(os.path.dirname(ini), 'r')
    n = spec['run']['numsim']
    lost = []
    for i in range(n):
        q = rundir if n == 1 else os.path.join(rundir, 'real_%03d' % (i + 1))
        for x in ('npz', 'pickle', 'mat'):
            f = os.path.join(q, 'r.' + x)
            if not os.path.isfile(f) or not complete(f, 0):
                lost.append(os.path.relpath(f, rundir))
    if p.returncode != 0 or lost:
        m.add('%d realizations, outputs %s without the library %s: status %d, missing %s: %s', n, outs, LIB[bad], p.returncode, lost, p.stderr[-300:])
    elif LIB[bad] not in p.stderr:
        m.add('outputs %s without the library %s: no message', outs, LIB[bad])
    return {'violations': m, 'stats': st, 'sig': ['library', outs, n], 'sample': {'kind': 'library', 'missing': LIB[bad], 'outputs': outs}}


def renamed(v, names):
    if isinstance(v, dict):
        return {renamed(k, names): renamed(w, names) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [renamed(w, names) for w in v]
    return names.get(v, v) if isinstance(v, str) else v


def foreign_locale(r, spec, tmp, cwd, m):
    """parameter files are UTF-8 whatever the locale is"""
    d = os.path.join(tmp, 'loc')
    os.makedirs(d)
    spec['run'].update(runname='r', numsim=1, outputs=['npz'], overwrite_old_output=r.choice([None, True]))
    old = list(spec['hyd']['hydrofacies']) + [s['name'] for s in spec['strata']] + ([n for n in spec['elements'] if n != 'sheet'] if r.random() < 0.5 else [])
    spec = dict(renamed({k: v for k, v in spec.items() if k not in ('run', 'model', 'grid', 'seed')},
                        {n: r.choice([n + '\u00e9', '\u00fc' + n, n + '\u6c34', n]) for n in old}),
                **{k: spec[k] for k in ('run', 'model', 'grid', 'seed')})
    ini = os.path.join(d, 'm.ini')
    gen.write(spec, ini, r)
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'HV_EXT', 'LANG') and not k.startswith('LC_')}
    env.update(PYTHONPATH=sut.REPO, PYTHONIOENCODING='utf-8', LC_ALL=r.choice(['C', 'POSIX']), PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    st = {'processes': 0}
    back = os.path.join(d, 'r', 'r_autogenerated_backup.ini')
    again = os.path.join(tmp, 'again')
    os.makedirs(again)
    first = None
    for f in (ini, os.path.join(again, 'n.ini')):
        if f != ini:
            if not os.path.isfile(back):
                m.add('no backup under the locale %s', env['LC_ALL'])
                break
            with open(back, 'rb') as i, open(f, 'wb') as o:
                o.write(i.read())
        p = subprocess.run([sys.executable, '-B', '-m', 'hyvr', f], cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                           encoding='utf-8', errors='replace', timeout=100)
        st['processes'] += 1
        res = os.path.join(os.path.dirname(f), 'r', 'r.npz')
        if p.returncode != 0 or not complete(res, 0):
            m.add('%s under the locale %s: status %d: %s', 'first run' if f == ini else 'run of the backup', env['LC_ALL'], p.returncode, p.stderr[-300:])
            break
        D = obs.load_npz(res)
        if first is not None and (set(D) != set(first) or any(D[k].shape != first[k].shape for k in D)):
            m.add('the backup describes another model')
        first = D
    return {'violations': m, 'stats': st, 'sig': ['locale', env['LC_ALL'], len(old)], 'sample': {'kind': 'locale', 'locale': env['LC_ALL'], 'names': len(old)}}


WATCH = """
import os, sys
TOP, LOG = os.environ['HV_TOP'], os.environ['HV_LOG']
log = os.open(LOG, os.O_WRONLY | os.O_CREAT | os.O_APPEND)


def hook(event, args):
    if event == 'open' and isinstance(args[0], str) and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR):
        p = os.path.realpath(args[0])
        if p != os.devnull:
            os.write(log, ('write %s\\n' % p).encode())
    elif event in ('shutil.rmtree', 'os.remove', 'os.rmdir', 'os.rename'):
        p = os.path.realpath(os.fspath(args[0])) if not isinstance(args[0], int) else ''
        if len(args) > 1 and isinstance(args[1], int) and args[1] >= 0 and not os.path.isabs(os.fspath(args[0])):
            return                    # relative to a directory that is being removed
        if not p.startswith(TOP + os.sep):
            os.write(log, ('outside %s\\n' % p).encode())
            raise PermissionError('monitor: ' + p)


sys.addaudithook(hook)
"""


def testcase(r, spec, tmp, cwd, m):
    """without a file name, the test case that comes with the package is run, and leaves nothing"""
    import shutil
    pkg, t, mon = (os.path.join(tmp, x) for x in ('pkg', 't', 'mon'))
    for q in (t, mon):
        os.makedirs(q)
    shutil.copytree(os.path.join(sut.REPO, 'hyvr'), os.path.join(pkg, 'hyvr'), ignore=shutil.ignore_patterns('*.c', '*.so', '__pycache__'))
    n = spec['run']['numsim']
    spec['run'].update(runname='tc', overwrite_old_output=r.choice([None, True]))
    bad = r.random() < 0.3
    text = gen.render(spec, r)
    if bad:
        what, text = c05.spoil(r, spec, text)
    with open(os.path.join(pkg, 'hyvr', 'made.ini'), 'w', encoding='utf-8') as f:
        f.write(text)
    with open(os.path.join(mon, 'sitecustomize.py'), 'w') as f:
        f.write(WATCH)
    log = os.path.join(mon, 'log')
    # a directory of the same name, where a run of that name would go
    for q in (os.path.join(pkg, 'hyvr', 'tc'), os.path.join(cwd, 'tc'), os.path.join(t, 'tc')):
        if r.random() < 0.5:
            c05.clutter(r, q, [])
    before = [audit.snapshot(q) for q in (pkg, t, cwd)]
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'HV_EXT')}
    env.update(PYTHONPATH=mon + os.pathsep + pkg, TMPDIR=t, HV_TOP=os.path.realpath(tmp), HV_LOG=log)
    args = r.choice([[], ['--overwrite']])
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'hyvr'] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True,
                       text=True, timeout=100)
    st = {'processes': 1, 'testcases': 1}
    with open(log) as f:
        ev = f.read().splitlines()
    written = [e.split(' ', 1)[1] for e in ev if e.startswith('write ')]
    out = [e.split(' ', 1)[1] for e in ev if e.startswith('outside ')]
    if out:
        m.add('test case: tried to remove %s', out[:3])
    if bad:
        if p.returncode == 0 or not p.stderr.strip():
            m.add('invalid test case (%s): status %d, message %r', what, p.returncode, p.stderr[-200:])
    elif p.returncode != 0:
        m.add('test case: status %d: %s', p.returncode, p.stderr[-400:])
    else:
        for o in spec['run']['outputs']:
            name = 'tc' + {'npz': '.npz', 'mat': '.mat', 'py': '.pickle', 'vtr': '.vtr'}[o]
            dirs = {os.path.dirname(w) for w in written if os.path.basename(w) == name}
            if len(dirs) != n:
                m.add('test case: the output %s of %d realizations was written to %d places', o, n, len(dirs))
            if any(not d.startswith(os.path.realpath(t) + os.sep) for d in dirs):
                m.add('test case: the output %s was not written to a temporary place', o)
        st['testcase_outputs'] = len(written)
    for q, b in zip((pkg, t, cwd), before):
        ch = audit.diff(b, audit.snapshot(q))
        if ch and not (bad and q == t):
            m.add('test case: %s', ch[:3])
    return {'violations': m, 'stats': st, 'sig': ['testcase', bad, n, args, spec['run']['outputs']],
            'sample': {'kind': 'testcase', 'arguments': args, 'status': p.returncode, 'files_written': len(written)}}


def run_case(case, tmp):
    r = work.rnd(case)
    m = work.Msgs()
    kind = case['kind']
    numsim = r.choice([1, 1, 2])
    spec = gen.make(case['seed'], size='tiny', geometries=('sheet',), numsim=numsim, outputs=['npz'] + r.sample(['mat', 'py', 'vtr'], r.randint(0, 2)))
    run = spec['run']
    run['overwrite_old_output'] = {'option': True, 'option_flag': True, 'deny_flag': False}.get(kind)
    base = os.path.join(tmp, 'w')
    cwd = os.path.join(base, 'cwd')
    d = r.choice([cwd, os.path.join(base, 'ini')])
    os.makedirs(cwd)
    os.makedirs(d, exist_ok=True)
    name = r.choice(['model.ini', 'my model.ini', 'x.y.ini'])
    ini = os.path.join(d, name)
    text = gen.render(spec, r)
    if kind.startswith('invalid'):
        what, text = c05.spoil(r, spec, text)
    if kind != 'missing':
        with open(ini, 'w', encoding='utf-8') as f:
            f.write(text)
    if kind == 'library':
        return library(r, spec, tmp, ini, cwd, m)
    if kind == 'testcase':
        return testcase(r, spec, tmp, cwd, m)
    if kind == 'locale':
        return foreign_locale(r, spec, tmp, cwd, m)
    rundir = os.path.join(d, run['runname'])
    if kind not in ('new', 'missing', 'usage', 'fault') and not (kind == 'invalid' and r.random() < 0.3):
        c05.clutter(r, rundir, [])
    c05.clutter(r, os.path.join(d, 'sibling'), [])
    before = audit.snapshot(base)
    flag = ['--overwrite'] if kind in ('overwrite', 'option_flag', 'invalid_overwrite', 'deny_flag') or (kind in ('new', 'missing') and r.random() < 0.4) else []
    fn = r.choice([ini, os.path.relpath(ini, cwd)])
    args = [fn] + flag if r.random() < 0.5 else flag + [fn]
    if kind == 'usage':
        args = r.choice([['--no-such-option', fn], [fn, 'second.ini'], ['--overwrite=maybe', fn]])
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'HV_EXT')}
    env['PYTHONPATH'] = sut.REPO
    if kind == 'fault':
        return fault(r, spec, base, rundir, args, cwd, env, m)
    p = subprocess.run([sys.executable, '-B', '-m', 'hyvr'] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
    after = audit.snapshot(base)
    ok = kind in ('new', 'overwrite', 'option', 'option_flag', 'deny_flag')
    st = {'processes': 1, 'success' if ok else 'failure': 1}
    rel = os.path.relpath(rundir, base)
    ch = audit.diff(before, after)
    foreign = [c for c in ch if not (c.startswith(rel + os.sep) or c == rel + ' was created')]
    if foreign:
        m.add('%s: outside of the run directory %s', kind, foreign[:3])
    if ok:
        if p.returncode != 0:
            m.add('%s, arguments %s: status %d: %s', kind, args, p.returncode, p.stderr[-400:])
        else:
            want = {os.path.join(rel, run['runname'] + '_autogenerated_backup.ini')}
            for i in range(numsim):
                q = rel if numsim == 1 else os.path.join(rel, 'real_%03d' % (i + 1))
                if numsim > 1:
                    want.add(q)
                for o in run['outputs']:
                    f = os.path.join(q, run['runname'] + {'npz': '.npz', 'mat': '.mat', 'py': '.pickle', 'vtr': '.vtr'}[o])
                    want.add(f)
                    if o == 'npz' and f in after:
                        g = spec['grid']
                        D = obs.load_npz(os.path.join(base, f))
                        st['arrays'] = st.get('arrays', 0) + len(D)
                        if D['facies'].shape != (g['nx'], g['ny'], g['nz']):
                            m.add('%s: wrong shape of the results', kind)
            got = {q for q in after if q.startswith(rel + os.sep)}
            if got != want:
                m.add('%s: status 0, but the run directory has %s and lacks %s', kind, sorted(got - want)[:4], sorted(want - got)[:4])
    else:
        if p.returncode == 0:
            m.add('%s, arguments %s: status 0', kind, args)
        elif p.returncode < 0:
            m.add('%s: killed by signal %d', kind, -p.returncode)
        if not p.stderr.strip():
            m.add('%s: failed without a message on standard error', kind)
        if ch:
            m.add('%s, arguments %s: failed, but %s', kind, args, ch[:3])
    return {'violations': m, 'stats': st, 'sig': [kind, bool(flag), fn == ini, d == cwd, numsim, p.returncode],
            'sample': {'kind': kind, 'arguments': [a if a.startswith('-') else os.path.basename(a) for a in args], 'status': p.returncode,
                       'stderr': p.stderr.strip()[-120:]}}
