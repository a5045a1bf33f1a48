"""C06: where results are stored, and which."""
import builtins
import os
import random
import re
import sys
import warnings
import numpy as np
from hv import work, gen, sut, audit, obs
BUILD = None
RULE = ('random models with 1 to 12 realizations, any subset of the output formats, with and without a run name, model directory (absolute, '
        'relative, chosen at the prompt), hydraulics switched on and off, and odd file names, byte order marks and line ends; in part of the cases a library that one format needs is missing; the tree found afterwards is exactly that of the '
        'documentation, every array has the shape of the grid, and the backup file describes the same run: executing it with the same seed '
        'gives the same arrays; distinct by layout')
ASSUMPTIONS = ['contents of the flow-model directories are the subject of C08']
EXT = {'npz': '.npz', 'mat': '.mat', 'py': '.pickle', 'h5': '.h5', 'vtr': '.vtr'}
DIRS = {'mf': 'MODFLOW', 'mf6': 'mf6', 'hgs': 'HGS'}
GEO = {'strata', 'ae', 'facies', 'ha', 'ha_arr', 'azim', 'dip'}
HYD = {'k_iso', 'poros', 'anirat', 'ktensors'}


def cases(tier, seed):
    return work.seeds('C06', seed, work.n_cases(tier, 500, 4000))


def run_case(case, tmp):
    hyvr = sut.load()
    r = work.rnd(case)
    m = work.Msgs()
    numsim = r.choice([1, 1, 1, 2, 2, 3, 4, 12])
    hyd = r.random() < 0.8
    pool = ['npz', 'mat', 'py', 'h5', 'vtr', 'npz'] + (['mf', 'mf6', 'hgs'] if hyd else [])
    outs = list(dict.fromkeys(r.sample(pool, r.randint(0, min(4, len(pool))))))
    if r.random() < 0.08:
        outs = list(dict.fromkeys(r.sample(pool, len(pool))))
        numsim = min(numsim, 2)
    elif r.random() < 0.03:
        numsim, outs = r.choice([101, 110, 125] + [1001] * (r.random() < 0.4)), ['npz']
    if numsim > 4:
        outs = [o for o in outs if o not in ('mf', 'mf6')]
    spec = gen.make(case['seed'], size='tiny', geometries=('sheet',), numsim=numsim, outputs=outs)
    spec['model']['hydraulics'] = hyd
    run = spec['run']
    if not outs and r.random() < 0.5:
        run['outputs'] = None
    if numsim == 1 and r.random() < 0.5:
        run['numsim'] = None
    if not ({'mf', 'mf6', 'hgs'} & set(outs)) and r.random() < 0.3:
        spec['flowtrans'] = None
    ininame = r.choice(['model.ini', 'a.b.ini', 'my_parameters.ini', 'with space.ini', 'UPPER.ini', 'backup.ini', 'autogen_backup.ini', 'under_.ini', '_m.ini', 'm__.ini', 'x_autogenerated_y.ini'])
    named = r.random() < 0.5
    run['runname'] = r.choice(['r', 'my.run', 'Run_1', 'x-y', 'ünï', '.hidden', 'v1.', '..x', '-o', '~r', "it's", 'a #1', 'b ;c']) if named else None
    runname = run['runname'] or ininame[:-4]
    if {'mf', 'mf6'} & set(outs) and not runname.isalnum():
        runname = run['runname'] = 'r'      # names that flow models accept
    base = os.path.join(tmp, 'w')
    work_dir = os.path.join(base, 'cwd')
    inidir = os.path.join(base, 'ini')
    os.makedirs(work_dir)
    os.makedirs(inidir)
    where = r.choice(['default', 'default', 'absolute', 'relative', 'select', 'select_default'])
    modeldir = inidir
    answer = None
    if where == 'absolute':
        modeldir = run['modeldir'] = os.path.join(base, 'new', 'dir')
    elif where == 'relative':
        run['modeldir'] = os.path.join('rel', 'dir')
        modeldir = os.path.join(work_dir, 'rel', 'dir')
    elif where == 'select':
        run['modeldir'] = 'select'
        modeldir = answer = os.path.join(base, 'typed', 'in')
        if r.random() < 0.5:
            answer = r.choice(['m', '7', '.', 'sub', os.path.join('sub', 'd'), '..'])
            modeldir = os.path.normpath(os.path.join(work_dir, answer))
    elif where == 'select_default':
        run['modeldir'] = 'select'
        answer = ''
    inifile = os.path.join(inidir, ininame)
    gen.write(spec, inifile, r)
    before = audit.snapshot(base)
    asked = []
    orig = builtins.input
    seed = work.npseed(case)

    def fake(prompt=''):
        asked.append(prompt)
        if answer is None:
            raise EOFError('unexpected question')
        return answer
    builtins.input = fake
    cwd = os.getcwd()

    # a library that only one of the formats needs may be missing
    lib = {'h5': ['h5py'], 'vtr': ['pyevtk', 'pyevtk.hl'], 'mf': ['flopy'], 'mf6': ['flopy']}
    lost = [o for o in outs if o in lib]
    lost = [r.choice(lost)] if lost and r.random() < 0.2 else []
    blocked = lib[lost[0]] if lost else []
    lost = [o for o in outs if blocked and lib.get(o) == blocked]

    def go(f, flag=None):
        np.random.seed(seed)
        random.seed(seed)
        saved = {k: sys.modules.get(k) for k in blocked}
        try:
            for k in blocked:
                sys.modules[k] = None
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                sut.call(hyvr.run, f, flag)
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        return [str(x.message) for x in w]
    try:
        os.chdir(work_dir)
        arg = inifile
        if r.random() < 0.3:
            arg = os.path.relpath(inifile, work_dir)
        warned = go(arg)
    finally:
        os.chdir(cwd)
        builtins.input = orig
    after = audit.snapshot(base)
    rundir = os.path.join(modeldir, runname)
    rel = os.path.relpath(rundir, base)
    new = {p for p in after if p not in before}
    bad = [d for d in audit.diff(before, after) if not d.endswith('was created')]
    if bad:
        m.add('the run changed %s', bad[:3])
    want = {os.path.join(rel, runname + '_autogenerated_backup.ini')}
    q = rel
    while q:
        if q not in before:
            want.add(q)
        q = os.path.dirname(q)
    reals = []
    st = {'files': len(new), 'realizations': numsim, 'arrays': 0, 'without_library': 0}
    for i in range(numsim):
        d = rel
        if numsim > 1:
            d = os.path.join(rel, 'real_%03d' % (i + 1))
            want.add(d)
        reals.append(d)
        for o in outs:
            if o in lost:
                # nothing, or everything if the library had been loaded before
                q = os.path.join(d, runname + EXT[o] if o in EXT else DIRS[o])
                there = {p for p in new if p == q or p.startswith(q + os.sep)}
                if not there and not warned:
                    m.add('output %s is missing without a warning', o)
                want |= there
                st['without_library'] += 1
            elif o in EXT:
                want.add(os.path.join(d, runname + EXT[o]))
            else:
                want.add(os.path.join(d, DIRS[o]))
                if o == 'hgs':
                    want |= {os.path.join(d, 'HGS', x) for x in ('ktensors.txt', 'porosity.txt')}
                else:
                    inside = {p for p in new if p.startswith(os.path.join(d, DIRS[o]) + os.sep)}
                    if not inside:
                        m.add('the directory %s of realization %d is empty', DIRS[o], i + 1)
                    want |= inside
    if new != want:
        m.add('%d realizations, outputs %s, %s: there is %s, missing is %s', numsim, outs, where, sorted(new - want)[:5], sorted(want - new)[:5])
    if m:
        return {'violations': m, 'stats': st}
    g = spec['grid']
    shape = (g['nx'], g['ny'], g['nz'])
    first = []
    for d in reals:
        if 'npz' in outs:
            D = obs.load_npz(os.path.join(base, d, runname + '.npz'))
            keys = GEO | (HYD if hyd else set())
            if not keys <= set(D) and not (keys - {'ha', 'ha_arr'}) <= set(D):
                m.add('arrays %s are missing', sorted(keys - set(D)))
            if not hyd and HYD & set(D):
                m.add('hydraulic arrays although hydraulics are switched off')
            for k, v in D.items():
                st['arrays'] += 1
                if v.shape[:3] != shape:
                    m.add('array %s has shape %s on a grid of %s', k, v.shape, shape)
            first.append(D)
    # the backup file describes the run
    if 'npz' in outs and where in ('default', 'absolute') and not m:
        moved = r.random() < 0.4
        if moved:
            # the directory may get another name and place
            new = os.path.join(base, r.choice(['moved', 'Other.name', 'x y', runname + '2']))
            os.rename(rundir, new)
            rundir = new
            st['moved'] = 1
            here = os.listdir(base)
        backup = os.path.join(rundir, runname + '_autogenerated_backup.ini')
        name2 = runname
        if r.random() < 0.3:
            # and so may the file; its name only counts where none is given inside
            kept = r.choice(['kept', 'other.name', 'a_b', 'my'])
            os.rename(backup, os.path.join(rundir, kept + '_autogenerated_backup.ini'))
            backup = os.path.join(rundir, kept + '_autogenerated_backup.ini')
            with open(backup, encoding='utf-8-sig') as f:
                name2 = runname if re.search(r'(?m)^\s*runname\s*[=:]\s*\S', f.read()) else kept
            st['renamed'] = 1
        try:
            go(backup, True)
        except sut.SUTError as e:
            m.add('rerunning the backup file failed: %s', e)
            return {'violations': m, 'stats': st}
        st['reruns'] = 1
        if moved and sorted(os.listdir(base)) != sorted(here):
            m.add('rerunning the backup file in %s changed the directory above: %s instead of %s', os.path.basename(rundir), sorted(os.listdir(base)), sorted(here))
            return {'violations': m, 'stats': st}
        again = audit.snapshot(rundir)
        old = {os.path.relpath(p, rel) for p in after if p.startswith(rel + os.sep)}
        if name2 != runname:
            files = {runname + v for v in EXT.values()} | {runname + '_autogenerated_backup.ini'}
            flow = tuple(d + os.sep for d in ('MODFLOW', 'mf6'))

            def renamed(q):
                d, b = os.path.split(q)
                return os.path.join(d, name2 + b[len(runname):]) if b in files else q
            if any(f in q for q in old for f in flow):
                # (whose files have the name of the run)
                again = {k: v for k, v in again.items() if not any(f in k for f in flow)}
                old = {q for q in old if not any(f in q for f in flow)}
            old = {renamed(q) for q in old}
        if set(again) != old:
            m.add('rerunning the backup file gives %s', sorted(set(again) ^ old)[:5])
        else:
            for D, d in zip(first, reals):
                E = obs.load_npz(os.path.join(rundir, os.path.relpath(d, rel), name2 + '.npz'))
                for k in D:
                    if not np.array_equal(D[k], E[k], equal_nan=True):
                        m.add('rerunning the backup file with the same seed gives different %s', k)
            if after[os.path.join(rel, runname + '_autogenerated_backup.ini')] != again[name2 + '_autogenerated_backup.ini']:
                m.add('rerunning the backup file changes the backup file')
    return {'violations': m, 'stats': st, 'sig': [numsim, sorted(outs), where, ininame, named, hyd],
            'sample': {'seed': case['seed'], 'outputs': outs, 'realizations': numsim, 'modeldir': where, 'files': len(new)}}
