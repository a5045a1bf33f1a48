"""C05: existing results are only ever replaced on request, and nothing else is."""
import os
import random
import numpy as np
from hv import work, gen, sut, audit
BUILD = None
RULE = ('random small models in a model directory with siblings, whose run directory already exists with a random tree of files, directories '
        'and links; all combinations of the overwrite argument (None/True/False) and the option of the file (absent/true/false); valid files, '
        'files with one of many kinds of errors, and reruns of the backup file inside its run directory; byte-wise snapshots before and after, '
        'and every file-system effect seen by an interpreter audit hook; distinct by tree, setting and outcome')
ASSUMPTIONS = ['effects made by C libraries below the interpreter are only seen through the snapshots']


def cases(tier, seed):
    n = work.n_cases(tier, 1200, 20000)
    kinds = ['keep', 'keep', 'replace', 'replace', 'invalid', 'backup', 'fresh']
    return [dict(seed='C05/%s/%d' % (seed, i), kind=kinds[i % len(kinds)]) for i in range(n)]


def clutter(r, d, outside, depth=0):
    """fill a directory with files, directories and links"""
    os.makedirs(d, exist_ok=True)
    for _ in range(r.randint(1, 5)):
        n = r.choice(['old', 'model', 'real_001', 'real_002', 'notes', '.hidden', 'x y', 'ünï', 'MODFLOW', 'run']) + \
            r.choice(['', '', '.npz', '.vtr', '.ini', '.txt', '_autogenerated_backup.ini'])
        p = os.path.join(d, n)
        if os.path.lexists(p):
            continue
        k = r.random()
        if k < 0.55:
            with open(p, 'wb') as f:
                f.write(bytes(r.randrange(256) for _ in range(r.randint(0, 40))))
        elif k < 0.75 and depth < 3:
            clutter(r, p, outside, depth + 1)
        elif k < 0.8:
            os.mkdir(p)
        elif outside:
            os.symlink(r.choice(outside + [os.path.join(d, 'nowhere')]), p)


ERRORS = ['facies', 'bgfacies', 'missing', 'value', 'shape', 'format', 'contact', 'section', 'structure', 'bool', 'unknown_ae', 'number',
          'geometry', 'lag', 'altfacies', 'undeclared']


def spoil(r, spec, text):
    """make the parameter file wrong: (kind, text)"""
    k = r.choice(ERRORS)
    s = gen.clone(spec)
    en = r.choice(list(s['elements']))
    e = s['elements'][en]
    if k == 'facies':
        e['facies'] = ['unheard_of']
        e['altfacies'] = None
    elif k == 'bgfacies':
        s['strata'][0]['bg_facies'] = 'unheard_of'
    elif k == 'missing':
        sec, opts = r.choice([('model', ['dx', 'lx', 'ly', 'lz']), ('hyd', ['k_h', 'hydrofacies', 'n', 'sig_y', 'k_ratio'])])
        s[sec].pop(r.choice(opts))
    elif k == 'value':
        s['model']['heterogeneity_level'] = 'sideways'
    elif k == 'shape':
        s['hyd']['k_h'] = s['hyd']['k_h'] + [1.0]
    elif k == 'format':
        s['run']['outputs'] = ['npz', r.choice(['xyz', 'vtk', 'NPZ', 'docx'])]
    elif k == 'contact':
        s['contacts'] = s['contacts'] + [['flat', 1.0]]
    elif k == 'section':
        del s['model']
        s['model'] = None
    elif k == 'structure':
        e['structure'] = 'fractal'
    elif k == 'bool':
        s['model']['periodic'] = 'perhaps'
    elif k == 'unknown_ae':
        s['strata'][-1]['ae'] = ['nobody'] * len(s['strata'][-1]['ae'])
    elif k == 'number':
        s['model']['dx'] = 'wide'
    elif k == 'geometry':
        e['geometry'] = 'cube'
    elif k == 'lag':
        e.update(geometry='trough', structure='dip', agg=1.0, length=1.0, width=1.0, depth=1.0, buffer=0.0,
                 lag_height=0.3, lag_facies='unheard_of', trough_density=1.0, paleoflow=[0, 0], dipset_dist=None)
    elif k == 'altfacies':
        e['altfacies'] = [['unheard_of'] for _ in e['facies']]
    elif k == 'undeclared':
        s['ae'] = [a for a in s['ae'] if a != en]
    if s['model'] is None:
        secs = [(n, d) for n, d in gen.sections(dict(s, model={})) if n != 'model']
        out = []
        for n, d in secs:
            out.append('[%s]' % n)
            out += ['%s = %s' % (a, gen.fmt(b, None)) for a, b in d.items() if b is not None]
        return k, '\n'.join(out) + '\n'
    return k, gen.render(s, None)


def run_case(case, tmp):
    hyvr = sut.load()
    r = work.rnd(case)
    m = work.Msgs()
    kind = case['kind']
    spec = gen.make(case['seed'], size='tiny', geometries=('sheet',), numsim=r.choice([1, 1, 2]),
                    outputs=r.sample(['npz', 'mat', 'py'], r.randint(0, 3)))
    run = spec['run']
    if r.random() < 0.3:
        run['runname'] = None
    world = os.path.join(tmp, 'world')
    os.makedirs(world)
    outside = os.path.join(world, 'precious')
    clutter(r, outside, [])
    files = [os.path.join(outside, x) for x in os.listdir(outside)]
    inidir = os.path.join(world, 'models')
    os.makedirs(inidir)
    ininame = r.choice(['model.ini', 'a.b.ini', 'my parameters.ini'])
    inifile = os.path.join(inidir, ininame)
    runname = run['runname'] or ininame[:-4]
    modeldir = inidir
    if r.random() < 0.3:
        modeldir = run['modeldir'] = os.path.join(world, 'elsewhere', 'deep')
    rundir = os.path.join(modeldir, runname)
    # siblings, some with names close to that of the run directory
    for n in (runname + '2', runname[:-1] or 'x', 'real_001'):
        clutter(r, os.path.join(modeldir, n), files)
    with open(os.path.join(modeldir, runname + '.npz'), 'w') as f:
        f.write('not a result')
    flag, opt = {'keep': r.choice([(None, None), (None, False), (False, True), (False, None), (False, False)]),
                 'replace': r.choice([(True, None), (True, False), (True, True), (None, True)]),
                 'invalid': r.choice([(True, None), (None, True), (True, True), (None, None)]),
                 'backup': r.choice([(True, None), (True, False), (None, True)]),
                 'fresh': (r.choice([None, True, False]), r.choice([None, True, False]))}[kind]
    run['overwrite_old_output'] = opt
    text = gen.render(spec, None)
    what = kind
    if kind == 'invalid':
        what, text = spoil(r, spec, text)
    with open(inifile, 'w', encoding='utf-8') as f:
        f.write(text)
    empty = False
    if kind != 'fresh':
        empty = kind == 'keep' and r.random() < 0.1
        if not empty:
            clutter(r, rundir, files)
        else:
            os.makedirs(rundir)
    if kind == 'backup':
        inifile = os.path.join(rundir, runname + '_autogenerated_backup.ini')
        if os.path.lexists(inifile):
            import shutil
            shutil.rmtree(inifile) if os.path.isdir(inifile) and not os.path.islink(inifile) else os.unlink(inifile)
        # the model directory of the file does not count in this case
        with open(inifile, 'w', encoding='utf-8') as f:
            f.write(text)
    before = audit.snapshot(world)
    relrun = os.path.relpath(rundir, world)
    np.random.seed(work.npseed(case))
    random.seed(1)
    error = None
    audit.monitor.start()
    try:
        hyvr.run(inifile, flag)
    except Exception as e:
        error = e
    finally:
        events = audit.monitor.stop()
    after = audit.snapshot(world)
    ch = audit.diff(before, after)

    def inrun(p):
        return p == relrun or p.startswith(relrun + os.sep)

    parents = set()
    q = relrun
    while q:
        parents.add(q)
        q = os.path.dirname(q)
    foreign = [c for c in ch if not inrun(c.rsplit(' ', 1)[0].rsplit(' was', 1)[0]) and not
               (c.endswith(' was created') and c[:-len(' was created')] in parents)]
    if foreign:
        m.add('outside of the run directory %s: %s', relrun, foreign[:4])
    rr = os.path.realpath(rundir)
    esc = [e for e in events if e[0] != 'mkdir' and not (e[1] + '/').startswith(rr + '/')]
    if isinstance(error, audit.Escape) or esc:
        m.add('the run tried to write or remove outside of its run directory: %s', esc[:3] or str(error))
    st = {'fs_events': len(events), kind: 1, 'entries_before': len(before)}
    if kind in ('keep', 'invalid'):
        if error is None and not empty:
            m.add('%s: no error although %s', what, 'the run directory exists and overwriting was not requested (argument %s, option %s)' % (flag, opt)
                  if kind == 'keep' else 'the parameter file is invalid')
        mine = [c for c in ch if inrun(c.rsplit(' ', 1)[0].rsplit(' was', 1)[0])]
        if empty:
            mine = [c for c in mine if not c.endswith('was created')]
        if mine:
            m.add('%s (argument %s, option %s): the existing run directory was touched: %s', what, flag, opt, mine[:4])
        if kind == 'invalid' and [e for e in events if e[0] in ('remove', 'rmtree')]:
            m.add('%s: an invalid parameter file made the run remove %s', what, events[:3])
    else:
        if error is not None and not isinstance(error, audit.Escape):
            raise sut.SUTError(error, '%s (argument %s, option %s)' % (what, flag, opt))
        backup = os.path.join(relrun, runname + '_autogenerated_backup.ini')
        left = [p for p, v in after.items() if inrun(p) and p != relrun and p in before and before[p] == v and p != backup
                and not (v == ('d',))]
        if left:
            m.add('%s: content of the run directory survived overwriting: %s', kind, left[:3])
        want = {backup}
        n = run['numsim']
        for i in range(n):
            d = relrun if n == 1 else os.path.join(relrun, 'real_%03d' % (i + 1))
            if n > 1:
                want.add(d)
            for o in run['outputs']:
                want.add(os.path.join(d, runname + {'npz': '.npz', 'mat': '.mat', 'py': '.pickle'}[o]))
        got = {p for p in after if inrun(p) and p != relrun}
        if got != want:
            m.add('%s: after the run its directory has %s; expected %s', kind, sorted(got - want)[:4] or 'not enough', sorted(want - got)[:4])
    return {'violations': m, 'stats': st, 'sig': [what, flag, opt, len(before), type(error).__name__],
            'sample': {'seed': case['seed'], 'kind': what, 'argument': flag, 'option': opt, 'error': repr(error)[:90], 'events': len(events)}}
