"""C03: the model that is set up is the one the parameter file describes."""
import copy
import math
import os
import numpy as np
from hv import work, sut, gen, obs
BUILD = 'plain'
RULE = ('random complete parameter files: (a) every option read back and compared with what was written, written in full or in its '
        'documented short form, (b) the same file with defaults left out or written out gives identical results under one seed, '
        '(c) one inconsistency per file must be rejected before a run directory exists; distinct = distinct file')
ASSUMPTIONS = ['any exception counts as a rejection']


def cases(tier, seed):
    out = []
    for i in range(work.n_cases(tier, 120, 2000)):
        out.append(dict(seed='C03/%s/r%d' % (seed, i), kind='read'))
    for i in range(work.n_cases(tier, 120, 2000)):
        out.append(dict(seed='C03/%s/d%d' % (seed, i), kind='default'))
    for i in range(work.n_cases(tier, 120, 2000)):
        out.append(dict(seed='C03/%s/x%d' % (seed, i), kind='reject'))
    return out


def get(d, k):
    if k not in d:
        raise sut.Inconclusive('parsed option %s is not observable' % k)
    return d[k]


def num(a, b):
    if b is None:
        return a is None
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(num(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(b, str):
        return a == b
    if isinstance(b, float) and math.isnan(b):
        return a is not None and math.isnan(a)
    return a == b


def compress(spec, w, r):
    """make some values short in the file (w) and expanded in the ground truth (spec)"""
    names = spec['hyd']['hydrofacies']
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
        if r.random() < 0.3:
            v = spec['hyd'][k][0]
            spec['hyd'][k] = [v] * len(names)
            w['hyd'][k] = v
    for k in ('ycorlengths', 'ncorlengths'):
        q = r.random()
        if q < 0.25:
            v = spec['hyd'][k][0]
            spec['hyd'][k] = [v] * len(names)
            w['hyd'][k] = v
        elif q < 0.4:
            v = spec['hyd'][k][0][0]
            spec['hyd'][k] = [[v] * 3] * len(names)
            w['hyd'][k] = v
    w['short'] = {}
    S = spec['strata']
    for k in ('bg_facies', 'bg_azim', 'bg_dip'):
        if r.random() < 0.3:
            for s in S:
                s[k] = S[0][k]
            w['short'][k] = S[0][k]
    if r.random() < 0.3:
        v = gen.u(r, 0.1, 1)
        for s in S:
            s['prob'] = [v] * len(s['prob'])
        w['short']['ae_prob'] = v
    if r.random() < 0.3:
        for s in S:
            s['avul'] = S[0]['avul']
        w['short']['avul'] = S[0]['avul']
    if r.random() < 0.3:
        for s in S:
            s['avul_prob'] = S[0]['avul_prob']
        w['short']['avul_prob'] = S[0]['avul_prob']
    for n, e in spec['elements'].items():
        for k in ('dip', 'azimuth', 'paleoflow', 'size_ztrend', 'k_ztrend'):
            if e.get(k) is not None and r.random() < 0.2:
                e[k] = [e[k][0]] * 2
                w['elements'][n][k] = e[k][0]


def render(w, r):
    out = []
    for name, d in gen.sections(w):
        if name == 'strata':
            d = dict(d, **w.get('short', {}))
        out.append('[%s]' % name)
        for k, v in d.items():
            if v is not None:
                out.append('%s = %s' % (k, gen.fmt(v, r)))
    return '\n'.join(out) + '\n'


def read_case(case, tmp):
    import hyvr.input.parameters as hp
    r = work.rnd(case)
    spec = gen.make(case['seed'], size='tiny')
    w = gen.clone(spec)
    for n, e in spec['elements'].items():
        # small values are values, too
        for k in ('buffer', 'lag_height', 'mig', 'flow_angle', 'eps_factor'):
            if e.get(k) and r.random() < 0.25:
                e[k] = w['elements'][n][k] = r.choice([1e-3, 5e-3, 0.02, 1e-6])
    compress(spec, w, r)
    for k in 'yz':
        if r.random() < 0.3:
            spec['model']['d' + k] = spec['model']['dx']
            w['model']['d' + k] = None
    path = os.path.join(tmp, 'm.ini')
    with open(path, 'w', encoding=r.choice(['utf-8', 'utf-8-sig'])) as f:
        f.write(render(w, r))
    run, model, strata, hyd, flow, elements = sut.call(hp.parameters, path)
    m = work.Msgs()
    n = [0]

    def cmp(sec, d, k, want):
        n[0] += 1
        got = get(d, k)
        if not num(got, want):
            m.add('[%s] %s: written %r, read %r', sec, k, want, got)
    for k in ('runname', 'numsim', 'outputs'):
        cmp('run', run, k, spec['run'][k])
    for k, v in spec['model'].items():
        cmp('model', model, k, v)
    names = spec['hyd']['hydrofacies']
    for k, v in spec['hyd'].items():
        cmp('hydraulics', hyd, k, v)
    for k in ('hin', 'hout'):
        cmp('flowtrans', flow, k, spec['flowtrans'][k])
    S = spec['strata']
    cmp('strata', strata, 'strata', [s['name'] for s in S])
    cmp('strata', strata, 'ae', spec['ae'])
    cmp('strata', strata, 'ae_in_strata', [s['ae'] for s in S])
    cmp('strata', strata, 'ae_prob', [s['prob'] for s in S])
    cmp('strata', strata, 'ae_z_mean', [s['zmean'] for s in S])
    cmp('strata', strata, 'avul_prob', [[s['avul_prob']] for s in S])
    cmp('strata', strata, 'avul', [s['avul'] for s in S])
    cmp('strata', strata, 'bg_facies', [names.index(s['bg_facies']) for s in S])
    cmp('strata', strata, 'bg_azim', [s['bg_azim'] for s in S])
    cmp('strata', strata, 'bg_dip', [s['bg_dip'] for s in S])
    cms = get(strata, 'contact_models')
    if len(cms) != len(spec['contacts']):
        m.add('%d contact models written, %d read', len(spec['contacts']), len(cms))

    def cmp_contact(sec, got, want, depth):
        n[0] += 1
        mode = want[0].lower()
        if get(got, 'mode').lower() != mode:
            m.add('[%s] contact model %r read as %r', sec, want, got)
            return
        rest = want[1:]
        keys = (['z'] if depth else []) + (['var', 'corlx', 'corly'] if mode == 'random' else [])
        for k, v in zip(keys, rest):
            if get(got, k) != v:
                m.add('[%s] contact model %r read as %r', sec, want, got)
    for got, want in zip(cms, spec['contacts']):
        cmp_contact('strata', got, want, True)
    if set(elements) != set(spec['elements']):
        m.add('element sections %r, read %r', sorted(spec['elements']), sorted(elements))
        return {'violations': m, 'stats': {}}
    opt_default = {'dip': [0.0, 0.0], 'azimuth': [0.0, 0.0], 'buffer': 0.0, 'lag_height': 0.0, 'mig': 0.0, 'flow_angle': 0.0}
    for name, e in spec['elements'].items():
        d = elements[name]
        for k, v in e.items():
            if k == 'facies':
                cmp(name, d, k, [names.index(f) for f in v])
            elif k == 'altfacies':
                cmp(name, d, k, None if v is None else [[names.index(f) for f in l] for l in v])
            elif k == 'bg_facies':
                cmp(name, d, k, -1 if v is None else names.index(v))
            elif k in ('bg_azim', 'bg_dip'):
                cmp(name, d, k, float('nan') if v is None else v)
            elif k == 'lag_facies':
                if e['lag_height']:
                    cmp(name, d, k, names.index(v))
            elif k == 'contact_model':
                cmp_contact(name, get(d, k), v, False)
            elif v is None and k in opt_default:
                cmp(name, d, k, opt_default[k])
            else:
                cmp(name, d, k, v)
    return {'violations': m, 'stats': {'options_compared': n[0], 'files': 1}, 'sig': case['seed'],
            'sample': {'seed': case['seed'], 'options_compared': n[0]}}


# -- (b) defaults ----------------------------------------------------------------

DEFAULT_MODEL = dict(x0=0.0, y0=0.0, z0=0.0, periodic=False, anisotropy=True, hydraulics=True, heterogeneity=True,
                     heterogeneity_level='internal')


def default_case(case, tmp):
    r = work.rnd(case)
    spec = gen.make(case['seed'], size='tiny')
    # give everything its default value explicitly ...
    for k, v in DEFAULT_MODEL.items():
        if k in ('x0', 'y0', 'z0'):
            continue
        spec['model'][k] = v
    if r.random() < 0.5:
        # shift the whole model to the origin
        g = spec['grid']
        old = g['z0']
        for k in ('x0', 'y0', 'z0'):
            g[k] = spec['model'][k] = 0.0
        for c in spec['contacts']:
            c[1] -= old
        for e in spec['elements'].values():
            if e.get('te_xyz'):
                e['te_xyz'] = [[gen.u(r, 0, 1) * g['lx'], gen.u(r, 0, 1) * g['ly'], gen.u(r, 0, 1) * g['lz']] for _ in e['te_xyz']]
        drop_origin = True
    else:
        drop_origin = False
    if r.random() < 0.5:
        for k, n in (('dy', 'ny'), ('dz', 'nz')):
            g = spec['grid']
            g[k] = spec['model'][k] = g['dx']
            g['l' + k[1]] = spec['model']['l' + k[1]] = g[n] * g['dx']
        drop_d = True
    else:
        drop_d = False
    ed = {'dip': [0.0, 0.0], 'azimuth': [0.0, 0.0], 'buffer': 0.0, 'lag_height': 0.0, 'mig': 0.0, 'flow_angle': 0.0}
    for e in spec['elements'].values():
        for k, v in ed.items():
            if k in e and r.random() < 0.7:
                e[k] = list(v) if isinstance(v, list) else v
                e['_d_' + k] = True
    a = gen.clone(spec)
    b = gen.clone(spec)
    for s in (a, b):
        for e in s['elements'].values():
            for k in list(e):
                if k.startswith('_d_'):
                    kk = k[3:]
                    del e[k]
                    if s is b:
                        e[kk] = None
    for k in DEFAULT_MODEL:
        if k in ('x0', 'y0', 'z0') and not drop_origin:
            continue
        b['model'][k] = None
    if drop_d:
        b['model']['dy'] = b['model']['dz'] = None
    a['run']['numsim'], b['run']['numsim'] = 1, None
    os.mkdir(os.path.join(tmp, 'a'))
    os.mkdir(os.path.join(tmp, 'b'))
    oa = obs.run_spec(a, os.path.join(tmp, 'a'), work.npseed(case))
    ob = obs.run_spec(b, os.path.join(tmp, 'b'), work.npseed(case))
    m = work.Msgs()
    if set(oa.data) != set(ob.data):
        m.add('leaving out defaults changes the set of fields: %s / %s', sorted(oa.data), sorted(ob.data))
    else:
        for k in oa.data:
            if oa.data[k].shape != ob.data[k].shape or not np.array_equal(oa.data[k], ob.data[k], equal_nan=True):
                m.add('leaving out options that have their default value changes the field %s', k)
    return {'violations': m, 'stats': {'default_pairs': 1}, 'sig': case['seed']}


# -- (c) inconsistent files --------------------------------------------------------

def reject_list(r, spec):
    """[(what, function(spec) applied to a clone, late)]"""
    out = []
    E = spec['elements']
    anye = r.choice(sorted(E))
    e = E[anye]
    hyd = spec['hyd']

    def add(what, f, late=False):
        out.append((what, f, late))

    def setv(path, v):
        def f(s):
            d = s
            for k in path[:-1]:
                d = d[k]
            d[path[-1]] = v
        return f
    ep = ('elements', anye)
    add('unknown facies', setv(ep + ('facies',), e['facies'][:-1] + ['nofacies']))
    add('unknown altfacies', setv(ep + ('altfacies',), [['nofacies']] + [[e['facies'][0]]] * (len(e['facies']) - 1)))
    add('too few altfacies', setv(ep + ('altfacies',), [[e['facies'][0]]] * (len(e['facies']) + 1)))
    add('unknown stratum background', lambda s: s['strata'][r.randrange(len(s['strata']))].update(bg_facies='nofacies'))
    add('unknown element background', setv(ep + ('bg_facies',), 'nofacies'))
    if e['geometry'] != 'sheet':
        add('unknown lag facies', lambda s: s['elements'][anye].update(lag_height=0.1, lag_facies='nofacies'))
        add('lag without facies', lambda s: s['elements'][anye].update(lag_height=0.1, lag_facies=None))
        for k in ('agg', 'depth', 'width'):
            add('missing ' + k, setv(ep + (k,), None))
    if e['geometry'] == 'trough':
        for k in ('length', 'trough_density', 'paleoflow'):
            add('missing ' + k, setv(ep + (k,), None))
        add('dip without dipset_dist', lambda s: s['elements'][anye].update(structure='dip', dipset_dist=None))
        add('random without dipset_dist', lambda s: s['elements'][anye].update(structure='random', dipset_dist=None))
        add('random without bulbset_dist', lambda s: s['elements'][anye].update(structure='random', bulbset_dist=None))
        add('bulb_sets without bulbset_dist', lambda s: s['elements'][anye].update(structure='bulb_sets', bulbset_dist=None))
        add('te_xyz shape', setv(ep + ('te_xyz',), [[1.0, 2.0]]))
        add('migrate shape', setv(ep + ('migrate',), [1.0, 2.0, 3.0]))
        add('paleoflow shape', setv(ep + ('paleoflow',), [1.0, 2.0, 3.0]))
        add('structure', setv(ep + ('structure',), r.choice(['bulb_l', 'dips', 'none'])))
    else:
        add('structure', setv(ep + ('structure',), r.choice(['bulb', 'bulb_sets', 'random', 'dips'])))
        add('dip without dipset_dist', lambda s: s['elements'][anye].update(structure='dip', dipset_dist=None))
    if e['geometry'] == 'channel':
        for k in ('h', 'k', 'ds', 'eps_factor', 'channel_no'):
            add('missing ' + k, setv(ep + (k,), None))
        add('fractional channel_no', setv(ep + ('channel_no',), 1.5))
    if e['geometry'] == 'sheet':
        add('missing lens_thickness', setv(ep + ('lens_thickness',), None))
    add('geometry', setv(ep + ('geometry',), r.choice(['trunc_ellip', 'ext_par', 'Sheet', 'cube'])))
    for k in ('geometry', 'structure', 'facies', 'contact_model'):
        add('missing ' + k, setv(ep + (k,), None))
    add('dip shape', setv(ep + ('dip',), [1.0, 2.0, 3.0]))
    add('ztrend shape', setv(ep + ('k_ztrend',), [1.0, 2.0, 3.0]))
    add('contact model', setv(ep + ('contact_model',), r.choice([['user'], ['random'], ['random', 1.0, 2.0], ['flat', 3.0],
                                                                 ['random', 1.0, 2.0, 3.0, 4.0]])))
    add('contact model with a unit', setv(ep + ('contact_model',), r.choice([['random', '0.5m', 2.0, 3.0], ['random', 0.5, '2m', 3.0], ['random', 0.5, 2.0, '3 m']])))
    def put_unknown(s):
        q = r.choice(s['strata'])['ae']
        q[r.randrange(len(q))] = 'noelement'
    add('unlisted element', lambda s: s['ae'].remove(anye))
    add('unknown element in stratum', put_unknown)
    if len(spec['strata']) > 1:
        add('strata contact', lambda s: s['contacts'].__setitem__(0, r.choice([['flat'], ['random', 1.0], ['bumpy', 1.0], ['flat', 1.0, 2.0], ['flat', '1.5m'], ['flat', 'low'],
                                                                                        ['random', '1m', 0.5, 2.0, 3.0], ['random', 1.0, 0.5, 2.0, '3m'], ['random', 1.0, '0,5', 2.0, 3.0]])))
        add('too few strata contacts', lambda s: s['contacts'].pop())
    add('too many strata contacts', lambda s: s['contacts'].append(['flat', 0.5]))
    add('prob shape', lambda s: s['strata'][-1]['prob'].append(0.5))
    add('zmean shape', lambda s: s['strata'][0]['zmean'].append(0.5))
    add('avul shape', lambda s: s['strata'][0].update(avul=[0.1, 0.1, 0.1]))
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
        add(k + ' length', setv(('hyd', k), hyd[k] + [1.0]))
        add('missing ' + k, setv(('hyd', k), None))
    for k in ('ycorlengths', 'ncorlengths'):
        add(k + ' inner length', setv(('hyd', k), [l[:2] for l in hyd[k]]))
        add(k + ' outer length', setv(('hyd', k), hyd[k] + [[1.0, 1.0, 1.0]]))
        add('missing ' + k, setv(('hyd', k), None))
    add('missing hydrofacies', setv(('hyd', 'hydrofacies'), None))
    for k in ('dx', 'lx', 'ly', 'lz'):
        add('missing ' + k, setv(('model', k), None))
    add('model number', setv(('model', r.choice(['dx', 'lx', 'z0'])), 'wide'))
    add('model flag', setv(('model', r.choice(['periodic', 'hydraulics', 'heterogeneity', 'anisotropy'])), 'perhaps'))
    add('het level', setv(('model', 'heterogeneity_level'), r.choice(['ae', 'Internal', 'cell'])))
    add('output format', setv(('run', 'outputs'), ['npz', r.choice(['vtk', 'csv', 'NPZ', 'mf7'])]))
    for _ in range(2):
        outs = [r.choice(['mf', 'mf6', 'hgs'])] + r.sample(['npz', 'mat', 'py'], r.randint(0, 3))
        r.shuffle(outs)
        add('output without flowtrans', lambda s, outs=outs: (s['run'].update(outputs=outs), s.update(flowtrans=None)))
    if len(hyd['hydrofacies']) > 1:
        # inconsistent names anywhere in the lists
        def put_facies(s, key):
            l = s['elements'][anye][key]
            while l and isinstance(l[0], list):
                l = r.choice(l)
            l[r.randrange(len(l))] = 'nofacies'
        add('unknown facies', lambda s: put_facies(s, 'facies'))
        if e.get('altfacies'):
            add('unknown altfacies', lambda s: put_facies(s, 'altfacies'))
    add('numsim', setv(('run', 'numsim'), r.choice(['two', 1.5])))
    add('overwrite flag', setv(('run', 'overwrite_old_output'), 'sometimes'))
    add('heads', lambda s: s['flowtrans'].update(hin=[1.0, 2.0]))
    return out


def reject_case(case, tmp):
    hyvr = sut.load()
    r = work.rnd(case)
    spec = gen.make(case['seed'], size='tiny')
    m = work.Msgs()
    st = {'rejections_checked': 0}
    lst = reject_list(r, spec)
    picks = r.sample(lst, min(14, len(lst)))
    secs = ['run', 'model', 'strata', 'hydraulics']
    for i, (what, f, late) in enumerate(picks):
        s = gen.clone(spec)
        f(s)
        d = os.path.join(tmp, 'c%d' % i)
        os.mkdir(d)
        path = gen.write(s, os.path.join(d, 'm.ini'), r)
        if late:
            np.random.seed(1)
        rejected(m, hyvr, path, what, s, late)
        st['rejections_checked'] += 1
        st['_' + what] = 1
    # a whole section missing, or the file itself
    d = os.path.join(tmp, 'sec')
    os.mkdir(d)
    sec = r.choice(secs)
    txt = gen.render(spec, r)
    parts = txt.split('[' + sec + ']\n')
    rest = parts[1]
    j = rest.find('\n[')
    with open(os.path.join(d, 'm.ini'), 'w') as fh:
        fh.write(parts[0] + (rest[j + 1:] if j >= 0 else ''))
    rejected(m, hyvr, os.path.join(d, 'm.ini'), 'missing section ' + sec, spec, False)
    rejected(m, hyvr, os.path.join(d, 'nofile.ini'), 'missing file', spec, False)
    st['rejections_checked'] += 2
    return {'violations': m, 'stats': st, 'sig': [p[0] for p in picks], 'sample': {'seed': case['seed'], 'breakages': [p[0] for p in picks]}}


def rejected(m, hyvr, path, what, s, late):
    before = set(os.listdir(os.path.dirname(path)))
    try:
        if late:
            hyvr.run(path)
        else:
            import hyvr.input.parameters as hp
            hp.setup_from_inifile(path, None)
    except Exception:
        new = set(os.listdir(os.path.dirname(path))) - before
        if new and not late:
            m.add('%s: rejected, but %s was created', what, sorted(new))
        return
    m.add('%s: the file was accepted', what)


def run_case(case, tmp):
    sut.load()
    return {'read': read_case, 'default': default_case, 'reject': reject_case}[case['kind']](case, tmp)
