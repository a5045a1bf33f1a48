"""C04: a parameter file in the old format means the same as its translation."""
import os
import numpy as np
from hv import work, sut, gen, obs
BUILD = 'plain'
RULE = ('a random model is written in the new and in the old file format (plain or prefixed option names) and run under the same '
        'seed, with options left out where they have the documented default and in short form: all fields must be identical; settings the program no longer supports, missing required options and sections, missing layer distances and facies numbers outside of the list must be rejected before a run directory exists, and existing results are kept without flag_ow; distinct = distinct model')
ASSUMPTIONS = ['strata backgrounds and the contact type are common to all strata, as the old format demands',
               'channels without migration, flow angle and azimuth, which the old format lacks']


def cases(tier, seed):
    return work.seeds('C04', seed, work.n_cases(tier, 400, 4000))


def restrict(spec, r):
    """only what the old format can say"""
    S = spec['strata']
    for s in S:
        for k in ('bg_facies', 'bg_azim', 'bg_dip'):
            s[k] = S[0][k]
    # one contact type for all
    g = spec['grid']
    if r.random() < 0.5:
        spec['contacts'] = [['flat', c[1]] for c in spec['contacts']]
        ctype = 'flat'
    else:
        spec['contacts'] = [['random', c[1], gen.u(r, 0, (0.05 * g['lz']) ** 2, 6), gen.u(r, .3, 2) * g['lx'], gen.u(r, .3, 2) * g['ly']]
                            for c in spec['contacts']]
        ctype = 'random'
    for e in spec['elements'].values():
        if e['geometry'] != 'sheet':
            if e['bg_facies'] is None or e['bg_azim'] is None or e['bg_dip'] is None:
                e['bg_facies'] = e['bg_azim'] = e['bg_dip'] = None
        if e['dip'] is None:
            e['dip'], e['azimuth'] = [0.0, 0.0], [0.0, 0.0]
        if e['geometry'] == 'channel':
            e['mig'], e['flow_angle'], e['azimuth'] = 0.0, 0.0, [0.0, 0.0]
            e['migrate_unused'] = None
    return ctype


def defaults(spec, r):
    """give some options the value the old format documents as default; returns their names, to be left out"""
    g, m = spec['grid'], spec['model']
    out = set()

    def pick(name, p=0.3):
        if r.random() < p:
            out.add(name)
            return True
        return False
    if pick('numsim'):
        spec['run']['numsim'] = 1
    if pick('flag_ow'):
        spec['run']['overwrite_old_output'] = False
    if pick('anisotropy'):
        m['anisotropy'] = True
    if pick('het'):
        m['heterogeneity'] = True
    if pick('gen'):
        m['hydraulics'] = True
    if pick('periodic'):
        m['periodic'] = False
    pick('display')
    for ax in 'xyz':
        if pick(ax + '0'):
            sh = g[ax + '0']
            g[ax + '0'] = m[ax + '0'] = 0.0
            for e in spec['elements'].values():
                for q in e.get('te_xyz') or []:
                    q['xyz'.index(ax)] -= sh
            if ax == 'z':
                for c in spec['contacts']:
                    c[1] -= sh
    for ax in 'yz':
        if pick('d' + ax, 0.2):
            g['d' + ax] = m['d' + ax] = g['dx']
            s = g['n' + ax] * g['dx'] / g['l' + ax]
            if ax == 'z':
                for c in spec['contacts']:
                    c[1] = g['z0'] + (c[1] - g['z0']) * s
                for x in spec['strata']:
                    x['zmean'] = [v * s for v in x['zmean']]
                    x['avul'] = [v * s for v in x['avul']]
                for e in spec['elements'].values():
                    if 'agg' in e:
                        e['agg'] *= s
                    if e.get('lens_thickness', -1) > 0:
                        e['lens_thickness'] *= s
            g['l' + ax] = m['l' + ax] = g['n' + ax] * g['dx']
    for n, e in spec['elements'].items():
        if e['geometry'] == 'sheet':
            for k in ('dip', 'azimuth'):
                if pick((n, k)):
                    e[k] = [0.0, 0.0]
        elif pick((n, 'buffer')):
            e['buffer'] = 0.0
    return out


def old_sections(spec, ctype, r):
    pre = r.random() < 0.5

    def P(name, prefix):
        return prefix + name if pre and r.random() < 0.8 else name
    names = spec['hyd']['hydrofacies']
    m = spec['model']
    outs = spec['run']['outputs']
    run = {'runname': spec['run']['runname'], 'numsim': spec['run']['numsim'],
           P('dataoutputs', 'l_'): [o for o in outs if o in ('vtr', 'py', 'mat', 'npz', 'h5')],
           P('modeloutputs', 'l_'): [o for o in outs if o in ('mf', 'mf6', 'hgs')],
           P('anisotropy', 'flag_'): m['anisotropy'], P('het', 'flag_'): m['heterogeneity'],
           'flag_ow': spec['run']['overwrite_old_output']}
    if not run.get('modeloutputs', run.get('l_modeloutputs')):
        run.pop('modeloutputs', None)
        run.pop('l_modeloutputs', None)
    mod = {k: m[k] for k in ('x0', 'y0', 'z0', 'dx', 'dy', 'dz', 'lx', 'ly', 'lz')}
    mod[P('periodic', 'flag_')] = m['periodic']
    mod[P('display', 'flag_')] = False
    mod['hetlev'] = m['heterogeneity_level']
    S = spec['strata']
    lz = spec['grid']['z0'] + spec['grid']['lz']
    tops = [c[1] for c in spec['contacts']] + [lz]
    st = {r.choice(['l_ssm', 'l_seq']) if pre else 'ssm': [s['name'] for s in S],
          P('ssm_top', 'r_'): tops, 'ssm_contact': ctype,
          P('ae', 'l_'): spec['ae'], P('ssm_ae', 'll_'): [s['ae'] for s in S],
          P('ae_prob', 'll_'): [s['prob'] for s in S], P('ae_z_mean', 'll_'): [s['zmean'] for s in S],
          P('avul_prob', 'll_'): [[s['avul_prob']] for s in S], P('avul', 'll_'): [s['avul'] for s in S],
          'bg': [names.index(S[0]['bg_facies']), S[0]['bg_azim'], S[0]['bg_dip']]}
    if ctype == 'random':
        st[P('ssm_contact_model', 'll_')] = [c[2:] for c in spec['contacts']] + [[0.01, 1.0, 1.0]]
    out = [('run', run), ('model', mod), ('strata', st)]
    for n, e in spec['elements'].items():
        d = {'geometry': {'trough': 'trunc_ellip', 'channel': 'ext_par', 'sheet': 'sheet'}[e['geometry']],
             'structure': {'bulb_sets': 'bulb_l'}.get(e['structure'], e['structure']),
             'contact': e['contact_model'][0]}
        if e['contact_model'][0] == 'random':
            d[P('contact_model', 'r_')] = e['contact_model'][1:]
        d[P('facies', 'l_')] = [names.index(f) for f in e['facies']]
        if e['altfacies'] is not None:
            d[P('altfacies', 'll_')] = [[names.index(f) for f in l] for l in e['altfacies']]
        d[P('geo_ztrend', 'r_')] = e['size_ztrend']
        for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
            d[P(k, 'r_')] = e[k]
        d[P('dip', 'r_')] = e['dip']
        d['dipset_d'] = e['dipset_dist']
        if e['geometry'] != 'channel':
            d[P('azimuth', 'r_')] = e['azimuth']
        if e['geometry'] == 'sheet':
            d['lens_thickness'] = e['lens_thickness']
        else:
            d['agg'], d['buffer'], d['width'], d['depth'] = e['agg'], e['buffer'], e['width'], e['depth']
            if e['lag_height']:
                d[P('lag', 'r_')] = [e['lag_height'], names.index(e['lag_facies'])]
            if e['bg_facies'] is not None:
                d['bg'] = [names.index(e['bg_facies']), e['bg_azim'], e['bg_dip']]
        if e['geometry'] == 'trough':
            d['length'], d['el_z'] = e['length'], e['trough_density']
            d[P('paleoflow', 'r_')] = e['paleoflow']
            d['bulbset_d'] = e['bulbset_dist']
            d[P('te_xyz', 'll_')] = e['te_xyz']
            d[P('migrate', 'r_')] = e['migrate']
        if e['geometry'] == 'channel':
            for k in ('h', 'k', 'ds', 'eps_factor', 'channel_no'):
                d[k] = e[k]
        out.append((n, d))
    h = spec['hyd']
    hd = {P('gen', 'flag_'): m['hydraulics'], P('hydro', 'l_'): names}
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        hd[P(k, 'r_')] = h[k]
    for k in ('ycorlengths', 'ncorlengths'):
        hd[P(k, 'll_')] = h[k]
    out.append(('hydraulics', hd))
    out.append(('flowtrans', spec['flowtrans']))
    return out


def write_old(spec, ctype, path, r, tweak=None, omit={}):
    secs = old_sections(spec, ctype, r)
    for n, d in secs:
        for k in list(d):
            b = k[k.index('_') + 1:] if k.startswith(('l_', 'll_', 'r_', 'flag_')) and k != 'flag_ow' else k
            if (n, b) in omit or n in ('run', 'model', 'strata', 'hydraulics') and b in omit:
                del d[k]
            if 'short' in omit and n == 'strata' and b in ('ae_prob', 'avul', 'avul_prob') and b in omit['short']:
                d[k] = omit['short'][b]
    if tweak:
        tweak(dict(secs))
    with open(path, 'w') as f:
        for n, d in secs:
            if '__drop__' in d:
                continue
            f.write('[%s]\n' % n)
            for k, v in d.items():
                if v is not None:
                    f.write('%s = %s\n' % (k, gen.fmt(v, r)))
    return path


def breakages(spec, ctype, r):
    """changes that make an old-format file invalid: [(name, function)]"""
    E = spec['elements']
    nf = len(spec['hyd']['hydrofacies'])

    def key(d, b):
        return next((k for k in d if k == b or k in ('l_' + b, 'll_' + b, 'r_' + b, 'flag_' + b) or b == 'ssm' and k == 'l_seq'), None)

    def drop(sec, opt):
        def f(s):
            if sec in s:
                k = key(s[sec], opt)
                assert k is not None, (sec, opt)
                del s[sec][k]
        return '%s missing in [%s]' % (opt, sec), f

    def put(sec, opt, v, name=None):
        def f(s):
            s[sec][key(s[sec], opt) or opt] = v(s[sec].get(key(s[sec], opt))) if callable(v) else v
        return name or '%s = %s in [%s]' % (opt, v, sec), f

    def section(sec):
        def f(s):
            for k in list(s[sec]):
                del s[sec][k]
            s[sec]['__drop__'] = True
        return 'section [%s] missing' % sec, f
    out = [put('model', 'display', True), put('strata', 'save_aelu', True), put('strata', 'ae_table', 'table.txt'), put('run', 'flag_ow', 'perhaps'),
           put('run', 'het', 'perhaps'), put('model', 'hetlev', 'cells')]
    if spec['model']['heterogeneity'] and spec['model']['hydraulics']:
        out += [put('model', 'hetlev', 'ae')] * 2
    if len(spec['strata']) > 1:
        out.append(put('strata', 'ssm_contact', 'user'))
    out += [drop('model', k) for k in ('dx', 'lx', 'ly', 'lz', 'hetlev')]
    out += [drop('strata', k) for k in ('ssm', 'ssm_top', 'ae', 'ssm_ae', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg')]
    out += [drop('hydraulics', k) for k in ('hydro', 'k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths')]
    out += [section(s) for s in ('run', 'model', 'strata', 'hydraulics', 'flowtrans')]
    bad = r.choice([nf, nf + r.randint(0, 5), 77, -1, -nf])
    out.append(put('strata', 'bg', lambda v: [bad] + v[1:], 'background facies %d of %d' % (bad, nf)))
    n = r.choice(list(E))
    e = E[n]
    opts = ['geometry', 'structure', 'contact', 'facies'] + {'sheet': ['lens_thickness'],
            'trough': ['agg', 'dip', 'length', 'width', 'depth', 'el_z', 'paleoflow', 'azimuth'],
            'channel': ['agg', 'dip', 'width', 'depth', 'h', 'k', 'ds', 'eps_factor', 'channel_no']}[e['geometry']]
    out += [drop(n, k) for k in opts]
    out.append(put(n, 'facies', lambda v: v[:-1] + [bad], 'facies %d of %d' % (bad, nf)))
    out.append(put(n, 'structure', 'layered'))
    out.append(put(n, 'contact', r.choice(['user', 'wavy'])))
    if e['altfacies'] is not None:
        out.append(put(n, 'altfacies', lambda v: v[:-1] + [v[-1] + [bad]], 'altfacies %d of %d' % (bad, nf)))
    if e['geometry'] != 'sheet':
        out.append(put(n, 'bg', [bad, 0.0, 0.0], 'element background facies %d of %d' % (bad, nf)))
        out.append(put(n, 'lag', [0.1, bad], 'lag facies %d of %d' % (bad, nf)))
    for k, x in E.items():
        if x['structure'] in ('dip', 'random'):
            out += [drop(k, 'dipset_d')] * 2
        if x['structure'] in ('bulb_sets', 'random'):
            out += [drop(k, 'bulbset_d')] * 2
    return out


def files(d):
    return {os.path.relpath(os.path.join(p, f), d): os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs}


def run_case(case, tmp):
    hyvr = sut.load()
    r = work.rnd(case)
    spec = gen.make(case['seed'], size='tiny')
    if r.random() < 0.1:
        spec['model']['hydraulics'] = False
    if r.random() < 0.15:
        spec['model']['anisotropy'] = False
    ctype = restrict(spec, r)
    omit = dict.fromkeys(defaults(spec, r)) if r.random() < 0.6 else {}
    if ctype == 'flat' and r.random() < 0.3:
        omit['ssm_contact'] = None
    S = spec['strata']
    if r.random() < 0.25:
        # short forms
        v = gen.u(r, 0.1, 1)
        for s in S:
            s.update(prob=[v] * len(s['prob']), avul=S[0]['avul'], avul_prob=S[0]['avul_prob'])
        omit['short'] = {'ae_prob': v, 'avul': S[0]['avul'], 'avul_prob': r.choice([S[0]['avul_prob'], [S[0]['avul_prob']]])}
    hgs = spec['model']['hydraulics'] and r.random() < 0.3
    if hgs:
        spec['run']['outputs'] = r.choice([['hgs', 'npz'], ['npz', 'hgs', 'py']])
    else:
        spec['run']['outputs'] = r.choice([['npz'], ['npz', 'mat'], ['h5', 'vtr', 'npz', 'py', 'mat']])
    a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
    os.mkdir(a)
    os.mkdir(b)
    o = obs.run_spec(spec, a, work.npseed(case))
    pb = write_old(spec, ctype, os.path.join(b, 'model.ini'), r, None, omit)
    np.random.seed(work.npseed(case))
    try:
        hyvr.run(pb)
    except Exception as e:
        return {'violations': ['the old-format file is rejected: %s: %s' % (type(e).__name__, e)], 'stats': {}}
    m = work.Msgs()
    f = os.path.join(b, os.path.relpath(o.realdirs[-1], a), o.runname + '.npz')
    if not os.path.exists(f):
        return {'violations': ['the old-format file produced no output (dataoutputs given)'], 'stats': {}}
    db = obs.load_npz(f)
    if set(db) != set(o.data):
        m.add('fields differ: %s / %s', sorted(o.data), sorted(db))
    else:
        for k in db:
            if db[k].shape != o.data[k].shape or not np.array_equal(db[k], o.data[k], equal_nan=True):
                m.add('field %s of the old-format file differs from that of its translation (%d of %d values)', k,
                      int(np.sum(db[k] != o.data[k])) if db[k].shape == o.data[k].shape else -1, db[k].size)
    fa, fb = files(a), files(b)
    if set(fa) != set(fb):
        m.add('the old-format file gives the files %s, its translation %s', sorted(set(fb) - set(fa))[:4], sorted(set(fa) - set(fb))[:4])
    elif hgs:
        for f in fa:
            if f.endswith('.txt') and open(fa[f]).read() != open(fb[f]).read():
                m.add('the flow-model file %s of the old-format file differs', f)
    # what is not supported any more, or is not complete, is rejected before anything is written
    st = {'pairs': 1, 'rejected': 0, 'kept': 0}
    for i, (name, t) in enumerate(r.sample(breakages(spec, ctype, r), 7)):
        c = os.path.join(tmp, 'c%d' % i)
        os.mkdir(c)
        p = write_old(spec, ctype, os.path.join(c, 'model.ini'), r, t, omit)
        try:
            hyvr.run(p)
        except Exception:
            st['rejected'] += 1
            if sorted(os.listdir(c)) != ['model.ini']:
                m.add('an old-format file with an unsupported, missing or broken setting (%s) was rejected only after the run directory had been created', name)
            continue
        m.add('an old-format file with an unsupported, missing or broken setting (%s) was accepted', name)
    # results are kept unless flag_ow says otherwise
    if not spec['run']['overwrite_old_output'] and r.random() < 0.4:
        was = {k: open(v, 'rb').read() for k, v in files(b).items()}
        try:
            hyvr.run(pb)
            m.add('an old-format file without flag_ow overwrote its results')
        except Exception:
            st['kept'] += 1
        if was != {k: open(v, 'rb').read() for k, v in files(b).items()}:
            m.add('an old-format file without flag_ow changed its results')
    return {'violations': m, 'stats': st, 'sig': case['seed'],
            'sample': {'seed': case['seed'], 'elements': {k: v['geometry'] for k, v in spec['elements'].items()}}}
