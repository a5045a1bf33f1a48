"""C15: the inside of troughs."""
import numpy as np
from hv import work, known, geom, interior, obs, stats, gen
BUILD = 'plain'
RULE = ('(known) manually placed troughs of fixed orientation: shape, lag, facies, layers and angles follow from the file alone; '
        '(random) randomly placed troughs, whose position and orientation are read from the model; drawn angles and facies are pooled '
        '(uniform); (axis) bulbs whose axes run through centres of cells; (deep) troughs of hundreds of layers; (struct) troughs of random structure side by side, told apart by whether facies and dips vary inside: each of the '
        'four structures in a quarter of them (6 sigma); what is drawn for an object and for neighbouring ones is uncorrelated (6 sigma); non-trivial when a trough has cells, distinct by grid, strata and generated '
        'objects')
ASSUMPTIONS = ['cells within rounding of a layer, lag or shape boundary are not judged',
               'azimuths are compared modulo 360 degrees', 'bulb cells whose normal vector is (nearly) vertical are not judged']


def cases(tier, seed):
    n = work.n_cases(tier, 260, 6000)
    return [dict(seed='C15/%s/k%d' % (seed, i), kind='known') for i in range(n)] + \
           [dict(seed='C15/%s/r%d' % (seed, i), kind='random') for i in range(n // 2)] + \
           [dict(seed='C15/%s/a%d' % (seed, i), kind='axis') for i in range(n // 10)] + \
           [dict(seed='C15/%s/s%d' % (seed, i), kind='struct') for i in range(n // 4)] + \
           [dict(seed='C15/%s/d%d' % (seed, i), kind='deep') for i in range(n // 20)]


def deep(spec, r):
    """one trough that is hundreds of layers deep"""
    g = spec['grid']
    g.update(nx=5, ny=4, nz=600, dx=1.0, dy=1.0, dz=1.0, lx=5.0, ly=4.0, lz=600.0)
    spec['model'].update({k: g[k] for k in ('dx', 'dy', 'dz', 'lx', 'ly', 'lz')}, periodic=False)
    s = spec['strata'][-1]
    n = s['ae'][0]
    e = spec['elements'][n]
    f = r.sample(spec['hyd']['hydrofacies'], min(3, len(spec['hyd']['hydrofacies'])))
    pf = gen.u(r, -90, 90)
    e.update(structure=r.choice(['dip', 'bulb_sets']), facies=f, altfacies=[[x] for x in f[1:] + f[:1]], size_ztrend=None, lag_height=None, lag_facies=None,
             length=gen.u(r, 700, 1500), width=gen.u(r, 600, 1500), depth=gen.u(r, 560, 620), paleoflow=[pf, pf], dip=r.choice([[0.0, 0.0], [2.0, 10.0]]),
             azimuth=r.choice([[0.0, 0.0], [-50.0, 200.0]]), dipset_dist=gen.u(r, 1.3, 2.2), bulbset_dist=gen.u(r, 1.3, 2.2), migrate=None,
             te_xyz=[[g['x0'] + 2.5 + gen.u(r, -9, 9), g['y0'] + 2 + gen.u(r, -9, 9), g['z0'] + gen.u(r, 570, 599)]])
    spec['elements'], spec['ae'], spec['contacts'], spec['strata'] = {n: e}, [n], [], [s]
    s.update(ae=[n], prob=[1.0])
    return spec


def struct(case, tmp):
    r = work.rnd(case)
    spec = known.make(case['seed'], geometries=('trough',), hostile=0, structures=['random'], periodic=False, scale=(1.0, 1.0))
    g = spec['grid']
    g.update(nx=24, ny=8, nz=8, dx=1.0, dy=1.0, dz=1.0, lx=24.0, ly=8.0, lz=8.0)
    spec['model'].update({k: g[k] for k in ('dx', 'dy', 'dz', 'lx', 'ly', 'lz')})
    n = spec['strata'][-1]['ae'][0]
    e = spec['elements'][n]
    f = r.sample(spec['hyd']['hydrofacies'], 2)
    e.update(structure='random', facies=f, altfacies=[[f[1]], [f[0]]], size_ztrend=None, lag_height=None, length=3.7, width=7.7, depth=7.2,
             paleoflow=[0.0, 0.0], dip=[75.0, 80.0], azimuth=[80.0, 100.0], dipset_dist=1.0, bulbset_dist=0.2,
             te_xyz=[[g['x0'] + 4 * i + 2, g['y0'] + 4, g['z0'] + 7.9 - 1e-3 * i] for i in range(6)])
    spec['elements'] = {n: e}
    spec['ae'] = [n]
    s = spec['strata'][-1]
    s.update(ae=[n], prob=[1.0])
    spec['strata'] = [s]
    spec['contacts'] = []
    o = obs.run_spec(spec, tmp, work.npseed(case), r=work.rnd(case, 'ini'), model=False)
    st = {'_look2': []}
    for i in range(6):
        c = o.data['ha'] == i
        if c.sum() >= 30:
            va = np.ptp(np.abs(o.data['dip'][c])) > 1
            vf = np.ptp(o.data['facies'][c]) > 0
            st['_look2'].append(int(2 * va + vf))
    return {'violations': work.Msgs(), 'stats': st, 'sig': ['struct', case['seed'], st['_look2']]}


def run_case(case, tmp):
    if case['kind'] == 'struct':
        return struct(case, tmp)
    m, st = work.Msgs(), {}
    if case['kind'] in ('known', 'axis', 'deep'):
        spec = known.make(case['seed'], geometries=('trough', 'trough', 'trough', 'sheet') if case['kind'] == 'known' else ('trough',), hostile=0.05, size='medium',
                          structures=['massive', 'dip', 'dip', 'bulb', 'bulb_sets', 'bulb_sets', 'random'] if case['kind'] == 'known' else ['bulb', 'bulb_sets'])
        if case['kind'] == 'deep':
            spec = deep(known.make(case['seed'], geometries=('trough',), hostile=0, structures=['dip'], periodic=False, scale=(1.0, 1.0)), work.rnd(case, 'deep'))
        if case['kind'] == 'axis':
            # the axes of troughs run exactly through the centres of cells
            r = work.rnd(case, 'axis')
            g = spec['grid']
            for e in spec['elements'].values():
                e['paleoflow'] = [0.0, 0.0]
                for q in e['te_xyz']:
                    for i, a in enumerate('xy'):
                        # (the grid as it is computed, to hit the centre without rounding)
                        q[i] = float(np.arange(g[a + '0'] + g['d' + a] / 2, g[a + '0'] + g['l' + a], g['d' + a])[r.randrange(g['n' + a])])
        o = obs.run_spec(spec, tmp, work.npseed(case), r=work.rnd(case, 'ini'), model=False)
        w = geom.World(spec, known.fake(spec), o.data).build()
        a, s = w.check_assignment()
        st['known_cells'] = s['cells']
        m.extend(a)
    else:
        spec, o, w = work.simulate(case, tmp, geometries=('trough', 'trough', 'sheet'))
        w.build()
    for lst in w.ents:
        for e in lst:
            if e.kind == 'trough':
                interior.trough(w, e, spec, m, st)
    return work.result(m, st, spec, w if st.get('troughs') else None)


def summarize(results, tier):
    msgs, cov = interior.pooled(results)
    look = [x for r in results for x in (r.get('stats') or {}).get('_look2') or []]
    names = ('massive', 'dipping layers', 'bulb', 'nested bulbs')
    cov['random_structures'] = {nm: look.count(i) for i, nm in enumerate(names)}
    for i, nm in enumerate(names):
        z = stats.zscore(look.count(i), len(look) / 4.0, len(look) * 3 / 16.0)
        if abs(z) > stats.Z_LIMIT:
            msgs.append('of %d troughs with random structure, %d are %s (z=%.1f)' % (len(look), look.count(i), nm, z))
    return msgs, cov
