"""C21: hydraulic parameters without internal heterogeneity."""
import numpy as np
from hv import work, obs, gen, known
BUILD = 'plain'
RULE = ('random models without heterogeneity or with heterogeneity at facies level: conductivity, porosity and anisotropy ratio of every '
        'cell are exactly those the file gives for its facies; without hydraulics there are no such fields, and the geological fields '
        'are the same under the same random state; distinct by the output')
ASSUMPTIONS = ['trends are part of internal heterogeneity only']


def cases(tier, seed):
    return work.seeds('C21', seed, work.n_cases(tier, 350, 9000)) + [dict(seed='C21/%s/m%d' % (seed, i), many=300, het=i) for i in range(3)]


def run_case(case, tmp):
    r = work.rnd(case)
    hets = [{'heterogeneity': False, 'heterogeneity_level': 'internal'}, {'heterogeneity': False, 'heterogeneity_level': 'facies'},
            {'heterogeneity': True, 'heterogeneity_level': 'facies'}]
    het = hets[case['het']] if 'het' in case else r.choice(hets)
    if case.get('many'):       # facies
        spec, exp = known.column(case['seed'], case['many'], het=het)
    else:
        spec, exp = gen.make(case['seed'], het=het), None
        if r.random() < 0.3:
            spec['hyd']['n'] = [r.choice([0.0, 0.75, 1.0, gen.u(r, 0.01, 0.99)]) for _ in spec['hyd']['n']]
            spec['hyd']['k_ratio'] = [r.choice([1.0, 1e-4, 1e4, gen.u(r, 0.5, 500)]) for _ in spec['hyd']['n']]
    if exp is None and r.random() < 0.3:
        # facies names that look alike or are ordered differently than their use
        spec['hyd']['k_h'] = sorted(spec['hyd']['k_h'], reverse=r.random() < 0.5)
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
    D, h = o.data, spec['hyd']
    m = work.Msgs()
    st = {'cells': int(D['facies'].size), 'facies_seen': len(np.unique(D['facies'])), 'without_hydraulics': 0}
    for f, key in (('k_iso', 'k_h'), ('poros', 'n'), ('anirat', 'k_ratio')):
        if f not in D:
            m.add('there is no field %s', f)
            continue
        want = np.array(h[key])[D['facies']]
        bad = ~(np.abs(D[f] - want) <= 1e-12 * np.abs(want))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            m.add('%s of cell %s (facies %s) is %.9g instead of %.9g', f, i, h['hydrofacies'][D['facies'][i]], D[f][i], want[i])
    for f in exp or ():
        if f in D and not np.array_equal(D[f], exp[f]):
            m.add('%s of a column of %d strata, each with its own facies, is wrong', f, case['many'])
    if 'ktensors' not in D or D['ktensors'].shape != D['facies'].shape + (3, 3):
        m.add('there is no conductivity tensor per cell')
    if r.random() < 0.15:
        spec['model']['hydraulics'] = False
        spec['run']['runname'] = 'nohyd'
        o2 = obs.run_spec(spec, tmp, work.npseed(case), model=False)
        st['without_hydraulics'] = 1
        extra = set(o2.data) & {'k_iso', 'poros', 'anirat', 'ktensors'}
        if extra:
            m.add('without hydraulics there are still fields %s', sorted(extra))
        for f in ('facies', 'azim', 'dip', 'strata', 'ae', 'ha', 'hat'):
            if not np.array_equal(o2.data[f], D[f]):
                m.add('field %s changes when hydraulics are switched off', f)
    return {'violations': m, 'stats': st, 'sig': [D['facies'].shape, int(D['facies'].sum()), h['k_h'][0]],
            'sample': {'seed': case['seed'], 'het': het, **st}}
