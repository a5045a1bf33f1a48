"""C19: facies and background."""
import numpy as np
from hv import work, obs, gen
BUILD = 'plain'
RULE = ('random models; from the output fields and the file alone: background cells have the facies and angles of the element, or of the '
        'stratum where the element gives none; cells of objects have facies the element lists (or its lag facies); objects without layers '
        'have a single facies besides the lag; distinct by the output')
ASSUMPTIONS = ['which structure a trough with structure "random" got is not specified']


def cases(tier, seed):
    return work.seeds('C19', seed, work.n_cases(tier, 450, 12000))


def run_case(case, tmp):
    r = work.rnd(case)
    spec = gen.make(case['seed'], geometries=('sheet', 'trough', 'trough', 'channel'))
    # background angles of exactly zero are legal
    for e in spec['elements'].values():
        if e['geometry'] != 'sheet':
            for k in ('bg_azim', 'bg_dip'):
                if r.random() < 0.25:
                    e[k] = 0.0
            if r.random() < 0.2:
                e['bg_facies'] = spec['hyd']['hydrofacies'][0]
            if e['lag_height'] and r.random() < 0.3:
                e['lag_facies'] = spec['hyd']['hydrofacies'][0]
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
    D = o.data
    h = spec['hyd']['hydrofacies']
    m = work.Msgs()
    st = {'background_cells': 0, 'inherited_cells': 0, 'object_cells': 0, 'objects': 0}
    S = spec['strata'][::-1]
    for si, s in enumerate(S):
        for hi, n in enumerate(spec['ae']):
            e = spec['elements'].get(n)
            c = (D['strata'] == si) & (D['hat'] == hi)
            if not c.any():
                continue
            if e is None:
                m.add('cells belong to element type %s, which has no section', n)
                continue
            bg = c & (D['ha'] == -1)
            ob = c & (D['ha'] != -1)
            if bg.any():
                if e['geometry'] == 'sheet':
                    m.add('%d cells of sheet %s belong to no object', int(bg.sum()), n)
                    continue
                st['background_cells'] += int(bg.sum())
                for f, key, conv in (('facies', 'bg_facies', lambda v: h.index(v)), ('azim', 'bg_azim', float), ('dip', 'bg_dip', float)):
                    own = e[key] is not None
                    want = conv(e[key] if own else s[key])
                    st['inherited_cells'] += 0 if own else int(bg.sum())
                    if not np.all(D[f][bg] == want):
                        m.add('background of %s in stratum %s has %s %s instead of %s (%s)', n, s['name'], f, np.unique(D[f][bg])[:4].tolist(), want,
                              'own value' if own else 'value of the stratum')
            if ob.any():
                st['object_cells'] += int(ob.sum())
                allow = {h.index(f) for f in e['facies']}
                lag = h.index(e['lag_facies']) if e.get('lag_height') and e.get('lag_facies') else None
                got = set(np.unique(D['facies'][ob]).tolist())
                if not got <= allow | ({lag} if lag is not None else set()):
                    m.add('objects of %s have facies %s, listed are %s (lag: %s)', n, sorted(got), sorted(allow), lag)
                for a in np.unique(D['ha'][ob]):
                    f = set(np.unique(D['facies'][ob & (D['ha'] == a)]).tolist())
                    st['objects'] += 1
                    if e['structure'] in ('massive', 'flat', 'bulb') and len(f - ({lag} if lag is not None else set())) > 1:
                        m.add('object %d of %s is %s but has facies %s (lag: %s)', a, n, e['structure'], sorted(f), lag)
    return {'violations': m, 'stats': st, 'sig': [D['facies'].shape, int(D['facies'].sum()), int(D['hat'].sum()), st['objects']],
            'sample': {'seed': case['seed'], **st}}
