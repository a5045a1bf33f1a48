"""C10: the grid."""
import os
import numpy as np
from hv import work, known, obs, gen, sut, vtr
BUILD = 'plain'
RULE = ('random origins, spacings and sizes (multiples of the spacing computed with rounding errors, and sizes that are no multiple): '
        '(shape) the output has exactly the cells whose centre lies inside, the vtr coordinates are their edges; (pin) a tiny trough is '
        'placed into one randomly chosen cell (also of a domain that ends inside of a cell) by its coordinates and must appear in exactly this cell of the output; distinct by grid and '
        'cell')
ASSUMPTIONS = ['sizes that are within 1e-6 of half a cell of a multiple are not generated']


def cases(tier, seed):
    n = work.n_cases(tier, 130, 4000)
    return [dict(seed='C10/%s/s%d' % (seed, i), kind='shape') for i in range(n)] + \
           [dict(seed='C10/%s/p%d' % (seed, i), kind='pin') for i in range(n)]


def one_sheet(spec, r):
    """a single stratum of one sheet"""
    n = spec['ae'][0]
    e = {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': [spec['hyd']['hydrofacies'][0]],
         'altfacies': None, 'size_ztrend': None, 'dip': None, 'azimuth': None, 'lens_thickness': -1, 'dipset_dist': None}
    spec['elements'] = {n: e}
    spec['ae'] = [n]
    s = spec['strata'][0]
    s.update(ae=[n], prob=[1.0], zmean=[1e6], avul_prob=0.0)
    spec['strata'] = [s]
    spec['contacts'] = []


def pick(r):
    """(origin, spacing, length, n)"""
    n = r.choice([1, 2, 3, r.randint(2, 9), r.randint(2, 9), r.randint(10, 31)])
    d = r.choice([0.1, 0.3, 0.7, 1.0, 2.5, round(r.uniform(0.05, 3), 3), 1.0 / 3, 0.0125, 0.0004, 1.0 / 7, 37.5, 250.0])
    o = r.choice([0.0, round(r.uniform(-50, 50), 3), 1234.5, -0.1, 0.3])
    if r.random() < 0.7:
        # a multiple, as a user would write it
        return o, d, float('%.10g' % (n * d)), n
    f = r.choice([r.uniform(-0.4, -0.01), r.uniform(0.01, 0.4)])
    if n == 1 and f < 0:
        f = -f
    return o, d, (n + f) * d, n


def run_case(case, tmp):
    return shape(case, tmp) if case['kind'] == 'shape' else pin(case, tmp)


def shape(case, tmp):
    r = work.rnd(case)
    spec = gen.make(case['seed'], geometries=('sheet',), outputs=['npz', 'vtr', 'h5'], het={'heterogeneity': False, 'heterogeneity_level': 'facies'})
    one_sheet(spec, r)
    ax = [pick(r) for _ in range(3)]
    while ax[0][3] * ax[1][3] * ax[2][3] > 4000:
        ax = [pick(r) for _ in range(3)]
    omit = r.choice([None, None, None, 'dy', 'dz'])
    if omit:
        i = 'xyz'.index(omit[1])
        o, d, l, n = ax[i]
        ax[i] = (o, ax[0][1], float('%.10g' % (min(n, 9) * ax[0][1])), min(n, 9))
    for a, (o, d, l, n) in zip('xyz', ax):
        spec['model'].update({a + '0': o, 'd' + a: d, 'l' + a: l})
    if omit:
        spec['model'][omit] = None
    n = tuple(a[3] for a in ax)
    spec['grid'].update({'n' + a: k for a, k in zip('xyz', n)})
    ob = obs.run_spec(spec, tmp, work.npseed(case), model=False)
    m, st = work.Msgs(), {'grids': 1, 'coordinates': 0}
    for k, v in ob.data.items():
        if v.shape[:3] != n:
            m.add('field %s has shape %s, the grid has %s cells', k, v.shape, n)
    f = os.path.join(ob.realdirs[-1], ob.runname + '.vtr')
    co, cells = vtr.read(f)
    for a, (o, d, l, k), c in zip('xyz', ax, co):
        want = o + d * np.arange(k + 1)
        st['coordinates'] += len(want)
        if len(c) != k + 1 or np.max(np.abs(np.asarray(c) - want)) > 1e-9 * (1 + np.abs(want).max()):
            m.add('%s edges in the vtr file are %s, expected %s', a, np.asarray(c)[:6], want[:6])
    return {'violations': m, 'stats': st, 'sig': [list(a) for a in ax], 'sample': {'axes (origin, spacing, length, cells)': [list(a) for a in ax]}}


def pin(case, tmp):
    r = work.rnd(case)
    spec = known.make(case['seed'], geometries=('trough',), hostile=0, structures=['massive'], periodic=False,
                      scale=(r.choice([1.0, 1.0, 1.0, 0.003, 0.0137, 0.0002, 40.0]), r.choice([1.0, 1.0, 1.0, 0.002, 0.0003, 25.0])))
    g = spec['grid']
    cell = [r.randrange(g['n' + a]) for a in 'xyz']
    x, y, z = (obs.grid_centers(g)[i][cell[i]] for i in range(3))
    for e in spec['elements'].values():
        e.update(te_xyz=[[x + r.uniform(-.1, .1) * g['dx'], y + r.uniform(-.1, .1) * g['dy'], z + 0.3 * g['dz']]], size_ztrend=None,
                 length=g['dx'] * 1.2, width=g['dy'] * 1.2, depth=g['dz'] * 0.6, paleoflow=[0.0, 0.0], structure='massive', lag_height=None)
    if r.random() < 0.4:
        # a domain that ends inside of a cell
        for a in r.sample('xyz', r.randint(1, 3)):
            g['l' + a] = spec['model']['l' + a] = g['l' + a] + r.choice([r.uniform(0.02, 0.4), r.uniform(0.02, 0.4), -r.uniform(0.02, 0.2)]) * g['d' + a]
    # one element everywhere
    n = spec['strata'][-1]['ae'][0]
    for s in spec['strata']:
        s['ae'] = [n]
        s['prob'] = [1.0]
        s['zmean'] = [1e6]
    ob = obs.run_spec(spec, tmp, work.npseed(case), model=False)
    got = list(zip(*(a.tolist() for a in np.where(ob.data['ha'] >= 0))))
    m = work.Msgs()
    if got != [tuple(cell)]:
        m.add('a trough inside of cell %s at (%.6g, %.6g, %.6g) appears in the cells %s', tuple(cell), x, y, z, got[:6])
    return {'violations': m, 'stats': {'pinned_cells': 1}, 'sig': [g['nx'], g['ny'], g['nz'], cell, g['dx'], g['x0']]}
