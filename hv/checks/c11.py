"""C11: contact surfaces."""
import numpy as np
from hv import work, known, obs, gen, geom, sut, field, stats
BUILD = 'plain'
RULE = ('(flat) strata of sheets with flat contacts, also unordered or outside of the domain, or random contacts of zero variance: the '
        'stratum of every cell follows from the file; (mean) one random contact on a fine grid: the mean height of the boundary in the '
        'output is the given height; (field) random contacts of strata and elements that cannot touch other surfaces, read from the model: their mean is the given '
        'height, their variance and lag-1 correlations in x and y, pooled and also weighted with the lengths, are those of the Gaussian model of '
        'the file (6 sigma), the products of all contacts of a model are those of independent fields, where the contact between two elements is that of the lower one; (random) all surfaces of random models: ordered, tiling, between top and bottom of the domain; '
        'distinct by grid and surfaces')
ASSUMPTIONS = ['cells within rounding of a contact may go either way']


def cases(tier, seed):
    n = work.n_cases(tier, 120, 3500)
    return [dict(seed='C11/%s/f%d' % (seed, i), kind='flat') for i in range(n)] + \
           [dict(seed='C11/%s/m%d' % (seed, i), kind='mean') for i in range(n // 2)] + \
           [dict(seed='C11/%s/s%d' % (seed, i), kind='field') for i in range(n + n // 2)] + \
           [dict(seed='C11/%s/r%d' % (seed, i), kind='random') for i in range(n)]


def run_case(case, tmp):
    return {'flat': flat, 'mean': mean, 'random': rand, 'field': fields}[case['kind']](case, tmp)


def flat(case, tmp):
    r = work.rnd(case)
    spec = known.make(case['seed'], geometries=('sheet',), hostile=0.5)
    bounds = known.strata_bounds(spec)
    run = gen.clone(spec)
    for c in run['contacts']:
        if r.random() < 0.3:
            c[:] = ['random', c[1], 0.0, gen.u(r, 0.5, 5), gen.u(r, 0.5, 5)]
        elif r.random() < 0.3:
            c[0] = r.choice(['Flat', 'FLAT'])
    o = obs.run_spec(run, tmp, work.npseed(case), r=r, model=False)
    g = spec['grid']
    z = obs.grid_centers(g)[2]
    m = work.Msgs()
    S = o.data['strata']
    t = 1e-9 * max(g['lz'], abs(g['z0']), 1)
    n = 0
    for k in range(g['nz']):
        ok = [i for i, (a, b) in enumerate(bounds) if b - t <= z[k] <= a + t and a > b]
        n += S[:, :, k].size
        if not np.all(np.isin(S[:, :, k], ok)):
            m.add('cells at z=%.6g are in strata %s, but belong to %s (contacts %s)', z[k], np.unique(S[:, :, k]).tolist(), ok, bounds)
    return {'violations': m, 'stats': {'flat_cells': n}, 'sig': [g['nx'], g['ny'], g['nz'], bounds],
            'sample': {'bounds': bounds, 'contacts': run['contacts']}}


def mean(case, tmp):
    """one random contact far from top and bottom"""
    r = work.rnd(case)
    spec = known.make(case['seed'], geometries=('sheet',), hostile=0)
    g = spec['grid']
    nx, ny, nz = r.randint(3, 10), r.randint(3, 10), 40
    for a, n in zip('xyz', (nx, ny, nz)):
        g['n' + a] = n
        g['l' + a] = n * g['d' + a]
        spec['model']['l' + a] = g['l' + a]
    s = spec['strata'][0]
    s2 = gen.clone(s)
    s2['name'] = 'other'
    spec['strata'] = [s, s2]
    h = g['z0'] + gen.u(r, 0.4, 0.6) * g['lz']
    sd = gen.u(r, 0.01, 0.04) * g['lz']
    spec['contacts'] = [['random', h, sd ** 2, gen.u(r, 0.3, 2) * g['lx'], gen.u(r, 0.3, 2) * g['ly']]]
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
    S = o.data['strata']
    m = work.Msgs()
    low = (S == 1)
    if np.any(low[:, :, 1:] & ~low[:, :, :-1]):
        m.add('a column changes from the lower to the upper stratum downwards')
    b = g['z0'] + low.sum(axis=2) * g['dz']
    if abs(b.mean() - h) > 0.5 * g['dz'] + 1e-6:
        m.add('the mean height of a random contact at %.6g is %.6g (cells are %.3g high)', h, b.mean(), g['dz'])
    if np.abs(b - h).max() > 12 * sd + g['dz']:
        m.add('a random contact at %.6g with standard deviation %.6g goes as far as %.6g', h, sd, b.flat[np.argmax(np.abs(b - h))])
    # surfaces of this variance and correlation do vary, unless the correlation lengths exceed the domain by far
    return {'violations': m, 'stats': {'mean_columns': int(b.size), '_var': float(b.var())}, 'sig': [nx, ny, g['dz'], sd],
            'sample': {'height': h, 'sd': sd, 'observed_mean': float(b.mean())}}


def fields(case, tmp):
    """variance and correlation of contacts far away from others"""
    r = work.rnd(case)
    spec = gen.make(case['seed'], geometries=('sheet',), hostile=0)
    g = spec['grid']
    for a, n in zip('xyz', (r.randint(2, 12), r.randint(2, 12), 10)):
        g['n' + a] = n
        g['l' + a] = n * g['d' + a]
        spec['model']['l' + a] = g['l' + a]

    def model(sd):
        return [sd * sd] + [gen.u(r, 0.5, 4) * g['d' + a] if r.random() < 0.7 else gen.u(r, 0.7, 3) * g['l' + a] for a in 'xy']
    sds = {}
    for n, e in spec['elements'].items():
        sd = sds[n] = gen.u(r, 0.1, 1) * 0.002 * g['lz']
        e['contact_model'] = ['random'] + model(sd)
        e['lens_thickness'] = -1
    names = list(spec['elements'])
    s0 = spec['strata'][0]
    spec['strata'] = []
    ns = r.choice([2, 2, 3, 4])
    for i in range(ns):
        s = gen.clone(s0)
        ins = r.sample(names, r.randint(1, len(names)))
        s.update(name='s%d' % i, ae=ins, prob=[1.0] * len(ins), zmean=[gen.u(r, 0.12, 0.2) * g['lz'] for _ in ins], avul_prob=0.0, avul=[0.0, 0.0])
        spec['strata'].append(s)
    # from bottom to top, far from each other
    hs = [g['z0'] + ((i + 1) / ns + gen.u(r, -0.1, 0.1) * min(1.0, 1.2 / ns)) * g['lz'] for i in range(ns - 1)]
    spec['contacts'] = [['random', h] + model(gen.u(r, 0.1, 1) * 0.004 * g['lz']) for h in hs]
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
    m, st = work.Msgs(), {'fields': 0}
    pool = field.Pool()
    strata = list(obs.attr(o.model, 'strata'))
    aes = [list(obs.attr(s, 'aes')) for s in strata]
    todo = []
    if len(strata) == ns and all(aes):
        for i in range(ns - 1):
            todo.append((obs.surf(obs.attr(strata[i], 'bottom_surface')), hs[-1 - i], spec['contacts'][-1 - i][2:], 'strata'))
        for s, lst in zip(strata, aes):
            low = obs.surf(obs.attr(s, 'bottom_surface'))
            for up, lo in zip(lst, lst[1:]):
                b = obs.surf(obs.attr(up, 'bottom_surface'))
                e = spec['elements'][obs.attr(lo, 'type_name')]
                # independent of the shape of the surface itself
                if b.mean() - 12 * max(sds.values()) > low.max():
                    todo.append((b, None, e['contact_model'][1:], 'elements'))
    before = []
    for b, z, (var, cx, cy), kind in todo:
        st['fields'] += 1
        if z is not None and abs(b.mean() - z) > 1e-9 * (1 + abs(z)):
            m.add('the mean of a random contact at %.9g is %.9g', z, b.mean())
        sp = field.spectrum(b.shape, (g['dx'], g['dy']), (cx, cy), var, 'gaussian')
        V, lag, vv = field.moments(sp)
        if V <= 1e-6 * var:
            continue
        for b2, sp2, V2, kind2 in before:
            # every contact has a field of its own
            p = float(np.mean((b - b.mean()) * (b2 - b2.mean())) / np.sqrt(V * V2))
            both = kind if kind == kind2 else 'strata and elements'
            pool.add('product of two contacts (%s)' % both, p, float((sp * sp2).sum()) / (V * V2))
        before.append((b, sp, V, kind))
        ms, lg = field.sample((b - b.mean()) / np.sqrt(V))
        pool.add(kind + '_var', ms - 1, vv / V ** 2)
        wt = np.log(var / g['lz'] ** 2) + 13
        pool.add(kind + '_var_weighted', wt * (ms - 1), wt * wt * vv / V ** 2)
        for ax, (nm, c, d) in enumerate((('x', cx, g['dx']), ('y', cy, g['dy']))):
            if b.shape[ax] > 2:
                dev, va = lg[ax] - lag[ax] / V, field.lag_var(sp, ax) / V ** 2
                pool.add('%s_lag_%s' % (kind, nm), dev, va)
                wt = np.log(c / d) - 0.6
                pool.add('%s_lag_%s_weighted' % (kind, nm), wt * dev, wt * wt * va)
    st['_pool'] = pool.dump()
    return {'violations': m, 'stats': st, 'sig': [g['nx'], g['ny'], hs, len(todo)] if todo else None,
            'sample': {'contact': spec['contacts'][0], 'surfaces': len(todo)}}


def summarize(results, tier):
    P = field.Pool.merge([(r.get('stats') or {}).get('_pool') or {} for r in results])
    msgs = ['pooled over %d contacts, the property %s deviates by %.1f standard deviations from what the file asks for' % (n, k, z)
            for k, (z, n) in P.items() if abs(z) > stats.Z_LIMIT]
    return msgs, {'pooled_z': {k: [round(z, 3), n] for k, (z, n) in P.items()}}


def rand(case, tmp):
    spec, o, w = work.simulate(case, tmp, hostile=0.5)
    m, st = work.Msgs(), {'surfaces': 0, 'cut_surfaces': 0}
    g = spec['grid']
    zt = w.zt
    model = o.model
    strata = list(obs.attr(model, 'strata'))
    if len(strata) != len(spec['strata']):
        m.add('%d strata were generated, the file has %d', len(strata), len(spec['strata']))
        return work.result(m, st, spec, w)
    up = np.full((g['nx'], g['ny']), g['z0'] + g['lz'])
    for i, s in enumerate(strata):
        t, b = obs.surf(obs.attr(s, 'top_surface')), obs.surf(obs.attr(s, 'bottom_surface'))
        st['surfaces'] += 1
        if t.shape != up.shape or np.max(np.abs(t - up)) > zt:
            m.add('stratum %d does not start where the stratum above ends', i)
        if np.any(b > t + zt):
            m.add('the bottom of stratum %d is above its top', i)
        if i == len(strata) - 1:
            want = np.minimum(g['z0'], t)
            if np.max(np.abs(b - want)) > zt:
                m.add('the lowest stratum does not end at the bottom of the domain')
        else:
            c = spec['contacts'][-1 - i]
            if c[0] == 'flat' or c[2] == 0:
                if np.max(np.abs(b - np.minimum(c[1], t))) > zt:
                    m.add('flat contact %d is not at %.6g', i, c[1])
            else:
                cut = b >= t - zt
                st['cut_surfaces'] += int(cut.any())
                if not cut.any() and abs(b.mean() - c[1]) > zt:
                    m.add('the mean of random contact %d is %.9g instead of %.9g', i, b.mean(), c[1])
                if cut.any() and not cut.all() and b.mean() > c[1] + zt + 1e-9:
                    m.add('random contact %d was raised', i)
        up = b
        a_up = t
        aes = list(obs.attr(s, 'aes'))
        for j, ae in enumerate(aes):
            at, ab = obs.surf(obs.attr(ae, 'top_surface')), obs.surf(obs.attr(ae, 'bottom_surface'))
            st['surfaces'] += 1
            if np.max(np.abs(at - a_up)) > zt:
                m.add('element %d of stratum %d does not start where the one above ends', j, i)
            if np.any(ab > at + zt) or np.any(ab < b - zt):
                m.add('element %d of stratum %d leaves its stratum', j, i)
            a_up = ab
        if aes and np.max(np.abs(a_up - b)) > zt:
            m.add('the elements of stratum %d do not fill it', i)
        if not aes and np.any(t > b + zt):
            m.add('stratum %d has thickness, but no elements', i)
    return work.result(m, st, spec, w)
