"""C22: internal heterogeneity and trends."""
import numpy as np
from hv import work, obs, gen, known, field, stats
BUILD = 'plain'
RULE = ('(exact) random models of all kinds with zero variances: conductivity and porosity of every cell are the facies value times the '
        'linear trends of its element and of the model; (moments) sheets that fill whole layers and elements that are all background, with random variances and anisotropic '
        'correlation lengths: log-conductivity and porosity of every sheet have the facies mean, and their variance and lag-1 '
        'correlations along x, y, z, pooled over all of them, also weighted with the length that is given, are those of the exponential covariance of the file (6 sigma), as are the products of log-conductivity and porosity and of neighbouring objects; (masked) any '
        'objects and backgrounds: mean square pooled; distinct by the output')
ASSUMPTIONS = ['the covariance is that of a zero-mean field periodic on the bounding box of the object, as in Dietrich & Newsam',
               'pooled deviations below 6 standard deviations are not detected']


def cases(tier, seed):
    n = work.n_cases(tier, 260, 4000)
    return [dict(seed='C22/%s/e%d' % (seed, i), kind='exact') for i in range(n)] + \
           [dict(seed='C22/%s/m%d' % (seed, i), kind='moments') for i in range(n)] + \
           [dict(seed='C22/%s/x%d' % (seed, i), kind='masked') for i in range(n)]


HET = {'heterogeneity': True, 'heterogeneity_level': 'internal'}


def trends(spec, D):
    """(factor of k, factor of n) for every cell"""
    g = spec['grid']
    F = {}
    for q in 'kn':
        f = np.ones((g['nx'], g['ny'], g['nz']))
        for i, n in enumerate(spec['ae']):
            e = spec['elements'].get(n)
            if e is None:
                continue
            c = D['hat'] == i
            f = np.where(c, f * lin(e.get(q + '_ztrend'), g['nz'])[None, None, :] * lin(e.get(q + '_xtrend'), g['nx'])[:, None, None], f)
        f = f * lin(spec['hyd'][q + '_ztrend'], g['nz'])[None, None, :] * lin(spec['hyd'][q + '_xtrend'], g['nx'])[:, None, None]
        F[q] = f
    return F['k'], F['n']


def lin(t, n):
    if t is None:
        return np.ones(n)
    if n == 1:
        return np.array([t[0]])
    return t[0] + (t[1] - t[0]) * np.arange(n) / (n - 1)


def add_trends(spec, r, p):
    for e in list(spec['elements'].values()) + [spec['hyd']]:
        for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
            e[t] = [gen.u(r, 0.3, 3.0), gen.u(r, 0.3, 3.0)] if r.random() < p else None
        gen.same_trends(e)


def run_case(case, tmp):
    r = work.rnd(case)
    if case['kind'] == 'exact':
        spec = gen.make(case['seed'], het=HET)
        add_trends(spec, r, 0.4)
        for k in ('sig_y', 'sig_n'):
            spec['hyd'][k] = [0.0] * len(spec['hyd'][k])
    elif case['kind'] == 'moments':
        spec = known.make(case['seed'], geometries=('sheet', 'trough'), hostile=0, lens=0.3, het=HET, periodic=False)
        add_trends(spec, r, 0.15)
        g, h = spec['grid'], spec['hyd']
        for e in spec['elements'].values():
            e['structure'] = 'massive'
            if e['geometry'] == 'trough':       # far away, so that the whole element is background
                e['te_xyz'] = [[g['x0'] + 50 * g['lx'], g['y0'] - 70 * g['ly'], g['z0'] + 0.5 * g['lz']]]
    else:
        spec = gen.make(case['seed'], het=HET)
        add_trends(spec, r, 0.15)
        h = spec['hyd']
    h = spec['hyd']
    if case['kind'] != 'exact':
        g = spec['grid']
        d = (g['dx'], g['dy'], g['dz'])
        h['sig_y'] = [gen.u(r, 0.1, 2.0) for _ in h['sig_y']]
        h['sig_n'] = [gen.u(r, 0.00005, 0.0004, 7) for _ in h['sig_n']]
        if r.random() < 0.3:         # (no matter whether a porosity makes sense)
            h['sig_n'] = [gen.u(r, 0.01, 0.2) for _ in h['sig_n']]
        h['n'] = [gen.u(r, 0.2, 0.4) for _ in h['n']]
        for k in ('ycorlengths', 'ncorlengths'):
            h[k] = [[gen.u(r, 0.4, 3.0) * x for x in d] for _ in h[k]]
        if r.random() < 0.3:         # both quantities have the same structure, but not the same field
            h['ncorlengths'] = [list(l) for l in h['ycorlengths']]
            if r.random() < 0.5:
                h['sig_n'] = list(h['sig_y'])
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
    D = o.data
    m = work.Msgs()
    st = {'cells': int(D['facies'].size)}
    K, N, fac = D['k_iso'], D['poros'], D['facies']
    if not (np.isfinite(K).all() and np.all(K > 0)):
        m.add('there are conductivities that are not positive')
    if not np.isfinite(N).all():
        m.add('there are porosities that are not finite')
    if not np.array_equal(D['anirat'], np.array(h['k_ratio'])[fac]):
        m.add('anisotropy ratios are not those of the facies')
    kh, n0 = np.array(h['k_h'])[fac], np.array(h['n'])[fac]
    fk, fn = trends(spec, D)
    sig = [list(fac.shape), int(fac.sum()), float(K.sum())]
    if case['kind'] == 'exact':
        st['exact_cells'] = int(fac.size)
        for name, got, want in (('conductivity', K, kh * fk), ('porosity', N, n0 * fn)):
            bad = ~(np.abs(got - want) <= 1e-9 * np.abs(want))
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                m.add('%s of cell %s is %.9g; facies value %.9g times trends %.9g is %.9g', name, i, got[i], want[i] / (fk if name[0] == 'c' else fn)[i],
                      (fk if name[0] == 'c' else fn)[i], want[i])
        return {'violations': m, 'stats': st, 'sig': sig, 'sample': {'seed': case['seed'], 'kind': 'exact'}}
    if m:
        return {'violations': m, 'stats': st}
    y = np.log(K / (kh * fk))
    e = N / fn - n0
    pool = field.Pool()
    d = (spec['grid']['dx'], spec['grid']['dy'], spec['grid']['dz'])
    # groups that are generated together
    ids = D['ha'].astype(int)
    ids = np.where(ids == -1, -2 - D['ae'].astype(int), ids)
    st['groups'] = st['boxes'] = 0
    same = {}
    for a in np.unique(ids):
        for f in np.unique(fac[ids == a]):
            c = (ids == a) & (fac == f)
            w = np.where(c)
            box = tuple(slice(int(v.min()), int(v.max()) + 1) for v in w)
            shape = tuple(s.stop - s.start for s in box)
            full = bool(c[box].all())
            st['groups'] += 1
            bg = 'bg_' if a < 0 else ''
            for q, val, sg, cl in (('y', y, h['sig_y'][f], h['ycorlengths'][f]), ('n', e, h['sig_n'][f], h['ncorlengths'][f])):
                s = field.spectrum(shape, d, cl, sg, 'exp')
                V, lag, vv = field.moments(s)
                if V < 1e-9 * sg:      # rounding of the spectrum: 1e-16, of its root: 1e-8
                    if np.max(np.abs(val[c])) > 1e-3 * np.sqrt(sg):
                        m.add('object %d has one value of %s, but deviates from its facies value by %g', a, q, np.max(np.abs(val[c])))
                    continue
                scale = np.sqrt(V)
                v = val[box] / scale
                if full:
                    st['boxes'] += 1
                    if abs(v.mean()) > 1e-6:
                        m.add('the mean deviation of %s from the facies value over object %d is %.3g standard deviations',
                              {'y': 'log-conductivity', 'n': 'porosity'}[q], a, v.mean())
                    # every object, and either quantity, has a field of its own
                    for q2, a2, v2, s2, V2 in same.get(shape, [])[-6:]:
                        nm = ('product of log-conductivity and porosity' + ' of equal structure' * (h['ycorlengths'] == h['ncorlengths'])) if q != q2 and a == a2 else \
                            'product of neighbouring objects' if q == q2 else 'product of log-conductivity and porosity of neighbouring objects'
                        pool.add(nm, float((v * v2).mean()), float((s * s2).sum()) / (V * V2))
                    same.setdefault(shape, []).append((q, a, v, s, V))
                    ms, lg = field.sample(v)
                    pool.add(bg + q + '_var', ms - 1, vv / V ** 2)
                    for ax, nm in enumerate('xyz'):
                        if shape[ax] > 2:
                            dev, va = lg[ax] - lag[ax] / V, field.lag_var(s, ax) / V ** 2
                            pool.add('%s%s_lag_%s' % (bg, q, nm), dev, va)
                            # does it follow the length that is given?
                            wt = np.log(cl[ax] / d[ax]) - 0.45
                            pool.add('%s%s_lag_%s_weighted' % (bg, q, nm), wt * dev, wt * wt * va)
                else:
                    ms = float((val[c] ** 2).mean() / V)
                    # variance of a mean square is at most 2
                    pool.add(bg + q + '_masked_var', ms - 1, 2.0)
                    pool.add(bg + q + '_masked_mean', float(val[c].mean()) / scale, 1.0)
                if np.abs(val[c]).max() > 9 * scale * 1.5:
                    m.add('%s deviates by %.3g standard deviations', q, np.abs(val[c]).max() / scale)
    st['_pool'] = pool.dump()
    return {'violations': m, 'stats': st, 'sig': sig, 'sample': {'seed': case['seed'], 'kind': case['kind'], **{k: v for k, v in st.items() if k[0] != '_'}}}


def summarize(results, tier):
    P = field.Pool.merge([(r.get('stats') or {}).get('_pool') or {} for r in results])
    msgs = ['pooled over %d objects, %s deviates by %.1f standard deviations from the value the file asks for' % (n, k, z)
            for k, (z, n) in P.items() if abs(z) > stats.Z_LIMIT]
    return msgs, {'pooled_z': {k: [round(z, 3), n] for k, (z, n) in P.items()}}
