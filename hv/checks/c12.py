"""C12: every cell is assigned, in stratigraphic order."""
import numpy as np
from hv import work, known, obs, gen, geom, sut
BUILD = 'plain'
RULE = ('random models of all kinds, many with contacts that are unordered, outside of the domain or exactly through cell centres: every '
        'cell of the output must have a stratum, an element, a facies and finite angles, and going down strata and elements never go up '
        'again; models of sheets with flat contacts are compared cell by cell with the file; distinct by the output')
ASSUMPTIONS = ['cells within rounding of a contact may go either way']


def cases(tier, seed):
    n = work.n_cases(tier, 360, 9000)
    return [dict(seed='C12/%s/%d' % (seed, i), kind='any') for i in range(n)] + \
           [dict(seed='C12/%s/k%d' % (seed, i), kind='known') for i in range(n // 3)]


def surfaces(spec, o, D, m, st):
    """cells that are not in an erosive object lie between the surfaces of their stratum and of their element"""
    w = geom.World(spec, o.model, D)
    strata = list(obs.attr(o.model, 'strata'))
    top = np.stack([obs.surf(obs.attr(s, 'top_surface')) for s in strata])
    bot = np.stack([obs.surf(obs.attr(s, 'bottom_surface')) for s in strata])
    at = np.stack([obs.surf(obs.attr(a, 'top_surface')) for _, _, a in w.aes])
    ab = np.stack([obs.surf(obs.attr(a, 'bottom_surface')) for _, _, a in w.aes])
    sheet = np.array([w.geometry(k) == 'sheet' for k in range(len(w.aes))])
    order = np.full(max(w.by_num) + 1, -1)
    for n, k in w.by_num.items():
        order[n] = k
    if D['ae'].max() >= len(order) or (order[D['ae']] < 0).any():
        m.add('a cell has an element number that no element has')
        return
    k = order[D['ae']]
    i, j, _ = np.indices(D['ae'].shape)
    plain = sheet[k] | (D['ha'] == -1)
    for what, lo, hi, n in (('stratum', bot, top, D['strata']), ('element', ab, at, k)):
        bad = plain & ((w.Z > hi[n, i, j] + w.zt) | (w.Z < lo[n, i, j] - w.zt))
        st['enclosed_cells'] = st.get('enclosed_cells', 0) + int(plain.sum())
        if bad.any():
            c = tuple(np.argwhere(bad)[0].tolist())
            m.add('cell %s at z=%.6g is not between the surfaces %.6g and %.6g of its %s %d', c, w.Z[c], lo[n[c], c[0], c[1]], hi[n[c], c[0], c[1]],
                  what, n[c])


def run_case(case, tmp):
    r = work.rnd(case)
    if case['kind'] == 'known':
        spec = known.make(case['seed'], geometries=('sheet',), hostile=0.5)
    else:
        spec = gen.make(case['seed'], hostile=0.6)
        if r.random() < 0.4:
            # contacts exactly through cell centres
            g = spec['grid']
            for c in spec['contacts']:
                if c[0] == 'flat':
                    c[1] = float(obs.grid_centers(g)[2][r.randrange(g['nz'])])
    look = case['kind'] == 'any' and r.random() < 0.5
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=look)
    D, g = o.data, spec['grid']
    m = work.Msgs()
    shape = (g['nx'], g['ny'], g['nz'])
    fields = ['facies', 'azim', 'dip', 'strata', 'ae', 'ha', 'hat']
    for f in fields:
        if f not in D:
            m.add('there is no field %s', f)
        elif D[f].shape != shape:
            m.add('field %s has shape %s', f, D[f].shape)
    if m:
        return {'violations': m, 'stats': {}}
    ns, nf = len(spec['strata']), len(spec['hyd']['hydrofacies'])
    for f, lo, hi in (('strata', 0, ns - 1), ('ae', 0, 10 ** 6), ('hat', 0, len(spec['ae']) - 1), ('facies', 0, nf - 1), ('ha', -1, 10 ** 8)):
        bad = (D[f] < lo) | (D[f] > hi)
        if bad.any():
            i = np.argwhere(bad)[0].tolist()
            m.add('%d cells, the first is %s, have %s=%s', int(bad.sum()), i, f, D[f][tuple(i)])
    for f in ('azim', 'dip'):
        if not np.isfinite(D[f]).all():
            m.add('%d cells have no %s', int((~np.isfinite(D[f])).sum()), f)
    for f in ('strata', 'ae'):
        d = np.diff(D[f].astype(int), axis=2)      # upwards
        if np.any(d > 0):
            i = np.argwhere(d > 0)[0].tolist()
            m.add('%s increases upwards between cell %s (%d) and the cell above (%d)', f, i, D[f][tuple(i)], D[f][i[0], i[1], i[2] + 1])
    # numbers of elements increase with the stratum
    a, s = D['ae'].ravel(), D['strata'].ravel()
    top = {}
    for st_ in np.unique(s):
        v = a[s == st_]
        top[int(st_)] = (int(v.min()), int(v.max()))
    k = sorted(top)
    for x, y in zip(k, k[1:]):
        if top[x][1] >= top[y][0]:
            m.add('elements %s of stratum %d are not above elements %s of stratum %d', top[x], x, top[y], y)
    st = {'cells': int(a.size), 'strata_seen': len(k), 'elements_seen': len(np.unique(a))}
    if case['kind'] == 'known':
        w = geom.World(spec, known.fake(spec), D).build()
        x, s2 = w.check_assignment()
        m.extend(x)
        st['known_cells'] = s2['cells']
        z = obs.grid_centers(g)[2]
        t = 1e-9 * max(g['lz'], abs(g['z0']), 1)
        bounds = known.strata_bounds(spec)
        for k in range(g['nz']):
            ok = [i for i, (hi, lo) in enumerate(bounds) if lo - t <= z[k] <= hi + t and hi > lo]
            if not np.isin(D['strata'][:, :, k], ok).all():
                m.add('cells at z=%.6g are in strata %s instead of %s', z[k], np.unique(D['strata'][:, :, k]).tolist(), ok)
    if look and not m:
        try:
            surfaces(spec, o, D, m, st)
        except sut.Inconclusive:
            st['not_observable'] = 1
    return {'violations': m, 'stats': st, 'sig': [shape, top, int(D['facies'].sum())], 'sample': {'seed': case['seed'], 'elements per stratum': top}}
