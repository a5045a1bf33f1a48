"""C23: conductivity tensors."""
import numpy as np
from hv import work, obs, gen, sut
BUILD = 'plain'
RULE = ('random models of all kinds: the tensor of every cell is compared with k (I - (1 - 1/ratio) n n^T), n the normal vector of its '
        'bedding, must be symmetric and positive definite, with eigenvalues k, k, k/ratio; (direct) arrays of arbitrary angles, ratios '
        'and conductivities over many orders of magnitude; distinct by the output')
ASSUMPTIONS = ['n = (sin(dip) cos(azim), -sin(dip) sin(azim), cos(dip))', 'relative tolerance 1e-9']


def cases(tier, seed):
    n = work.n_cases(tier, 200, 6000)
    return [dict(seed='C23/%s/%d' % (seed, i), kind='model') for i in range(n)] + \
           [dict(seed='C23/%s/d%d' % (seed, i), kind='direct') for i in range(n // 4)]


def judge(T, k, azim, dip, rat, m, st):
    a, p = np.deg2rad(azim), np.deg2rad(dip)
    n = np.stack([np.sin(p) * np.cos(a), -np.sin(p) * np.sin(a), np.cos(p)], -1)
    want = k[..., None, None] * (np.eye(3) - (1 - 1 / rat)[..., None, None] * n[..., :, None] * n[..., None, :])
    sc = (k * np.maximum(1, 1 / rat))[..., None, None]
    bad = ~(np.abs(T - want) <= 1e-9 * sc)
    st['tensors'] = st.get('tensors', 0) + int(k.size)
    st['tilted'] = st.get('tilted', 0) + int(np.sum((np.abs(np.sin(p)) > 1e-3) & (np.abs(rat - 1) > 1e-3)))
    if bad.any():
        i = tuple(np.argwhere(bad)[0][:3])
        m.add('the tensor of cell %s (k=%.6g, azimuth %.6g, dip %.6g, ratio %.6g) is %s instead of %s', i, k[i], azim[i], dip[i], rat[i],
              np.array2string(T[i], precision=6).replace('\n', ''), np.array2string(want[i], precision=6).replace('\n', ''))
    if np.any(np.abs(T - np.swapaxes(T, -1, -2)) > 1e-12 * sc):
        m.add('a tensor is not symmetric')
    e = np.linalg.eigvalsh(np.where(np.isfinite(T), T, 0) / sc)
    if np.any(e[..., 0] <= 0):
        m.add('a tensor is not positive definite')


def run_case(case, tmp):
    r = work.rnd(case)
    m, st = work.Msgs(), {}
    if case['kind'] == 'model':
        spec = gen.make(case['seed'])
        if r.random() < 0.3:
            spec['hyd']['k_ratio'] = [r.choice([1.0, 0.01, 100.0, gen.u(r, 0.5, 2)]) for _ in spec['hyd']['k_ratio']]
        if r.random() < 0.15:
            # overturned beds: dips beyond the vertical
            for e in spec['elements'].values():
                if e['geometry'] == 'sheet' and e.get('dip'):
                    e['dip'] = r.choice([[95.0, 130.0], [-160.0, -100.0], [100.0, 100.0]])
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
        D = o.data
        if 'ktensors' not in D:
            return {'violations': ['there is no conductivity tensor'], 'stats': {}}
        h = spec['hyd']
        judge(D['ktensors'], D['k_iso'], D['azim'], D['dip'], np.array(h['k_ratio'])[D['facies']], m, st)
        sig = [list(D['facies'].shape), float(D['k_iso'].sum())]
    else:
        sut.load()
        import hyvr.optimized as ho
        f = getattr(ho, 'set_anisotropic_ktensor', None)
        if f is None:
            raise sut.Inconclusive('no function that sets tensors')
        g = np.random.RandomState(work.npseed(case))
        shp = (4, 3, 5)
        k = 10 ** g.uniform(-12, 3, shp)
        az = g.choice([0, 90, -90, 180, 45, 360, 720.5], shp) * g.randint(0, 2, shp) + g.uniform(-400, 400, shp) * g.randint(0, 2, shp)
        dp = g.choice([0, 90, -90, 45, 30, -60], shp) * g.randint(0, 2, shp) + g.uniform(-90, 90, shp) * g.randint(0, 2, shp)
        rat = np.where(g.rand(*shp) < 0.2, 1.0, 10 ** g.uniform(-2, 3, shp))
        T = np.zeros(shp + (3, 3))
        kk, a2, d2, r2 = k.copy(), np.deg2rad(az), np.deg2rad(dp), rat.copy()
        sut.call(f, T, kk, a2, d2, r2)
        if not np.array_equal(kk, k) or not np.array_equal(r2, rat):
            m.add('setting the tensors changed its input')
        judge(T, k, az, dp, rat, m, st)
        sig = [float(k.sum())]
    return {'violations': m, 'stats': st, 'sig': sig, 'sample': {'seed': case['seed'], 'kind': case['kind'], **st}}
