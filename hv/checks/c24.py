"""C24: random fields."""
import numpy as np
from hv import work, sut, field, stats
RULE = ('random grids, variances, correlation lengths, covariance models, 2-d/3-d, with and without a selection: the field has the right '
        'shape and zero mean, scales exactly with the standard deviation, is zero without variance, selections get one value per cell '
        'that equals the field of the bounding box; (cov) the variance of every cell and the covariance of every pair of cells, and the power of every wave number, over 600 '
        'fields; (mix) nine related requests in turn in one process, each with its own covariances over 300 fields; variance and lag-1 correlations along every axis, pooled, are those of the covariance model (6 sigma); skewness and kurtosis of the values vanish and successive fields are independent (pooled, 6 sigma); names of unknown '
        'models must be rejected; distinct by parameters')
ASSUMPTIONS = ['the covariance is that of a zero-mean field periodic on the box, as in Dietrich & Newsam',
               'fields are drawn from NumPy\'s global random state']


def cases(tier, seed):
    n = work.n_cases(tier, 900, 20000)
    return work.seeds('C24', seed, n) + [dict(seed='C24/%s/c%d' % (seed, i), kind='cov') for i in range(n // 15)] + [
        dict(seed='C24/%s/m%d' % (seed, i), kind='mix') for i in range(n // 30)]


def covariance(case):
    """all variances and covariances of the cells of a small grid, from many fields"""
    sut.load()
    import hyvr.utils as hu
    from hyvr.geo.grid import Grid
    r = work.rnd(case)
    n = [r.choice([1, 2, 3, 4, 5]) for _ in range(3)]
    while not 2 <= n[0] * n[1] * n[2] <= 60:
        n = [r.choice([1, 2, 3, 4, 5]) for _ in range(3)]
    long = r.random() < 0.4              # much longer than the correlation length
    if long:
        n = [r.choice([16, 25, 30]), r.choice([1, 2]), 1]
    d = [r.choice([0.1, 0.5, 1.0, 2.5]) for _ in range(3)]
    two = r.random() < 0.4
    if long:
        k = 2 if two else 3
        n[:k] = r.sample(n[:k], k)
    grid = sut.call(Grid, 0.0, 0.0, 0.0, *d, *[a * b for a, b in zip(n, d)], 0)
    shape = tuple(n[:2 if two else 3])
    m, st = work.Msgs(), {'fields': 0}
    if np.prod(shape) < 2:
        return {'violations': m, 'stats': st}
    corl = [(r.uniform(1.2, 2.8) if long and nn > 2 else r.uniform(0.3, 4)) * x for nn, x in zip(shape, d)]
    cov = r.choice(['gaussian', 'exp'])
    mask = np.ones(shape, bool) if r.random() < 0.5 else None
    np.random.seed(work.npseed(case))
    K = 600
    Y = np.array([np.asarray(sut.call(hu.specsim, grid, 1.0, corl, selection_mask=mask, two_dim=two, covmod=cov)).ravel() for _ in range(K)])
    st['fields'] = K
    C = target(shape, d, corl, 1.0, cov)
    idx = np.array(list(np.ndindex(*shape)))
    if C[0, 0] < 1e-6:
        return {'violations': m, 'stats': st}
    S = Y.T @ Y / K
    z = (S - C) / np.sqrt((C ** 2 + C[0, 0] ** 2) / K)
    st['covariances'] = int(z.size)
    if np.max(np.abs(z)) > 9:
        i, j = np.unravel_index(np.argmax(np.abs(z)), z.shape)
        m.add('over %d fields, cells %s and %s have the covariance %.4g instead of %.4g', K, idx[i].tolist(), idx[j].tolist(), S[i, j], C[i, j])
    # the same in wave numbers: also small covariances at large distances count there
    P = field.spectrum(shape, d, corl, 1.0, cov)
    ax = tuple(range(1, len(shape) + 1))
    G = np.abs(np.fft.fftn(Y.reshape((K,) + shape), axes=ax) / np.prod(shape)) ** 2
    use = P > 1e-3 * P.sum() / P.size
    if use.any():
        own = np.ones(shape, bool)                # wave numbers that are their own opposite
        for a, nn in enumerate(shape):
            sh = [1] * len(shape)
            sh[a] = nn
            own &= ((2 * np.arange(nn)) % nn == 0).reshape(sh)
        zz = (G.mean(0)[use] / P[use] - 1) / np.sqrt(np.where(own, 2.0, 1.0)[use] / K)
        st['wave_numbers'] = int(zz.size)
        if np.max(np.abs(zz)) > 9:
            i = np.argwhere(use)[np.argmax(np.abs(zz))]
            m.add('over %d fields, wave number %s has the power %.4g instead of %.4g', K, i.tolist(), G.mean(0)[tuple(i)], P[tuple(i)])
    # the values are normally distributed: their third and fourth cumulants vanish
    u, rho = Y / np.sqrt(C[0, 0]), C / C[0, 0]
    pool = field.Pool()
    for nm, H, v in (('skewness', u ** 3 - 3 * u, 6 * np.mean(rho ** 3)), ('kurtosis', u ** 4 - 6 * u ** 2 + 3, 24 * np.mean(rho ** 4))):
        pool.add(nm, float(H.mean(axis=1).sum()), float(v * K))
        if len(shape) == 2:
            pool.add(nm + ' of fields in 2-d', float(H.mean(axis=1).sum()), float(v * K))
    st['_pool'] = pool.dump()
    # and fields made one after another are independent
    I = stats.Independence()
    z0 = u[:, 0]
    I.series('values of successive fields', z0)
    st['_pairs'] = I.dump()
    return {'violations': m, 'stats': st, 'sig': ['cov', shape, d, corl, cov]}


def target(shape, d, corl, var, cov):
    """covariance of every pair of cells"""
    c = np.real(np.fft.fftn(field.spectrum(shape, d, corl, var, cov)))
    idx = np.array(list(np.ndindex(*shape)))
    D = (idx[:, None, :] - idx[None, :, :]) % np.array(shape)
    return c[tuple(D[..., i] for i in range(len(shape)))]


def mixed(case):
    """several requests that differ in a few of their parameters, in turn in one process: each gets the covariance it asked for"""
    sut.load()
    import hyvr.utils as hu
    from hyvr.geo.grid import Grid
    r = work.rnd(case)
    m, st = work.Msgs(), {'fields': 0}
    two = r.random() < 0.5
    dim = 2 if two else 3
    n = [r.choice([3, 4, 5, 6]) for _ in range(2)] + [r.choice([1, 2, 3])]
    if r.random() < 0.5:
        n[1] = n[0]
    base = dict(n=n, d=[r.choice([0.5, 1.0, 2.0]) for _ in range(3)], var=1.0, cov=r.choice(['gaussian', 'exp']), mask=r.choice(['none', 'all', 'box']))
    base['corl'] = [r.uniform(0.5, 3) for _ in range(dim)]
    reqs = [base]
    for what in ('corl', 'd', 'cov', 'var', 'mask', 'corl2', 'n', 'dn'):
        q = {k: (list(v) if isinstance(v, list) else v) for k, v in base.items()}
        if what == 'corl':
            q['corl'] = q['corl'][::-1]
        elif what == 'corl2':
            q['corl'][r.randrange(dim)] *= r.choice([0.25, 4])
        elif what == 'd':
            q['d'] = [x * r.choice([0.25, 4]) for x in q['d']]
        elif what == 'dn':
            q['d'] = q['d'][::-1]
        elif what == 'n':
            q['n'] = [q['n'][1], q['n'][0] + 1, q['n'][2]]
        elif what == 'cov':
            q['cov'] = 'exp' if q['cov'] == 'gaussian' else 'gaussian'
        elif what == 'var':
            q['var'] = 3.0
        elif what == 'mask':
            q['mask'] = r.choice([x for x in ('none', 'all', 'box') if x != q['mask']])
        reqs.append(q)
    K = 300
    work_list = []
    for q in reqs:
        sh = tuple(q['n'][:dim])
        grid = sut.call(Grid, 0.0, 0.0, 0.0, *q['d'], *[a * b for a, b in zip(q['n'], q['d'])], 0)
        mask = None
        if q['mask'] != 'none':
            mask = np.zeros(sh, bool)
            if q['mask'] == 'box':                    # the whole extent, without all of its cells
                mask[0] = mask[-1] = True
                mask.reshape(-1)[[0, -1]] = True
                for ax in range(dim):
                    mask[tuple([0] * ax + [slice(None)] + [0] * (dim - ax - 1))] = True
            else:
                mask[:] = True
        work_list.append((q, sh, grid, mask, []))
    np.random.seed(work.npseed(case))
    for k in range(K):
        order = list(range(len(work_list)))
        r.shuffle(order)
        for i in order:
            q, sh, grid, mask, out = work_list[i]
            out.append(np.asarray(sut.call(hu.specsim, grid, q['var'], q['corl'], selection_mask=mask, two_dim=two, covmod=q['cov'])).ravel())
            st['fields'] += 1
    st['mixed_requests'] = len(work_list)
    for q, sh, grid, mask, out in work_list:
        Y = np.array(out)
        C = target(sh, q['d'], q['corl'], q['var'], q['cov'])
        if mask is not None:
            sel = mask.ravel()
            C = C[np.ix_(sel, sel)]
        if C[0, 0] < 1e-6 * q['var']:
            continue
        if Y.shape[1] != len(C):
            m.add('a selection of %d cells gives %d values', len(C), Y.shape[1])
            continue
        S = Y.T @ Y / K
        z = (S - C) / np.sqrt((C ** 2 + C[0, 0] ** 2) / K)
        st['covariances'] = st.get('covariances', 0) + int(z.size)
        if np.max(np.abs(z)) > 9:
            i, j = np.unravel_index(np.argmax(np.abs(z)), z.shape)
            m.add('over %d fields, made in turn with %d other requests, values %d and %d of %r have the covariance %.4g instead of %.4g', K,
                  len(work_list) - 1, i, j, q, S[i, j], C[i, j])
    return {'violations': m, 'stats': st, 'sig': ['mix', repr(base)]}


def run_case(case, tmp):
    if case.get('kind') == 'cov':
        return covariance(case)
    if case.get('kind') == 'mix':
        return mixed(case)
    sut.load()
    import hyvr.utils as hu
    from hyvr.geo.grid import Grid
    r = work.rnd(case)
    f = hu.specsim
    n = [r.choice([1, 2, 3, r.randint(2, 12), r.randint(4, 16)]) for _ in range(3)]
    d = [r.choice([0.1, 0.5, 1.0, 2.5, r.uniform(0.1, 3)]) for _ in range(3)]
    o = [r.choice([0.0, r.uniform(-50, 50)]) for _ in range(3)]
    grid = sut.call(Grid, *o, *d, *[a * b for a, b in zip(n, d)], r.choice([0, 1]))
    two = r.random() < 0.4
    dim = 2 if two else 3
    shape = tuple(n[:dim])
    corl = [r.uniform(0.3, 4) * x for x in d[:dim]]
    var = r.choice([r.uniform(0.01, 5), r.uniform(1e-6, 1e-3), 0.0]) if r.random() < 0.3 else r.uniform(0.01, 5)
    cov = r.choice(['gaussian', 'exp'])
    seed = work.npseed(case)
    m, st = work.Msgs(), {'fields': 0}

    def draw(v=var, mask=None, s=seed):
        np.random.seed(s)
        st['fields'] += 1
        return np.asarray(sut.call(f, grid, v, corl, selection_mask=mask, two_dim=two, covmod=cov))
    y = draw()
    if y.shape != shape:
        m.add('the field has shape %s instead of %s', y.shape, shape)
        return {'violations': m, 'stats': st}
    if not np.isfinite(y).all() or np.iscomplexobj(y):
        m.add('the field has values that are no finite real numbers')
        return {'violations': m, 'stats': st}
    s = field.spectrum(shape, d, corl, var, cov)
    V, lag, vv = field.moments(s)
    if abs(y.mean()) > 1e-9 * (np.sqrt(var) + 1e-300):
        m.add('the mean of the field is %.3g (standard deviation %.3g)', y.mean(), np.sqrt(var))
    if var == 0 and np.any(y != 0):
        m.add('a field without variance is not zero')
    if var > 0:
        y4 = draw(4 * var)
        if np.max(np.abs(y4 - 2 * y)) > 1e-9 * np.sqrt(var):
            m.add('four times the variance does not double the field')
    # selection: whole grid, box, and arbitrary
    full = draw(mask=np.ones(shape, bool))
    if full.shape != (y.size,) or np.max(np.abs(full - y.ravel())) > 1e-9 * (np.sqrt(var) + 1e-300):
        m.add('selecting every cell gives another field')
    mask = np.zeros(shape, bool)
    lo = [r.randrange(k) for k in shape]
    hi = [r.randint(a, k - 1) + 1 for a, k in zip(lo, shape)]
    box = tuple(slice(a, b) for a, b in zip(lo, hi))
    bshape = tuple(b - a for a, b in zip(lo, hi))
    mask[box] = True
    mask0 = mask.copy()
    yb = draw(mask=mask)
    if not np.array_equal(mask, mask0):
        m.add('the selection was changed')
    if yb.shape != (int(mask.sum()),):
        m.add('a selection of %d cells gives values of shape %s', int(mask.sum()), yb.shape)
    else:
        if abs(yb.mean()) > 1e-9 * (np.sqrt(var) + 1e-300):
            m.add('the mean over a selected box is %.3g', yb.mean())
        # thin out, keeping the corners: the same values at the remaining cells
        t = mask.copy()
        rs = np.random.RandomState(seed % 2 ** 31)
        t &= rs.rand(*shape) < 0.6
        for c in (tuple(lo), tuple(b - 1 for b in hi)):
            t[c] = True
        yt = draw(mask=t)
        st['selected'] = int(t.sum())
        if yt.shape != (int(t.sum()),) or np.max(np.abs(yt - yb.reshape(bshape)[t[box]])) > 1e-9 * (np.sqrt(var) + 1e-300):
            m.add('the values of selected cells depend on which other cells of the box are selected')
    pool = field.Pool()

    def moments(v, sh, tag):
        sp = field.spectrum(sh, d, corl, var, cov)
        VV, lg, vr = field.moments(sp)
        if VV <= 1e-9 * var or var == 0:
            return
        ms, l = field.sample(v / np.sqrt(VV))
        pool.add('%s_%s_%dd_var' % (tag, cov, dim), ms - 1, vr / VV ** 2)
        for ax in range(dim):
            if sh[ax] > 2:
                dev, va = l[ax] - lg[ax] / VV, field.lag_var(sp, ax) / VV ** 2
                pool.add('%s_%s_%dd_lag_%s' % (tag, cov, dim, 'xyz'[ax]), dev, va)
                wt = np.log(corl[ax] / d[ax]) - 0.55       # does it follow the length that is given?
                pool.add('%s_%s_%dd_lag_%s_weighted' % (tag, cov, dim, 'xyz'[ax]), wt * dev, wt * wt * va)
    if not m:
        for k in range(6):
            moments(draw(s=(seed + 977 * k) % 2 ** 32), shape, 'grid')
        moments(yb.reshape(bshape), bshape, 'box')
    # unknown covariance model
    try:
        bad = r.choice(['spherical-ish', 'spherical', 'exponential', 'Exp', 'gauss', 'Gaussian ', 'nugget', 'linear', '', 'matern'])
        f(grid, 1.0, corl, two_dim=two, covmod=bad)
        m.add('the unknown covariance model %r was accepted', bad)
    except Exception:
        pass
    st['_pool'] = pool.dump()
    return {'violations': m, 'stats': st, 'sig': [shape, d, corl, var, cov], 'sample': {'shape': shape, 'spacing': d, 'corl': corl, 'var': var, 'cov': cov}}


def summarize(results, tier):
    P = field.Pool.merge([(r.get('stats') or {}).get('_pool') or {} for r in results])
    msgs = ['pooled over %d fields, %s deviates by %.1f standard deviations from the covariance model' % (n, k, z)
            for k, (z, n) in P.items() if abs(z) > stats.Z_LIMIT]
    cov = {'pooled_z': {k: [round(z, 3), n] for k, (z, n) in P.items()}}
    stats.Independence.load(results).judge(msgs, cov)
    return msgs, cov
