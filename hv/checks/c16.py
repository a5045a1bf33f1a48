"""C16: where troughs are placed, and how large they are."""
import numpy as np
from hv import work, known, geom, obs, gen, stats
BUILD = 'plain'
RULE = ('(known) manually placed troughs: shape and position of every trough follow from the file, every cell compared; (random) every '
        'randomly placed trough read from the model: level, size, orientation, position, migration from the trough above; the number of '
        'troughs per level (also on the lowest, and empty levels of sparse and dense elements) and their positions are pooled over all '
        'cases and compared with the Poisson and uniform distribution as are the migration steps with the normal distribution of the '
        'file, the numbers of neighbouring levels are independent, and positions, orientations and steps of neighbouring troughs, of successive levels and of one trough uncorrelated; a few models have thousands of troughs (limits: 6 sigma, KS 2.6); distinct by grid, strata and objects')
ASSUMPTIONS = ['elements whose contact surfaces were cut by another surface are only judged for what does not depend on their mean height',
               'migration steps are judged up to 8 standard deviations']


def cases(tier, seed):
    n = work.n_cases(tier, 260, 4000)
    return [dict(seed='C16/%s/k%d' % (seed, i), kind='known') for i in range(n)] + \
           [dict(seed='C16/%s/r%d' % (seed, i), kind='random') for i in range(2 * n)] + \
           [dict(seed='C16/%s/b%d' % (seed, i), kind='many') for i in range(5 if n < 1000 else 20)]


def tweak(spec, r, many=False):
    g = spec['grid']
    for st in spec['strata']:
        st['zmean'] = [z * 1.4 for z in st['zmean']]
    if many:
        st = spec['strata'][0]
        st.update(ae=st['ae'][:1], prob=[1.0], zmean=[2 * g['lz']], avul_prob=0.0, avul=[0.0, 0.0])
        spec['strata'], spec['contacts'] = [st], []
    for e in spec['elements'].values():
        if e['geometry'] == 'trough':
            if many:
                e['te_xyz'] = e['migrate'] = None
                e['agg'] = 0.02 * g['lz']
                e['trough_density'] = gen.u(r, 40, 200) / (g['lx'] * g['ly'])
                e['length'], e['width'], e['depth'] = 0.05 * g['lx'], 0.05 * g['ly'], 0.2 * g['lz']
                continue
            if r.random() < 0.7:
                e['te_xyz'] = None
                e['agg'] = gen.u(r, 0.05, 0.2) * g['lz']
                e['buffer'] = r.choice([None, 0.0, gen.u(r, 0, 0.6), gen.u(r, 0, 1)])
                q = r.random()
                if q < 0.4:
                    e['trough_density'] = gen.u(r, 3, 8) / (g['lx'] * g['ly'])
                elif q < 0.6:
                    e['trough_density'] = gen.u(r, 1.8, 3.2) / (g['lx'] * g['ly'])
                    e['agg'] = gen.u(r, 0.01, 0.04) * g['lz']
                    if r.random() < 0.7:
                        e['migrate'] = None
                elif q < 0.8:
                    e['trough_density'] = gen.u(r, 0.05, 1.2) / (g['lx'] * g['ly'])
            if e['migrate'] and r.random() < 0.5:
                e['migrate'][1] = e['migrate'][3] = 0.0


def run_case(case, tmp):
    m, st = work.Msgs(), {}
    if case['kind'] == 'known':
        spec = known.make(case['seed'], geometries=('trough',), hostile=0.05, structures=['massive', 'bulb'])
        o = obs.run_spec(spec, tmp, work.npseed(case), r=work.rnd(case, 'ini'), model=False)
        w = geom.World(spec, known.fake(spec), o.data).build()
        a, s = w.check_assignment()
        m.extend(a)
        st['known_cells'] = s['cells']
        st['known_objects'] = sum(len(ae.object_list) for _, _, ae in w.aes)
        return work.result(m, st, spec, w)
    r = work.rnd(case)
    many = case['kind'] == 'many'
    spec, o, w = work.simulate(case, tmp, tweak=lambda s: tweak(s, r, many), geometries=('trough',) if many else ('trough', 'trough', 'sheet'), size='tiny')
    pool = {'n': [], 'lam': [], 'ln': [], 'llam': [], 'dn': [], 'dlam': [], 'x': [], 'y': [], 'al': [], 'mx': [], 'my': []}
    pool['I'] = stats.Independence()
    for k, (_, _, ae) in enumerate(w.aes):
        if w.geometry(k) == 'trough':
            element(spec, w, k, ae, m, st, pool)
    st['_pool'] = {k: v for k, v in pool.items() if k != 'I'}
    st['_pairs'] = pool['I'].dump()
    return work.result(m, st, spec, w if st.get('troughs') else None)


def element(spec, w, k, ae, m, st, pool):
    g, e = spec['grid'], w.elem(k)
    objs = list(obs.attr(ae, 'object_list'))
    A = {a: np.array([obs.attr(o, a) for o in objs], float) for a in ('x', 'y', 'z', 'a', 'b', 'c', 'alpha')}
    n = len(objs)
    st['troughs'] = st.get('troughs', 0) + n
    t = w.zt * 10
    lo, hi = min(e['paleoflow']), max(e['paleoflow'])
    # size and orientation
    if n:
        f = np.ones(n)
        if e['size_ztrend']:
            s0, s1 = e['size_ztrend']
            f = s0 + (s1 - s0) * (A['z'] - g['z0']) / g['lz']
        for name, want in (('a', e['length'] * f / 2), ('b', e['width'] * f / 2), ('c', e['depth'] * f)):
            if np.any(np.abs(A[name] - want) > 1e-9 * (1 + np.abs(want))):
                i = int(np.argmax(np.abs(A[name] - want)))
                m.add('trough %d of element %d at z=%.6g: half axis %s is %.9g instead of %.9g', i, k, A['z'][i], name, A[name][i], want[i])
        if np.any(A['alpha'] < lo - 1e-6) or np.any(A['alpha'] > hi + 1e-6):
            m.add('a trough of element %d has an orientation outside of [%.6g, %.6g]', k, lo, hi)
        if hi - lo > 1:
            pool['al'] += list((A['alpha'] - lo) / (hi - lo))
    if e['te_xyz'] is not None:
        want = sorted(map(tuple, e['te_xyz']))
        got = sorted(zip(A['x'], A['y'], A['z']))
        if len(want) != len(got) or not np.allclose(np.array(want), np.array(got), rtol=1e-12, atol=1e-9):
            m.add('element %d: troughs are not at the given positions', k)
        st['manual'] = st.get('manual', 0) + n
        return
    top, bot = ae.top_surface, ae.bottom_surface
    ts, bs = obs.surf(top), obs.surf(bot)
    tm, bm = float(obs.attr(top, 'zmean')), float(bs.max())
    low = bm + e['depth'] * (e['buffer'] or 0.0)
    if n and A['z'].min() < low - t:
        m.add('element %d: a trough is at z=%.9g, below the buffer at %.9g', k, A['z'].min(), low)
    if abs(ts.mean() - tm) > t:
        # surfaces were cut: only the spacing is judged
        zs = np.unique(np.round(A['z'], 9))
        d = np.diff(zs) / e['agg']
        if d.size and np.any(np.abs(d - np.round(d)) > 1e-4):
            m.add('element %d: levels of troughs are not multiples of %.6g apart', k, e['agg'])
        return
    levels = []
    j = 0
    while tm - j * e['agg'] > low + t:
        levels.append(tm - j * e['agg'])
        j += 1
    border = abs(tm - j * e['agg'] - low) <= t
    st['levels'] = st.get('levels', 0) + len(levels)
    idx = np.full(n, -1)
    for i in range(n):
        for q, z in enumerate(levels + ([tm - j * e['agg']] if border else [])):
            if abs(A['z'][i] - z) <= t:
                idx[i] = q
    if np.any(idx < 0):
        i = int(np.argmax(idx < 0))
        m.add('trough %d of element %d is at z=%.9g, levels go from %.9g in steps of %.9g down to (at least) %.9g', i, k, A['z'][i], tm,
              e['agg'], low)
        return
    lam = e['trough_density'] * g['lx'] * g['ly']
    cnt = [int((idx == q).sum()) for q in range(len(levels))]
    fresh = np.ones(n, bool)
    if e['migrate'] is not None and len(levels):
        fresh = idx == 0
        if len(set(cnt)) > 1:
            m.add('element %d: the number of migrating troughs changes from level to level: %s', k, cnt)
        elif cnt[0]:
            mx, sx, my, sy = e['migrate']
            P = np.column_stack([A['x'], A['y']])
            last = {}
            for q in range(1, len(levels)):
                up, lo_ = P[idx == q - 1], P[idx == q]
                d = lo_ - up - np.array([mx, my])
                lim = 8 * np.array([sx, sy]) + 1e-9 * (1 + np.abs(P).max())
                if np.any(np.abs(d) > lim):
                    m.add('element %d: a trough migrated by %s instead of %s', k, (lo_ - up)[int(np.argmax(np.abs(d).max(axis=1)))], (mx, my))
                st['migrations'] = st.get('migrations', 0) + len(d)
                s = {}
                for nm, col, sd in (('mx', d[:, 0], sx), ('my', d[:, 1], sy)):
                    if sd > 1e-6:
                        pool[nm] += list(col / sd)
                        s[nm] = col / sd
                for nm, col in s.items():
                    pool['I'].series('migration steps of neighbouring troughs in ' + nm[1], col)
                    if nm in last and len(last[nm]) == len(col):
                        pool['I'].many('migration steps of a trough on successive levels in ' + nm[1], last[nm], col)
                if len(s) == 2:
                    pool['I'].many('migration steps of a trough in x and y', s['mx'], s['my'])
                last = s
        cnt = cnt[:1]
    if np.any(A['x'][fresh] < g['x0']) or np.any(A['x'][fresh] > g['x0'] + g['lx']) or \
            np.any(A['y'][fresh] < g['y0']) or np.any(A['y'][fresh] > g['y0'] + g['ly']):
        m.add('element %d: a trough was placed outside of the domain', k)
    U = {'x': (A['x'] - g['x0']) / g['lx'], 'y': (A['y'] - g['y0']) / g['ly']}
    if hi - lo > 1:
        U['orientation'] = (A['alpha'] - lo) / (hi - lo)
    N = {a: (v - 0.5) * 12 ** 0.5 for a, v in U.items()}
    for q in range(len(levels)):
        on = np.where(idx == q)[0]
        for a, v in N.items():
            if a == 'orientation' or q == 0 or e['migrate'] is None:
                pool['I'].series('%s of neighbouring troughs of a level' % a, v[on])
                if q and e['migrate'] is None or a == 'orientation':
                    above = np.where(idx == q - 1)[0]
                    k_ = min(len(on), len(above))
                    pool['I'].many('%s of troughs of successive levels' % a, v[above[:k_]], v[on[:k_]])
                for a2, v2 in N.items():
                    if a2 > a and (q == 0 or e['migrate'] is None):
                        pool['I'].many('%s and %s of a trough' % (a, a2), v[on], v2[on])
    pool['n'] += cnt
    pool['lam'] += [lam] * len(cnt)
    if e['migrate'] is None and len(cnt) > 1:
        pool['ln'].append(cnt[-1])
        pool['llam'].append(lam)
        pool['dn'] += [(x - y) ** 2 for x, y in zip(cnt[::2], cnt[1::2])]
        pool['dlam'] += [lam] * (len(cnt) // 2)
    pool['x'] += list((A['x'][fresh] - g['x0']) / g['lx'])
    pool['y'] += list((A['y'][fresh] - g['y0']) / g['ly'])


def summarize(results, tier):
    P = {}
    for r in results:
        for k, v in ((r.get('stats') or {}).get('_pool') or {}).items():
            P.setdefault(k, []).extend(v)
    msgs = []
    cov = {}
    if not P.get('lam'):
        return msgs, cov
    n, lam = np.array(P['n'], float), np.array(P['lam'])
    z = stats.zscore(n.sum(), lam.sum(), lam.sum())
    cov['trough_count'] = {'levels': len(n), 'troughs': n.sum(), 'expected': lam.sum(), 'z': z}
    if abs(z) > stats.Z_LIMIT:
        msgs.append('%d troughs on %d levels, expected are %.1f (z=%.1f)' % (n.sum(), len(n), lam.sum(), z))
    ok = lam > 0
    chi = ((n[ok] - lam[ok]) ** 2 / lam[ok]).sum()
    z = stats.zscore(chi, ok.sum(), (2 + 1 / lam[ok]).sum())
    cov['trough_dispersion_z'] = z
    if abs(z) > stats.Z_LIMIT:
        msgs.append('the number of troughs per level does not vary like a Poisson variable (z=%.1f)' % z)
    for nm, w in (('all', lam >= 0), ('sparse', lam < 1.5), ('dense', lam >= 1.5)):
        p0 = np.exp(-lam[w])
        k = int((n[w] == 0).sum())
        z = stats.zscore(k, p0.sum(), (p0 * (1 - p0)).sum())
        cov['empty_levels_' + nm] = {'levels': k, 'expected': p0.sum(), 'z': z}
        if abs(z) > stats.Z_LIMIT:
            msgs.append('%d of %d levels have no trough, expected are %.1f (z=%.1f)' % (k, w.sum(), p0.sum(), z))
    big = lam > 30
    if big.sum() > 20:
        z = stats.zscore(((n[big] - lam[big]) ** 2 / lam[big]).sum(), big.sum(), (2 + 1 / lam[big]).sum())
        cov['dispersion_of_many_troughs'] = {'levels': int(big.sum()), 'z': z}
        if abs(z) > stats.Z_LIMIT:
            msgs.append('the number of troughs per level does not vary like a Poisson variable where it is large (%d levels, z=%.1f)' % (big.sum(), z))
    ln, ll = np.array(P['ln'], float), np.array(P['llam'])
    z = stats.zscore(ln.sum(), ll.sum(), ll.sum())
    cov['lowest_level'] = {'troughs': ln.sum(), 'expected': ll.sum(), 'z': z}
    if abs(z) > stats.Z_LIMIT:
        msgs.append('%d troughs on the lowest levels, expected are %.1f (z=%.1f)' % (ln.sum(), ll.sum(), z))
    # levels of one element are independent of each other
    d, dl = np.array(P['dn'], float), np.array(P['dlam'])
    z = stats.zscore(d.sum(), 2 * dl.sum(), (2 * dl + 8 * dl ** 2).sum())
    cov['neighbouring_levels'] = {'pairs': d.size, 'z': z}
    if abs(z) > stats.Z_LIMIT:
        msgs.append('the number of troughs on neighbouring levels differs by a mean square of %.2f instead of %.2f (%d pairs, z=%.1f)' % (
            d.mean(), 2 * dl.mean(), d.size, z))
    for k in ('mx', 'my'):
        v = np.array(P.get(k) or [])
        for nm, z in (('mean', stats.zscore(v.sum(), 0.0, v.size)), ('variance', stats.zscore((v * v - 1).sum(), 0.0, 2 * v.size))):
            cov['migration_%s_%s' % (k[1], nm)] = [int(v.size), z]
            if abs(z) > stats.Z_LIMIT:
                msgs.append('%d migration steps of troughs in %s have a wrong %s (z=%.1f)' % (v.size, k[1], nm, z))
    for k, name in (('x', 'x positions'), ('y', 'y positions'), ('al', 'orientations')):
        d = stats.ks_uniform(P[k])
        cov['ks_' + k] = [len(P[k]), d]
        if d > stats.KS_LIMIT:
            msgs.append('the %s of %d troughs are not uniformly distributed (KS %.2f)' % (name, len(P[k]), d))
    stats.Independence.load(results).judge(msgs, cov)
    return msgs, cov
