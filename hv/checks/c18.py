"""C18: where channels run, and how large they are."""
import numpy as np
from hv import work, obs, gen, sut, stats, geom
BUILD = 'plain'
RULE = ('(cut) one straight channel along x on one level in a flat element: the cells of the output must be a parabola of the given '
        'width and depth that is the same at every x, for some position inside of the domain; (random) every channel read from the '
        'model: level, number per level, width, depth, centreline step, flow direction, start, migration; start positions (also for each quarter of the flow directions) and migration '
        'steps pooled (KS 2.6), and to which side they bend (6 sigma), point distances down to 1/50 cell; (ar2) the directions along a '
        'centreline satisfy the documented autoregressive equation with standard normal noise times the given factor: mean, variance and '
        'correlation pooled (6 sigma), also of the first step and of whole centrelines, no two channels have the same noise; starts and steps of neighbouring channels and of successive levels are uncorrelated; (reenter) channels that wind across the border of the domain come back into it; every cell the file puts into a channel needs a '
        'centreline point beside it; distinct by grid, strata and objects')
ASSUMPTIONS = ['centreline points are at most the given step apart, which blurs the sides of a channel accordingly',
               'elements whose contact surfaces were cut by another surface are not judged for their levels']


def cases(tier, seed):
    n = work.n_cases(tier, 110, 2500)
    return [dict(seed='C18/%s/c%d' % (seed, i), kind='cut') for i in range(n)] + \
           [dict(seed='C18/%s/r%d' % (seed, i), kind='random') for i in range(2 * n)] + \
           [dict(seed='C18/%s/a%d' % (seed, i), kind='ar2') for i in range(n)] + \
           [dict(seed='C18/%s/w%d' % (seed, i), kind='whole') for i in range(n // 3)] + \
           [dict(seed='C18/%s/m%d' % (seed, i), kind='mig') for i in range(n // 3)] + \
           [dict(seed='C18/%s/e%d' % (seed, i), kind='reenter') for i in range(n // 5)] + \
           [dict(seed='C18/%s/s%d' % (seed, i), kind='start', quadrant=i % 4) for i in range(n // 3)]


def cut_spec(case, r):
    spec = gen.make(case['seed'], size='medium', geometries=('channel',), hostile=0, periodic=False,
                    het={'heterogeneity': False})
    g = spec['grid']
    name = spec['ae'][0]
    e = spec['elements'][name]
    spec['elements'] = {name: e}
    spec['ae'] = [name]
    s = spec['strata'][0]
    s.update(ae=[name], prob=[1.0], zmean=[1e6], avul_prob=0.0)
    spec['strata'] = [s]
    spec['contacts'] = []
    along_y = r.random() < 0.4
    lx, ly = (g['ly'], g['lx']) if along_y else (g['lx'], g['ly'])
    e.update(eps_factor=0.0, channel_no=1, ds=r.choice([0.1, 0.1, 0.06, 0.03]), contact_model=['flat'], agg=gen.u(r, 0.52, 0.8) * g['lz'], buffer=None,
             width=gen.u(r, 0.2, 0.9) * min(ly, 0.8 * lx), depth=gen.u(r, 0.1, 0.4) * g['lz'],
             flow_angle=r.choice([90.0, -90.0] if along_y else [0.0, 180.0]))
    if e['size_ztrend']:
        e['size_ztrend'] = [gen.u(r, 0.6, 1.2), gen.u(r, 0.6, 1.2)]
    return spec, e, along_y


def cut(case, tmp):
    r = work.rnd(case)
    spec, e, along_y = cut_spec(case, r)
    g = spec['grid']
    o = obs.run_spec(spec, tmp, work.npseed(case), model=False)
    m, st = work.Msgs(), {}
    ha = o.data['ha']
    x, y, z = obs.grid_centers(g)
    c = ha >= 0
    if along_y:
        c = c.transpose(1, 0, 2)
        y, y0, ly = x, g['x0'], g['lx']
        lx = g['ly']
    else:
        y0, ly, lx = g['y0'], g['ly'], g['lx']
    ztop = g['z0'] + g['lz'] - e['agg']
    f = 1.0
    if e['size_ztrend']:
        f = float(np.interp(ztop, [g['z0'], g['z0'] + g['lz']], e['size_ztrend']))
    width, depth = e['width'] * f, e['depth'] * f
    if 2 * lx < 1.05 * (lx + width):
        raise sut.Inconclusive('centreline may be too short')
    blur = 0.51 * e['ds']
    lo, hi = y0, y0 + ly             # feasible positions of the axis
    holes = []
    st['cut_cells'] = int(c.sum())
    for k in range(len(z)):
        dz = z[k] - ztop
        for j in range(len(y)):
            col = c[:, j, k]
            q = 1 + dz / depth
            if dz > 1e-9:
                if col.any():
                    m.add('a channel cell lies %.6g above the level of the channel', dz)
                continue
            if abs(dz) <= 1e-9:
                continue
            if q < -1e-9 and col.any():
                m.add('a channel cell lies %.6g below the level of a channel of depth %.6g', -dz, depth)
            if q <= 1e-9:
                continue
            R = width / 2 * np.sqrt(q)
            if col.any():
                lo, hi = max(lo, y[j] - R - 1e-9), min(hi, y[j] + R + 1e-9)
            if (~col).any():
                rr = np.sqrt(max(R * R - blur ** 2, 0)) - 1e-9
                if rr > 0:
                    holes.append((y[j] - rr, y[j] + rr))
    # is [lo, hi] covered by the union of the holes?
    if not m:
        if lo > hi:
            m.add('the channel cells are no parabola of width %.6g and depth %.6g along the domain', width, depth)
        else:
            pos = lo
            for a, b in sorted(holes):
                if a < pos < b:
                    pos = b
            if pos > hi:
                m.add('the channel cells are no parabola of width %.6g and depth %.6g along the domain (cells are missing)', width, depth)
    sig = [g['nx'], g['ny'], g['nz'], e['width'], e['depth'], e['flow_angle']] if c.any() else None
    return {'violations': m, 'stats': st, 'sig': sig, 'sample': {'seed': case['seed'], 'channel': {k: e[k] for k in ('width', 'depth', 'agg')}}}


def tweak(spec, r):
    g = spec['grid']
    for st in spec['strata']:
        st['zmean'] = [z * 1.5 for z in st['zmean']]
    for e in spec['elements'].values():
        if e['geometry'] == 'channel':
            if r.random() < 0.8:
                e['agg'] = gen.u(r, 0.06, 0.2) * g['lz']
                e['buffer'] = r.choice([None, 0.2, 0.5])
            if r.random() < 0.4:
                e['eps_factor'] = 0.0
            if r.random() < 0.4:
                e['flow_angle'] = r.choice([0.0, 30.0, -20.0])
            if r.random() < 0.3:
                e['mig'] = None
            elif r.random() < 0.4:
                e['mig'] = gen.u(r, 0.2, 1.0) * max(g['lx'], g['ly'])


def ar2(case):
    """the directions along a centreline are the documented autoregressive process"""
    sut.load()
    r = work.rnd(case)
    try:
        from hyvr.geo.channel_utils import ferguson_theta as f
        import inspect
        if list(inspect.signature(f).parameters) != ['s', 'eps_factor', 'k', 'h']:
            raise sut.Inconclusive('the directions of a centreline cannot be called any more')
    except ImportError:
        raise sut.Inconclusive('the directions of a centreline cannot be called any more')
    n, k, h = r.choice([r.randint(3, 120), r.randint(1000, 2500)]), gen.u(r, 0.05, 3), gen.u(r, 0.02, 0.99)
    eps = r.choice([0.0, gen.u(r, 0.01, 2), gen.u(r, 0.01, 2), gen.u(r, 0.01, 2)])
    np.random.seed(work.npseed(case))
    th = np.asarray(sut.call(f, np.arange(n) * gen.u(r, 0.05, 2), eps, k, h), float)
    m = work.Msgs()
    if th.shape != (n,) or not np.isfinite(th).all():
        m.add('%d steps along a centreline give %s directions', n, th.shape)
        return {'violations': m, 'stats': {}}
    b1, b2 = 2 * np.exp(-k * h) * np.cos(k * np.arcsin(h)), -np.exp(-2 * k * h)
    e = th[1:] - b1 * th[:-1] - b2 * np.concatenate([[0.0], th[:-2]])
    if abs(th[0]) > 1e-12:
        m.add('a centreline starts with direction %.6g', th[0])
    if eps == 0 and np.any(np.abs(th) > 1e-12):
        m.add('a centreline without noise is not straight')
    st = {'directions': n}
    if eps > 0:
        e = e / eps
        st['_ar'] = [float(v) for v in e[:120]]
        st['_first'] = float(e[0])
        if n > 300:
            # the noise does not depend on the directions before it
            for q, a, b in (('_z1', e[1:], th[1:-1]), ('_z2', e[2:], th[1:-2])):
                st[q] = float(np.sum(a * b) / np.sqrt(np.sum(b * b)))
    return {'violations': m, 'stats': st, 'sig': [n, k, h, eps]}


def whole(case, tmp):
    """a channel that is so wide that its whole centreline is kept: its mean direction is that of the flow"""
    r = work.rnd(case)
    spec, e, _ = cut_spec(case, r)
    g = spec['grid']
    fa = r.choice([0.0, 90.0, -90.0, gen.u(r, -180, 180)])
    e.update(eps_factor=r.choice([0.005, 0.02, 0.05]), flow_angle=fa, width=30 * (g['lx'] + g['ly']) + 30 * e['ds'], mig=None, size_ztrend=None, ds=r.choice([0.1, 0.06, 0.25]),
             h=gen.u(r, 0.1, 0.6), k=gen.u(r, 0.1, 1.5))
    o = obs.run_spec(spec, tmp, work.npseed(case))
    m, st = work.Msgs(), {}
    for s in obs.attr(o.model, 'strata'):
        for ae in obs.attr(s, 'aes'):
            for c in obs.attr(ae, 'object_list'):
                vx, vy = np.asarray(obs.attr(c, 'vx'), float), np.asarray(obs.attr(c, 'vy'), float)
                if len(vx) < 3:
                    m.add('a channel of width %.6g has %d centreline points', e['width'], len(vx))
                    continue
                th = np.unwrap(np.arctan2(vy, vx))
                d = np.mod(th.mean() - np.deg2rad(fa) + np.pi, 2 * np.pi) - np.pi
                st['whole_centrelines'] = st.get('whole_centrelines', 0) + 1
                if abs(d) > 1e-6:
                    m.add('the mean direction of a centreline is %.6g degrees off the flow direction %.6g', np.rad2deg(d), fa)
    return {'violations': m, 'stats': st, 'sig': ['whole', g['nx'], g['ny'], fa, e['eps_factor'], e['h'], e['k']]}


def reenter(case, tmp):
    """channels that wind across the border of the domain come back into it"""
    r = work.rnd(case)
    spec, e, _ = cut_spec(case, r)
    g = spec['grid']
    g.update(nx=6, ny=40, nz=8, dx=0.5, dy=1.0, dz=0.5, lx=3.0, ly=40.0, lz=4.0)
    spec['model'].update({k: g[k] for k in ('dx', 'dy', 'dz', 'lx', 'ly', 'lz')})
    e.update(flow_angle=r.choice([90.0, -90.0]), width=0.6, depth=1.0, agg=2.5, channel_no=6, mig=None, size_ztrend=None, structure='massive',
             h=0.4, k=0.3, eps_factor=0.5, ds=0.5, lag_height=None, lag_facies=None)
    o = obs.run_spec(spec, tmp, work.npseed(case))
    m, st = work.Msgs(), {'_back': [], '_in': []}
    for s in obs.attr(o.model, 'strata'):
        for ae in obs.attr(s, 'aes'):
            for c in obs.attr(ae, 'object_list'):
                xc, yc = np.asarray(obs.attr(c, 'x_center'), float), np.asarray(obs.attr(c, 'y_center'), float)
                far = np.hypot(np.diff(xc), np.diff(yc)) > 2.5 * e['ds']
                st['_back'].append(int(far.any()))
    st['winding'] = len(st['_back'])
    return {'violations': m, 'stats': st, 'sig': ['reenter', case['seed'], st['_back']]}


def run_case(case, tmp):
    if case['kind'] == 'reenter':
        return reenter(case, tmp)
    if case['kind'] == 'ar2':
        return ar2(case)
    if case['kind'] == 'whole':
        return whole(case, tmp)
    if case['kind'] == 'cut':
        return cut(case, tmp)
    r = work.rnd(case)
    m, st = work.Msgs(), {}
    if case['kind'] == 'mig':
        # straight channels on many levels that migrate far
        spec, e, _ = cut_spec(case, r)
        g = spec['grid']
        e.update(agg=gen.u(r, 0.04, 0.06) * g['lz'], buffer=None, depth=0.1 * g['lz'], channel_no=r.choice([1, 2, 3]), structure='massive', ds=r.choice([0.25, 0.4]),
                 flow_angle=r.choice([0.0, 180.0]), mig=gen.u(r, 0.1, 1.0) * g['ly'])
        o = obs.run_spec(spec, tmp, work.npseed(case))
        w = geom.World(spec, o.model, o.data)
    elif case['kind'] == 'start':
        # many straight channels in oblique directions
        spec, e, _ = cut_spec(case, r)
        e.update(channel_no=30, structure='massive', ds=r.choice([0.25, 0.4]), mig=None,
                 flow_angle=-180.0 + 90 * case['quadrant'] + r.choice([45.0, 30.0, 60.0, gen.u(r, 10, 80)]))
        o = obs.run_spec(spec, tmp, work.npseed(case))
        w = geom.World(spec, o.model, o.data)
    else:
        spec, o, w = work.simulate(case, tmp, tweak=lambda s: tweak(s, r), geometries=('channel', 'channel', 'channel', 'sheet'), size='tiny')
    pool = {'start': [], 'mig': [], 'bend': [], 'drift': [], 'I': stats.Independence()}
    for k, (_, _, ae) in enumerate(w.aes):
        if w.geometry(k) == 'channel':
            element(spec, w, k, ae, m, st, pool)
    if case['kind'] == 'start':
        pool['start%d' % case['quadrant']] = pool['start']
    st['_pairs'] = pool.pop('I').dump()
    st['_pool'] = pool
    return work.result(m, st, spec, w if st.get('channels') else None)


def element(spec, w, k, ae, m, st, pool):
    g, e = spec['grid'], w.elem(k)
    objs = list(obs.attr(ae, 'object_list'))
    n = len(objs)
    st['channels'] = st.get('channels', 0) + n
    Z = np.array([obs.attr(o, 'ztop') for o in objs], float)
    trend = (lambda z: np.interp(z, [g['z0'], g['z0'] + g['lz']], e['size_ztrend'])) if e['size_ztrend'] else (lambda z: 1.0)
    for o in objs:
        f = trend(o.ztop)
        for name in ('width', 'depth'):
            v = obs.attr(o, name)
            if abs(v - e[name] * f) > 1e-9 * (1 + abs(v)):
                m.add('a channel of element %d at z=%.6g has %s %.9g instead of %.9g', k, o.ztop, name, v, e[name] * f)
    t = w.zt * 10
    top, bot = ae.top_surface, ae.bottom_surface
    tm, bm = float(obs.attr(top, 'zmean')), float(obs.attr(bot, 'zmean'))
    judged = abs(obs.surf(top).mean() - tm) <= t and abs(obs.surf(bot).mean() - bm) <= t
    if judged:
        low = bm + e['depth'] * trend(0.5 * (tm + bm)) * (e['buffer'] or 0.0)
        levels = []
        j = 1
        while tm - j * e['agg'] > low + t:
            levels.append(tm - j * e['agg'])
            j += 1
        if abs(tm - j * e['agg'] - low) <= t:
            return
        st['levels'] = st.get('levels', 0) + len(levels)
        want = np.repeat(levels, e['channel_no'])
        if len(want) != n or (n and np.max(np.abs(want - Z)) > t):
            m.add('element %d has channels at %s, expected are %d on each of the levels %s', k, np.round(Z, 6).tolist()[:12], e['channel_no'],
                  np.round(levels, 6).tolist()[:12])
            return
    fa = np.deg2rad(e['flow_angle'] or 0.0)
    wid = abs(g['lx'] * np.sin(fa)) + abs(g['ly'] * np.cos(fa))
    length = abs(g['lx'] * np.cos(fa)) + abs(g['ly'] * np.sin(fa))
    starts, heads = {}, []
    along_x = abs(np.sin(fa)) < 1e-6        # else channels may leave the part of the plane that is kept
    for i, o in enumerate(objs):
        xc, yc = np.asarray(obs.attr(o, 'x_center'), float), np.asarray(obs.attr(o, 'y_center'), float)
        vx, vy = np.asarray(obs.attr(o, 'vx'), float), np.asarray(obs.attr(o, 'vy'), float)
        if len(xc) == 0:
            continue
        width = o.width
        tol = 1e-8 * (1 + g['lx'] + g['ly'] + width + e['ds']) + 1e-14 * (np.abs(xc).max() + np.abs(yc).max())
        if xc.min() < g['x0'] - width - tol or xc.max() > g['x0'] + g['lx'] + width + tol:
            m.add('element %d: the centreline of a channel extends too far beyond the domain', k)
        sp = np.hypot(vx, vy)
        if np.any(np.abs(sp - e['ds']) > 1e-6 * (1 + e['ds'])):
            m.add('element %d: the steps along the centreline are %.9g long instead of %.9g', k, sp[0], e['ds'])
        if e['eps_factor']:
            h = np.unique(np.round(np.arctan2(vy, vx), 11))
            for h2 in heads:
                if np.intersect1d(h, h2).size > 5:
                    m.add('element %d: two of its channels have the same noise', k)
            heads.append(h)
        dx, dy = np.diff(xc), np.diff(yc)
        ok = (np.abs(dx - vx[:-1]) <= tol) & (np.abs(dy - vy[:-1]) <= tol)
        # gaps exist only where the curve left the domain in between
        if (~ok).sum() > 0.5 * max(1, len(ok)) and len(ok) > 2:
            m.add('element %d: the centreline does not follow its flow direction', k)
        st['centreline_points'] = st.get('centreline_points', 0) + len(xc)
        # position relative to the domain centre, in flow coordinates
        cx, cy = xc - g['x0'] - g['lx'] / 2, yc - g['y0'] - g['ly'] / 2
        al = cx * np.cos(fa) + cy * np.sin(fa)
        pe = -cx * np.sin(fa) + cy * np.cos(fa)
        straight = e['eps_factor'] == 0.0
        if straight:
            st['straight'] = st.get('straight', 0) + 1
            if pe.max() - pe.min() > 100 * tol:
                m.add('element %d: a channel without noise is not straight in the direction %.6g', k, e['flow_angle'] or 0.0)
                continue
            if np.any(np.diff(al) <= 0):
                m.add('element %d: a channel does not run in the direction of the flow', k)
            q = (al - (-(length + width) / 2)) / (e['ds'])
            if np.max(np.abs(q - np.round(q))) > 1e-3 or np.min(np.round(q)) < 0:
                m.add('element %d: a channel does not start half its width before the domain', k)
            # every cell the channel has to cover has a centreline point beside it
            X, Y = np.meshgrid(*(np.asarray(c) for c in obs.grid_centers(g)[:2]), indexing='ij')
            X, Y = X - g['x0'] - g['lx'] / 2, Y - g['y0'] - g['ly'] / 2
            ac, pc = X * np.cos(fa) + Y * np.sin(fa), -X * np.sin(fa) + Y * np.cos(fa)
            need = (np.abs(pc - pe[0]) < width / 2) & (ac < 1.5 * length - width / 2 - 2 * e['ds'])
            if need.any():
                st['needed_cells'] = st.get('needed_cells', 0) + int(need.sum())
                far = np.abs(al[:, None] - ac[need][None, :]).min(0).max()
                if far > 0.5 * e['ds'] + 1e-6 * (1 + e['ds']):
                    m.add('element %d: a channel has no centreline point within %.6g beside a cell', k, far)
        elif len(al) > 1 and abs(al[0] + (length + width) / 2) <= 100 * tol:
            first = np.angle(np.exp(1j * (np.arctan2(vy[0], vx[0]) - fa)))
            if 1e-9 < abs(first) < 3:
                pool['bend'].append(float(np.sign(first)))
        if not straight and abs(al[0] + (length + width) / 2) > 100 * tol:
            continue              # the start is not visible
        y = pe[0]
        lev = i // max(1, e['channel_no'])
        starts[(lev, i % max(1, e['channel_no']))] = y
        if lev == 0:
            if abs(y) > wid / 2 + tol * 10:
                m.add('element %d: a channel starts outside of the domain', k)
            if straight or along_x:
                pool['start'].append(0.5 + y / wid)
    mig = e['mig'] or 0.0
    I = pool['I']
    norm = 12 ** 0.5
    if all(o.x_center is not None and len(o.x_center) for o in objs) and (e['eps_factor'] == 0.0 or along_x):
        first = [starts.get((0, c)) for c in range(e['channel_no'])]
        for d, what in ((1, 'starts of neighbouring channels'), (2, 'starts of every other channel')):
            for a, b in zip(first, first[d:]):
                if a is not None and b is not None:
                    I.add(what, a / wid * norm, b / wid * norm)
    if mig and along_x:
        S = {(lev, c): (y - starts[lev - 1, c]) / (2 * mig) * norm for (lev, c), y in starts.items() if (lev - 1, c) in starts}
        for (lev, c), v in S.items():
            I.add('migration steps of neighbouring channels of a level', v, S.get((lev, c + 1)))
            I.add('migration steps of a channel on successive levels', v, S.get((lev + 1, c)))
            if lev == 1:
                I.add('starts and migration steps of channels', starts[0, c] / wid * norm, v, False)
    for (lev, c), y in starts.items():
        if (lev - 1, c) in starts:
            st['migrations'] = st.get('migrations', 0) + 1
            d = abs(y - starts[(lev - 1, c)])
            if mig and along_x:
                pool['mig'].append(0.5 + (y - starts[(lev - 1, c)]) / (2 * mig))
                pool['drift'].append((y - starts[(lev - 1, c)]) / mig * float(np.clip(starts[(lev - 1, c)] / wid, -2, 2)))
            if d > mig + 1e-6 * (1 + g['lx'] + g['ly']):
                m.add('element %d: a channel migrated by %.6g, allowed is %.6g', k, d, mig)


def summarize(results, tier):
    P = {'start': [], 'mig': [], 'bend': [], 'drift': [], 'start0': [], 'start1': [], 'start2': [], 'start3': []}
    ar = []
    msgs, cov = [], {}
    for r in results:
        s = r.get('stats') or {}
        for k, v in (s.get('_pool') or {}).items():
            P[k] += v
        a = s.get('_ar') or []
        ar.append(a)
    for k, name in [('start', 'starts'), ('mig', 'migration steps')] + \
            [('start%d' % q, 'starts in directions of %d to %d degrees' % (90 * q - 180, 90 * q - 90)) for q in range(4)]:
        d = stats.ks_uniform(P[k])
        cov['ks_' + k] = [len(P[k]), d]
        if d > stats.KS_LIMIT:
            msgs.append('the %s of %d channels are not uniformly distributed in their range (KS %.2f)' % (name, len(P[k]), d))
    back = [x for r in results for x in (r.get('stats') or {}).get('_back') or []]
    cov['winding channels that come back into the domain'] = [sum(back), len(back)]
    # (nine tenths of them do)
    if len(back) >= 60 and sum(back) < 0.4 * len(back):
        msgs.append('of %d channels that wind across the border of the domain, only %d come back into it' % (len(back), sum(back)))
    # steps do not depend on the position (their variance is 1/3 of the squared range)
    z = stats.zscore(sum(P['drift']), 0.0, sum(v * v for v in P['drift']))
    cov['drift'] = [len(P['drift']), z]
    if abs(z) > stats.Z_LIMIT:
        msgs.append('the migration steps of %d channels depend on where they are (z=%.1f)' % (len(P['drift']), z))
    z = stats.zscore(sum(P['bend']), 0.0, len(P['bend']))
    cov['bend'] = [len(P['bend']), z]
    if abs(z) > stats.Z_LIMIT:
        msgs.append('of %d meandering channels, %d leave the flow direction to the same side at their start (z=%.1f)' %
                    (len(P['bend']), (len(P['bend']) + abs(sum(P['bend']))) / 2, z))
    first = [r['stats']['_first'] for r in results if '_first' in (r.get('stats') or {})]
    z = stats.zscore(sum(v * v for v in first), len(first), 2.0 * len(first))
    cov['noise at the first step'] = [len(first), z]
    # (the square of a normal variable is skewed; the lower tail is what matters)
    if len(first) > 12 and max(map(abs, first)) < 1e-9:
        msgs.append('the first step of %d centrelines never has any noise' % len(first))
    elif first and (z < -stats.Z_LIMIT or z > 2 * stats.Z_LIMIT):
        msgs.append('the noise of the first step of %d centrelines has a wrong variance (z=%.1f)' % (len(first), z))
    for q in ('_z1', '_z2'):
        v = np.array([r['stats'][q] for r in results if q in (r.get('stats') or {})])
        if v.size:
            z = stats.zscore(float(np.sum(v ** 2)), v.size, 2.0 * v.size)
            cov['noise ' + q] = [int(v.size), z]
            if z > 2 * stats.Z_LIMIT:
                msgs.append('the noise of the centreline directions depends on the directions before (z=%.1f)' % z)
    e = np.array([x for a in ar for x in a])
    l1 = np.array([x * y for a in ar for x, y in zip(a, a[1:])])
    l2 = np.array([x * y for a in ar for x, y in zip(a, a[2:])])
    for name, v, var in (('mean', e, 1), ('variance', e ** 2 - 1, 2), ('correlation of neighbours', l1, 1), ('correlation of second neighbours', l2, 1)):
        z = stats.zscore(v.sum(), 0.0, var * v.size)
        cov['noise ' + name] = [int(v.size), z]
        if abs(z) > stats.Z_LIMIT:
            msgs.append('the noise of the centreline directions (second-order autoregressive) has a wrong %s (z=%.1f)' % (name, z))
    stats.Independence.load(results).judge(msgs, cov)
    return msgs, cov
