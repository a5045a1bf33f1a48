"""C29: the anisotropy follows the bedding that is visible in the facies."""
import numpy as np
from hv import work, known, geom, obs, gen, sut
BUILD = 'plain'
RULE = ('one stratum with one element of dipping sheets, dipping or bulb-shaped troughs, or straight dipping channels of two alternating '
        'facies with anisotropy, any dip, azimuth, orientation, flow direction, origin and spacing, with and without heterogeneity: the '
        'direction of the smallest conductivity of the tensors in the output is the same in the whole object, the facies of the output are '
        'constant in layers of the given thickness perpendicular to it, and in bulbs it is the normal vector of the nested ellipsoids that '
        'follow from the file; nothing but file, facies, objects and tensors is used; distinct by kind, angles and number of layers')
ASSUMPTIONS = ['distances along a channel are known to half of its point distance',
               'cells within rounding of the middle of a bulb are not judged']
KINDS = ('sheet', 'trough', 'bulb', 'channel')


def cases(tier, seed):
    n = work.n_cases(tier, 60, 1500)
    return [dict(seed='C29/%s/%s%d' % (seed, k, i), kind=k) for k in KINDS for i in range(n)]


def make(case, r):
    kind = case['kind']
    geo = {'bulb': 'trough'}.get(kind, kind)
    het = r.choice([None, 'facies', 'internal'])
    for i in range(50):
        spec = known.make('%s/%d' % (case['seed'], i), geometries=(geo,), hostile=0, periodic=False, scale=(1.0, 1.0))
        if len(spec['hyd']['hydrofacies']) > 1:
            break
    else:
        raise sut.Inconclusive('no model with two facies')
    g = spec['grid']
    for a in 'xyz':
        g['n' + a], g['d' + a] = r.randint(6, 11), gen.u(r, 0.5, 2.0)
        g['l' + a] = spec['model']['l' + a] = g['n' + a] * g['d' + a]
        spec['model']['d' + a] = g['d' + a]
        g[a + '0'] = spec['model'][a + '0'] = r.choice([0.0, gen.u(r, -30, 30)])
    spec['model'].update(hydraulics=True, heterogeneity=het is not None)
    if het:
        spec['model']['heterogeneity_level'] = het
    h = spec['hyd']
    h['k_ratio'] = [gen.u(r, 1.5, 9) for _ in h['hydrofacies']]
    h['sig_y'] = [gen.u(r, 0.1, 1.0) for _ in h['hydrofacies']]
    s = spec['strata'][-1]
    n = s['ae'][0]
    e = spec['elements'][n]
    spec['elements'] = {n: e}
    spec['ae'] = [n]
    s.update(ae=[n], prob=[1.0], zmean=[1e6], avul_prob=0.0)
    spec['strata'], spec['contacts'] = [s], []
    f = r.sample(h['hydrofacies'], 2)
    d = r.choice([-1, 1]) * gen.u(r, 15, 80)
    z = gen.u(r, -180, 180)
    L = gen.u(r, 1.5, 3.0) * max(g['d' + a] for a in 'xyz')
    e.update(structure='dip', facies=f, altfacies=[[f[1]], [f[0]]], size_ztrend=None, dip=[d, d], azimuth=[z, z], dipset_dist=L, contact_model=['flat'])
    if kind == 'sheet':
        e['lens_thickness'] = -1
    elif geo == 'trough':
        pf = r.choice([0.0, 90.0, gen.u(r, -180, 180)])
        m = max(g['l' + a] for a in 'xy')
        e.update(lag_height=None, lag_facies=None, paleoflow=[pf, pf], length=gen.u(r, 0.8, 2) * m, width=gen.u(r, 0.8, 2) * m, depth=gen.u(r, 0.5, 1.5) * g['lz'],
                 te_xyz=[[g['x0'] + gen.u(r, 0.2, 0.8) * g['lx'], g['y0'] + gen.u(r, 0.2, 0.8) * g['ly'], g['z0'] + g['lz'] * 0.99]])
        if kind == 'bulb':
            e.update(structure=r.choice(['bulb', 'bulb_sets']), dip=[90.0, 90.0], bulbset_dist=0.2 * e['depth'])
    else:
        fa = r.choice([0.0, 180.0, -180.0, 0.0, gen.u(r, -180, 180)])
        e.update(lag_height=None, lag_facies=None, eps_factor=0.0, flow_angle=fa, ds=r.choice([0.1, 0.06]), channel_no=1, mig=None, buffer=None,
                 agg=0.55 * g['lz'], depth=0.6 * g['lz'], width=gen.u(r, 0.5, 0.85) * min(g['lx'], g['ly']))
    return spec, e


def run_case(case, tmp):
    r = work.rnd(case)
    spec, e = make(case, r)
    g = spec['grid']
    o = obs.run_spec(spec, tmp, work.npseed(case), r=work.rnd(case, 'ini'), model=False)
    D = o.data
    for k in ('ktensors', 'facies', 'ha'):
        if k not in D:
            return {'violations': ['the output has no %s' % k], 'stats': {}}
    m, st = work.Msgs(), {}
    X, Y, Z = np.meshgrid(*obs.grid_centers(g), indexing='ij')
    sig = []
    for num in np.unique(D['ha']):
        if num < 0:
            continue
        c = D['ha'] == num
        if c.sum() < 12:
            continue
        T = D['ktensors'][c]
        if not np.isfinite(T).all():
            m.add('a tensor is not finite')
            continue
        w, v = np.linalg.eigh(T / np.trace(T, axis1=1, axis2=2)[:, None, None])
        n = v[:, :, 0]
        n = n * np.where(np.abs(n[:, 2:]) > 1e-9, np.sign(n[:, 2:]), 1.0)
        x, y, z, f = X[c], Y[c], Z[c], D['facies'][c]
        st['objects'] = st.get('objects', 0) + 1
        st['cells'] = st.get('cells', 0) + int(c.sum())
        if case['kind'] == 'bulb':
            cx, cy, cz = e['te_xyz'][0]
            al = np.deg2rad(e['paleoflow'][0])
            a, b, d = e['length'] / 2, e['width'] / 2, e['depth']
            u, t, q = (x - cx) * np.cos(al) + (y - cy) * np.sin(al), -(x - cx) * np.sin(al) + (y - cy) * np.cos(al), z - cz
            N = np.stack([u / a ** 2 * np.cos(al) - t / b ** 2 * np.sin(al), u / a ** 2 * np.sin(al) + t / b ** 2 * np.cos(al), q / d ** 2], -1)
            ln = np.sqrt((N ** 2).sum(1))
            ok = ln > 1e-9 / max(a, b, d)
            N[ok] /= ln[ok][:, None]
            dot = np.abs((N * n).sum(1))
            bad = ok & ~(dot > 1 - 1e-6)
            if bad.any():
                i = int(np.argmax(bad))
                m.add('bulb: the conductivity is smallest in direction %s, but the normal vector of the bulb is %s (centre %s, cell (%.5g, %.5g, %.5g))',
                      np.round(n[i], 5), np.round(N[i], 5), (cx, cy, cz), x[i], y[i], z[i])
            sig.append([case['kind'], a, b, d, e['paleoflow'][0], int(c.sum())])
            continue
        if np.max(1 - np.abs(n @ n[0])) > 1e-9:
            m.add('%s: the direction of the smallest conductivity varies inside of an object with parallel layers', case['kind'])
            continue
        p = n[0]
        L = e['dipset_dist']
        tol = 1e-8 * (1 + np.abs(x).max() + np.abs(y).max() + np.abs(z).max())
        if case['kind'] == 'channel':
            tol += 0.52 * e['ds'] * np.hypot(p[0], p[1])
        ok, _, k = geom.layer_consistent(x * p[0] + y * p[1] + z * p[2], f, L, tol)
        st['boundaries'] = st.get('boundaries', 0) + k
        sig.append([case['kind'], round(float(p[0]), 6), round(float(p[1]), 6), k])
        if not ok:
            # is it the azimuth in the opposite sense?
            turned = case['kind'] == 'channel' and geom.layer_consistent(x * p[0] - y * p[1] + z * p[2], f, L, tol)[0]
            m.add('%s%s: the conductivity is smallest in direction %s, but the layers of thickness %.6g are not perpendicular to it',
                  '[channel-azimuth-sense] ' if turned else '', case['kind'], np.round(p, 6), L)
    return {'violations': m, 'stats': st, 'sig': sig or None, 'sample': {'seed': case['seed'], 'objects': sig[:3]}}
