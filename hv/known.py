"""Models whose geometry follows from the parameter file alone.

``make(seed)`` returns a spec with flat contacts, one architectural element per
stratum (its mean thickness is enormous), manually placed troughs with fixed
orientation, and sheets.  ``fake(spec)`` builds, from the file alone, the tree
of elements and objects the program has to generate, in the form hv.geom.World
reads.  No internals of the code under test are used."""
import random
from types import SimpleNamespace as NS
import numpy as np
from hv import gen


def make(seed, geometries=('sheet', 'trough'), size='small', structures=None, periodic=None, hostile=0.15,
         outputs=('npz',), het=None, lens=None, numsim=None, scale=None):
    if scale is None:
        rs = random.Random('%s/scale' % (seed,))
        scale = (rs.choice([1.0] * 8 + [0.003, 0.0137, 40.0, 1000.0 / 7]), rs.choice([1.0] * 8 + [0.002, 0.03, 25.0]))
    r = random.Random('%s/known' % (seed,))
    spec = gen.make('%s/k' % (seed,), size=size, geometries=geometries, hostile=0.0, periodic=periodic, outputs=outputs,
                    het=het, numsim=numsim, scale=scale)
    g = spec['grid']
    rf = random.Random('%s/far' % (seed,))
    names = spec['hyd']['hydrofacies']
    for e in spec['elements'].values():
        e['contact_model'] = ['flat']
        if scale != (1.0, 1.0) and e['dipset_dist']:
            e['dipset_dist'] = max(e['dipset_dist'], 0.02 * max(g['lx'], g['ly']))
        if e['geometry'] == 'trough':
            if structures and r.random() < 0.9:
                e['structure'] = r.choice(structures)
            if e['structure'] not in ('massive', 'dip') and e['dip'] is not None:
                e['dip'] = sorted(abs(d) for d in e['dip'])      # the maximum dip of bulbs
            pf = e['paleoflow'][0]
            e['paleoflow'] = [pf, pf]
            e['migrate'] = None
            n = r.choice([1, 1, 2, 3, 6])
            zs = sorted({gen.u(r, 0.02, 1.02) for _ in range(n)})
            r.shuffle(zs)
            e['te_xyz'] = [[g['x0'] + gen.u(r, -0.1, 1.1) * g['lx'], g['y0'] + gen.u(r, -0.1, 1.1) * g['ly'],
                            g['z0'] + z * g['lz']] for z in zs]
            if spec['model']['periodic'] and rf.random() < 0.4:
                # any image of the trough is as good as the one inside of the domain
                for q in e['te_xyz']:
                    q[0] += rf.choice([0, 0, -1, 1, 2, -3]) * g['lx']
                    q[1] += rf.choice([0, 0, -1, 1, 2, -3]) * g['ly']
    S = spec['strata']
    for s in S:
        s['ae'] = s['ae'][:1]
        s['prob'] = [s['prob'][0] or 0.5]
        s['zmean'] = [1e6]
        s['avul_prob'] = 0.0
        s['avul'] = [0.0, 0.0]
    ns = len(S)
    zs = sorted(r.uniform(0.05, 0.95) for _ in range(ns - 1))
    spec['hostile'] = None
    if ns > 1 and r.random() < hostile:
        k = r.random()
        if k < 0.4 and ns > 2:
            zs = zs[::-1]
            spec['hostile'] = 'unordered'
        elif k < 0.7:
            zs[-1] = 1.0 + r.uniform(0.01, 0.2)
            spec['hostile'] = 'above'
        else:
            zs[0] = -r.uniform(0.01, 0.2)
            spec['hostile'] = 'below'
    spec['contacts'] = [['flat', g['z0'] + z * g['lz']] for z in zs]
    for e in spec['elements'].values():
        if e['geometry'] == 'sheet':
            if spec['hostile']:
                e['lens_thickness'] = -1
            elif lens is not None and r.random() < lens:
                e['lens_thickness'] = gen.u(r, 0.06, 0.5) * g['lz']
    if not spec['hostile']:
        avoid_ties(spec, r)
    return spec


def strata_bounds(spec):
    """[(top, bottom)] of every stratum, from top to bottom, flat contacts"""
    g = spec['grid']
    tops = [g['z0'] + g['lz']]
    for c in reversed(spec['contacts']):
        tops.append(min(c[1], tops[-1]))
    tops.append(min(g['z0'], tops[-1]))
    return [(tops[i], tops[i + 1]) for i in range(len(spec['strata']))]


def lens_thickness(e, g, top, bottom):
    if e['lens_thickness'] == -1:
        return None
    t = e['lens_thickness']
    if e['size_ztrend'] is not None:
        t = t * float(np.interp(0.5 * (top + bottom), [g['z0'], g['z0'] + g['lz']], e['size_ztrend']))
    return t


def avoid_ties(spec, r):
    g = spec['grid']
    for _ in range(30):
        bad = False
        for s, (t, b) in zip(reversed(spec['strata']), strata_bounds(spec)):
            e = spec['elements'][s['ae'][0]]
            if e['geometry'] != 'sheet':
                continue
            th = lens_thickness(e, g, t, b)
            if th is None or t <= b:
                continue
            q = (t - b) / th
            if abs(q - round(q)) < 1e-6:
                bad = True
                e['lens_thickness'] *= 1.0 + r.uniform(0.001, 0.01)
        if not bad:
            return


def flat(g, z):
    return NS(surface=np.full((g['nx'], g['ny']), z), zmin=z, zmax=z, zmean=z)


def fake(spec):
    g = spec['grid']
    model = NS(strata=[])
    num = ha = 0
    for s, (top, bot) in zip(reversed(spec['strata']), strata_bounds(spec)):
        st = NS(aes=[], name=s['name'], top=top, bottom=bot)
        model.strata.append(st)
        if not top > bot:
            continue
        name = s['ae'][0]
        e = spec['elements'][name]
        ae = NS(num=num, type_name=name, object_list=[], bottom_surface=flat(g, bot), top_surface=flat(g, top))
        num += 1
        st.aes.append(ae)
        if e['geometry'] == 'sheet':
            th = lens_thickness(e, g, top, bot)
            up = top
            k = 1
            while True:
                z = bot if th is None else top - k * th
                last = not z > bot
                ae.object_list.append(NS(num_ha=ha, top_surface=flat(g, up), bottom_surface=flat(g, bot if last else z)))
                ha += 1
                k += 1
                up = z
                if last:
                    break
        elif e['geometry'] == 'trough':
            for x, y, z in sorted(e['te_xyz'], key=lambda p: -p[2]):
                f = 1.0
                if e['size_ztrend'] is not None:
                    a, b = e['size_ztrend']
                    f = a + (b - a) * (z - g['z0']) / g['lz']
                ae.object_list.append(NS(num_ha=ha, x=x, y=y, z=z, a=e['length'] * f / 2, b=e['width'] * f / 2, c=e['depth'] * f,
                                         alpha=e['paleoflow'][0]))
                ha += 1
        else:
            raise ValueError('no reference for channels')
    return model


def column(seed, n, het=None, outputs=('npz',)):
    """A single column of n cells, every one a stratum of its own with its own
    element type (a sheet) of its own facies, listed in random order.
    Returns (spec, expected fields)."""
    r = random.Random('%s/column' % (seed,))
    spec = gen.make('%s/c' % (seed,), geometries=('sheet',), hostile=0, het=het or {'heterogeneity': False}, outputs=outputs)
    g = spec['grid']
    g.update(nx=1, ny=1, nz=n, dz=1.0, lx=g['dx'], ly=g['dy'], lz=float(n), z0=r.choice([0.0, -20.25]))
    spec['model'].update({k: g[k] for k in ('dz', 'lx', 'ly', 'lz', 'z0')})
    proto = next(iter(spec['elements'].values()))
    proto.update(structure='massive', lens_thickness=-1, contact_model=['flat'], altfacies=None, size_ztrend=None,
                 k_ztrend=None, k_xtrend=None, n_ztrend=None, n_xtrend=None)
    fac = ['f%d' % i for i in range(n)]
    ae = ['t%d' % i for i in range(n)]
    r.shuffle(fac)
    r.shuffle(ae)
    h = spec['hyd']
    m = len(h['hydrofacies'])
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'):
        h[k] = [h[k][i % m] for i in range(n)]
    h['k_h'] = [10 ** -r.uniform(1, 9) for _ in range(n)]
    h['n'] = [r.uniform(0.05, 0.95) for _ in range(n)]
    h['k_ratio'] = [r.uniform(0.2, 9) for _ in range(n)]
    h['hydrofacies'] = fac
    for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        h[t] = None
    spec['ae'] = ae
    spec['elements'] = {'t%d' % i: dict(proto, facies=['f%d' % i]) for i in range(n)}
    spec['strata'] = [dict(name='s%d' % i, ae=['t%d' % i], prob=[1.0], zmean=[1e6], avul_prob=0.0, avul=[0.0, 0.0],
                           bg_facies=fac[0], bg_azim=0.0, bg_dip=0.0) for i in range(n)]
    spec['contacts'] = [['flat', g['z0'] + i + 1.0] for i in range(n - 1)]
    sh = lambda v: np.array(v).reshape(1, 1, n)
    num = sh(range(n - 1, -1, -1))
    fi = [fac.index('f%d' % i) for i in range(n)]
    exp = dict(strata=num, ae=num, ha=num, hat=sh([ae.index('t%d' % i) for i in range(n)]), facies=sh(fi),
               k_iso=sh([h['k_h'][i] for i in fi]), poros=sh([h['n'][i] for i in fi]), anirat=sh([h['k_ratio'][i] for i in fi]))
    return spec, exp


def stack(seed, n, outputs=('npz',)):
    """A single column of one element, divided into n lenses of one cell."""
    spec, _ = column(seed, 3, outputs=outputs)
    g = spec['grid']
    g.update(nz=n, lz=float(n))
    spec['model'].update(lz=float(n), hydraulics=False)
    spec['strata'], spec['contacts'] = spec['strata'][:1], []
    spec['elements'] = {'t0': dict(spec['elements']['t0'], facies=['f0', 'f1', 'f2'], lens_thickness=1.0)}
    spec['ae'] = ['t0']
    z = np.zeros((1, 1, n), int)
    return spec, dict(strata=z, ae=z, hat=z, ha=np.arange(n - 1, -1, -1).reshape(1, 1, n))
