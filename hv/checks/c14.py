"""C14: sheets and lenses: position, facies, layers, angles."""
import numpy as np
from hv import work, known, geom, interior, obs, sut, gen
BUILD = 'plain'
RULE = ('(known) random models whose sheets follow from the file alone: every cell is compared with the predicted lens, and facies and '
        'angles with the file; drawn angles and facies are pooled and must be uniform in their range; (lenses) columns of a hundred lenses; what is drawn for neighbouring lenses and for one lens must be uncorrelated (6 sigma) and not the same; (corner) thin layers whose normal points into a corner of the model; (random) random contacts and '
        'several elements per stratum: the surfaces are read from the model; a case is non-trivial when at least one sheet has cells, '
        'distinct by grid, strata and generated objects')
ASSUMPTIONS = ['layer boundaries may be anywhere within rounding (1e-9)', 'the normal vector of layers is that of the documented rotation '
               'matrix, (sin(dip) cos(azim), -sin(dip) sin(azim), cos(dip)), with any offset']


def cases(tier, seed):
    n = work.n_cases(tier, 200, 5000)
    return [dict(seed='C14/%s/k%d' % (seed, i), kind='known') for i in range(n)] + \
           [dict(seed='C14/%s/r%d' % (seed, i), kind='random') for i in range(n)] + \
           [dict(seed='C14/%s/c%d' % (seed, i), kind='corner') for i in range(n // 20)] + \
           [dict(seed='C14/%s/l%d' % (seed, i), kind='lenses') for i in range(n // 10)]


def run_case(case, tmp):
    m, st = work.Msgs(), {}
    if case['kind'] == 'lenses':
        # one column of many lenses
        r = work.rnd(case)
        spec = known.make(case['seed'], geometries=('sheet',), hostile=0)
        g = spec['grid']
        g.update(nx=1, ny=1, nz=300, dx=1.0, dy=1.0, dz=0.5, lx=1.0, ly=1.0, lz=150.0)
        for k in ('dx', 'dy', 'dz', 'lx', 'ly', 'lz'):
            spec['model'][k] = g[k]
        spec['model']['hydraulics'] = False
        for e in spec['elements'].values():
            facies = r.sample(spec['hyd']['hydrofacies'], min(len(spec['hyd']['hydrofacies']), r.choice([2, 2, 3, 4])))
            if r.random() < 0.5:
                facies = facies + r.choices(facies, k=3)
            e.update(lens_thickness=gen.u(r, 1.2, 2.5), structure='massive', facies=facies, altfacies=None, size_ztrend=None,
                     dip=[gen.u(r, -30, -5), gen.u(r, 5, 30)], azimuth=[gen.u(r, -80, -10), gen.u(r, 10, 80)], contact_model=['flat'])
            if int(case['seed'].rsplit('l', 1)[1]) % 2:
                # horizontal layers, followers with weights
                facies = r.sample(facies, len(facies))[:4]
                facies = [f for i, f in enumerate(facies) if f not in facies[:i]]
                e.update(lens_thickness=-1, structure='dip', facies=facies, altfacies=[r.choices(facies, k=r.randint(3, 6)) for _ in facies],
                         dip=[0.0, 0.0], dipset_dist=gen.u(r, 1.2, 1.8))
        s = spec['strata'][0]
        s.update(zmean=[gen.u(r, 40, 200) for _ in s['ae']], avul_prob=0.0, avul=[0.0, 0.0])
        spec['strata'], spec['contacts'] = [s], []
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
        w = geom.World(spec, o.model, o.data).build()
        for k in range(len(w.aes)):
            tiling(w, k, spec, m, st)
        st['lens_columns'] = 1
    elif case['kind'] == 'corner':
        # one sheet fills the model, with thin layers whose normal points into a corner of it
        r = work.rnd(case)
        spec = known.make(case['seed'], geometries=('sheet',), hostile=0)
        g = spec['grid']
        for a in 'xyz':
            g['n' + a], g['d' + a] = 9, 1.0
            g['l' + a] = spec['model']['l' + a] = 9.0
            spec['model']['d' + a] = 1.0
        name = list(spec['elements'])[0]
        e = spec['elements'][name]
        dip, azim = gen.u(r, 40, 65), r.choice([45, 135, -45, -135]) + gen.u(r, -8, 8)
        facies = r.sample(spec['hyd']['hydrofacies'], 2)
        e.update(lens_thickness=-1, structure='dip', facies=facies, altfacies=[[facies[1]], [facies[0]]], dipset_dist=9.0 / r.choice([40, 60, 80, 200]),
                 dip=[dip, dip], azimuth=[azim, azim], contact_model=['flat'])
        s = spec['strata'][0]
        s.update(ae=[name], prob=[1.0], zmean=[20.0], avul_prob=0.0, avul=[0.0, 0.0])
        spec['strata'], spec['contacts'] = [s], []
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
        w = geom.World(spec, o.model, o.data).build()
        st['corner_runs'] = 1
    elif case['kind'] == 'known':
        spec = known.make(case['seed'], geometries=('sheet',), lens=0.6)
        o = obs.run_spec(spec, tmp, work.npseed(case), r=work.rnd(case, 'ini'), model=False)
        w = geom.World(spec, known.fake(spec), o.data).build()
        a, s = w.check_assignment()
        st['known_cells'] = s['cells']
        m.extend(a)
    else:
        spec, o, w = work.simulate(case, tmp, tweak=lambda s: tweak(s, work.rnd(case)), geometries=('sheet', 'sheet', 'trough'))
        w.build()
        for k, (_, _, ae) in enumerate(w.aes):
            if w.geometry(k) == 'sheet':
                tiling(w, k, spec, m, st)
    for lst in w.ents:
        for e in lst:
            if e.kind == 'sheet':
                interior.sheet(w, e, spec, m, st)
    return work.result(m, st, spec, w if st.get('sheets') else None)


def tweak(spec, r):
    g = spec['grid']
    for e in spec['elements'].values():
        if e['geometry'] == 'sheet' and r.random() < 0.5:
            e['lens_thickness'] = gen.u(r, 0.03, 0.2) * g['lz']
            if r.random() < 0.7:
                e['contact_model'] = gen.contact(r, g, 0.6, 0.9)
    for s in spec['strata']:
        if r.random() < 0.5:
            s['zmean'] = [z * 2 for z in s['zmean']]


def tiling(w, k, spec, m, st):
    """lenses of one element: no gaps, constant thickness, first at the top, last at the bottom"""
    ae = w.aes[k][2]
    el = w.elem(k)
    objs = obs.attr(ae, 'object_list')
    if not objs:
        m.add('element %d is a sheet without any sheet object', k)
        return
    S = [(obs.surf(obs.attr(o, 'top_surface')), obs.surf(obs.attr(o, 'bottom_surface'))) for o in objs]
    at, ab = obs.surf(ae.top_surface), obs.surf(ae.bottom_surface)
    if not np.array_equal(S[0][0], at) or not np.array_equal(S[-1][1], ab):
        m.add('the sheets of element %d do not reach from its top to its bottom', k)
    for i in range(len(S)):
        t, b = S[i]
        if i and not np.array_equal(t, S[i - 1][1]):
            m.add('sheet %d of element %d does not start where the sheet above ends', i, k)
        if np.any(b > t + w.zt):
            m.add('the bottom of sheet %d of element %d is above its top', i, k)
    if el['lens_thickness'] == -1 and len(S) != 1:
        m.add('element %d has %d sheets, but no lens thickness', k, len(S))
    if el['lens_thickness'] != -1:
        # boundaries are flat wherever they are inside of the element
        zs = []
        for t, b in S[:-1]:
            inner = (b > ab + w.zt) & (b < t - w.zt)
            if inner.any():
                v = b[inner]
                if v.max() - v.min() > w.zt:
                    m.add('a lens boundary inside of element %d is not flat', k)
                zs.append(v[0])
            else:
                zs.append(None)
        fmax = max(el['size_ztrend']) if el['size_ztrend'] else 1.0
        for i, (t, b) in enumerate(S):
            st['lenses'] = st.get('lenses', 0) + 1
            if np.max(t - b) > el['lens_thickness'] * fmax * (1 + 1e-6) + w.zt:
                m.add('lens %d of element %d is up to %.9g thick, more than %.9g', i, k, np.max(t - b), el['lens_thickness'] * fmax)
        if not el['size_ztrend']:
            # the first lens begins at the top
            zp = at.max() - el['lens_thickness']
            inner = (ab < zp - 10 * w.zt) & (at > zp + 10 * w.zt)
            if inner.any():
                st['first_lenses'] = st.get('first_lenses', 0) + 1
                b = S[0][1][inner]
                if np.any(np.abs(b - zp) > 10 * w.zt):
                    m.add('the first lens of element %d ends up to %.9g below its top instead of %.9g', k, at.max() - b.min(), el['lens_thickness'])
        for i in range(len(zs) - 1):
            if zs[i] is not None and zs[i + 1] is not None:
                th = zs[i] - zs[i + 1]
                lo = hi = el['lens_thickness']
                if el['size_ztrend']:
                    lo, hi = lo * min(el['size_ztrend']), hi * max(el['size_ztrend'])
                st['lens_pairs'] = st.get('lens_pairs', 0) + 1
                if not lo * (1 - 1e-6) - w.zt <= th <= hi * (1 + 1e-6) + w.zt:
                    m.add('lenses of element %d are %.9g thick instead of %.9g .. %.9g', k, th, lo, hi)


def summarize(results, tier):
    return interior.pooled(results)
