"""Random HyVR parameter files.

``make(seed, **wishes)`` returns a *spec*: nested plain Python data that is the
ground truth of what the user asked for.  ``write(spec, path, r)`` renders it
as a new-format ini-file.  All numbers are written with repr(), so that the
file carries exactly the ground truth.
"""
import copy
import random

FACIES_POOL = ['sG', 'scG', 'oG', 'S', 'fS', 'C', 'mS', 'SG', 'G2', 'x_1', 'fine sand', 'S #2', 'C ;b']


def u(r, lo, hi, nd=4):
    return round(r.uniform(lo, hi), nd)


def rng_pair(r, lo, hi, p_degenerate=0.25):
    a, b = sorted((u(r, lo, hi), u(r, lo, hi)))
    if r.random() < p_degenerate:
        b = a
    return [a, b]


def make_grid(r, size='small', scale=(1.0, 1.0)):
    hi = {'tiny': (5, 5, 10), 'small': (9, 9, 18), 'medium': (16, 14, 26)}[size]
    nx, ny, nz = r.randint(2, hi[0]), r.randint(2, hi[1]), r.randint(6, hi[2])
    k = r.random()
    if k < 0.055:
        nx = 1
    elif k < 0.11:
        ny = 1
    elif k < 0.14:
        nx = ny = 1
    if r.random() < 0.08:
        nz = r.randint(1, 5)
    dx = r.choice([0.25, 0.5, 1.0, 1.3, 2.0, 0.7])
    dy = r.choice([dx, dx, 0.4, 0.9, 1.5])
    dz = r.choice([0.1, 0.2, 0.25, 0.37, 0.5])
    x0 = r.choice([0.0, 0.0, u(r, -30, 30), 1000.25, -7.5, 0.0, u(r, -30, 30), 3512345.5])
    y0 = r.choice([0.0, 0.0, u(r, -30, 30), -250.0, 11.25, 0.0, u(r, -30, 30), 5371234.25])
    z0 = r.choice([0.0, 0.0, u(r, -20, 20), -3.3, 100.0])
    if scale[0] != 1:
        dx, dy = dx * scale[0], dy * scale[0]
        if scale[0] < 1:
            x0, y0 = [0.0 if abs(v) > 100 else v for v in (x0, y0)]
    if scale[1] != 1:
        dz *= scale[1]
    return dict(x0=x0, y0=y0, z0=z0, dx=dx, dy=dy, dz=dz,
                lx=nx * dx, ly=ny * dy, lz=nz * dz, nx=nx, ny=ny, nz=nz)


def contact(r, g, var_scale=1.0, p_random=0.5):
    if r.random() < p_random:
        var = u(r, 0.0, var_scale * (0.08 * g['lz'])**2, 6)
        return ['random', var, u(r, 0.2, 1.2) * max(g['lx'], 0.5), u(r, 0.2, 1.2) * max(g['ly'], 0.5)]
    return ['flat']


def pick_facies(r, names, n=None):
    n = n or r.randint(1, min(4, len(names)))
    return r.sample(names, n)


def altfacies(r, fac):
    if r.random() < 0.4:
        return None
    if r.random() < 0.5 and len(fac) > 1:
        # cyclic: exactly one follower
        return [[fac[(i + 1) % len(fac)]] for i in range(len(fac))]
    if r.random() < 0.3:
        # how often a follower is listed is its weight
        return [r.choices(fac, k=r.randint(1, 5)) for _ in fac]
    return [r.sample(fac, r.randint(1, len(fac))) for _ in fac]


def same_trends(e):
    # sometimes several trends are equal (without another random number)
    for a, b in (('k_ztrend', 'n_ztrend'), ('n_xtrend', 'k_xtrend'), ('k_xtrend', 'k_ztrend')):
        if e[a] and int(e[a][0] * 1e4) % 4 == 0:
            e[b] = list(e[a])


def common_elem(r, g, names, e):
    e['contact_model'] = contact(r, g, 0.3)
    e['facies'] = pick_facies(r, names)
    e['altfacies'] = altfacies(r, e['facies'])
    if e['altfacies'] is None and len(e['facies']) > 1 and r.random() < 0.2:
        e['facies'] = e['facies'] + r.choices(e['facies'], k=r.randint(1, 3))
    e['size_ztrend'] = [u(r, 0.4, 2.0), u(r, 0.4, 2.0)] if r.random() < 0.35 else None
    for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        e[t] = [u(r, 0.3, 3.0), u(r, 0.3, 3.0)] if r.random() < 0.2 else None
    same_trends(e)
    if r.random() < 0.85:
        e['dip'] = rng_pair(r, 0, 60)
        e['azimuth'] = rng_pair(r, -90, 90)
        if r.random() < 0.2:
            e['azimuth'] = rng_pair(r, -270, 360)
        if r.random() < 0.15 and e['structure'] in ('massive', 'dip'):
            e['dip'] = rng_pair(r, -60, 60)
    else:
        e['dip'] = e['azimuth'] = None


def erosive(r, g, names, e):
    e['agg'] = u(r, 0.12, 0.5) * g['lz']
    e['buffer'] = u(r, 0, 1.0) if r.random() < 0.6 else None
    if r.random() < 0.4:
        e['lag_height'] = (u(r, 0.05, 0.7) if r.random() < 0.9 else u(r, 0.7, 1.5)) * e['depth']
        e['lag_facies'] = r.choice(names)
    else:
        e['lag_height'] = None
        e['lag_facies'] = None
    e['bg_facies'] = r.choice(names) if r.random() < 0.5 else None
    e['bg_azim'] = u(r, -90, 90) if r.random() < 0.5 else None
    e['bg_dip'] = u(r, -45, 45) if r.random() < 0.5 else None


def make_sheet(r, g, names):
    e = {'geometry': 'sheet', 'structure': r.choice(['massive', 'dip'])}
    common_elem(r, g, names, e)
    e['lens_thickness'] = -1 if r.random() < 0.35 else u(r, 0.06, 0.6) * g['lz']
    if e['structure'] == 'dip' or r.random() < 0.3:
        e['dipset_dist'] = u(r, 0.4, 4) * g['dz']
    else:
        e['dipset_dist'] = None
    return e


def make_trough(r, g, names, periodic=False):
    e = {'geometry': 'trough',
         'structure': r.choice(['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat'])}
    L = max(g['lx'], g['ly'])
    if periodic:
        L = min(g['lx'], g['ly']) * 0.45
    e['length'] = u(r, 0.3, 1.3) * L
    e['width'] = u(r, 0.3, 1.0) * L
    e['depth'] = u(r, 0.1, 0.6) * g['lz']
    common_elem(r, g, names, e)
    erosive(r, g, names, e)
    if periodic:
        e['size_ztrend'] = [u(r, 0.3, 0.75), u(r, 0.3, 0.75)] if r.random() < 0.35 else None
    if r.random() < 0.2:
        e['paleoflow'] = rng_pair(r, -180, 180)
    else:
        e['paleoflow'] = rng_pair(r, -90, 90)
    e['dipset_dist'] = u(r, 0.3, 3) * g['dz']
    e['bulbset_dist'] = u(r, 0.3, 3) * g['dz']
    e['trough_density'] = u(r, 0.3, 5) / (g['lx'] * g['ly'])
    e['te_xyz'] = None
    e['migrate'] = None
    k = r.random()
    if k < 0.3:
        e['te_xyz'] = [[g['x0'] + u(r, -0.1, 1.1) * g['lx'], g['y0'] + u(r, -0.1, 1.1) * g['ly'],
                        g['z0'] + u(r, 0.0, 1.02) * g['lz']] for _ in range(r.randint(1, 5))]
    elif k < 0.6:
        e['migrate'] = [u(r, -0.4, 0.4) * g['lx'], u(r, 0, 0.2) * g['lx'],
                        u(r, -0.4, 0.4) * g['ly'], u(r, 0, 0.2) * g['ly']]
    return e


def make_channel(r, g, names):
    e = {'geometry': 'channel', 'structure': r.choice(['massive', 'dip'])}
    e['width'] = u(r, 0.15, 0.7) * max(g['lx'], g['ly'])
    e['depth'] = u(r, 0.1, 0.5) * g['lz']
    common_elem(r, g, names, e)
    erosive(r, g, names, e)
    e['dipset_dist'] = u(r, 0.5, 4) * g['dz']
    e['h'] = u(r, 0.1, 0.6)
    e['k'] = u(r, 0.2, 1.2)
    e['ds'] = u(r, 0.25, 1.0)
    e['eps_factor'] = u(r, 0, 0.4)
    e['channel_no'] = r.randint(1, 3)
    e['mig'] = u(r, 0, 0.5) * g['ly'] if r.random() < 0.5 else None
    e['flow_angle'] = u(r, -180, 180) if r.random() < 0.6 else None
    return e


def make(seed, size='small', geometries=('sheet', 'trough', 'channel'), hostile=0.15, periodic=None,
         outputs=('npz',), het=None, numsim=None, scale=(1.0, 1.0)):
    r = random.Random('%s/gen' % (seed,))
    if numsim is None:
        numsim = random.Random('%s/numsim' % (seed,)).choice([1] * 9 + [2, 3])
    g = make_grid(r, size, scale)
    names = r.sample(FACIES_POOL, r.randint(3, 7))
    if periodic is None:
        periodic = r.random() < 0.25 and 'trough' in geometries
    model = {k: g[k] for k in ('x0', 'y0', 'z0', 'dx', 'dy', 'dz', 'lx', 'ly', 'lz')}
    model['periodic'] = bool(periodic)
    model['anisotropy'] = True
    model['hydraulics'] = True
    model['heterogeneity'] = True
    model['heterogeneity_level'] = r.choice(['internal', 'facies'])
    if r.random() < 0.3:
        model['heterogeneity'] = False
    if het is not None:
        model.update(het)
    elements = {}
    n_el = r.randint(1, 4)
    enames = r.sample(['scour', 'sheet_a', 'sheet', 'chan', 'ae_x', 'lens', 'lens2', 'Clay'], n_el)
    for n in enames:
        geo = r.choice(list(geometries))
        if geo == 'sheet':
            elements[n] = make_sheet(r, g, names)
        elif geo == 'trough':
            elements[n] = make_trough(r, g, names, periodic)
        else:
            elements[n] = make_channel(r, g, names)
    ns = r.choice([1, 2, 2, 3, 3, 4, 1, 2, 3, 4, 6])
    zs = sorted(r.uniform(0.08, 0.92) for _ in range(ns - 1))
    if r.random() < hostile and ns > 1:
        k = r.random()
        if k < 0.35:
            r.shuffle(zs)
        elif k < 0.6:
            zs[-1] = 1.0 + r.uniform(-0.05, 0.1)
        elif k < 0.8:
            zs[0] = r.uniform(-0.1, 0.05)
        else:
            zs = [round(z * g['nz']) / g['nz'] - 0.5 / g['nz'] for z in zs]   # exactly through cell centres
    strata = []
    contacts = []
    for i in range(ns):
        ins = r.sample(enames, r.randint(1, n_el))
        thick = g['lz'] / ns
        probs = [u(r, 0.05, 1.0) for _ in ins]
        if len(ins) > 1 and r.random() < 0.3:
            probs[r.randrange(len(ins))] = 0.0
        zm = [max(u(r, 0.2, 1.2) * thick, 0.6 * g['dz']) for _ in ins]
        av = r.random() < 0.35
        strata.append(dict(name='st%d' % i, ae=ins, prob=probs, zmean=zm,
                           avul_prob=r.choice([0.5, 1.0]) if av else 0.0,
                           avul=sorted([u(r, 0, 0.4) * min(zm), u(r, 0, 0.4) * min(zm)]),
                           bg_facies=r.choice(names), bg_azim=u(r, -90, 90), bg_dip=u(r, -45, 45)))
    for z in zs:
        c = contact(r, g)
        c.insert(1, g['z0'] + z * g['lz'])
        contacts.append(c)
    hyd = dict(hydrofacies=names,
               k_h=[10 ** u(r, -9, -1) for _ in names],
               sig_y=[r.choice([0.0, u(r, 0.1, 2.0)]) for _ in names],
               k_ratio=[u(r, 0.1, 8.0) for _ in names],
               n=[u(r, 0.1, 0.5) for _ in names],
               sig_n=[r.choice([0.0, u(r, 0.0001, 0.002, 6)]) for _ in names],
               ycorlengths=[[u(r, 0.3, 3) * g['lx'], u(r, 0.3, 3) * g['ly'], u(r, 0.05, 1) * g['lz']] for _ in names],
               ncorlengths=[[u(r, 0.3, 3) * g['lx'], u(r, 0.3, 3) * g['ly'], u(r, 0.05, 1) * g['lz']] for _ in names])
    for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        hyd[t] = [u(r, 0.3, 3.0), u(r, 0.3, 3.0)] if r.random() < 0.2 else None
    same_trends(hyd)
    run = dict(runname='run%d' % r.randrange(1000), numsim=numsim, outputs=list(outputs),
               overwrite_old_output=None, modeldir=None)
    flow = dict(hin=[u(r, 1, 5), 0.0, 0.0], hout=[u(r, 0, 1), 0.0, 0.0])
    ae_order = list(enames)
    r.shuffle(ae_order)
    return dict(seed=str(seed), grid=g, run=run, model=model, strata=strata, contacts=contacts, ae=ae_order,
                elements=elements, hyd=hyd, flowtrans=flow)


# -- rendering ---------------------------------------------------------------

def fmt(v, r, lines=False):
    sp = (lambda: r.choice(['\n    ', '\n\t', ' \n ']) if lines and r.random() < 0.3 else ' ' * r.choice([0, 1, 1, 2])) if r else (lambda: '')
    if isinstance(v, bool):
        return (r.choice(['true', 'True', 'yes', '1']) if v else r.choice(['false', 'False', 'no', '0'])) if r else str(v).lower()
    if isinstance(v, (list, tuple)):
        return '[' + (sp() + ',' + sp()).join(fmt(x, r, lines) for x in v) + sp() + ']'
    if isinstance(v, float):
        return repr(float(v))
    return str(v)


def sections(spec):
    s = spec['strata']
    out = [('run', spec['run']), ('model', spec['model'])]
    out.append(('strata', {
        'strata': [x['name'] for x in s],
        'strata_contact_models': spec['contacts'],
        'ae': spec['ae'],
        'ae_in_strata': [x['ae'] for x in s],
        'ae_prob': [x['prob'] for x in s],
        'ae_z_mean': [x['zmean'] for x in s],
        'avul_prob': [[x['avul_prob']] for x in s],
        'avul': [x['avul'] for x in s],
        'bg_facies': [x['bg_facies'] for x in s],
        'bg_azim': [x['bg_azim'] for x in s],
        'bg_dip': [x['bg_dip'] for x in s]}))
    for n in spec['elements']:
        out.append((n, spec['elements'][n]))
    out.append(('hydraulics', spec['hyd']))
    if spec.get('flowtrans') is not None:
        out.append(('flowtrans', spec['flowtrans']))
    return out


def render(spec, r=None):
    out = []
    secs = sections(spec)
    if r and r.random() < 0.15:
        r.shuffle(secs)
    noise = r is not None and r.random() < 0.15
    for name, d in secs:
        if noise and r.random() < 0.5:
            out.append(r.choice(['# a comment: with = signs', '; another [one]', '', '   ', '# k_h = [1, 2]', '# µ ü 水']))
        out.append('[%s]' % name)
        items = [(k, v) for k, v in d.items() if v is not None]
        if r and r.random() < 0.5:
            r.shuffle(items)
        for k, v in items:
            if noise and r.random() < 0.2:
                out.append(r.choice(['# ' + k + ' = 17', '; no option', '']))
            if noise and r.random() < 0.3:
                k = r.choice([k.upper(), k.capitalize()])
            out.append('%s%s%s' % (k, r.choice([' = ', '=', ': ', ' =  ']) if r else ' = ', fmt(v, r, noise and r.random() < 0.3)))
            if noise and r.random() < 0.1:
                out[-1] += r.choice(['  ', '\t'])
        out.append('')
    return '\n'.join(out) + '\n'


def write(spec, path, r=None):
    """the file in one of the ways editors write it (with a byte order mark, with the line ends of Windows)"""
    how = r.random() if r else 1
    with open(path, 'w', encoding='utf-8-sig' if how < 0.08 else 'utf-8', newline='\r\n' if 0.06 < how < 0.14 else None) as f:
        f.write(render(spec, r))
    return path


def clone(spec):
    return copy.deepcopy(spec)
