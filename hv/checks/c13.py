"""C13: every cell belongs to the uppermost object that contains it."""
from hv import work, known, obs, geom, gen
BUILD = 'plain'
RULE = ('(known) models whose objects follow from the file alone, (random) arbitrary sheets, troughs and channels with the objects read '
        'from the model, including periodic troughs that reach over more than half of the domain and channels narrower than a cell; all are run through hyvr.run and every cell is compared with an independent membership computation; a case '
        'counts when it is a distinct combination of grid, strata and generated objects')
ASSUMPTIONS = ['cells closer than rounding (1e-9 relative) to a boundary may go either way',
               'cells of periodic troughs wider than half the domain that are in an image other than the nearest may go either way',
               'for random placement the shapes of the generated objects are read from the model objects; their agreement with the '
               'parameter file is C14-C18']


def cases(tier, seed):
    n = work.n_cases(tier, 400, 9000)
    return [dict(seed='C13/%s/r%d' % (seed, i), kind='random') for i in range(n)] + \
           [dict(seed='C13/%s/k%d' % (seed, i), kind='known') for i in range(n // 2)]


def tweak(spec, r):
    g = spec['grid']
    if r.random() < 0.1:
        # narrow channels across cells that are longer than wide
        g['dy' if r.random() < 0.5 else 'dx'] = r.choice([3, 4, 6]) * min(g['dx'], g['dy'])
        for i in 'xy':
            g['l' + i] = g['n' + i] * g['d' + i]
            spec['model']['d' + i], spec['model']['l' + i] = g['d' + i], g['l' + i]
        for e in spec['elements'].values():
            if e['geometry'] == 'channel':
                e['width'] = gen.u(r, 0.3, 3) * min(g['dx'], g['dy'])
                e['mig'] = None if r.random() < 0.5 else 0.3 * g['ly']
                e['channel_no'] = 3
    for e in spec['elements'].values():
        if e['geometry'] == 'channel' and r.random() < 0.3:
            e['width'] = gen.u(r, 0.3, 2.5) * max(g['dx'], g['dy'])
        if e['geometry'] == 'trough' and spec['model']['periodic'] and r.random() < 0.4:
            f = gen.u(r, 1, 4)
            e['length'], e['width'] = e['length'] * f, e['width'] * gen.u(r, 0.5, f)
            if r.random() < 0.5:
                # reaching over more than half of the domain
                e['length'] = gen.u(r, 1.02, 2.5) * g['l' + r.choice('xy')]
                e['size_ztrend'] = None
        if e['geometry'] == 'trough' and r.random() < 0.3:
            if e['te_xyz'] is None:
                # migrating out of the domain, and in a periodic model back into it
                e['migrate'] = [gen.u(r, -1.2, 1.2) * g['lx'], 0.0, gen.u(r, -1.2, 1.2) * g['ly'], gen.u(r, 0, 0.2) * g['ly']]
                e['agg'] *= 0.5
            elif spec['model']['periodic']:
                for q in e['te_xyz']:
                    q[0] += r.choice([0, 0, -1, 1, 2, -3]) * g['lx']
                    q[1] += r.choice([0, 0, -1, 1, 2, -3]) * g['ly']


def run_case(case, tmp):
    if case['kind'] == 'known':
        spec = known.make(case['seed'])
        o = obs.run_spec(spec, tmp, work.npseed(case), r=work.rnd(case, 'ini'), model=False)
        w = geom.World(spec, known.fake(spec), o.data)
    else:
        spec, o, w = work.simulate(case, tmp, tweak=lambda s: tweak(s, work.rnd(case)))
    w.build()
    msgs, st = w.check_assignment()
    st['objects'] = sum(len(a.object_list) for _, _, a in w.aes)
    return work.result(msgs, st, spec, w)
