"""C17: the inside of channels."""
import numpy as np
from hv import gen, work, interior, obs
BUILD = 'plain'
RULE = ('random models with channels (flat or random contacts, any flow angle, dip sign and origin): lag, facies, dip, flow azimuth and '
        'dipping layers of every channel cell are compared with the file and the centreline read from the model; in part of the cases '
        'the channels are straight, so that the flow direction follows from the file alone, or have hundreds of layers; what is drawn for an object and for neighbouring ones is uncorrelated (6 sigma); non-trivial when a channel has cells')
ASSUMPTIONS = ['cells with two equally close centreline points are not judged for their layer',
               'the azimuth of massive channels only has to be in its range']


def cases(tier, seed):
    return work.seeds('C17', seed, work.n_cases(tier, 240, 5000)) + \
        [dict(seed='C17/%s/l%d' % (seed, i), long=True) for i in range(work.n_cases(tier, 6, 60))]


def tweak(spec, r, straight):
    g = spec['grid']
    for st in spec['strata']:
        st['zmean'] = [z * 1.5 for z in st['zmean']]
    for e in spec['elements'].values():
        if e['geometry'] == 'channel':
            if r.random() < 0.8:
                e['agg'] = gen.u(r, 0.06, 0.2) * g['lz']
                e['buffer'] = None if r.random() < 0.5 else 0.1
            if r.random() < 0.5:
                e['dipset_dist'] = gen.u(r, 0.3, 1.5) * g['dz']
            if r.random() < 0.6:
                e['structure'] = 'dip'
            if r.random() < 0.3 and e['dip']:
                e['dip'] = [-e['dip'][1], -e['dip'][0]]
            if straight:
                e['eps_factor'] = 0.0
                e['flow_angle'] = r.choice([0.0, 0.0, 90.0, 30.0, -45.0, 180.0, 135.0, -135.0, gen.u(r, -180, 180), gen.u(r, -180, 180), gen.u(r, -400, 400)])


def stretch(spec, r):
    """one long channel with hundreds of layers"""
    g, (n, e) = spec['grid'], next((n, e) for n, e in spec['elements'].items() if e['geometry'] == 'channel')
    for a, k, d in (('x', r.choice([160, 240, 320]), 1.0), ('y', 2, 1.5), ('z', 3, 0.5)):
        g['n' + a], g['d' + a] = k, d
        g['l' + a] = k * d
    for a in 'xyz':
        for q in ('l', 'd'):
            spec['model'][q + a] = g[q + a]
    fac = spec['hyd']['hydrofacies']
    st = spec['strata'][0]
    st.update(ae=[n], prob=[1.0], zmean=[3 * g['lz']], avul_prob=0.0, avul=[0.0, 0.0])
    spec['strata'], spec['contacts'] = [st], []
    up = r.random() < 0.3
    f = r.sample(fac, min(3, len(fac)))
    e.update(structure='dip', dip=[-80.0, -60.0] if up else [60.0, 80.0], dipset_dist=gen.u(r, 0.8, 1.3), flow_angle=r.choice([0.0, 180.0]),
             eps_factor=0.0 if r.random() < 0.3 else e['eps_factor'] * 0.1, facies=f, altfacies=[[x] for x in f[1:] + f[:1]], width=14.0, depth=2.0, agg=1.0, channel_no=1, ds=1.0,
             buffer=None, size_ztrend=None, lag_height=0.0, lag_facies=None, mig=None, contact_model=['flat'])


def run_case(case, tmp):
    r = work.rnd(case)
    straight = r.random() < 0.3 and not case.get('long')
    m, st = work.Msgs(), {}
    spec, o, w = work.simulate(case, tmp, tweak=(lambda s: stretch(s, r)) if case.get('long') else (lambda s: tweak(s, r, straight)), geometries=('channel',) if case.get('long') else ('channel', 'channel', 'channel', 'sheet', 'trough'), size='medium')
    D = w.data
    if straight:
        # black box: all channel cells point into the flow direction
        for i, n in enumerate(spec['ae']):
            e = spec['elements'][n]
            if e['geometry'] != 'channel' or e['structure'] != 'dip':
                continue
            c = (D['hat'] == i) & (D['ha'] >= 0)
            if e['lag_height']:
                c &= ~((D['azim'] == 0) & (D['dip'] == 0))
            a = D['azim'][c]
            st['straight_cells'] = st.get('straight_cells', 0) + a.size
            if a.size and np.max(work.angle_diff(a, e['flow_angle'])) > 1e-5:
                m.add('cells of straight channels have azimuth %.9g instead of the flow angle %.9g',
                      a[np.argmax(work.angle_diff(a, e['flow_angle']))], e['flow_angle'])
    w.build()
    for lst in w.ents:
        for e in lst:
            if e.kind == 'channel':
                interior.channel(w, e, spec, m, st)
    return work.result(m, st, spec, w if st.get('channels') else None)


def summarize(results, tier):
    return interior.pooled(results)
