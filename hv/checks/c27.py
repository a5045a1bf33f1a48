"""C27: which elements fill a stratum, and how thick they are."""
import math
import numpy as np
from hv import work, obs, gen, stats, known
BUILD = None
RULE = ('columns of several hundred thin cells with flat contacts, and groups of such columns with random contacts, 1 to 3 strata of 1 '
        'to 5 element types: from the output alone, every element type belongs to its stratum and never has probability zero, types '
        'occur with the given (relative) probabilities, also after an element of the same type and at the bottom of a stratum, and the thickness of every element that '
        'is not cut off by the bottom of its stratum follows the normal distribution around the given mean (10 %), reduced by avulsion '
        'where it is requested, also by more than most thicknesses; frequencies pooled over all cases (6 sigma), thicknesses through '
        'their distribution function (KS 2.6), neighbouring thicknesses, and type and thickness, are uncorrelated; distinct by the sequence of elements')
ASSUMPTIONS = ['elements are independent of each other', 'thicknesses are known to one cell, 1/20 of their mean or less']


def cases(tier, seed):
    return work.seeds('C27', seed, work.n_cases(tier, 800, 6000))


def phi(x):
    return 0.5 * (1 + math.erf(x / math.sqrt(2)))


def cdf(h, m, p, a, b):
    """P(thickness <= h)"""
    s = 0.1 * m
    base = phi((h - m) / s)
    if p == 0:
        return base
    if b - a < 1e-12:
        red = phi((h + a - m) / s)
    else:
        u = a + (b - a) * (np.arange(24) + 0.5) / 24
        red = float(np.mean([phi((h + v - m) / s) for v in u]))
    return (1 - p) * base + p * red


def run_case(case, tmp):
    r = work.rnd(case)
    spec = gen.make(case['seed'], geometries=('sheet',), hostile=0)
    g = spec['grid']
    nz = 700
    multi = r.random() < 0.35        # several columns, contacts are not flat
    nx, ny = r.choice([(3, 2), (2, 4), (1, 6), (3, 3)]) if multi else (1, 1)
    g.update(nx=nx, ny=ny, nz=nz, dx=1.0, dy=1.0, dz=r.choice([0.1, 0.05, 0.25]), lx=float(nx), ly=float(ny))
    g['lz'] = nz * g['dz']
    for k in ('dx', 'dy', 'dz', 'lx', 'ly', 'lz'):
        spec['model'][k] = g[k]
    spec['model']['hydraulics'] = False
    names = spec['hyd']['hydrofacies']
    el = {}
    for n in r.sample(['scour', 'sheet_a', 'sheet', 'chan', 'ae_x', 'lens'], r.randint(2, 5)):
        e = gen.make_sheet(r, g, names)
        e.update(structure='massive', lens_thickness=-1, contact_model=['flat'])
        el[n] = e
    spec['elements'] = el
    spec['ae'] = r.sample(list(el), len(el))
    ns = r.choice([1, 1, 2, 3]) if not multi else r.choice([2, 3])
    spec['strata'] = []
    for i in range(ns):
        ins = r.sample(list(el), r.randint(1, len(el)))
        pr = [gen.u(r, 0.05, 1.0) for _ in ins]
        k = r.random()
        if k < 0.3:
            pr = [x * r.choice([1, 5, 0.2]) for x in pr]      # only relative
        if len(ins) > 1 and r.random() < 0.35:
            pr[r.randrange(len(ins))] = 0.0
        zm = [gen.u(r, 28, 55) * g['dz'] for _ in ins]
        ap = r.choice([0.0, 0.0, 1.0, 0.5, gen.u(r, 0.1, 0.9)])
        av = sorted([gen.u(r, 0, 9) * g['dz'], gen.u(r, 0, 9) * g['dz']])
        if r.random() < 0.3:
            zm = [max(zm)] * len(zm)
            av = sorted([gen.u(r, 0, 0.62) * zm[0], gen.u(r, 0.5, 0.62) * zm[0]])
            if r.random() < 0.3:
                ap, av[0] = 1.0, gen.u(r, 0, 0.1) * zm[0]
        if r.random() < 0.25:
            av[0] = av[1]
        if multi:
            ap, av = 0.0, [0.0, 0.0]
        spec['strata'].append(dict(name='st%d' % i, ae=ins, prob=pr, zmean=zm, avul_prob=ap, avul=av, bg_facies=r.choice(names), bg_azim=0.0, bg_dip=0.0))
    zs = [(i + 1) / ns + r.uniform(-0.03, 0.03) for i in range(ns - 1)]
    spec['contacts'] = [['flat', g['z0'] + z * g['lz']] for z in zs]
    if multi:
        for e in el.values():
            e['contact_model'] = ['random', (2.5 * g['dz']) ** 2, gen.u(r, 0.1, 0.6), gen.u(r, 0.1, 0.6)]
        spec['contacts'] = [['random', c[1], (gen.u(r, 2, 4) * g['dz']) ** 2, gen.u(r, 0.1, 0.6), gen.u(r, 0.1, 0.6)] for c in spec['contacts']]
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
    D = o.data
    m = work.Msgs()
    ae, hat, strata = (D[k].reshape(-1, nz).astype(int) for k in ('ae', 'hat', 'strata'))
    st = {'elements': 0, 'thicknesses': 0}
    pool = {k: [0.0, 0.0, 0] for k in ('type', 'place', 'type0', 'place0', 'type1', 'place1')}
    pool.update({'same': [0.0, 0.0, 0], 'same2': [0.0, 0.0, 0], 'same3': [0.0, 0.0, 0], 'samelast': [0.0, 0.0, 0], 'cut': [0.0, 0.0, 0], 'h': [[], [], [], [], [], [], []]})
    seq, I = [], stats.Independence()
    for si, (top, bottom) in enumerate(known.strata_bounds(spec)):
        s = spec['strata'][ns - 1 - si]     # strata are listed from bottom to top
        w = strata == si
        if not w.any(axis=1).all():
            m.add('stratum %d has no cells', si)
            continue
        ps = np.array(s['prob']) / np.sum(s['prob'])
        els = []          # from top to bottom: (ae number, type, lowest cell)
        for num in np.unique(ae[w]):
            c = w & (ae == num)
            full = c.any(axis=1)
            els.append([num, int(hat[c][0]), c.argmax(axis=1)[full].mean(), full.all(), len(set(hat[c])) == 1])
        els.sort(key=lambda x: -x[2])
        prev = prev2 = run = None
        U = {}
        ztop = top
        zlow = g['z0'] + (w.argmax(axis=1).min() + 0.5) * g['dz']        # the lowest cell centre
        for k, (num, t, low, full, one) in enumerate(els):
            if not one:
                m.add('element %d of stratum %s has cells of several types', num, s['name'])
                break
            if multi and ztop - bottom <= 1.85 * max(s['zmean']):
                break
            if multi and not full:
                m.add('element %d of stratum %s is missing in some columns although its contacts are far away from all others', num, s['name'])
                break
            name = spec['ae'][t] if 0 <= t < len(spec['ae']) else None
            if name not in s['ae']:
                m.add('stratum %s has an element of type %s, but may only have %s', s['name'], name or t, s['ae'])
                break
            j = s['ae'].index(name)
            st['elements'] += 1
            seq.append(int(t))
            if s['prob'][j] == 0:
                m.add('stratum %s has an element of type %s, which has probability zero', s['name'], name)
            # scores with mean zero: by probability, and by position in the list
            for key, sc in (('type', ps), ('place', np.arange(len(ps)) / len(ps))):
                mu = float(np.sum(sc * ps))
                for kk in (key, key + str(k))[:1 + (k < 2)]:
                    pool[kk][0] += float(sc[j]) - mu
                    pool[kk][1] += float(np.sum(sc ** 2 * ps)) - mu ** 2
                    pool[kk][2] += 1
            if k > 0:
                q = ps[prev]
                run = run + 1 if k > 1 and prev == prev2 else 1        # how many of this type came before
                for kk in ['same'] + ['samelast'] * (k == len(els) - 1) + ['same2'] * (run >= 2) + ['same3'] * (run >= 3):
                    pool[kk][0] += (j == prev) - q
                    pool[kk][1] += q * (1 - q)
                    pool[kk][2] += 1
            prev, prev2 = j, prev
            if ztop > zlow and not multi:
                # the element reaches the bottom if it is thicker than what remains
                q = 1 - cdf(ztop - zlow, s['zmean'][j], s['avul_prob'], *s['avul'])
                pool['cut'][0] += (k == len(els) - 1) - q
                pool['cut'][1] += q * (1 - q)
                pool['cut'][2] += 1
            zb = g['z0'] + low * g['dz']
            if k == len(els) - 1:
                zb = bottom
            if ztop - bottom > 1.85 * max(s['zmean']):
                if k == len(els) - 1:
                    m.add('an element of type %s (mean thickness %g) fills the remaining %g', name, s['zmean'][j], ztop - bottom)
                    break
                h = ztop - zb
                p = s['avul_prob']
                kind = (5 if k or not si else 4) if multi else 0 if p == 0 else (3 if s['avul'][1] > 0.45 * s['zmean'][j] else 1 if p == 1 else 2)
                if p > 0 and k == 0 and kind < 4:
                    # the uppermost elements are like all others
                    pool['h'][6].append(round(cdf(h, s['zmean'][j], p, *s['avul']), 5))
                pool['h'][kind].append(round(cdf(h, s['zmean'][j], p, *s['avul']), 5))
                if not multi:
                    # (whether the second one is judged does not depend on its own thickness)
                    v = (pool['h'][kind][-1] - 0.5) * 12 ** 0.5
                    for d in (1, 2):
                        if (k - d) in U:
                            I.add('thicknesses of elements %s of a stratum %s' % (('and their neighbours', 'and the next but one')[d - 1],
                                                                                  'without avulsion' if p == 0 else 'with much avulsion' if p == 1 and
                                                                                  s['avul'][1] - s['avul'][0] > 0.15 * s['zmean'][j] else 'with avulsion'), U[k - d], v, False)
                    U[k] = v
                    if len(ps) > 1:
                        sd = float(np.sqrt(np.sum(np.arange(len(ps)) ** 2 * ps) - np.sum(np.arange(len(ps)) * ps) ** 2))
                        if sd > 0.05:
                            I.add('types and thicknesses of elements', (j - float(np.sum(np.arange(len(ps)) * ps))) / sd, v, False)
                st['thicknesses'] += 1
                hi, lo = s['zmean'][j] * 1.8 + g['dz'], s['zmean'][j] * 0.2 - (s['avul'][1] if p > 0 else 0) - g['dz']
                if not lo < h < hi:
                    m.add('an element of type %s has thickness %g, mean %g, avulsion %s with probability %g', name, h, s['zmean'][j], s['avul'], p)
            ztop = zb
    st['_pool'] = pool
    st['_pairs'] = I.dump()
    return {'violations': m, 'stats': st, 'sig': seq, 'sample': {'seed': case['seed'], 'types_from_top': seq[:12], 'elements': st['elements']}}


def summarize(results, tier):
    P = [(x.get('stats') or {}).get('_pool') for x in results]
    P = [p for p in P if p]
    msgs, cov = [], {}
    for key, text in (('type', 'the frequency of element types'), ('place', 'the frequency of element types, by their position,'),
                      ('type0', 'the frequency of element types at the top of strata'), ('place0', 'the frequency of element types at the top of strata, by their position,'),
                      ('type1', 'the frequency of element types below the first'), ('place1', 'the frequency of element types below the first, by their position,'),
                      ('same2', 'the frequency of the same type following two of itself'), ('same3', 'the frequency of the same type following three of itself'),
                      ('same', 'the frequency of the same type following itself'), ('samelast', 'the frequency of the same type following itself at the bottom of a stratum'), ('cut', 'the frequency of elements ending at the bottom of their stratum')):
        z = stats.zscore(sum(p[key][0] for p in P), 0, sum(p[key][1] for p in P))
        cov['z_' + key] = round(z, 2)
        if abs(z) > stats.Z_LIMIT:
            msgs.append('%s deviates by %.1f standard deviations from its probability (%d elements)' % (text, z, sum(p[key][2] for p in P)))
    for i, t in enumerate(('without', 'with', 'with possible', 'with deep', 'at the top of lower strata with random contacts, without', 'with random contacts, without', 'at the top of strata with')):
        u = [x for p in P for x in p['h'][i]]
        k = stats.ks_uniform(u)
        cov['ks_thickness_%s_avulsion' % t.replace(',', '').replace(' ', '_')] = [round(k, 2), len(u)]
        if k > stats.KS_LIMIT:
            msgs.append('the thicknesses of %d elements %s avulsion do not follow their distribution (KS %.2f)' % (len(u), t, k))
    stats.Independence.load(results).judge(msgs, cov)
    return msgs, cov
