"""C20: identifiers."""
import numpy as np
from hv import work, obs, gen, known, geom, sut
BUILD = 'plain'
RULE = ('random models; from the output fields and the file: the element type number is the position in the list of element types and is '
        'allowed in the stratum, one element has one type and one stratum, one object belongs to one element, objects of upper elements '
        'have smaller numbers, background is -1; (count) the numbers are those of consecutively numbered elements and objects of the '
        'model; (known) every number predicted from the file alone; (many) columns of 300 and 1300 strata, types and elements, and of up to 70000 '
        'objects, where 8- and 16-bit numbers would overflow; distinct by the output')
ASSUMPTIONS = []


def cases(tier, seed):
    n = work.n_cases(tier, 300, 9000)
    return [dict(seed='C20/%s/%d' % (seed, i), kind='any') for i in range(n)] + \
           [dict(seed='C20/%s/k%d' % (seed, i), kind='known') for i in range(n // 2)] + \
           [dict(seed='C20/%s/m%d' % (seed, i), kind='many', n=k) for i, k in enumerate((300, 1300, -300, -40000, -70000))]


def many(case, tmp):
    """more strata, elements, types and objects than fit into a small integer"""
    n = case['n']
    spec, exp = known.column(case['seed'], n) if n > 0 else known.stack(case['seed'], -n)
    o = obs.run_spec(spec, tmp, work.npseed(case), model=False)
    m = work.Msgs()
    for k in ('strata', 'ae', 'hat', 'ha'):
        if not np.array_equal(o.data[k], exp[k]):
            i = int(np.argmax((o.data[k] != exp[k]).ravel())) if o.data[k].shape == exp[k].shape else -1
            m.add('%d in a column: %s of cell %d is %s instead of %s', abs(n), k, i, o.data[k].ravel()[i], exp[k].ravel()[i])
    return {'violations': m, 'stats': {'cells': abs(n), 'elements': max(n, 1), 'objects': abs(n)}, 'sig': ['many', n]}


def run_case(case, tmp):
    if case['kind'] == 'many':
        return many(case, tmp)
    r = work.rnd(case)
    m = work.Msgs()
    if case['kind'] == 'known':
        numsim = r.choice([1, 1, 2])
        spec = known.make(case['seed'], lens=0.6, numsim=numsim)
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
        w = geom.World(spec, known.fake(spec), o.data).build()
        a, s = w.check_assignment()
        m.extend(a)
        model = None
        if s['cells'] and not m:
            hat = np.array([spec['ae'].index(ae.type_name) for _, _, ae in w.aes])
            if not np.array_equal(hat[o.data['ae']], o.data['hat']):
                m.add('element type numbers are not the positions in the list of element types')
            stn = np.array([si for si, _, ae in w.aes])
            if not np.array_equal(stn[o.data['ae']], o.data['strata']):
                m.add('strata of cells are not the strata of their elements')
    else:
        spec = gen.make(case['seed'], numsim=r.choice([1, 1, 1, 2, 3]))
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
        model = o.model
    D = o.data
    st = {'cells': int(D['ae'].size), 'elements': 0, 'objects': 0}
    S = spec['strata'][::-1]
    pairs = np.unique(np.stack([D['ae'].ravel(), D['hat'].ravel(), D['strata'].ravel()], 1), axis=0)
    if len(np.unique(pairs[:, 0])) != len(pairs):
        m.add('an element has more than one type or stratum: %s', pairs[:6].tolist())
    for a, hat, s in pairs.tolist():
        st['elements'] += 1
        if not (0 <= hat < len(spec['ae']) and 0 <= s < len(S)):
            m.add('cells of element %d have type %d and stratum %d', a, hat, s)
            continue
        n = spec['ae'][hat]
        if n not in S[s]['ae']:
            m.add('element %d is of type %s, which is not in stratum %s', a, n, S[s]['name'])
    ob = D['ha'] >= 0
    if np.any(D['ha'] < -1):
        m.add('object numbers below -1')
    po = np.unique(np.stack([D['ha'][ob], D['ae'][ob]], 1), axis=0)
    st['objects'] = len(po)
    if len(np.unique(po[:, 0])) != len(po):
        m.add('an object belongs to several elements')
    # order
    o2 = po[np.argsort(po[:, 0], kind='stable')]
    if np.any(np.diff(o2[:, 1]) < 0):
        m.add('objects of a lower element have smaller numbers than those of an upper one')
    for hi, n in enumerate(spec['ae']):
        if n in spec['elements'] and spec['elements'][n]['geometry'] == 'sheet' and np.any((D['hat'] == hi) & ~ob):
            m.add('cells of sheet %s have no object number', n)
    if model is not None and not m:
        try:
            aes = [ae for s in model.strata for ae in s.aes]
            cnt = [len(ae.object_list) for ae in aes]
        except AttributeError:
            raise sut.Inconclusive('elements are not observable')
        first = np.concatenate([[0], np.cumsum(cnt)])
        if pairs[:, 0].max() >= len(aes):
            m.add('element %d appears, but only %d elements were generated', pairs[:, 0].max(), len(aes))
        else:
            for hh, a in po.tolist():
                if not first[a] <= hh < first[a + 1]:
                    m.add('object %d appears in element %d, whose objects are %d..%d', hh, a, first[a], first[a + 1] - 1)
        st['generated_objects'] = int(first[-1])
    return {'violations': m, 'stats': st, 'sig': [D['ae'].shape, st['elements'], st['objects'], int(D['ha'].sum())],
            'sample': {'seed': case['seed'], **st}}
