"""C07: all data formats store the same fields."""
import os
import pickle
import numpy as np
import scipy.io as sio
from hv import work, gen, sut, obs, vtr, known
BUILD = 'plain'
RULE = ('random models of all kinds with 1 to 3 realizations, written in all data formats at once: every array of every realization is '
        'compared bit by bit between npz, mat, pickle, h5 and vtr (there without the tensors), for the last realization also with the '
        'model in memory; the vtr coordinates are the cell edges, also where the domain is no multiple of the spacing; distinct by the output')
ASSUMPTIONS = ['files are read with NumPy, SciPy, pickle, h5py and an own vtr reader']


def cases(tier, seed):
    return work.seeds('C07', seed, work.n_cases(tier, 100, 3000)) + [dict(seed='C07/%s/m%d' % (seed, i), many=k) for i, k in enumerate((300, -400, -40000, -70000))]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'f' and b.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def run_case(case, tmp):
    import h5py
    r = work.rnd(case)
    m = work.Msgs()
    numsim = r.choice([1, 1, 2, 3])
    fm = ['npz', 'mat', 'py', 'h5', 'vtr']
    r.shuffle(fm)
    if case.get('many'):        # more numbers than fit into a small integer
        n, numsim = case['many'], 1
        spec, exp = known.column(case['seed'], n, outputs=fm) if n > 0 else known.stack(case['seed'], -n, outputs=fm)
    else:
        spec, exp = gen.make(case['seed'], outputs=fm, numsim=numsim), {}
        spec['model']['hydraulics'] = r.random() < 0.85
        for ax in 'xyz':        # cells whose centre is outside of the domain do not exist
            if r.random() < 0.12:
                spec['model']['l' + ax] = spec['grid']['l' + ax] + gen.u(r, 0.05, 0.45) * spec['grid']['d' + ax]
    g = spec['grid']
    o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
    st = {'arrays': 0, 'realizations': 0}
    shape = (g['nx'], g['ny'], g['nz'])
    sums, numsim = [], len(o.realdirs)
    st['realizations'] = numsim
    for i, d in enumerate(o.realdirs):
        b = os.path.join(d, o.runname)
        D = {}
        try:
            D['npz'] = obs.load_npz(b + '.npz')
            D['mat'] = {k: v for k, v in sio.loadmat(b + '.mat').items() if not k.startswith('__')}
            with open(b + '.pickle', 'rb') as f:
                D['py'] = dict(pickle.load(f))
            with h5py.File(b + '.h5', 'r') as h:
                D['h5'] = {k: h[k][()] for k in h}
            co, D['vtr'] = vtr.read(b + '.vtr')
        except Exception as e:
            raise sut.SUTError(e, 'reading an output back')
        ref = D['npz']
        for k in exp:
            if k not in ref or not np.array_equal(ref[k], exp[k]):
                m.add('array %s of a column of %d objects is not that of the model', k, abs(n))
        if i == numsim - 1 and isinstance(getattr(o.model, 'data', None), dict):
            D['memory'] = o.model.data
        for f, X in D.items():
            if f == 'npz':
                continue
            keys = set(ref) - ({'ktensors'} if f == 'vtr' else set())
            if set(X) - ({'ktensors'} if f == 'vtr' else set()) != keys:
                m.add('%s has the arrays %s, npz has %s', f, sorted(X), sorted(ref))
                continue
            for k in keys:
                a, x = ref[k], np.asarray(X[k])
                st['arrays'] += 1
                if not same(a, x):
                    m.add('realization %d: array %s of %s (%s %s) differs from npz (%s %s)', i + 1, k, f, x.dtype, x.shape, a.dtype, a.shape)
        for ax, c in zip('xyz', co):
            e = g[ax + '0'] + np.arange(g['n' + ax] + 1) * g['d' + ax]
            if c.shape != e.shape or np.max(np.abs(c - e)) > 1e-9 * (g['d' + ax] + np.max(np.abs(e))):
                m.add('the %s-coordinates of the vtr file are not the cell edges', ax)
        for k, v in ref.items():
            if v.shape[:3] != shape:
                m.add('array %s has shape %s on a grid of %s', k, v.shape, shape)
        sums.append(float(np.sum(ref['facies'])))
    return {'violations': m, 'stats': st, 'sig': [shape, sums, fm], 'sample': {'seed': case['seed'], 'shape': shape, 'realizations': numsim}}
