"""C09: results are a function of the parameter file and the random state."""
import os
import json
import random
import subprocess
import sys
import numpy as np
from hv import work, gen, sut, obs
BUILD = 'plain'
RULE = ('random models of all kinds: (again) the same seed gives bit-identical arrays in the same process after other models were run, in '
        'another directory, with additional output formats, and with other states of the Python generator; (chain) a run with n realizations '
        'equals n runs with one realization that continue the random sequence, and leaves the generator in the same state; realizations '
        'and seeds differ from each other where the model is random; (process) a fresh interpreter with another hash seed and environment '
        'gives the same arrays, also with up to 10000 cells; (history) the same after related models, with the same cell counts and other spacings, or other single parameters, '
        'were run before in the process; distinct by the output')
ASSUMPTIONS = ['the random state is that of NumPy\'s global generator, as in the test suite of the project']


def cases(tier, seed):
    n = work.n_cases(tier, 60, 1500)
    out = []
    for i in range(n):
        out += [dict(seed='C09/%s/a%d' % (seed, i), kind='again'), dict(seed='C09/%s/c%d' % (seed, i), kind='chain')]
        if i % 4 == 0:
            out.append(dict(seed='C09/%s/p%d' % (seed, i), kind='process'))
        if i % 2 == 0:
            out.append(dict(seed='C09/%s/h%d' % (seed, i), kind='history'))
        if i % 10 == 0:
            out += [dict(seed='C09/%s/b%s%d' % (seed, k[0], i), kind=k, big=True) for k in ('again', 'chain', 'process')]
    return out


CHILD = r'''
import sys, os, json
a = json.loads(sys.argv[1])
sys.dont_write_bytecode = True
sys.path.insert(0, a['repo'])
import numpy as np
if a['preimport']:
    import scipy.io, h5py
import hyvr, hyvr.geo
if a['ext']:
    hyvr.geo.__path__.append(a['ext'])
np.random.seed(a['seed'])
hyvr.run(a['ini'])
'''


def compare(m, a, b, what):
    if set(a) != set(b):
        m.add('%s: arrays %s', what, sorted(set(a) ^ set(b)))
    for k in sorted(set(a) & set(b)):
        if a[k].dtype != b[k].dtype or not np.array_equal(a[k], b[k], equal_nan=True):
            n = int(np.sum(a[k] != b[k])) if a[k].shape == b[k].shape else -1
            m.add('%s: array %s differs in %d of %d values', what, k, n, a[k].size)


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4] if s[3] else 0.0)


def go(spec, tmp, sub, seed=None, r=None):
    """run; returns ([arrays of every realization], state of the generator)"""
    d = os.path.join(tmp, sub)
    os.makedirs(d)
    hyvr = sut.load()
    f = os.path.join(d, 'model.ini')
    gen.write(spec, f, r)
    if seed is not None:
        np.random.seed(seed)
    sut.call(hyvr.run, f)
    s = state()
    rn = spec['run']['runname']
    n = spec['run']['numsim']
    out = []
    for i in range(n):
        p = os.path.join(d, rn, *(['real_%03d' % (i + 1)] if n > 1 else []), rn + '.npz')
        if not os.path.exists(p):
            raise sut.SUTError(RuntimeError('requested output %s is missing' % p))
        out.append(obs.load_npz(p))
    return out, s


def related(r, spec):
    """a model that has much in common with the given one"""
    s = gen.clone(spec)
    g, m, h = s['grid'], s['model'], s['hyd']
    k = r.choice(['spacing', 'spacing', 'origin', 'corlengths', 'variance', 'hydraulics', 'contacts', 'size', 'elements', 'facies', 'strata'])
    if k == 'spacing':
        for a in r.choice(['x', 'y', 'z', 'xy', 'xyz']):
            g['d' + a] *= r.choice([0.5, 2.0, 3.0])
            g['l' + a] = g['n' + a] * g['d' + a]
    elif k == 'origin':
        for a in 'xyz':
            g[a + '0'] += r.choice([0.0, 1.0, -7.25])
    elif k == 'corlengths':
        for q in ('ycorlengths', 'ncorlengths'):
            h[q] = [[v * r.choice([0.5, 1, 2]) for v in w] for w in h[q]]
    elif k == 'variance':
        for q in ('sig_y', 'sig_n'):
            h[q] = [v * 2 for v in h[q]]
    elif k == 'hydraulics':
        h['k_h'] = [v * 3 for v in h['k_h']]
        h['n'] = [v * 0.8 for v in h['n']]
        h['k_ratio'] = [v * 0.5 for v in h['k_ratio']]
    elif k == 'contacts':
        for c in s['contacts']:
            if c[0] == 'random':
                c[2] *= 2
                c[3], c[4] = c[4], c[3] * 0.5
        for e in s['elements'].values():
            c = e['contact_model']
            if c[0] == 'random':
                c[1] *= 2
                c[2], c[3] = c[3], c[2] * 0.5
    elif k == 'size':
        for e in s['elements'].values():
            for q in ('length', 'width', 'depth', 'dipset_dist', 'bulbset_dist'):
                if e.get(q) is not None:
                    e[q] *= 0.7
            if e.get('lag_height') is not None:
                e['lag_height'] *= 0.7
    elif k == 'elements':
        n = list(s['elements'])
        v = [s['elements'][q] for q in n]
        s['elements'] = dict(zip(n, v[1:] + v[:1]))
    elif k == 'facies':
        for e in s['elements'].values():
            e['facies'] = e['facies'][:1]
            e['altfacies'] = None
    else:
        for q in s['strata']:
            q['bg_facies'] = r.choice(h['hydrofacies'])
            q['bg_azim'], q['bg_dip'] = -q['bg_azim'], -q['bg_dip']
    for a in ('x0', 'y0', 'z0', 'dx', 'dy', 'dz', 'lx', 'ly', 'lz'):
        m[a] = g[a]
    return s


def run_case(case, tmp):
    sut.load()
    r = work.rnd(case)
    m = work.Msgs()
    seed = work.npseed(case)
    st = {case['kind']: 1}
    spec = gen.make(case['seed'], numsim=r.choice([1, 1, 2]) if case['kind'] != 'chain' else 1)
    if r.random() < 0.5:
        spec['model'].update(heterogeneity=True, heterogeneity_level='internal')
        spec['hyd']['sig_y'] = [gen.u(r, 0.2, 1.5) for _ in spec['hyd']['sig_y']]
    if case.get('big'):
        g = spec['grid']
        for a, n in zip('xyz', r.choice([(30, 24, 12), (44, 40, 6), (100, 12, 8)])):
            g['n' + a] = n
            g['l' + a] = spec['model']['l' + a] = n * g['d' + a]
        for e in spec['elements'].values():
            if e['geometry'] == 'trough' and e.get('trough_density'):
                e['trough_density'] = min(e['trough_density'], 4 / (g['lx'] * g['ly']))
    random.seed(5)
    if case['kind'] == 'chain':
        n = r.choice([2, 3, 4])
        single = []
        np.random.seed(seed)
        s1 = None
        for i in range(n):
            o, s1 = go(spec, tmp, 's%d' % i)
            single += o
        multi = gen.clone(spec)
        multi['run']['numsim'] = n
        b, s2 = go(multi, tmp, 'm', seed)
        for i in range(n):
            compare(m, b[i], single[i], 'realization %d of %d against a separate run' % (i + 1, n))
        if not m and s1 != s2:
            m.add('%d realizations leave another random state than %d runs', n, n)
        a = b
        # a random model must give different realizations
        h = spec['hyd']
        if spec['model']['heterogeneity'] and spec['model']['heterogeneity_level'] == 'internal' and min(h['sig_y']) > 0 \
                and spec['grid']['nx'] * spec['grid']['ny'] > 8:
            st['must_differ'] = 1
            if np.array_equal(b[0]['k_iso'], b[1]['k_iso']):
                m.add('two realizations of a heterogeneous model are identical')
    elif case['kind'] == 'again':
        a, s1 = go(spec, tmp, 'a', seed)
        # disturb whatever state there may be
        other = gen.make(case['seed'] + '/other', size='tiny')
        go(other, tmp, 'o', seed ^ 77)
        random.seed(seed & 0xffff)
        spec2 = gen.clone(spec)
        spec2['run']['outputs'] = r.sample(['mat', 'py', 'h5', 'vtr', 'hgs'] if spec['model']['hydraulics'] else ['mat', 'py'], r.randint(0, 2)) + ['npz']
        r.shuffle(spec2['run']['outputs'])
        spec2['run']['runname'] = 'other_name'
        b, s2 = go(spec2, tmp, 'b', seed, r)
        for i, (x, y) in enumerate(zip(a, b)):
            compare(m, x, y, 'realization %d, same seed, after another model, outputs %s' % (i + 1, spec2['run']['outputs']))
        if not m and s1 != s2:
            m.add('the same run leaves another random state')
        h = spec['hyd']
        if spec['model']['heterogeneity'] and spec['model']['heterogeneity_level'] == 'internal' and min(h['sig_y']) > 0 \
                and spec['grid']['nx'] * spec['grid']['ny'] > 8:
            c, _ = go(spec, tmp, 'c', (seed + 1) % 2 ** 32)
            st['must_differ'] = 1
            if np.array_equal(a[0]['k_iso'], c[0]['k_iso']):
                m.add('two seeds give identical heterogeneous models')
    else:
        if case['kind'] == 'history':
            for i in range(r.randint(1, 3)):
                o = related(r, spec)
                try:
                    go(o, tmp, 'r%d' % i, r.choice([seed, seed ^ 5]))
                    st['related'] = st.get('related', 0) + 1
                except sut.SUTError:
                    st['related_failed'] = st.get('related_failed', 0) + 1
        a, _ = go(spec, tmp, 'a', seed)
        d = os.path.join(tmp, 'p')
        os.makedirs(d)
        f = os.path.join(d, 'model.ini')
        gen.write(spec, f, None)
        env = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 4000)), TZ=r.choice(['UTC', 'Asia/Tokyo']), LANG=r.choice(['C', 'C.UTF-8']),
                   COLUMNS=str(r.randint(20, 200)))
        p = subprocess.run([sys.executable, '-c', CHILD, json.dumps(dict(repo=sut.REPO, ext=os.environ.get('HV_EXT'), seed=seed, ini=f,
                                                                          preimport=r.random() < 0.5))],
                           env=env, cwd=d, capture_output=True, text=True, timeout=100)
        if p.returncode:
            m.add('the same model fails in a fresh process: %s', p.stderr[-500:])
        else:
            n = spec['run']['numsim']
            rn = spec['run']['runname']
            for i in range(n):
                q = os.path.join(d, rn, *(['real_%03d' % (i + 1)] if n > 1 else []), rn + '.npz')
                compare(m, a[i], obs.load_npz(q), 'realization %d in a fresh process' % (i + 1))
    st['arrays'] = sum(len(x) for x in a)
    g = spec['grid']
    return {'violations': m, 'stats': st, 'sig': [g['nx'], g['ny'], g['nz'], float(np.sum(a[0]['facies'])), case['kind']],
            'sample': {'seed': case['seed'], 'kind': case['kind'], 'grid': [g['nx'], g['ny'], g['nz']]}}
