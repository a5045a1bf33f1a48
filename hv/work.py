"""Helpers shared by the check modules."""
import random
import numpy as np
from hv import gen, obs, geom, sut


def seeds(cid, seed, n, **kw):
    return [dict(seed='%s/%s/%d' % (cid, seed, i), **kw) for i in range(n)]


def n_cases(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


def npseed(case):
    return random.Random(str(case['seed']) + '/np').randrange(2 ** 32)


def rnd(case, tag=''):
    return random.Random('%s/%s' % (case['seed'], tag))


def simulate(case, tmp, tweak=None, **kw):
    """generate, run, wrap: (spec, obs, world)"""
    spec = gen.make(case['seed'], **kw)
    if tweak:
        tweak(spec)
    o = obs.run_spec(spec, tmp, npseed(case), r=rnd(case, 'ini'))
    w = geom.World(spec, o.model, o.data)
    return spec, o, w


def signature(spec, w):
    """what makes a simulated model different from another"""
    kinds = {}
    for k, (_, _, ae) in enumerate(w.aes):
        e = w.elem(k)
        key = '%s/%s' % (e['geometry'], e['structure'])
        kinds[key] = kinds.get(key, 0) + len(ae.object_list)
    return {'grid': [spec['grid'][k] for k in ('nx', 'ny', 'nz', 'dx', 'dy', 'dz')],
            'strata': len(spec['strata']), 'aes': len(w.aes), 'objects': kinds,
            'periodic': spec['model']['periodic']}


def result(msgs, stats, spec=None, w=None, **kw):
    r = {'violations': msgs, 'stats': stats}
    if w is not None:
        sg = signature(spec, w)
        r['sig'] = sg
        r['sample'] = {'seed': spec['seed'], 'model': sg}
    r.update(kw)
    return r


def close(a, b, tol=1e-9):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * (1 + np.abs(b)))


def angle_diff(a, b):
    """difference of two angles in degree, modulo 360"""
    d = (np.asarray(a, float) - np.asarray(b, float)) % 360.0
    return np.minimum(d, 360.0 - d)


class Msgs(list):
    """at most a few messages per case"""
    def add(self, fmt, *a):
        if len(self) < 4:
            self.append(fmt % a if a else fmt)
