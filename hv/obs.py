"""Run the real code on a spec and collect what a user can observe."""
import os
import random
import numpy as np
from hv import sut, gen


class Obs:
    pass


def run_spec(spec, tmp, npseed=0, name='model.ini', r=None, flag_ow=None, model=True):
    """hyvr.run on the rendered spec; returns Obs with .model (last realization
    generated), .data (arrays of the last realization, read back from its npz
    file), .rundir"""
    hyvr = sut.load()
    path = os.path.join(tmp, name)
    gen.write(spec, path, r)
    np.random.seed(npseed)
    random.seed(npseed)
    o = Obs()
    o.inifile = path
    if model:
        with sut.captured_models() as models:
            sut.call(hyvr.run, path, flag_ow)
        o.models = models
        if not models:
            raise sut.Inconclusive('no model generation was observed')
        o.model = models[-1]
    else:
        sut.call(hyvr.run, path, flag_ow)
    runname = spec['run'].get('runname') or os.path.splitext(name)[0]
    base = spec['run'].get('modeldir') or tmp
    o.rundir = os.path.join(base, runname)
    n = spec['run'].get('numsim') or 1
    o.realdirs = [os.path.join(o.rundir, 'real_%03d' % (i + 1)) for i in range(n)] if n > 1 else [o.rundir]
    o.runname = runname
    o.data = None
    f = os.path.join(o.realdirs[-1], runname + '.npz')
    if 'npz' in (spec['run'].get('outputs') or []):
        if not os.path.exists(f):
            raise sut.SUTError(RuntimeError('requested npz output %s is missing' % f))
        o.data = load_npz(f)
    return o


def load_npz(f):
    with np.load(f) as z:
        return {k: z[k] for k in z.files}


def setup(spec, tmp, name='model.ini', r=None, flag_ow=None):
    """parse + set up only: (run, model, hydraulics)"""
    sut.load()
    import hyvr.input.parameters as hp
    path = os.path.join(tmp, name)
    gen.write(spec, path, r)
    return sut.call(hp.setup_from_inifile, path, flag_ow)


def grid_centers(g):
    x = g['x0'] + (np.arange(g['nx']) + 0.5) * g['dx']
    y = g['y0'] + (np.arange(g['ny']) + 0.5) * g['dy']
    z = g['z0'] + (np.arange(g['nz']) + 0.5) * g['dz']
    return x, y, z


def all_aes(model):
    """[(stratum index, ae index in stratum, ae)] from top to bottom"""
    out = []
    for si, s in enumerate(model.strata):
        for ai, ae in enumerate(s.aes):
            out.append((si, ai, ae))
    return out


def attr(o, name):
    try:
        return getattr(o, name)
    except AttributeError:
        raise sut.Inconclusive('attribute %s is not observable any more' % name)


def surf(s):
    return np.asarray(attr(s, 'surface'), dtype=float)
