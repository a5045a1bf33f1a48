"""C08: flow-model input files describe the generated model."""
import contextlib
import io
import os
import warnings
import numpy as np
from hv import work, gen, sut, obs
BUILD = 'plain'
RULE = ('random models of all kinds with random boundary conditions (heads, gradient, inflow), written as MODFLOW, MODFLOW 6 and '
        'HydroGeoSphere input together with npz; the files are read back with flopy and NumPy, and conductivity, anisotropy, angles, layer '
        'elevations, cell sizes, boundary and initial heads, tensors and porosity of every cell are compared; distinct by grid and fields')
ASSUMPTIONS = ['precision of the files: 1e-5 (MODFLOW), 1e-4 (MODFLOW 6, where flopy prints 8 decimals), the printed digits (HydroGeoSphere)',
               'MODFLOW: rows along x, columns along y; MODFLOW 6: rows along y, columns along x; layers from top to bottom']


def cases(tier, seed):
    return work.seeds('C08', seed, work.n_cases(tier, 180, 2000))


def off(a, b, rel, absol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return True
    return bool(np.any(~(np.abs(a - b) <= rel * np.abs(b) + absol)))


def run_case(case, tmp):
    import flopy
    r = work.rnd(case)
    m = work.Msgs()
    which = r.choice([['mf'], ['mf6'], ['mf6'], ['hgs'], ['mf', 'mf6', 'hgs']])
    numsim = r.choice([1, 1, 1, 2])
    spec = gen.make(case['seed'], outputs=['npz'] + which, numsim=numsim)
    spec['run']['runname'] = r.choice(['r', 'flow', 'Run7', 'v1.2', 'a_b-c'])
    g = spec['grid']
    hin, hout = [r.choice([gen.u(r, -5, 8)] * 4 + [0.0]) for _ in range(2)]
    bc = r.choice(['h', 'h', 'grad', 'q', 'hq', 'none'])
    if 'mf' in which:
        bc = r.choice(['h', 'hq'])
    ft = {}
    if 'h' in bc:
        ft.update(hin=[hin, gen.u(r, 0, 1), 0.0], hout=[hout, 0.0, gen.u(r, 0, 1)])
    if bc == 'grad':
        ft['gradh'] = r.choice([gen.u(r, -0.02, 0.05)] * 4 + [0.0])
        hin, hout = 1 + g['lx'] * ft['gradh'], 1.0
    if 'q' in bc:
        ft['q_in'] = r.choice([gen.u(r, 0.001, 0.5), gen.u(r, 0.001, 0.5), gen.u(r, -0.5, 0.5), 0.0])
    if bc in ('q', 'none'):
        hin = hout = 1.0
    spec['flowtrans'] = ft
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r, model=False)
    nx, ny, nz = g['nx'], g['ny'], g['nz']
    edges = g['z0'] + np.arange(nz + 1)[::-1] * g['dz']
    scale = 1e-6 * (abs(g['z0']) + nz * g['dz']) + 1e-8
    st = {'cells': 0}
    sums = []
    for d in o.realdirs:
        D = obs.load_npz(os.path.join(d, o.runname + '.npz'))
        sums.append(float(D['k_iso'].sum()))
        K, A = D['k_iso'], D['anirat']
        st['cells'] += int(K.size)
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if 'mf' in which:
                w = os.path.join(d, 'MODFLOW')
                try:
                    mf = flopy.modflow.Modflow.load(o.runname + '.nam', model_ws=w, check=False, forgive=False)
                    dis, bas, lpf = mf.dis, mf.bas6, mf.lpf
                    got = dict(hk=lpf.hk.array, vka=lpf.vka.array, delr=dis.delr.array, delc=dis.delc.array, top=dis.top.array,
                               botm=dis.botm.array, ib=bas.ibound.array, strt=bas.strt.array, layvka=np.asarray(lpf.layvka.array))
                except Exception as e:
                    raise sut.SUTError(e, 'loading the MODFLOW model')
                st['modflow'] = st.get('modflow', 0) + 1
                T = lambda a: np.transpose(a, (2, 0, 1))[::-1]
                for nm, a, b, tol, ab in (('horizontal conductivity', got['hk'], T(K), 1e-5, 0),
                                          ('anisotropy ratio', got['vka'], T(A), 1e-5, 0),
                                          ('column width', got['delr'], np.full(ny, g['dy']), 1e-5, 0),
                                          ('row width', got['delc'], np.full(nx, g['dx']), 1e-5, 0),
                                          ('top', got['top'], np.full((nx, ny), edges[0]), 1e-5, scale),
                                          ('layer bottom', got['botm'], np.broadcast_to(edges[1:, None, None], (nz, nx, ny)), 1e-5, scale)):
                    if off(a, b, tol, ab):
                        m.add('MODFLOW: wrong %s (shape %s): %s..., expected %s...', nm, np.shape(a), np.ravel(a)[:3], np.ravel(b)[:3])
                if np.any(got['layvka'] == 0):
                    m.add('MODFLOW: the anisotropy ratio is declared as vertical conductivity')
                fixed = got['ib'] < 0
                if np.any(got['ib'] == 0):
                    m.add('MODFLOW: inactive cells')
                ok = False
                for ax in (1, 2):
                    n = fixed.shape[ax]
                    e = np.zeros(fixed.shape, bool)
                    first = np.take(got['strt'], 0, ax)
                    last = np.take(got['strt'], n - 1, ax)
                    ix = [slice(None)] * 3
                    ix[ax] = [0, n - 1]
                    e[tuple(ix)] = True
                    if n > 1 and np.array_equal(e, fixed) and not off(first, np.full(first.shape, hin), 1e-5, 1e-6) \
                            and not off(last, np.full(last.shape, hout), 1e-5, 1e-6):
                        ok = True
                    if n == 1 and np.array_equal(e, fixed):
                        ok = True
                if not ok:
                    m.add('MODFLOW: the fixed heads are not those of inlet and outlet')
            if 'mf6' in which:
                w = os.path.join(d, 'mf6')
                try:
                    sim = flopy.mf6.MFSimulation.load(sim_ws=w, verbosity_level=0)
                    gwf = sim.get_model(list(sim.model_names)[0])
                    dis, npf, ic = gwf.dis, gwf.npf, gwf.ic
                    got = dict(k=npf.k.array, k33=npf.k33.array, a1=npf.angle1.array, a2=npf.angle2.array, a3=npf.angle3.array,
                               delr=dis.delr.array, delc=dis.delc.array, top=dis.top.array, botm=dis.botm.array, strt=ic.strt.array)
                    xt = npf.xt3doptions.get_data() if hasattr(npf, 'xt3doptions') else True
                    chd = gwf.get_package('chd') or gwf.get_package('chd_0')
                    wel = gwf.get_package('wel') or gwf.get_package('wel_0')
                    chd = [] if chd is None else [(tuple(int(v) for v in x['cellid']), float(x['head'])) for x in chd.stress_period_data.get_data(0)]
                    wel = [] if wel is None else [(tuple(int(v) for v in x['cellid']), float(x['q'])) for x in wel.stress_period_data.get_data(0)]
                except Exception as e:
                    raise sut.SUTError(e, 'loading the MODFLOW 6 model')
                st['mf6'] = st.get('mf6', 0) + 1
                T = lambda a: np.transpose(a, (2, 1, 0))[::-1]
                for nm, a, b, tol, ab in (('k', got['k'], T(K), 1e-4, 0), ('k33', got['k33'], T(K / A), 1e-4, 0),
                                          ('angle1', got['a1'], T(D['azim']), 1e-7, 1e-6), ('angle2', got['a2'], T(D['dip']), 1e-7, 1e-6),
                                          ('angle3', got['a3'], np.zeros((nz, ny, nx)), 0, 1e-9),
                                          ('delr', got['delr'], np.full(nx, g['dx']), 1e-7, 0), ('delc', got['delc'], np.full(ny, g['dy']), 1e-7, 0),
                                          ('top', got['top'], np.full((ny, nx), edges[0]), 1e-7, scale),
                                          ('botm', got['botm'], np.broadcast_to(edges[1:, None, None], (nz, ny, nx)), 1e-7, scale),
                                          ('initial head', got['strt'], np.broadcast_to(hin + (hout - hin) * np.arange(nx) / max(nx - 1, 1), (nz, ny, nx)), 1e-6, 1e-6)):
                    if off(a, b, tol, ab):
                        m.add('MODFLOW 6: wrong %s (shape %s): %s..., expected %s...', nm, np.shape(a), np.ravel(a)[:3], np.ravel(b)[:3])
                if not xt:
                    m.add('MODFLOW 6: the option that makes use of the angles is missing')
                want = {}
                if bc != 'none':
                    for l in range(nz):
                        for j in range(ny):
                            if bc != 'q':
                                want.setdefault((l, j, 0), []).append(hin)
                            want.setdefault((l, j, nx - 1), []).append(hout)
                have = {}
                for c, h in chd:
                    have.setdefault(c, []).append(h)
                if set(have) != set(want) or any(off(sorted(have[c]), sorted(want[c]), 1e-6, 1e-6) for c in want):
                    m.add('MODFLOW 6: %d fixed heads %s... instead of %d %s... (boundary condition %s)', len(have), list(have.items())[:2], len(want),
                          list(want.items())[:2], bc)
                if 'q' in bc:
                    w = {(l, j, 0): ft['q_in'] for l in range(nz) for j in range(ny)}
                    h = dict(wel)
                    if set(w) != set(h) or len(wel) != len(w) or any(off(h[c], w[c], 1e-6) for c in w):
                        m.add('MODFLOW 6: inflow is %s... instead of %s...', wel[:2], list(w.items())[:2])
            if 'hgs' in which:
                w = os.path.join(d, 'HGS')
                try:
                    kt = np.loadtxt(os.path.join(w, 'ktensors.txt'), ndmin=2)
                    po = np.loadtxt(os.path.join(w, 'porosity.txt'), ndmin=2)
                except Exception as e:
                    raise sut.SUTError(e, 'reading the HydroGeoSphere files')
                st['hgs'] = st.get('hgs', 0) + 1
                t = D['ktensors'].reshape(-1, 3, 3)
                want = np.column_stack([np.arange(1, K.size + 1)] + [t[:, i, j] for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))])
                if off(kt, want, 5.1e-4, 1e-300):
                    m.add('HydroGeoSphere: tensors do not agree: %s, expected %s', kt[:1], want[:1])
                want = np.column_stack([np.arange(1, K.size + 1), D['poros'].ravel()])
                if off(po, want, 0, 5.1e-4):
                    m.add('HydroGeoSphere: porosities do not agree: %s, expected %s', po[:1], want[:1])
    return {'violations': m, 'stats': st, 'sig': [nx, ny, nz, sums, bc, which],
            'sample': {'seed': case['seed'], 'formats': which, 'boundary': bc, 'grid': [nx, ny, nz]}}
