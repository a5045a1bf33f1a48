"""C25: memory safety of the compiled parts."""
import os
import subprocess
import sys
import numpy as np
from hv import work, gen, sut, obs
BUILD = 'asan'
RULE = ('random models of troughs, channels and sheets, including extreme ones (single rows of cells, objects much smaller or larger '
        'than the domain, far outside of it, periodic, extreme channel parameters, many and very thin layers, troughs deeper than long and wide), '
        "run with the compiled parts built with AddressSanitizer, UndefinedBehaviorSanitizer and Cython's own bounds and None checks: no "
        'report, no index error, no exception that Python could not raise; distinct by grid, strata and generated objects')
ASSUMPTIONS = ['-O1; red zones of AddressSanitizer; leaks of the interpreter itself are not looked for']
CASE_LIMIT = {'quick': 300, 'thorough': 600}


def cases(tier, seed):
    n = work.n_cases(tier, 220, 4000)
    return work.seeds('C25', seed, n) + [dict(seed='C25/%s/s%d' % (seed, i), steep=True) for i in range(n // 2)]


def worker_env(scratch):
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    d = os.path.join(scratch, 'san')
    os.makedirs(d, exist_ok=True)
    return {'LD_PRELOAD': os.path.realpath(lib) + ' ' + os.path.realpath(ub), 'PYTHONMALLOC': 'malloc', 'HV_SAN': d,
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:log_path=%s/asan' % d,
            'UBSAN_OPTIONS': 'print_stacktrace=0:log_path=%s/ubsan' % d}


_un = []


def extreme(r, spec, steep=False):
    g = spec['grid']
    k = r.random()
    for e in spec['elements'].values():
        if e['geometry'] == 'trough':
            f = r.choice([1, 1, 1, 0.02, 8]) if not spec['model']['periodic'] else r.choice([1, 0.1])
            e['length'] *= f
            e['width'] *= r.choice([f, 1])
            if f > 1:
                e['agg'] = max(e['agg'], 0.2 * g['lz'])
            e['depth'] *= r.choice([1, 1, 0.05, 3])
            if e['lag_height'] is not None:
                e['lag_height'] = min(e['lag_height'], e['depth'])
            e['dipset_dist'] *= r.choice([1, 1, 0.15, 20])
            e['bulbset_dist'] *= r.choice([1, 1, 0.15, 20])
            if r.random() < 0.35 or steep:
                # any order of length, width and depth, and many layers
                e['structure'] = r.choice(['dip', 'dip', 'bulb_sets', e['structure']])
                c = [r.choice([1.5, 3.0, 6.0]) * v for v in (g['dx'], g['dy'], g['dz'])]
                top = (g['lx'], g['ly'], g['lz']) if not spec['model']['periodic'] else (0.45 * g['lx'], 0.45 * g['ly'], g['lz'])
                e['length'], e['width'], e['depth'] = [min(r.choice([v, w]), w) for v, w in zip(c, top)]
                if steep:
                    # deeper than long and wide, seen from below
                    e['structure'] = r.choice(['dip', 'dip', 'bulb_sets'])
                    e['length'], e['width'] = [min(v, r.choice([0.4, 0.7, 1.1]) * e['depth']) for v in (e['length'], e['width'])]
                e['dip'] = e['dip'] and r.choice([[0.0, 0.0], [0.0, 20.0], [80.0, 90.0], [90.0, 90.0], e['dip']])
                e['dipset_dist'] = r.choice([0.07, 0.3]) * g['dz']
                e['bulbset_dist'] = r.choice([0.07, 0.3]) * g['dz']
                e['lag_height'] = e['lag_facies'] = None
                if not e['te_xyz']:
                    e['te_xyz'], e['migrate'] = [], None
                e['te_xyz'] += [[g['x0'] + gen.u(r, 0, 1) * g['lx'], g['y0'] + gen.u(r, 0, 1) * g['ly'], g['z0'] + gen.u(r, 0.5, 1) * g['lz']]
                                for _ in range(3)]
            if e['te_xyz'] and r.random() < 0.3:
                e['te_xyz'].append([g['x0'] + r.choice([-3, 4]) * g['lx'], g['y0'] + r.choice([-3, 4]) * g['ly'], g['z0'] + gen.u(r, -0.2, 1.3) * g['lz']])
            if e['migrate'] and r.random() < 0.4:
                e['migrate'] = [v * r.choice([1, 5, -9]) if i % 2 == 0 else v for i, v in enumerate(e['migrate'])]
        elif e['geometry'] == 'channel':
            e['width'] *= r.choice([1, 1, 0.03, 10])
            e['depth'] *= r.choice([1, 1, 0.05, 3])
            e['dipset_dist'] *= r.choice([1, 1, 0.2, 20])
            e['ds'] = r.choice([e['ds'], 0.05 * max(g['lx'], 1), 0.5 * max(g['lx'], g['ly'])])
            e['h'] = r.choice([e['h'], 0.05, 0.95])
            e['k'] = r.choice([e['k'], 0.05, 3.0])
            e['eps_factor'] = r.choice([e['eps_factor'], 0.0, 1.0])
            if e['lag_height'] is not None:
                e['lag_height'] = min(e['lag_height'], e['depth'])
            if e['mig'] and r.random() < 0.3:
                e['mig'] *= 6
            if r.random() < 0.5:
                # several channels with many thin layers
                e['structure'] = 'dip'
                e['dipset_dist'] = r.choice([0.04, 0.1, 0.3]) * min(g['dz'], e['depth'])
                e['agg'] = gen.u(r, 0.1, 0.3) * g['lz']
                e['buffer'] = None
                e['dip'] = r.choice([e['dip'], [0.0, 0.0], [-90.0, -60.0], [80.0, 90.0], [-3.0, 3.0]])


def run_case(case, tmp):
    if not _un:
        _un.append(None)
        sys.unraisablehook = lambda u: _un.append('%s: %s' % (type(u.exc_value).__name__, u.exc_value))
    del _un[1:]
    r = work.rnd(case)
    sizes = ['tiny', 'small', 'small', 'medium']
    spec = gen.make(case['seed'], size=r.choice(sizes), geometries=('trough',) if case.get('steep') else ('trough', 'channel', 'trough', 'channel', 'sheet'), hostile=0.3)
    if case.get('steep') or r.random() < 0.7:
        extreme(r, spec, bool(case.get('steep')))
    m = work.Msgs()
    try:
        o = obs.run_spec(spec, tmp, work.npseed(case), r=r)
    except sut.SUTError as e:
        if isinstance(e.exc, (IndexError, MemoryError, OverflowError, SystemError, BufferError)) or 'NoneType' in str(e.exc):
            m.add('invalid access: %s', str(e)[-600:])
        else:
            raise
        return {'violations': m, 'stats': {}}
    if len(_un) > 1:
        m.add('an exception was swallowed inside the compiled code: %s', _un[1])
    d = os.environ.get('HV_SAN')
    st = {'sanitized_runs': 1, 'cells': int(o.data['facies'].size)}
    for f in sorted(os.listdir(d)) if d else []:
        if f.endswith('.%d' % os.getpid()):
            t = open(os.path.join(d, f), errors='replace').read()
            os.unlink(os.path.join(d, f))
            if t.strip():
                m.add('sanitizer report: %s', t[:900])
    w = __import__('hv.geom', fromlist=['World']).World(spec, o.model, o.data)
    for k, (_, _, ae) in enumerate(w.aes):
        key = w.geometry(k) + 's'
        st[key] = st.get(key, 0) + len(ae.object_list)
    return work.result(m, st, spec, w)
