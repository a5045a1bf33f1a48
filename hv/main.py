"""Engine: run one check.

    python -m hv.main C05 [--tier quick|thorough] [--seed N] [--replay FILE] [-v]

exit 0: property held on everything explored; exit 1: VIOLATION line printed.
"""
import argparse
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                kv = dict(x.split('=', 1) for x in l[len('finding:'):].split()[:2])
                out.append((kv['property'], kv['key'], l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ''))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('cid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    cid = a.cid.upper()
    mod = importlib.import_module('hv.checks.' + cid.lower())
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='hv_%s_' % cid)
    try:
        return run(a, cid, mod, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, cid, mod, scratch, t0):
    env = dict(os.environ, HV_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=VERIF, PYTHONHASHSEED='0',
               HOME=scratch, VERIF_TIER=a.tier)
    env.pop('HV_EXT', None)
    variant = getattr(mod, 'BUILD', None)
    violations = []
    built = None
    if variant:
        from hv import build
        try:
            built = build.build(os.path.join(scratch, 'ext'), variant)
            env['HV_EXT'] = built
        except build.BuildError as e:
            violations.append({'case': None, 'msg': 'the compiled parts of the current tree cannot be built:\n' + str(e)})
    env.update(getattr(mod, 'worker_env', lambda d: {})(scratch))
    whole = not a.replay
    if a.replay:
        cases = [json.load(open(a.replay))['case']]
        if cases[0] and cases[0].get('aggregate'):      # found in the pooled observations: all cases again
            cases = list(mod.cases(cases[0]['tier'], cases[0]['seed']))
            whole = True
    else:
        cases = list(mod.cases(a.tier, a.seed))
    for i, c in enumerate(cases):
        c['idx'] = i
    limit = getattr(mod, 'CASE_LIMIT', {}).get(a.tier, 120 if a.tier == 'quick' else 300)
    budget = 780 if a.tier == 'quick' else 3 * 3600
    results = {}
    crashed = []
    stop = threading.Event()
    q = queue.Queue()
    for c in cases:
        q.put(c)
    lock = threading.Lock()
    nviol = [0]

    def runner():
        p = None
        while not stop.is_set():
            try:
                c = q.get_nowait()
            except queue.Empty:
                break
            if time.time() - t0 > budget:
                stop.set()
                break
            if p is None or p.poll() is not None:
                p = subprocess.Popen([sys.executable, '-m', 'hv.worker', cid, str(limit)], cwd=scratch, env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            try:
                p.stdin.write(json.dumps(c) + '\n')
                p.stdin.flush()
                r = None
                while True:
                    line = p.stdout.readline()
                    if not line:
                        break
                    r = json.loads(line)
                    if 'start' not in r:
                        break
                    r = None
            except (BrokenPipeError, ValueError):
                r = None
            with lock:
                if r is None:
                    rc = p.wait()
                    crashed.append((c, rc))
                    nviol[0] += 1
                    p = None
                else:
                    results[c['idx']] = r
                    nviol[0] += bool(r['violations'])
                if nviol[0] >= 6:
                    stop.set()
        if p is not None and p.poll() is None:
            try:
                p.stdin.close()
                p.wait(timeout=30)
            except Exception:
                p.kill()

    if not violations:
        ths = [threading.Thread(target=runner) for _ in range(max(1, min(a.j, len(cases))))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    log = None
    for c, rc in crashed:
        violations.append({'case': c, 'msg': 'the process running the code died (status %s)' % rc})
    for i in sorted(results):
        for v in results[i]['violations']:
            violations.append({'case': cases[i], 'msg': v})
    extra = getattr(mod, 'summarize', None)
    cov_extra = {}
    if extra and whole and not crashed and not violations:
        more, cov_extra = extra([results[i] for i in sorted(results)], a.tier)
        for m in more:
            violations.append({'case': {'aggregate': True, 'tier': a.tier, 'seed': a.seed}, 'msg': m})

    # coverage
    stats = {}
    sigs = set()
    inconclusive = []
    samples = []
    for i in sorted(results):
        r = results[i]
        if r['inconclusive']:
            inconclusive.append(r['inconclusive'])
            continue
        for k, v in (r['stats'] or {}).items():
            if k.startswith('max_'):
                stats[k] = max(stats.get(k, v), v)
            elif k.startswith('_'):
                continue
            else:
                stats[k] = stats.get(k, 0) + v
        if r.get('sig') is not None:
            sigs.add(json.dumps(r['sig'], sort_keys=True, default=str))
        if r.get('sample') is not None and len(samples) < 3:
            samples.append(r['sample'])
    if not samples:
        samples = [{k: v for k, v in c.items()} for c in cases[:2]]
    # known findings: violations tagged [key]
    kf = known_findings()
    real, listed = [], []
    for v in violations:
        hit = None
        for p, key, text in kf:
            if p == cid and v['msg'].startswith('[%s]' % key):
                hit = (key, text)
        (listed if hit else real).append((v, hit))
    cov = {'evaluations': len(results) + len(crashed),
           'distinct_nontrivial': len(sigs),
           'rule': getattr(mod, 'RULE', ''),
           'samples': samples,
           'monitor_observations': stats,
           'inconclusive_cases': len(inconclusive),
           'inconclusive_reasons': sorted(set(inconclusive))[:5],
           'planned_cases': len(cases),
           'known_findings_seen': sorted({h[0] for _, h in listed})}
    cov.update(cov_extra)
    ev = {'property': cid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(real)}
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if not a.replay:
        with open(os.path.join(evdir, cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for key, text in sorted({h for _, h in listed}):
        print('KNOWN-FINDING: property=%s %s %s' % (cid, key, text))
    if real:
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (cid, a.tier, a.seed))
        v = real[0][0]
        if a.replay:
            path = a.replay
        else:
            with open(path, 'w') as f:
                json.dump({'property': cid, 'case': v['case'], 'messages': [x['msg'] for x, _ in real[:10]]}, f, indent=1,
                          default=str)
        for x, _ in real[:5]:
            print('--', x['msg'][:1500])
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if results and len(inconclusive) == len(results):
        print('%s: no answer, none of the %d cases could be judged; example: %s' % (cid, len(results), inconclusive[0]))
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s; %s' % (
        cid, len(results), len(sigs), len(inconclusive), time.time() - t0,
        ' '.join('%s=%s' % kv for kv in sorted(stats.items()))))
    orc = [i for i in inconclusive if i.startswith('oracle:')]
    if orc:
        print('NOTE: the oracle itself failed on %d cases, e.g. %s' % (len(orc), orc[0].strip().splitlines()[-1]))
    if inconclusive and (a.v or len(inconclusive) > len(results) / 2):
        print('INCONCLUSIVE example:', inconclusive[0])
    return 0


if __name__ == '__main__':
    sys.exit(main())
