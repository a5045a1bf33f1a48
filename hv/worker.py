"""Worker: executes cases of one check, one JSON per line on stdin/stdout."""
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import shutil
import warnings


def main():
    cid = sys.argv[1]
    limit = int(float(sys.argv[2]))
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('HV_KEEP_STDERR'):
        os.dup2(devnull, 2)
    warnings.simplefilter('ignore')
    from hv import sut
    mod = importlib.import_module('hv.checks.' + cid.lower())

    def alarm(*_):
        raise sut.CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    root = os.environ['HV_SCRATCH']
    for line in sys.stdin:
        case = json.loads(line)
        res = {'idx': case['idx'], 'violations': [], 'stats': {}, 'inconclusive': None}
        out.write(json.dumps({'start': case['idx']}) + '\n')
        out.flush()
        tmp = tempfile.mkdtemp(dir=root)
        cwd = os.getcwd()
        t = time.time()
        try:
            os.chdir(tmp)
            signal.alarm(limit)
            r = mod.run_case(case, tmp)
            signal.alarm(0)
            res['violations'] = r.get('violations', [])
            res['stats'] = r.get('stats', {})
            res['sig'] = r.get('sig')
            res['sample'] = r.get('sample')
            res['inconclusive'] = r.get('inconclusive')
        except sut.SUTError as e:
            signal.alarm(0)
            res['violations'] = ['unexpected failure of the code under test: ' + str(e)]
        except sut.CaseTimeout:
            res['violations'] = ['no result within %d s (normally well below a few seconds)' % limit]
        except sut.Inconclusive as e:
            signal.alarm(0)
            res['inconclusive'] = str(e)[:500]
        except MemoryError:
            signal.alarm(0)
            res['violations'] = ['ran out of memory']
        except Exception:
            signal.alarm(0)
            res['inconclusive'] = 'oracle: ' + traceback.format_exc()[-1500:]
        finally:
            signal.alarm(0)
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
        res['t'] = time.time() - t
        out.write(json.dumps(res, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
