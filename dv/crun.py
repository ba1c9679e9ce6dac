"""Concrete process: replay countermodels and run generated inputs through the contracts on the real code."""
import importlib
import json
import logging
import os
import sys
import time
import types
import traceback
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
logging.getLogger('qtune').addHandler(logging.NullHandler())
logging.getLogger('qtune').propagate = False
logging.getLogger('qtune').setLevel(logging.CRITICAL + 1)
REPO = os.environ.get('QTUNE_REPO', '/repo')
sys.path.insert(0, REPO)
from dv import base
from dv.cctx import ConCtx, Discard, Violated

MODULES = ['util', 'storage', 'experiment', 'kalman_gradient', 'gradient', 'evaluator', 'solver', 'parameter_tuner',
           'autotuner', 'history']


def load():
    return types.SimpleNamespace(**{m: importlib.import_module('qtune.' + m) for m in MODULES})


def once(q, sc, values, seed, size=4):
    c = ConCtx(q, sc.name, values, seed, size)
    err = None
    try:
        sc.fn(c)
    except Discard:
        return c, 'discard', None
    except Violated:
        pass
    except Exception as e:
        err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]
        return c, 'error', err
    finally:
        c.cleanup()
    return c, ('fail' if c.failures else 'pass'), None


def main(job):
    q = load()
    ConCtx.scratch = job.get('scratch')
    importlib.import_module('contracts.' + job['property'].lower())
    scs = {s.name: s for s in base.REG[job['property']]}
    out = dict(replays=[], random={})
    for r in job.get('replays', ()):
        sc = scs[r['scenario']]
        c, status, err = once(q, sc, r['model'], 0)
        out['replays'].append(dict(r, status=status, failures=c.failures, error=err, inputs=c.used, notes=c.notes[:1]))
    seed0 = job.get('seed', 0)
    for name, n in job.get('random', {}).items():
        sc = scs[name]
        t0 = time.time()
        res = dict(runs=0, discarded=0, checks=0, failures=[], errors=[], sample=[])
        sigs = set()
        limit = job.get('time', 20.)
        k = 0
        while k < n * 3 and res['runs'] < n:
            if time.time() - t0 > limit:
                break
            c, status, err = once(q, sc, None, seed0 * 1000003 + k * 7919 + job.get('stream', 0) * 104729, 3 if k % 3 else 4)
            k += 1
            if status == 'discard':
                res['discarded'] += 1
                continue
            res['runs'] += 1
            res['checks'] += c.checked
            sig = json.dumps(c.used, sort_keys=True, default=str)
            sigs.add(hash(sig))
            if len(res['sample']) < 2:
                res['sample'].append(c.used)
            if status == 'error':
                if len(res['errors']) < 3:
                    res['errors'].append(dict(inputs=c.used, error=err))
            elif status == 'fail':
                if len(res['failures']) < 5:
                    res['failures'].append(dict(inputs=c.used, failures=c.failures, notes=c.notes[:1]))
        res['distinct'] = len(sigs)
        res['wall_s'] = round(time.time() - t0, 3)
        out['random'][name] = res
    return out


if __name__ == '__main__':
    job = json.load(open(sys.argv[1]))
    res = main(job)
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f, indent=1, default=str)
    sys.stdout.flush()
    os._exit(0)
