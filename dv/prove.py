"""Proof process: generate and discharge the obligations of contract scenarios (run under python3-vt).

    prove.py PROP SCENARIO[,SCENARIO..] quick|thorough OUT.json [JOBS]

The paths of a scenario are explored by several worker processes: every path is identified by its list of decisions
and re-executed from the start, so the work is split by handing out decision prefixes.
"""
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import re
import threading
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def second_backend(timeout=20):
    """re-check an obligation with cvc5 (through SMT-LIB)"""
    import z3

    def check(solver, neg):
        s = z3.Solver()
        s.add(solver.assertions())
        s.add(neg)
        text = '(set-logic ALL)\n' + s.to_smt2()
        for n in re.findall(r'\(declare-fun ([a-z]+) \(', text):        # names cvc5 reserves
            text = re.sub(r'(?<=[ (])%s(?=[ )\n])' % n, 'uf_' + n, text)
        try:
            r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % (timeout * 1000)], input=text,
                               capture_output=True, text=True, timeout=timeout + 5)
            out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
            return out if out in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'
    return check


class Worker:
    """explores decision prefixes of the scenarios of one property"""

    def __init__(self, prop, tier):
        from dv import core, shim, base
        self.core, self.shim, self.base = core, shim, base
        self.prop, self.tier = prop, tier
        importlib.import_module('contracts.' + prop.lower())
        self.crash = None
        self.sources = {}
        self.q = None
        eng = core.Engine()
        try:
            L = shim.Loader()
            core.ENGINE = eng
            eng.reset([])
            eng.worklist = []
            self.q = L.load_all()
            self.sources = {os.path.relpath(p, shim.REPO): hashlib.sha256(s.encode()).hexdigest()[:16] for p, s in L.sources.items()}
        except (Exception, core.Unsupported, core.Undecided, core.PathEnd) as err:
            self.crash = '%s: %s' % (type(err).__name__, err)
            self.crash += ' ' + str([(f.filename.split('/')[-1], f.lineno) for f in traceback.extract_tb(err.__traceback__)[-4:]])
        core.ENGINE = None

    def task(self, name, prefixes, slice_s):
        import z3
        from dv.sctx import SymCtx
        core = self.core
        t0 = time.time()
        res = dict(scenario=name, crash=self.crash, rest=[], stats={}, undecided=[], obligations=[], covered=[], logs=[])
        if self.crash:
            return res
        sc = [s for s in self.base.REG[self.prop] if s.name == name][0]
        eng = core.Engine(query_timeout=8. if self.tier == 'quick' else 40., budget=sc.budget * (1.0 if self.tier == 'quick' else 6.0),
                          max_paths=10 ** 9, second=second_backend() if self.tier == 'thorough' else None)
        logs = []

        def one():
            c = SymCtx(self.q, name)
            try:
                sc.fn(c)
            except (core.PathEnd, core.Undecided, core.Unsupported, z3.Z3Exception):
                raise
            except Exception as err:
                tb = traceback.extract_tb(err.__traceback__)
                raise core.Unsupported('contract error %r at %s' % (err, [(f.filename.split('/')[-1], f.lineno) for f in tb[-3:]]))
            finally:
                c.cleanup()
                if any(k == 'raise' for k, _ in eng.log):
                    logs.extend([v for k, v in eng.log if k == 'raise'][:2])
        try:
            res['rest'] = eng.explore(one, prefixes, slice_s)
        except (Exception, core.Unsupported, core.Undecided, core.PathEnd) as err:
            res['crash'] = '%s: %s' % (type(err).__name__, err)
        res.update(stats=eng.stats, undecided=sorted(set(eng.undecided))[:8], logs=sorted(set(logs))[:6],
                   covered=sorted(x for x in eng.covered if x.startswith('reach:')), wall_s=time.time() - t0,
                   obligations=[dict(name=o.name, status=o.status, paths=o.paths, model=o.model, detail=o.detail, approx=o.approx)
                                for o in (eng.obls[n] for n in eng.order)])
        return res


def serve(prop, tier):
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    w = Worker(prop, tier)
    out.write(json.dumps(dict(ready=True, crash=w.crash, sources=w.sources)) + '\n')
    out.flush()
    for line in sys.stdin:
        t = json.loads(line)
        try:
            r = w.task(t['scenario'], t['prefixes'], t['slice'])
        except MemoryError:
            r = dict(scenario=t['scenario'], crash='out of memory', rest=[], stats={}, undecided=[], obligations=[], covered=[], logs=[], wall_s=0)
        out.write(json.dumps(r) + '\n')
        out.flush()


RANK = {'refuted': 3, 'unknown': 2, 'aux-refuted': 1, 'discharged': 0}


class Proof:
    """result of one scenario, merged over the workers"""

    def __init__(self, prop, sc, tier):
        self.sc, self.prop, self.tier = sc, prop, tier
        self.todo = [[]]
        self.active = 0
        self.cpu = 0.
        self.t0 = None
        self.end = None
        scale = 1.0 if tier == 'quick' else 6.0
        self.max_paths, self.budget = sc.paths * scale, sc.budget * scale
        self.stats, self.undecided, self.crash = {}, set(), None
        self.obls, self.order, self.covered, self.logs = {}, [], set(), set()
        self.sources = {}

    def stop(self, why):
        if self.todo:
            self.undecided.add(why)
            self.todo = []

    def add(self, r, wall):
        self.cpu += wall
        self.todo.extend(r['rest'])
        if r.get('crash'):
            self.crash = r['crash']
            self.todo = []
        self.undecided.update(r['undecided'])
        self.covered.update(r['covered'])
        self.logs.update(r['logs'])
        for k, v in r['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for o in r['obligations']:
            p = self.obls.get(o['name'])
            if p is None:
                self.obls[o['name']] = o
                self.order.append(o['name'])
            else:
                p['paths'] += o['paths']
                better = RANK[o['status']] > RANK[p['status']] or o['status'] == p['status'] == 'refuted' and p['approx'] and not o['approx']
                if better:
                    p.update(status=o['status'], model=o['model'], detail=o['detail'], approx=o['approx'])
        if len(self.undecided) > 10:
            self.stop('too many undecided paths')
        if self.cpu > self.budget:
            self.stop('time budget')
        if self.stats.get('paths', 0) > self.max_paths:
            self.stop('path limit')

    def result(self):
        order = sorted(self.order)
        return dict(property=self.prop, scenario=self.sc.name, kind=self.sc.kind, note=self.sc.note, functions=self.sc.functions,
                    assumes=self.sc.assumes, crash=self.crash, wall_s=round((self.end or time.time()) - (self.t0 or time.time()), 3),
                    cpu_s=round(self.cpu, 3),
                    stats={k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.stats.items()},
                    undecided=sorted(self.undecided)[:8], complete=not self.undecided and self.crash is None and bool(self.stats),
                    obligations=[self.obls[n] for n in order], sources=self.sources, logs=sorted(self.logs)[:6],
                    covered=sorted(self.covered))


PYTHON = sys.executable


class Pool:
    def __init__(self, prop, scs, tier, jobs, wall):
        self.prop, self.tier, self.jobs = prop, tier, jobs
        self.proofs = [Proof(prop, s, tier) for s in scs]
        self.lock = threading.Condition()
        self.deadline = time.time() + wall
        self.procs = []
        self.failed = []

    def next(self):
        """(proof, prefixes) or None; waits while others may still produce work"""
        with self.lock:
            while True:
                if time.time() > self.deadline:
                    for p in self.proofs:
                        p.stop('wall time')
                c = [p for p in self.proofs if p.todo]
                if c:
                    p = min(c, key=lambda p: (p.active, p.cpu))
                    n = max(1, len(p.todo) // (2 * self.jobs))
                    take, p.todo = p.todo[-n:], p.todo[:-n]
                    p.active += 1
                    if p.t0 is None:
                        p.t0 = time.time()
                    return p, take
                if not any(p.active for p in self.proofs):
                    self.lock.notify_all()
                    return None
                self.lock.wait(1.)

    def drive(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        w = None
        try:
            while True:
                t = self.next()
                if t is None:
                    return
                p, take = t
                t0 = time.time()
                r = None
                try:
                    if w is None:
                        w = subprocess.Popen([PYTHON, os.path.abspath(__file__), '--serve', self.prop, self.tier], stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else subprocess.DEVNULL, text=True, env=env)
                        self.procs.append(w)
                        hello = json.loads(w.stdout.readline())
                        for x in self.proofs:
                            x.sources = hello['sources']
                    w.stdin.write(json.dumps(dict(scenario=p.sc.name, prefixes=take, slice=.2 if len(p.todo) < self.jobs else 1.)) + '\n')
                    w.stdin.flush()
                    timer = threading.Timer(240 if self.tier == 'quick' else 900, w.kill)
                    timer.start()
                    try:
                        r = json.loads(w.stdout.readline())
                    finally:
                        timer.cancel()
                except Exception as err:
                    try:
                        w.kill()
                    except Exception:
                        pass
                    w = None
                    self.failed.append(repr(err))
                    r = dict(rest=[], crash=None, undecided=['prover process ended'], covered=[], logs=[], stats={}, obligations=[])
                with self.lock:
                    p.active -= 1
                    p.add(r, time.time() - t0)
                    p.end = time.time()
                    self.lock.notify_all()
        finally:
            if w is not None:
                try:
                    w.stdin.close()
                    w.kill()
                    w.wait(5)
                except Exception:
                    pass

    def run(self):
        ts = [threading.Thread(target=self.drive) for _ in range(self.jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return [p.result() for p in self.proofs]


def prove(prop, names, tier, jobs=8, wall=400.):
    from dv import base
    importlib.import_module('contracts.' + prop.lower())
    scs = [s for s in base.REG[prop] if s.name in names] if names else [s for s in base.REG[prop] if s.kind != 'concrete']
    return Pool(prop, scs, tier, jobs, wall if tier == 'quick' else 9 * wall).run()


def run(prop, name, tier):
    """in this process (for profiling)"""
    w = Worker(prop, tier)
    r = w.task(name, [[]], 1e9)
    return r


if __name__ == '__main__':
    if sys.argv[1] == '--serve':
        serve(sys.argv[2], sys.argv[3])
        os._exit(0)
    a = sys.argv[1:] + [None] * 5
    res = prove(a[0], [x for x in (a[1] or '').split(',') if x], a[2] or 'quick', int(a[4] or 8))
    txt = json.dumps(res, indent=1)
    if a[3]:
        open(a[3], 'w').write(txt)
    else:
        print(txt)
