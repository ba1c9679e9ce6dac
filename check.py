#!/usr/bin/env python3
"""Decide one property: generate the proof obligations of its contracts from /repo's current source, discharge them,
replay countermodels on the real code, run the contracts on generated inputs as a cross-check, write the evidence.

usage: check.py PROPERTY [quick|thorough]            decide
       check.py --replay FILE                        run the failing input of a reported violation on the real code
"""
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PROVER = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
RUNNER = '/opt/venv/bin/python'
from dv import base, prove


def env():
    e = dict(os.environ, MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    e.setdefault('MPLCONFIGDIR', '/opt/vp/mpl')
    return e


def spawn(cmd, timeout, cwd=None):
    """run in its own process group; (returncode or None on timeout, output tail)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd or HERE, env=env(),
                         start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out[-3000:]
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, 'timeout'


def known_findings():
    """lines 'finding: property=<id> key=<scenario/obligation>[ when=<name>] <what fails>' """
    out = {}
    for path in [os.path.join(HERE, 'known-findings.txt')]:
        if not os.path.exists(path):
            continue
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(w.split('=', 1) for w in line.split() if '=' in w and w.split('=')[0] in ('property', 'key', 'when'))
                d['text'] = line[len('finding:'):].strip()
                out.setdefault(d['property'], []).append(d)
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.mod = importlib.import_module('contracts.' + prop.lower())
        self.meta = importlib.import_module('contracts.meta').META[prop]
        self.scs = base.REG[prop]
        self.work = tempfile.mkdtemp(prefix='dv_%s_' % prop)
        self.proofs, self.runs, self.replays = {}, [], []
        self.notes = []

    # ------------------------------------------------------------- processes
    def prove(self, scs):
        prove.PYTHON = PROVER
        quick = self.tier == 'quick'
        pool = prove.Pool(self.prop, scs, self.tier, 6 if quick else 8, self.meta.get('wall', 240.) * (1 if quick else 12))
        for r in pool.run():
            self.proofs[r['scenario']] = r
        self.notes.extend('prover process ended: ' + x for x in pool.failed[:3])

    def job(self, tag, job, timeout):
        j, o = (os.path.join(self.work, '%s.%s.json' % (tag, k)) for k in ('job', 'out'))
        json.dump(dict(job, property=self.prop, scratch=self.work), open(j, 'w'))
        rc, txt = spawn([RUNNER, os.path.join(HERE, 'dv', 'crun.py'), j, o], timeout, cwd=self.work)
        try:
            return json.load(open(o))
        except Exception:
            self.notes.append('concrete run %s ended with %s: %s' % (tag, rc, txt[-600:]))
            return dict(replays=[], random={})

    # ------------------------------------------------------------- decide
    def go(self):
        quick = self.tier == 'quick'
        symb = [s for s in self.scs if s.kind != 'concrete']
        streams = 2 if quick else 4
        limit = self.meta.get('time', 10.) if quick else 4 * self.meta.get('time', 10.)
        n = self.meta.get('n', 400) if quick else 12 * self.meta.get('n', 400)
        names = list(self.scs)
        with ThreadPoolExecutor(7 if quick else 8) as ex:
            fs = []
            if symb:
                fs.append(ex.submit(self.prove, symb))
            cf = []
            for k in range(streams):
                per = max(2., limit / max(1, len(names)) * 2)
                job = dict(random={s.name: max(1, int(n * s.reps)) for s in names}, seed=self.seed, stream=k, time=per)
                cf.append(ex.submit(self.job, 'random%d' % k, job, per * len(names) + 90))
            for f in fs:
                f.result()
            self.runs = [f.result() for f in cf]
        rep = []
        for p in self.proofs.values():
            for o in p['obligations']:
                if o['model'] is not None:
                    rep.append(dict(scenario=p['scenario'], model=o['model'], obligation=o['name']))
        if rep:
            self.replays = self.job('replay', dict(replays=rep), 240).get('replays', [])
        # a refuted obligation whose countermodel does not replay: search near it
        return self.decide()

    def decide(self):
        kf = known_findings().get(self.prop, [])
        hits = getattr(self.mod, 'KNOWN', {})
        viol, known = [], []

        def is_known(label, inputs):
            for d in kf:
                if d.get('key') == label and (('when' not in d) or hits.get(d['when'], lambda i: False)(inputs or {})):
                    return d
            return None

        def add(label, inputs, how, detail):
            d = is_known(label, inputs)
            if d:
                if d not in known:
                    known.append(d)
            else:
                viol.append(dict(obligation=label, inputs=inputs, how=how, detail=detail))
        for r in self.replays:
            if r['status'] == 'fail':
                for f in r['failures']:
                    add(f, r['inputs'], 'countermodel of %s replayed on the real code' % r['obligation'], r.get('notes'))
        for run in self.runs:
            for name, res in run.get('random', {}).items():
                for f in res['failures']:
                    for lab in f['failures']:
                        add(lab, f['inputs'], 'generated input on the real code', f.get('notes'))
        real = list(viol)
        replayed = {r['obligation'] for r in self.replays if r['status'] == 'fail'}
        unrep = []
        for p in self.proofs.values():
            for o in p['obligations']:
                if o['status'] == 'refuted' and not o['approx'] and o['name'] not in replayed:
                    if any(d.get('key') == o['name'] for d in kf):
                        continue
                    unrep.append(dict(obligation=o['name'], inputs=o['model'], how='obligation refuted by the verifier',
                                      detail=dict(verifier=o, logs=p.get('logs'))))
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, self.prop + '-*.json')):
            os.remove(old)
        lines = []
        seen = set()
        for v in real:
            if v['obligation'] in seen:
                continue
            seen.add(v['obligation'])
            path = os.path.join(rdir, '%s-%d.json' % (self.prop, len(lines)))
            json.dump(dict(v, property=self.prop, scenario=v['obligation'].split('/')[0]), open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('FAILED %s: %s' % (v['obligation'], v['how']))
        if not real:
            for v in unrep:
                path = os.path.join(rdir, '%s-%d.json' % (self.prop, len(lines)))
                json.dump(dict(v, property=self.prop, scenario=v['obligation'].split('/')[0]), open(path, 'w'), indent=1, default=str)
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, path))
                print('FAILED %s: %s' % (v['obligation'], v['how']))
        for d in known:
            print('KNOWN-FINDING: %s' % d['text'])
        self.evidence(len(lines))
        for l in lines:
            print(l)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if lines else 0

    # ------------------------------------------------------------- evidence
    def evidence(self, nviol):
        meta = self.meta
        scen = []
        tot = dis = 0
        solver = 0.
        second = dict(checked=0, agree=0)
        sources = {}
        for sc in self.scs:
            d = dict(scenario=sc.name, kind=sc.kind, bound=sc.note or None, functions=sc.functions)
            if sc.cross:
                d['cross_check_of'] = sc.cross
            p = self.proofs.get(sc.name)
            if p is not None:
                obl = p['obligations']
                nd = sum(o['status'] == 'discharged' for o in obl) if p['complete'] else 0
                tot += max(len(obl), 1)
                dis += nd
                solver += p['stats'].get('solver_s', 0.)
                second['checked'] += p['stats'].get('second_checked', 0)
                second['agree'] += p['stats'].get('second_agree', 0)
                sources.update(p['sources'])
                d.update(obligations=len(obl), discharged=nd, complete=p['complete'], paths=p['stats'].get('paths'),
                         queries=p['stats'].get('queries'), solver_s=p['stats'].get('solver_s'), wall_s=p['wall_s'],
                         undecided=p['undecided'] + ([p['crash']] if p['crash'] else []),
                         names=[o['name'].split('/', 1)[1] for o in obl],
                         not_discharged=[dict(name=o['name'], status=o['status'], approx=o['approx']) for o in obl if o['status'] != 'discharged'],
                         cover=p['covered'])
            runs = [r['random'][sc.name] for r in self.runs if sc.name in r.get('random', {})]
            d['concrete'] = dict(runs=sum(r['runs'] for r in runs), distinct=sum(r['distinct'] for r in runs), checks=sum(r['checks'] for r in runs),
                                 discarded=sum(r['discarded'] for r in runs), errors=[e for r in runs for e in r['errors']][:2])
            scen.append(d)
        evals = sum(d['concrete']['runs'] for d in scen)
        distinct = sum(d['concrete']['distinct'] for d in scen)
        samples = [s for r in self.runs for x in r.get('random', {}).values() for s in x['sample']][:3]
        trusted = ['dv (the deductive verifier in /verif/dv: symbolic execution of the real functions, ground instantiation, z3 %s)' % 'Python API',
                   'contracts of numpy/pandas operations in dv/coll.py and dv/shim.py, validated only by running every contract on the real libraries as well',
                   'floating point numbers are treated as mathematical reals extended by nan, +inf, -inf'] + list(meta.get('trusted', ()))
        cov = dict(obligations=tot, discharged=dis, checker_cmd='python3-vt %s/dv/prove.py %s <scenario> %s' % (HERE, self.prop, self.tier),
                   trusted_base=trusted, scenarios=scen,
                   functions_under_contract=sorted({f for s in self.scs if s.kind != 'concrete' for f in s.functions}),
                   functions_bounded_only=sorted({f for s in self.scs if s.kind == 'concrete' for f in s.functions} -
                                                 {f for s in self.scs if s.kind != 'concrete' for f in s.functions}),
                   back_ends='z3 (all obligations)' + ('; cvc5 1.1.2 re-checked %(checked)d queries, agreeing on %(agree)d' % second if self.tier == 'thorough' else ''),
                   solver_s=round(solver, 3), evaluations=evals, distinct_nontrivial=distinct,
                   rule='a case is one generated input (names, orders, values from a small grid incl. nan) of one contract scenario run on the real '
                        'code with the real libraries; distinct and non-trivial: differing inputs that satisfy the preconditions',
                   samples=samples, replays=[dict(obligation=r['obligation'], status=r['status']) for r in self.replays],
                   extraction='the modules are read from %s on this run and executed as they are; the loader only replaces comprehension iterables, '
                              'type(x) and the builtins/numpy/pandas names by their contracts, and drops module docstrings and annotations' % (os.environ.get('QTUNE_REPO', '/repo')),
                   sources=sources, explanation=meta.get('explanation', '') or
                   'contract scenarios over the real functions; scenarios marked bounded enumerate a sequence length, scenarios marked concrete are '
                   'executed only (bounded stand-in, never counted as proved)',
                   notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=meta['level'], coverage=cov,
                  assumptions=list(meta.get('assumptions', ())) + sorted({a for s in self.scs for a in s.assumes}),
                  wall_s=round(time.time() - self.t0, 3), violations=nviol)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % self.prop)
        json.dump(ev, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, 'evidence', self.prop + '.json'))
        print('%s %s: %d of %d obligations discharged, %d concrete runs (%d distinct), %.1f s' %
              (self.prop, self.tier, dis, tot, evals, distinct, time.time() - self.t0))
        for d in scen:
            for u in d.get('undecided', ()):
                print('  undecided %s: %s' % (d['scenario'], u[:200]))
            for u in d.get('not_discharged', ()):
                print('  not discharged %s %s' % (u['name'], u['status']))
            for e in d['concrete']['errors'][:1]:
                print('  contract could not be evaluated %s: %s' % (d['scenario'], e['error'].strip().split('\n')[-1]))
        for n in self.notes:
            print('  note', n[:400])


def replay(path):
    d = json.load(open(path))
    job = dict(property=d['property'], replays=[dict(scenario=d['scenario'], model=d['inputs'] or {}, obligation=d['obligation'])])
    with tempfile.TemporaryDirectory() as w:
        json.dump(dict(job, scratch=w), open(w + '/j', 'w'))
        spawn([RUNNER, os.path.join(HERE, 'dv', 'crun.py'), w + '/j', w + '/o'], 300, cwd=w)
        r = json.load(open(w + '/o'))['replays'][0]
    print(json.dumps(r, indent=1))
    return 1 if r['status'] == 'fail' else 0


def main():
    if sys.argv[1] == '--setup':
        for cmd in ([PROVER, '-c', 'import z3'], [RUNNER, '-c', 'import pandas, numpy']):
            rc, txt = spawn(cmd, 120)
            if rc != 0:
                print('missing: %s\n%s' % (cmd, txt))
                return 2
        return 0
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return Check(prop, tier).go()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(1 if rc else 0)
