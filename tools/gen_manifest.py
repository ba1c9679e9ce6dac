"""MANIFEST.json from contracts/meta.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib
from dv import base
from contracts.meta import META, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = ('contract-based deductive verification of the real functions (symbolic execution with contracts for collaborators, '
        'obligations discharged by z3, countermodels replayed on the real code)')
BTECH = ('contracts of the real functions, executed on generated inputs (bounded stand-in: outside the reach of the verifier)')


def note(p):
    """what is proved without bound, what is bounded and what is only executed"""
    importlib.import_module('contracts.' + p.lower())
    kinds = {}
    for r in base.REG[p]:
        kinds.setdefault(r.kind, []).append(r)
    out = []
    if 'proof' in kinds:
        out.append('discharged for all inputs without bound: ' + ', '.join(r.name + (' (%s)' % r.note if r.note else '') for r in kinds['proof']))
    if 'bounded' in kinds:
        by = {}
        for r in kinds['bounded']:
            by.setdefault(r.note, []).append(r.name + (' as cross-check of ' + r.cross if r.cross else ''))
        out.append('bounded, discharged symbolically within the bound and not counted as proved: ' + '; '.join('%s (%s)' % (', '.join(v), k) for k, v in by.items()))
    if 'concrete' in kinds:
        by = {}
        for r in kinds['concrete']:
            by.setdefault(r.note, []).append(r.name + (' as cross-check of ' + r.cross if r.cross else ''))
        out.append('bounded, executed on the real code only: ' + '; '.join('%s (%s)' % (', '.join(v), k) for k, v in by.items()))
    if META[p].get('note'):
        out.append(META[p]['note'])
    out.append('Assumed: floating-point arithmetic as real arithmetic, the models of pandas, numpy, h5py and the standard library in dv/ (cross-checked by running '
               'every scenario on the real libraries), and the contracts listed in CONTRACTS.md' + ''.join('; ' + a for a in META[p]['assumptions']))
    return '. '.join(out)


checks = []
for p in props:
    if p in META:
        m = META[p]
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           technique=m.get('technique') or (BTECH if m.get('bounded_only') else TECH), level=m['level'],
                           level_note=note(p)))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'not claimed yet')) for p in props if p not in META]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='see DESIGN.md; known findings and repaired defects: known-findings.txt')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
