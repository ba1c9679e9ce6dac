"""CONTRACTS.md: every contract scenario with kind, bound, functions and assumed contracts"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv import base
from contracts.meta import META
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    importlib.import_module('contracts.' + p['id'].lower())
out = ['# Contract scenarios', '', 'Generated by `tools/gen_contracts.py`. Kinds: *proof* unbounded; *bounded* symbolic with the stated bound; '
       '*concrete* executed on the real code only (never counted as proved).', '']
tot = {}
for p in props:
    out += ['## %s %s' % (p['id'], p['title']), '', '| scenario | kind | bound / note | functions under contract | assumed contracts |', '|---|---|---|---|---|']
    for s in base.REG[p['id']]:
        tot[s.kind] = tot.get(s.kind, 0) + 1
        out.append('| `%s` | %s | %s | %s | %s |' % (s.name, s.kind + (', cross-check of ' + s.cross if s.cross else ''), s.note.replace('|', '/'), ', '.join('`%s`' % f for f in s.functions), '; '.join(s.assumes).replace('|', '/')))
    out.append('')
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out))
print(tot)
for p in props:
    ks = {s.kind for s in base.REG[p['id']] if not s.cross}
    print(p['id'], META[p['id']]['level'], sorted(ks))
