import json, sys
from collections import Counter
for r in json.load(open(sys.argv[1])):
    print(r['property'], r['scenario'], 'crash', r['crash'], 'complete', r['complete'], 'wall', r['wall_s'], 'cpu', r['cpu_s'], r['stats'], dict(Counter(o['status'] for o in r['obligations'])))
    for u in r['undecided']:
        print('  UNDECIDED', u)
    for l in r['logs']:
        print('  LOG', l)
    for o in r['obligations']:
        if o['status'] != 'discharged':
            print('  ', o['name'], o['status'], 'approx' if o['approx'] else '', o['detail'], json.dumps(o['model'])[:1500])
