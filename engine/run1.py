import sys, importlib, json
sys.path.insert(0, '/verif')
from engine import proofapi
importlib.import_module('proofs.' + sys.argv[1])
sel = sys.argv[2] if len(sys.argv) > 2 else ''
for p in proofapi.PROOFS:
    if sel and sel not in p.name: continue
    r = proofapi.run_proof(p)
    print('==', p.name, r['status'], r['detail'], 'paths', r['paths'], 'restarts', r['restarts'], 'q', r['queries'], 'wall', r['wall'])
    for o in r['obligations']:
        print('   ', 'ok ' if o['ok'] else 'FAIL', o['n'], o['backends'], round(o['time'],2), o['name'])
        for f in o['fails'][:1]: print('        ', f['reason'], str(f['model'])[:300], [x[:100] for x in (f['path'] or [])[-6:]])
    if '-v' in sys.argv: print(r['functions'], r['builtins'])
