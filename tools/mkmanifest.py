# Writes MANIFEST.json from properties.jsonl and props_meta.json
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + '/props_meta.json', encoding='utf-8'))
props = [json.loads(l) for l in open(V + '/properties.jsonl', encoding='utf-8')]
checks, na = [], []
proved = set()
for f in glob.glob(V + '/proofs/*.py'):
    for m in re.findall(r"@proof\(\s*'([^']*)'", open(f, encoding='utf-8').read()):
        proved.update(m.split())
PROOF = 'contract-based deductive verification (symbolic execution of the real functions against contracts, every obligation discharged by z3/cvc5)'
BOUNDED = 'contract checking on the real code, bounded (no deductive obligation yet)'
for p in props:
    m = meta[p['id']]
    if m.get('claimed'):
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           technique=m.get('technique', PROOF if p['id'] in proved else BOUNDED),
                           level=m['level'] if p['id'] in proved else 'exploration', level_note=m.get('note', 'see DESIGN.md')))
    else:
        na.append(dict(property=p['id'], reason=m.get('na', 'not claimed yet: machinery in progress')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w', encoding='utf-8'),
          ensure_ascii=False, indent=1)
print(len(checks), 'claimed', len(na), 'not;', 'no proof yet:', ' '.join(c['property'] for c in checks if c['property'] not in proved))
