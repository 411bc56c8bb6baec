import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({'property': i,
                       'quick_cmd': './run.py {} quick'.format(i),
                       'thorough_cmd': './run.py {} thorough'.format(i),
                       'evidence_file': 'evidence/{}.json'.format(i),
                       'technique': t.get('technique', 'property-based testing (Hypothesis) over generated configurations'),
                       'level': 'exploration',
                       'level_note': t.get('note', 'generated-input search, no proof')})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
