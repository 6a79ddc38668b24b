"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location('tech', os.path.join(V, 'tools', 'techniques.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        tech, note = m.TECH[i]
        checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='check still being built'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='See DESIGN.md.  Language: TLA+ with TLC.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
