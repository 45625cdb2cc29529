"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/*.py (read statically)."""
import ast, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
meta = {}
for f in sorted(os.listdir(os.path.join(H, 'checks'))):
    if f.endswith('.py') and f[0] == 'c':
        d = {}
        for n in ast.parse(open(os.path.join(H, 'checks', f)).read()).body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], 'id', '').isupper():
                try:
                    d[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        meta[d['PROPERTY']] = d
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in meta and i not in NA:
        m = meta[i]
        checks.append(dict(property=i, quick_cmd='./run.py %s --tier quick' % i,
                           thorough_cmd='./run.py %s --tier thorough' % i,
                           technique=m['TECHNIQUE'], level=m['LEVEL'], level_note=m['LEVEL_NOTE']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='All checks run the real code of /repo (pure Python, nothing to build) under '
                     '/opt/venv/bin/python; no hooks were added to /repo.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
