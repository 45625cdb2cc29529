"""Rewrite the table of planted bugs in DESIGN.md (between markers)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(root + '/tools/missed.json')) if os.path.exists(
    root + '/tools/missed.json') else {}
rows = ['| change | property | caught by | what it breaks |',
        '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    n = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (
        n, m['property'], missed.get(n, m['property']), m['what_it_breaks']))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = open(root + '/DESIGN.md').read()
s = s.replace('SEEDTABLE', '<!-- seeds -->\n<!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
