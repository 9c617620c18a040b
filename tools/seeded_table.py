"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json ('python3 tools/seeded_table.py')."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(HERE, 'tools', 'first_missed.txt')).read().split())
rows = ['| bug | caught by | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(m))
    meta = json.load(open(m))
    clean = lambda s: ' '.join(str(s).replace('|', '/').split())
    rows.append('| {} | {}{} | {} | {} |'.format(name, meta['property'], ' (first missed)' if name in MISSED else '', clean(meta['needs']), clean(meta['what_it_breaks'])))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), text, flags=re.S)
open(path, 'w').write(text)
print(len(rows) - 2, 'bugs')
