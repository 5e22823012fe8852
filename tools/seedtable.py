"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from
seeded/*/meta.json and tools/caught.json (what tools/bug.py check reported)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
caught = json.loads((root/'tools/caught.json').read_text()) if (root/'tools/caught.json').exists() else {}
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted((root/'seeded').iterdir()):
    m = json.loads((d/'meta.json').read_text())
    rows.append('| %s | %s | %s | %s |' % (d.name, m['property'], m['needs'].replace('|', '/'), caught.get(d.name, m['property'])))
t = (root/'DESIGN.md').read_text()
block = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
if '<!-- seeded -->' in t:
    t = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: block, t, flags=re.S)
else:
    t = t.replace('SEEDED_TABLE', block)
(root/'DESIGN.md').write_text(t)
