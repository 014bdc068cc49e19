"""Rewrites the list in section 4 of DESIGN.md from known_findings.json; with arguments PROPERTY COMMIT TEXT adds a fixed entry first."""
import json
import pathlib
import re
import sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
f = ROOT / 'known_findings.json'
k = json.loads(f.read_text())
if sys.argv[1:]:
    p, c, what = sys.argv[1:]
    k['findings'].append({'status': 'fixed', 'property': p, 'commit': c, 'what': what, 'line': f'fixed: property={p} {c} {what}'})
    f.write_text(json.dumps(k, indent=1, ensure_ascii=False) + '\n')
d = ROOT / 'DESIGN.md'
s = d.read_text()
items = '\n'.join(f"* {x['property']} `{x['commit']}` {x['what']}" for x in k['findings'])
s = re.sub(r'(## 4\. .*?\n\n.*?\n\n)(?:\* [^\n]*\n)+', lambda m: m[1] + items + '\n', s, flags=re.S)
d.write_text(s)
