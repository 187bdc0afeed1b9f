"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''C02-tiny-nest C03-cumsum-one C04-draw-utility C06-draw-name C12-shallow-partial C13-child-scale C15-joined-keys C15-levels-order
C16-nan-group C18-no-refresh C19-reversed-chain C20-dedupe C24-reversed-columns'''.split())
MISSED |= set(open(os.path.join(V, 'tools', 'first_missed.txt')).read().split()) if os.path.exists(os.path.join(V, 'tools', 'first_missed.txt')) else set()
by = {}
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    by.setdefault(m['property'], []).append((i, m['needs']))
out = [f'{sum(map(len, by.values()))} bugs; each is caught by the check of its property. † = missed at first, the check was strengthened.', '']
for p in sorted(by):
    out.append(f'* **{p}**: ' + '; '.join(f"`{i[4:]}`{'†' if i in MISSED else ''} ({n})" for i, n in by[p]))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
block = '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->'
t = t.replace('@@SEEDS@@', block) if '@@SEEDS@@' in t else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: block, t, flags=re.S)
open(p, 'w').write(t)
