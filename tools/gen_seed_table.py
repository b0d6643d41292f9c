#!/usr/bin/env python3
"""Development tool: rewrite DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parents[1]
rows = []
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'].rstrip('.')}: {m['what_it_breaks'].rstrip('.')} |")
t = '\n'.join(['| planted bug | caught by | when: what |', '|---|---|---|'] + rows) + '\n'
p = V / 'DESIGN.md'
s = p.read_text()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + t + s[j:])
s = p.read_text()
f = [re.match(r'fixed: property=(\w+) (\w+) (.*)', l).groups() for l in (V / 'known_findings.txt').read_text().splitlines() if l.startswith('fixed:')]
t = '\n'.join(f'- {a} ({c}): {w}' for a, c, w in f) + '\n'
a, b = '<!-- fixed -->\n', '<!-- /fixed -->'
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + t + s[j:])
print(len(rows), len(f))
