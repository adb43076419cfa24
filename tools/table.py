#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
rows = []
missed = {'documentation-trailing-blanks': 'doc comments with blanks at their end', 'idl-error-context-cut': 'long text with multi-byte characters before an error',
          'member-of-other-case': '`is_valid_member` with ids in another case', 'urn-of-namespace-smithy': 'namespaces named as parts of the URN',
          'json-null-targets': '`null` as the wrong form of every part', 'merge-equal-arrays': None}
missed.update(json.load(open('/verif/tools/missed.json')) if os.path.exists('/verif/tools/missed.json') else {})
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    note = f'; missed at first: {missed[i]} now generated' if missed.get(i) else ''
    rows.append((m['property'], i, m['what_it_breaks'], note))
rows.sort()
t = '| Check that catches it | Change | What it breaks |\n|---|---|---|\n' + ''.join(f'| {p} | `{i}` | {b}{n} |\n' for p, i, b, n in rows)
d = open('/verif/DESIGN.md').read()
head = d.split('<!-- planted -->')[0].rstrip('\n')
open('/verif/DESIGN.md', 'w').write(head + '\n\n<!-- planted -->\n' + t)
