"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the checks as they were when the bug was planted, and what was added
STRENGTHENED = {
    'm07-blank-query-values': 'query parameters with empty values were not generated',
    'j02-sender-keys': 'arguments of the call that have nothing to do with the key were not generated',
    's01-equal-not-written': 'values that are equal but of another type (1, 1.0, true) were not written one after the other',
    'i02-type-case': 'type names that differ from a known one only in case were too rare',
}
MARK = '## Table of planted bugs'
p = V + '/DESIGN.md'
s = open(p).read().split(MARK)[0].rstrip() + '\n'
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['property'],
                                      'only after strengthening: ' + STRENGTHENED[i] if i in STRENGTHENED else 'as it was'))
s += '\n' + MARK + '\n\nEach is caught by the quick check of the property named.\n\n| bug | needs | caught by | check |\n|---|---|---|---|\n'
s += '\n'.join(rows) + '\n'
open(p, 'w').write(s)
