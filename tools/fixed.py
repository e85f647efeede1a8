"""Append a fixed entry: fixed.py Cnn commit 'what failed'."""
import json
import sys
p, c, what = sys.argv[1:]
f = '/verif/known_findings.jsonl'
try:
    n = sum(1 for _ in open(f))
except FileNotFoundError:
    n = 0
with open(f, 'a') as o:
    o.write(json.dumps({'id': 'FX-%02d' % (n + 1), 'property': p, 'status': 'fixed',
                        'what': 'fixed: property=%s %s %s' % (p, c, what)}) + '\n')
