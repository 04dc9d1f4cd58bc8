#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (between the markers) from the catalogue, seeded/ and known-findings."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
from designtext import HOW
man = json.load(open(V + '/MANIFEST.json')); props = {}
for l in open(V + '/properties.jsonl'): p = json.loads(l); props[p['id']] = p
def sec(name, text, s):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    blk = a + '\n' + text + '\n' + b
    if '@%s@' % name in s: return s.replace('@%s@' % name, blk)
    i, j = s.index(a), s.index(b) + len(b); return s[:i] + blk + s[j:]
s = open(V + '/DESIGN.md').read()
t = '## Properties\n'
for c in man['checks']:
    i = c['property']; t += '\n### %s %s\n\n%s\n\nHarnesses: %s.\n' % (i, props[i]['title'], HOW.get(i, ''), '; '.join('`%s:%s` (obligations `%s`)' % h for h in PROPS[i]['harnesses']))
s = sec('PROPS', t, s)
s = sec('NA', '\n'.join('* %s %s: %s' % (n['property'], props[n['property']]['title'], n['reason']) for n in man['not_applicable']), s)
kf = [json.loads(l) for l in open(V + '/known-findings.jsonl')]
s = sec('FIXED', '\n'.join('* %s %s: %s' % (k['property'], k.get('commit', '(recorded, not repaired)'), k['what']) for k in kf), s)
rows = '| change | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json') + glob.glob(V + '/seeded_more/*/meta.json')):
    m = json.load(open(d)); r = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
    n = os.path.basename(os.path.dirname(d)); rows += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], r.get(n, 'not yet run'))
s = sec('SEEDED', rows, s)
open(V + '/DESIGN.md', 'w').write(s)
