#!/usr/bin/env python3
"""Assembles DESIGN.md"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tool'))
sys.dont_write_bytecode = True
import propdefs
out = [open(V + '/doc/head.md').read(), '## Properties\n']
caught = {}
p = V + '/doc/caught.txt'
for l in open(p) if os.path.exists(p) else ():
    l = l.rstrip('\n').split('\t')
    caught.setdefault(l[1], []).append(l)
found = {}
for l in open(V + '/known_findings.txt'):
    m = re.match(r'(fixed: |)property=(\w+) (.*)', l)
    if m:
        found.setdefault(m.group(2), []).append(('repaired: ' if m.group(1) else 'recorded: ') + m.group(3))
for q in propdefs.P:
    out.append('### %s %s\n\n%s\n' % (q['id'], q['title'], q['statement']))
    f = '%s/tool/sa/props/%s.py' % (V, q['id'].lower())
    if q['na'] or not os.path.exists(f):
        out.append('**Not applicable:** %s\n' % (q['na'] or 'no check built yet'))
        continue
    s = open(f).read()
    m = re.search(r'EXPLAIN = """(.*?)"""', s, re.S)
    out.append('**Decided by:** ' + (m.group(1).strip() if m else '') + '\n')
    m = re.search(r'ASSUME = (\[.*?\]\n)', s, re.S)
    if m:
        out.append('**Assumes:** ' + '; '.join(eval(m.group(1))) + '.\n')
    r = re.findall(r"ctx\.rule\(\s*['\"](.*?)['\"],\s*(?:'((?:[^'\\]|\\.)*)'|\"(.*?)\")\)", s, re.S)
    if r:
        out.append('Rules:\n' + '\n'.join('* `%s`: %s' % (a, b or c) for a, b, c in r) + '\n')
    if q['note']:
        out.append(q['note'] + '\n')
    for x in caught.get(q['id'], ()):
        out.append('* planted `%s`: %s' % (x[0], 'caught: ' + x[3] if x[2] == 'rc=1' else 'NOT caught'))
    for x in found.get(q['id'], ()):
        out.append('* %s' % x)
    out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
