#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between markers) from contracts/index.py and seeded/."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import index       # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
out = ['<!-- properties -->', '## The properties', '']
for p in props:
    i = index.PROPS[p['id']]
    out.append('### %s %s (%s)' % (p['id'], p['title'], i['level']))
    out.append('')
    if i['contracts']:
        out.append('Contracts discharged: %s.' % ', '.join('`%s`' % c for c in i['contracts']))
    out.append(i['note'][0].upper() + i['note'][1:])
    if i.get('bounded'):
        out.append('Bounded only: ' + i['bounded'])
    if i.get('assumptions'):
        out.append('Assumed: ' + '; '.join(i['assumptions']) + '.')
    text = open(os.path.join(HERE, 'oracles', p['id'].lower() + '.py')).read()
    m = re.search(r'^RULE = \(?(.*?)(?:\)\n|\n\n)', text, re.S | re.M)
    if m:
        out.append('Bounded oracle (4 processes, about 25 s quick, 180 s in 8 processes thorough): ' + ' '.join(re.findall(r"'([^']*)'", m.group(1))))
    out.append('')
out.append('<!-- /properties -->')
bugs = ['<!-- bugs -->', '## Planted bugs', '', '| id | property | what it breaks | caught by |', '|---|---|---|---|']
d = os.path.join(HERE, 'seeded')
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    bugs.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m.get('caught_by', 'check ' + m['property'])))
bugs.append('<!-- /bugs -->')
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
for tag, text, mark in (('properties', out, 'PROPERTY_TABLE'), ('bugs', bugs, 'BUG_TABLE')):
    text = '\n'.join(text)
    if mark in s:
        s = s.replace(mark, text)
    else:
        s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: text, s, flags=re.S)
open(path, 'w').write(s)
