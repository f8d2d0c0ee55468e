#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
p = '/verif/DESIGN.md'
s = open(p).read()
head = '| bug | check that reports it | needs |\n|---|---|---|\n'
a = s.index(head) + len(head)
rows = ''
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows += f'| {os.path.basename(os.path.dirname(f))} | {m["property"]} | {m["needs"]} |\n'
rest = s[a:].split('\n')
while rest and rest[0].startswith('|'):
    rest.pop(0)
open(p, 'w').write(s[:a] + rows + '\n'.join(rest))
