#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design and the tables of genmanifest and plants."""
import json, os, sys, importlib.util, glob
here = os.path.dirname(os.path.abspath(__file__)); v = os.path.dirname(here)
def mod(p):
    s = importlib.util.spec_from_file_location('m', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
gm = mod(here+'/genmanifest.py'); tx = mod(here+'/design/props.py')
out = []
for l in open(v+'/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if i in gm.CLAIMS: out.append(f"### {i} {p['title']}\n\n{tx.TEXT[i]}\n")
    else: out.append(f"### {i} {p['title']}\n\nNot applicable: {gm.NA_FINAL.get(i, gm.PENDING)}\n")
rows = []
caught = json.load(open(here+'/design/caught.json')) if os.path.exists(here+'/design/caught.json') else {}
for d in sorted(glob.glob(v+'/seeded/*/meta.json')):
    n = d.split('/')[-2]; m = json.load(open(d))
    rows.append(f"| {n} | {m['property']} | {caught.get(n,'?')} | {m['what_it_breaks']} |")
t = open(here+'/design/DESIGN.in.md').read()
t = t.replace('@PROPS@', '\n'.join(out).rstrip()).replace('@PLANTS@', '| change | property | reported by | what it breaks |\n|---|---|---|---|\n'+'\n'.join(rows))
open(v+'/DESIGN.md', 'w').write(t)
