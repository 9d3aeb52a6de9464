#!/usr/bin/env python3
# mkdesign.py BIN: writes DESIGN.md (BIN is a simulator built by check.sh build DIR)
import json, glob, os, subprocess, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rules = json.loads(subprocess.check_output([sys.argv[1], 'rules']))
props = {}
for l in open('properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
seeds = {}
for d in sorted(glob.glob('seeded/*')):
    j = json.load(open(d + '/meta.json'))
    seeds.setdefault(j['property'], []).append((os.path.basename(d), j))
parts = open('tools/design.txt').read().split('\n@@@ ')
sec = {}
for p in parts[1:]:
    name, body = p.split('\n', 1)
    sec[name.strip()] = body.strip('\n')
o = parts[0].strip('\n') + '\n\n## Properties\n'
for i in sorted(k for k in sec if k[0] == 'C' and k[1:].isdigit()):
    o += f"\n### {i} {props[i]['title']}\n\n"
    a, b, c = sec[i].split('\n')
    o += f"*Oracle.* {a}\n\n*What is simulated.* {rules[i]}\n\n*Bounds.* {b}\n\n*Beyond tests.* {c}\n"
o += '\n' + sec['rest'] + '\n\n| planted bug | property (its quick check catches it) | needs |\n|---|---|---|\n'
for i in sorted(seeds):
    for n, j in seeds[i]:
        o += f"| {n} | {i} | {j['needs']} |\n"
o += '\n' + sec['after'] + '\n'
open('DESIGN.md', 'w').write(o)
