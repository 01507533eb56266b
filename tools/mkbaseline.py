#!/usr/bin/env python3
"""writes baseline.json: the functions of the unchanged tree and the shape of their loops (only used to tell a proof that failed because the code means
something else from one whose annotations no longer fit the text)"""
import json, os, re, subprocess, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp()
open(f'{d}/job', 'w').write('verify *\n')
subprocess.run([f'{H}/extract/target/debug/extract', '/repo/src', f'{H}/specs', f'{d}/job', f'{d}/o.rs', f'{d}/o.map'], check=True)
f = {}
for l in open(f'{d}/o.map'):
    m = re.match(r'info (.*) (verify|stub|auto|nospec) loops=(\d+) specloops=(\d+) shape=(\S+) callees=(.*)$', l.rstrip('\n'))
    if m: f[m.group(1)] = dict(shape=m.group(5).rstrip('!'))
json.dump(dict(functions=dict(sorted(f.items()))), open(f'{H}/baseline.json', 'w'), indent=0)
print(len(f))
