#!/usr/bin/env python3
"""trial.py FILE.py [names]: runs checks on changed copies of /repo (in /tmp/trial, from copies of /verif as it is now).
FILE.py defines TRIALS = [dict(name, props=[..], edits=[(file under src, old, new), ..])]; seeded ids can be given as names."""
import os, shutil, subprocess, sys, json
T = os.environ.get('TRIAL', '/tmp/trial')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(T, exist_ok=True)
sh(f'rm -rf {T}/repo; cp -a /repo {T}/repo; mkdir -p {T}/verif; rsync -a --delete --exclude work --exclude .git --exclude seeded --exclude target {HERE}/ {T}/verif/ || (rm -rf {T}/verif && cp -a {HERE} {T}/verif)')
sh(f"sed -i 's|/repo|{T}/repo|' {T}/verif/replay/Cargo.toml")
only = sys.argv[2:]
if sys.argv[1].endswith('.py'):
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    trials = [t for t in ns['TRIALS'] if not only or t['name'] in only]
else:
    trials = []
    for s in sys.argv[1:]:
        m = json.load(open(f'{HERE}/seeded/{s}/meta.json'))
        trials.append(dict(name=s, props=[m['property']], patch=f'{HERE}/seeded/{s}/patch.diff'))
for t in trials:
    sh('git checkout -q -- .', cwd=T + '/repo')
    bad = None
    if 'patch' in t:
        r = sh(f"git apply {t['patch']}", cwd=T + '/repo')
        if r.returncode: bad = r.stdout
    for (p, old, new) in t.get('edits', []):
        q = f'{T}/repo/src/{p}'; x = open(q).read()
        if x.count(old) != 1: bad = f'{x.count(old)} matches of {old[:50]!r} in {p}'; break
        open(q, 'w').write(x.replace(old, new))
    if bad: print(t['name'], 'BAD', bad, flush=True); continue
    r = sh('cargo build --offline -q', cwd=T + '/repo')
    if r.returncode: print(t['name'], 'DOES NOT BUILD', r.stdout[-1500:], flush=True); continue
    for p in t['props']:
        r = subprocess.run(f'timeout 900 python3 check.py {p}', shell=True, cwd=T + '/verif', env=dict(os.environ, ONENOTE_REPO=T + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = [l[:230] for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'failed obl', 'failing input', '  undecided', '  verification', p + ':'))]
        print(t['name'], p, 'rc', r.returncode, *(['\n    ' + l for l in o]), flush=True)
