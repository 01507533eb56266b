#!/usr/bin/env python3
"""mkseed.py FILE...: make planted bugs from descriptions (python files defining SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)..], demo=rust)]).
Each is confirmed in a scratch copy: builds, stable tests pass with it, demo passes without and fails with it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
R = '/tmp/seedreplay'
def find_file(t, s):
    """an input whose reading differs, found by running the replay profile against the changed copy"""
    os.makedirs(R, exist_ok=True)
    sh(f"rm -rf {R}/src {R}/out; cp -r {HERE}/replay/src {HERE}/replay/Cargo.lock {R}/; sed 's|/repo|{S}|' {HERE}/replay/Cargo.toml > {R}/Cargo.toml")
    b = sh('cargo build --offline --release -q', cwd=R)
    if b.returncode: print(b.stdout[-2000:]); return False
    best = None
    for seed in range(s.get('tries', 3)):
        o = sh(f"timeout 100 ./target/release/replay {s['profile']} --seed {seed + 5} --seconds {s.get('seconds', 12)} --out {R}/out/{seed} 2>/dev/null", cwd=R).stdout
        try: fs = json.loads(o.strip().splitlines()[-1])['failures']
        except Exception: print('replay:', o[-300:]); fs = []
        for f in fs:
            if s.get('key') and s['key'] not in f['what']: continue
            d = f['dir']; n = sum(os.path.getsize(os.path.join(a, x)) for a, _, c in os.walk(d) for x in c)
            if best is None or n < best[0]: best = (n, d, f['what'])
    if best is None: return False
    print('   ', best[0], best[2][:160])
    for f in ('demo.sh', 'main.rs'): shutil.copy(f'{HERE}/tools/filedemo/{f}', f'{t}/{f}')
    shutil.copy(f'{HERE}/replay/src/dump.rs', t)
    shutil.copytree(best[1], t, dirs_exist_ok=True)
    return True
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if os.path.exists(S): shutil.rmtree(S)
sh(f'cp -a /repo {S}')
only = [a for a in sys.argv[1:] if not a.endswith('.py')]
ok = True
for f in [a for a in sys.argv[1:] if a.endswith('.py')]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        d = f"{HERE}/seeded/{s['id']}"
        if only and s['id'] not in only: continue
        if not only and os.path.exists(d + '/patch.diff'): continue
        sh('git checkout -q -- . && git clean -fdq', cwd=S)
        os.makedirs('/tmp/sd', exist_ok=True)
        t = '/tmp/sd/' + s['id']
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        if 'demo' in s:
            shutil.copy(f'{HERE}/tools/demo.sh', t + '/demo.sh')
            open(t + '/demo.rs', 'w').write(s['demo'])
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(t + '/meta.json', 'w'), indent=1)
        bad = None
        for (p, old, new) in s['edits']:
            q = f'{S}/src/{p}'; x = open(q).read()
            if x.count(old) != 1: bad = f'edit matches {x.count(old)} times in {p}'; break
            open(q, 'w').write(x.replace(old, new))
        if bad: print(s['id'], 'BAD', bad); ok = False; continue
        diff = sh('git diff', cwd=S).stdout
        open(t + '/patch.diff', 'w').write(diff)
        if 'demo' not in s and not find_file(t, s): print(s['id'], 'BAD no input found'); ok = False; continue
        os.chmod(t + '/demo.sh', 0o755)
        r1 = sh(f'bash {t}/demo.sh', cwd=S)
        sh('git stash -q', cwd=S)
        r0 = sh(f'bash {t}/demo.sh', cwd=S)
        sh('git stash pop -q', cwd=S)
        sh('INSTA_UPDATE=no INSTA_OUTPUT=none INSTA_FORCE_PASS=0 RUST_BACKTRACE=0 cargo test --offline --workspace --no-fail-fast > /tmp/sd/log 2>&1; python3 /opt/vp/results.py /tmp/sd/o.json cargo:/tmp/sd/log', cwd=S)
        passed = set(json.load(open('/tmp/sd/o.json'))['passed'])
        fails = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed); npass = len(passed)
        good = r0.returncode == 0 and r1.returncode not in (0, 3) and not fails
        print(s['id'], 'ok' if good else f'BAD demo clean={r0.returncode} bug={r1.returncode} passed={npass} {fails[:3]}')
        if not good:
            ok = False
            print((r0.stdout if r0.returncode else r1.stdout)[-1500:])
            continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(t, d)
shutil.rmtree(S)
sys.exit(0 if ok else 1)
