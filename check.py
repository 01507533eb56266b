#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's working tree:

 1. extract   the functions the property depends on are translated mechanically from /repo/src into one Verus file and
              spliced with the contracts in specs/ (extract/);
 2. verify    Verus discharges every obligation of those functions, each caller against its callees' contracts;
 3. vacuity   the same file with `assert(false)` at the start of every body: every one of them has to fail;
 4. replay    generated files are parsed by the crate built from /repo and compared with the model they were generated
              from (bounded; it turns a failed obligation into a failing input, and stands in for a function that Verus
              cannot take).

Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import fcntl, fnmatch, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ONENOTE_REPO', '/repo')
T0 = time.time()
BUDGET = 840


def left():
    return BUDGET - (time.time() - T0)


def run(cmd, timeout, cwd=None, env=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(timeout=max(1, timeout))
        return p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, er = p.communicate()
        return None, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')


class Lock:
    def __init__(self, name):
        os.makedirs(f'{HERE}/work', exist_ok=True)
        self.f = open(f'{HERE}/work/{name}.lock', 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_extractor():
    with Lock('extract'):
        rc, o, e = run(['cargo', 'build', '--offline', '-q'], 600, cwd=f'{HERE}/extract')
    if rc != 0:
        return None, e[-2000:]
    return f'{HERE}/extract/target/debug/extract', ''


class Map:
    def __init__(self, path):
        self.fns, self.info, self.notes, self.lost = [], {}, [], []
        for l in open(path):
            w = l.rstrip('\n').split(' ')
            if w[0] == 'fn':
                self.fns.append((int(w[-2]), int(w[-1]), ' '.join(w[1:-2])))
            elif w[0] == 'info':
                m = re.match(r'info (.*) (verify|stub|auto|nospec) loops=(\d+) specloops=(\d+) shape=(\S+) callees=(.*)$', l.rstrip('\n'))
                self.info[m.group(1)] = dict(mode=m.group(2), loops=int(m.group(3)), specloops=int(m.group(4)), shape=m.group(5).rstrip('!'), lost_anchor=m.group(5).endswith('!'), callees=set(m.group(6).split(',')))
            elif w[0] == 'note':
                self.notes.append(l[5:].strip())
            elif w[0] == 'lost':
                self.lost.append(' '.join(w[1:]))

    def at(self, line):
        for a, b, n in self.fns:
            if a <= line <= b:
                return n
        return None


def parse_diags(stderr):
    out = []
    for l in stderr.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('$message_type') == 'diagnostic':
                out.append(d)
    return out


def flat_spans(d, name):
    r = [s for s in d['spans'] if s['is_primary'] and s['file_name'].endswith(name)]
    r += [s for s in d['spans'] if not s['is_primary'] and s['file_name'].endswith(name)]
    return r


class Verus:
    """one property's obligations"""

    def __init__(self, pid, pats, work, seed):
        self.pid, self.pats, self.work, self.seed = pid, pats, work, seed
        self.demoted, self.nospec = {}, {}
        self.failed = {}      # function -> [rendered diagnostics]
        self.undecided = {}   # function -> reason
        self.discharged = []
        self.broken = None    # whole-stage reason
        self.smt_ms = 0
        self.rounds = 0
        self.timings = {}

    def extract(self, exe, tag, extra=()):
        job = f'{self.work}/{tag}.job'
        with open(job, 'w') as f:
            for p in self.pats:
                f.write(f'verify {p}\n')
            for d in self.demoted:
                f.write(f'demote {d}\n')
            for d in self.nospec:
                f.write(f'nospec {d}\n')
            for x in extra:
                f.write(x + '\n')
        rs, mp = f'{self.work}/{tag}.rs', f'{self.work}/{tag}.map'
        rc, o, e = run([exe, f'{REPO}/src', f'{HERE}/specs', job, rs, mp], 120)
        if rc != 0:
            return None, e[-1500:]
        return Map(mp), ''

    def verus(self, tag, args=()):
        cmd = ['verus', f'{tag}.rs', '--error-format=json', '--output-json', '--time-expanded', '--num-threads', '8'] + list(args)
        rc, o, e = run(cmd, min(left(), 600), cwd=self.work)
        try:
            j = json.loads(o[o.index('{'):])
        except ValueError:
            j = None
        return rc, j, parse_diags(e), e

    def wanted(self, fid):
        return any(fid == p or (p.endswith('*') and fid.startswith(p[:-1])) for p in self.pats)

    def go(self, exe):
        for self.rounds in range(1, 16):
            m, err = self.extract(exe, 'v')
            if m is None:
                self.broken = 'extraction failed: ' + err
                return
            self.map = m
            rc, j, diags, raw = self.verus('v', ['--multiple-errors', '4'])
            if rc is None:
                self.broken = 'verifier timed out'
                return
            vr = (j or {}).get('verification-results', {})
            errs = [d for d in diags if d['level'] == 'error' and d['spans']]
            if j is None or 'verified' not in vr or vr.get('encountered-vir-error') or (not vr.get('success') and vr.get('errors', 0) == 0):
                # does not compile as Verus: drop the bodies (or contracts) at fault and try again
                new = False
                for d in errs:
                    if 'discriminant value' in d['message']:
                        continue
                    for s in flat_spans(d, 'v.rs')[:1]:
                        f = m.at(s['line_start'])
                        if f is None or f.startswith('prelude:'):
                            continue
                        mode = m.info.get(f, {}).get('mode')
                        if mode in ('verify', 'auto', 'nospec') and f not in self.demoted:
                            self.demoted[f] = d['message'].splitlines()[0][:200]
                            new = True
                        elif mode == 'stub' and f not in self.nospec:
                            self.nospec[f] = d['message'].splitlines()[0][:200]
                            new = True
                if not new:
                    self.broken = 'the extracted file is rejected: ' + '; '.join(sorted({d['message'].splitlines()[0][:160] for d in errs}))[:1200] if errs else 'verifier gave no answer: ' + raw[-600:]
                    return
                continue
            break
        else:
            self.broken = 'too many functions had to be dropped'
            return
        self.account(m, j, errs, diags)

    def account(self, m, j, errs, diags):
        self.functions, self.limited = {}, set()
        tot = j['verification-results']
        self.total_verified, self.total_errors = tot['verified'], tot['errors']
        for mod in j['times-ms']['smt']['smt-run-module-times']:
            for f in mod.get('function-breakdown', []):
                self.timings[f['function']] = (f.get('time-micros', 0), f.get('rlimit', 0), f.get('success'))
                self.smt_ms += f.get('time-micros', 0) / 1000
        bad, rl = {}, {}
        for d in errs:
            msg = d['message']
            hit = None
            for s in flat_spans(d, 'v.rs'):
                f = m.at(s['line_start'])
                if f and (f.startswith('prelude:') or m.info.get(f, {}).get('mode') in ('verify', 'auto', 'nospec')):
                    hit = (f, s)
                    break
            if not hit:
                continue
            if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'while loop: not all errors' in msg:
                rl.setdefault(hit[0], []).append(d.get('rendered', msg))
            else:
                bad.setdefault(hit[0], []).append(d.get('rendered', msg))
        self.bad = bad
        for f, i in m.info.items():
            if not self.wanted(f):
                continue
            if f in self.demoted or f in self.nospec:
                self.undecided[f] = 'not accepted by the verifier: ' + self.demoted.get(f, self.nospec.get(f, ''))
            elif i['mode'] == 'stub':
                n = [x for x in m.notes if x.startswith(f + ' UNSUPPORTED')]
                if n:
                    self.undecided[f] = 'not extractable'
                # otherwise: a trusted contract
            elif i['mode'] == 'nospec':
                pass
            elif f in bad:
                self.failed[f] = bad[f]
            elif f in rl:
                self.undecided[f] = 'resource limit'
                self.limited.add(f)
            else:
                self.discharged.append(f)
        for l in m.lost:
            if self.wanted(l):
                self.undecided[l] = 'no longer exists in /repo'
        mods = {f.rsplit('::', 1)[0] for f in m.info if self.wanted(f)} | {f.rsplit('::', 2)[0] for f in m.info if self.wanted(f)}
        for f, r in bad.items():
            if f.startswith('prelude:'):
                # lemmas depend on the code only through its types; a pinned table is about the code
                lines = open(f'{self.work}/v.rs').read().split('\n')
                for d in errs:
                    for s in flat_spans(d, 'v.rs'):
                        if m.at(s['line_start']) == f:
                            k = s['line_start']
                            while k > 0 and not re.match(r'\s*(pub )?(broadcast )?(proof|spec|open|closed) ?(spec )?fn|\s*pub (broadcast )?proof fn', lines[k - 1]):
                                k -= 1
                            g = re.search(r'fn (\w+)', lines[k - 1])
                            g = g.group(1) if g else '?'
                            name = f'{f[8:]}::{g}'
                            if g.startswith('pin_') or g.startswith('thm_'):
                                if self.wanted(name) or f[8:] in mods:
                                    self.failed.setdefault(name, []).append(d.get('rendered', ''))
                            elif f[8:] in mods:
                                self.undecided.setdefault(name, 'lemma not proved')
                            break

    def triage(self, exe, baseline):
        """a failed proof is an alarm only if nothing but the code's meaning can explain it"""
        if self.broken or not (self.failed or self.limited):
            return
        # again, with more resources and other solver seeds
        pend = set(self.failed) | self.limited
        for k, extra in enumerate((['--rlimit', '80'], ['--rlimit', '60', '--smt-option', 'smt.random_seed=7'], ['--rlimit', '60', '--smt-option', 'smt.random_seed=4242'])):
            if not pend or left() < 300:
                break
            rc, j, diags, raw = self.verus('v', extra)
            if rc is None or j is None:
                break
            still = set()
            for d in diags:
                if d['level'] != 'error':
                    continue
                out = 'rlimit' in d['message'].lower() or 'resource limit' in d['message'].lower()
                for s in flat_spans(d, 'v.rs'):
                    f = self.map.at(s['line_start'])
                    if f and f.startswith('prelude:'):
                        still |= {x for x in pend if x.startswith(f[8:] + '::')}
                        break
                    if f in pend:
                        still.add(f)
                        if f in self.limited and not out:
                            self.limited.discard(f)
                            self.undecided.pop(f)
                            self.failed[f] = [d.get('rendered', d['message'])]
                        break
            for f in pend - still:
                self.failed.pop(f, None)
                self.undecided.pop(f, None)
                self.limited.discard(f)
                self.discharged.append(f)
            pend &= still
        base = baseline.get('functions', {})
        for f in list(self.failed):
            i, b = self.map.info.get(f), base.get(f)
            if i is None:
                continue
            why = None
            if b is not None and (b['shape'] != i['shape']):
                why = f"its loops changed ({b['shape']} -> {i['shape']}): the invariants no longer fit"
            elif i['specloops'] > i['loops']:
                why = 'its loops changed'
            elif i['lost_anchor']:
                why = 'a proof hint has lost its place'
            else:
                short = {x.rsplit('::', 1)[1] if '::' in x else x for x, y in self.map.info.items() if (y['mode'] in ('auto', 'nospec') or x in self.nospec) and x not in base}
                used = short & i['callees']
                if used:
                    why = 'it calls ' + ', '.join(sorted(used)) + ', which has no contract'
                else:
                    un = [n for n in self.map.notes if n.startswith(f + ' ') and ('UNSUPPORTED' in n or 'closure left' in n)]
                    if un:
                        why = un[0]
            if why:
                self.undecided[f] = why
                self.failed.pop(f)

    def vacuity(self, exe, thorough):
        """-> functions whose precondition is contradictory"""
        if self.broken:
            return None
        m, err = self.extract(exe, 'vac', ['vacuity' if thorough else 'vacuity requires'])
        if m is None:
            return None
        if not any(i['mode'] == 'verify' and self.wanted(f) for f, i in m.info.items()):
            self.vac_checked = 0
            return []
        rc, j, diags, raw = self.verus('vac', ['--rlimit', '1'])
        if rc is None or j is None or 'verified' not in j.get('verification-results', {}):
            return None
        hit = set()
        for d in diags:
            if d['level'] == 'error':
                for s in flat_spans(d, 'vac.rs'):
                    f = m.at(s['line_start'])
                    if f:
                        hit.add(f)
        want = {f for f, i in m.info.items() if i['mode'] == 'verify' and self.wanted(f)}
        self.vac_checked = len(want)
        return sorted(want - hit)

    def trusted(self):
        """every assumption in the text that was verified"""
        r = []
        src = open(f'{self.work}/v.rs').read()
        r.append(f"{len(re.findall(r'external_body', src))} external_body items, {len(re.findall(r'axiom fn', src))} axioms, {len(re.findall(chr(92)+'bassume[(]', src))} assume, {len(re.findall(chr(92)+'badmit[(]', src))} admit in the verified text")
        stubs = sorted(f for f, i in self.map.info.items() if i['mode'] == 'stub')
        return r, stubs


def load_findings():
    k = []
    p = f'{HERE}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                k.append(m.groups())
    return k


def build_replay():
    """the replay program, with the hook into private decoders if that still fits the tree"""
    err = ''
    with Lock('replay'):
        for flags, sub in (('--cfg onenote_verif', 'hook'), ('', 'plain')):
            env = {'RUSTFLAGS': flags, 'CARGO_TARGET_DIR': f'{HERE}/replay/target/{sub}'}
            rc, o, e = run(['cargo', 'build', '--offline', '--release', '-q'], min(max(left() - 60, 60), 400), cwd=f'{HERE}/replay', env=env)
            if rc == 0:
                return f'{HERE}/replay/target/{sub}/release/replay', err
            err = e[-3000:]
    return None, err


WORKERS = 4


def replay(rexe, prof, seed, secs, out):
    """-> (evaluations, distinct, failures, samples, note); several processes with seeds of their own"""
    procs = []
    for i in range(WORKERS):
        d = f'{out}-{i}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = [rexe, prof, '--seed', str(seed * 100 + i), '--seconds', str(secs), '--out', d]
        # a runaway parse must not take the machine with it
        lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        procs.append((d, subprocess.Popen(cmd, stdout=open(f'{d}/stdout', 'w'), stderr=open(f'{d}/stderr', 'w'), start_new_session=True, preexec_fn=lim)))
    end = time.time() + min(secs + 45, max(10, left() - 20))
    n, k, fails, samples, note = 0, 0, [], [], ''
    for d, p in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = 'timeout'
        res = None
        for l in open(f'{d}/stdout', errors='replace'):
            if l.startswith('{'):
                try:
                    res = json.loads(l)
                except ValueError:
                    pass
        cur = f'{d}/current.json'
        if res is None:
            if os.path.exists(cur):
                e = open(f'{d}/stderr', errors='replace').read()[-300:].strip()
                fails.append(dict(profile=prof, what=f'the parser did not return (exit {rc}): {e}', dir=d, file=cur, key='abort'))
            else:
                note += f' {prof}: no result (exit {rc})'
            continue
        n += res['evaluations']
        k += res['distinct']
        samples += res.get('samples', [])
        for f in res['failures']:
            fails.append(dict(profile=prof, **f))
    return n, k, fails, samples, note


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(f'{HERE}/props.json'))[pid]
    baseline = json.load(open(f'{HERE}/baseline.json')) if os.path.exists(f'{HERE}/baseline.json') else {}
    work = f'{HERE}/work/{pid}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)

    v = Verus(pid, cfg['functions'], work, seed)
    exe, err = build_extractor()
    vac = None
    if exe is None:
        v.broken = 'extractor does not build: ' + err
    else:
        v.go(exe)
        v.triage(exe, baseline)
        vac = v.vacuity(exe, tier == 'thorough') if left() > 200 else None

    # ---- replay
    rep = dict(evaluations=0, distinct=0, failures=[], samples=[], note='', off=[])
    if cfg.get('replay'):
        rexe, rerr = build_replay()
        if rexe is None:
            rep['note'] = 'the replay crate does not build against this tree: ' + rerr
            print('note: replay crate does not build:', rerr[-600:], file=sys.stderr)
        else:
            if rerr:
                rep['note'] = 'built without the hook, which does not fit this tree'
            # everything proved: a short look at what the contracts assume; otherwise the bounded stand-in
            open_ = bool(v.failed or v.undecided or v.broken)
            bounded = cfg.get('bounded', [])
            secs = 240 if tier == 'thorough' else 45 if open_ else 20 if bounded else 8
            secs = int(max(5, min(left() - 80, secs) / len(cfg['replay'])))
            for prof in cfg['replay']:
                n, k, fails, samples, note = replay(rexe, prof, seed, secs, f'{work}/replay-{prof}')
                rep['evaluations'] += n
                rep['distinct'] += k
                rep['samples'] += samples
                rep['note'] += note
                for f in fails:
                    # with every obligation discharged, a difference elsewhere in the file is another property's
                    mine = open_ or bounded or f['key'].startswith(('the ', 'whether ', 'accepts ', 'panic', 'abort'))
                    rep['failures' if mine else 'off'].append(f)

    known = [k for k in load_findings() if k[0] == pid]
    fresh = []
    for f in rep['failures']:
        if not any(k[1] == f.get('key') for k in known):
            fresh.append(f)
    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k[2]}')

    trusted, stubs = ([], []) if v.broken or not hasattr(v, 'map') else v.trusted()
    failed = v.failed if not v.broken else {}
    # ---- evidence
    obligations = len(v.discharged) + len(v.failed) + len(v.undecided)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=obligations, discharged=len(v.discharged),
            checker_cmd=f'verus work/{pid}/v.rs (text extracted from {REPO}/src by extract/target/debug/extract)',
            trusted_base=trusted + [
                'Verus 0.2026.09.13, its Z3, vstd',
                'extract/: the syntactic translation (error messages dropped, Option/Result/Iterator combinators turned into match and while; DESIGN.md lists the rules)',
                'specs/ext.rs: contracts of std, bytes, num-traits, encoding and of derived trait implementations',
            ],
            functions_under_contract=sorted(v.discharged),
            obligations_failed=sorted(v.failed),
            undecided={k: x[:300] for k, x in v.undecided.items()},
            stage_not_run=v.broken,
            callee_contracts_assumed_here=stubs,
            back_end='Z3 through Verus', solver_ms=round(v.smt_ms), smt_functions=len(v.timings),
            verifier_totals=dict(verified=getattr(v, 'total_verified', 0), errors=getattr(v, 'total_errors', 0)),
            vacuity=dict(checked=getattr(v, 'vac_checked', 0), contradictory=vac) if vac is not None else 'not run',
            bounded_replay=dict(evaluations=rep['evaluations'], distinct_nontrivial=rep.get('distinct', 0), rule=cfg.get('rule', 'files generated from a random model, parsed through the public API and compared with the model'), samples=rep.get('samples', [])[:4], stands_in_for=cfg.get('bounded', []) + sorted(v.undecided), elsewhere=rep['off'][:3], note=rep['note'].strip(), label='bounded, never counted as proved'),
        ),
        assumptions=cfg.get('assumptions', []) + ['usize is 64 bits wide', 'stack depth and memory are not modelled'],
        wall_s=0, violations=0)
    if obligations == 0 or not v.discharged:
        ev['coverage']['note'] = 'no obligation was discharged on this run: the result is bounded'
    code = 0
    if vac:
        print('note: contradictory precondition in', ', '.join(vac), file=sys.stderr)
    if fresh:
        f = fresh[0]
        path = f'{work}/violation.json'
        json.dump(dict(property=pid, failing_input=f, all=fresh[:10], failed_obligations={k: x[:2] for k, x in failed.items()}), open(path, 'w'), indent=1)
        ev['violations'] = len(fresh)
        code = 1
        msg = f'VIOLATION property={pid} replay={path}'
    elif failed:
        path = f'{work}/violation.json'
        json.dump(dict(property=pid, failed_obligations={k: x[:4] for k, x in failed.items()}, note='no failing input found', replayed=rep['evaluations']), open(path, 'w'), indent=1)
        ev['violations'] = len(failed)
        code = 1
        msg = f'VIOLATION property={pid} replay={path} no-failing-input-found'
    ev['wall_s'] = round(time.time() - T0, 1)
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    if code:
        for k in sorted(failed):
            print(f'failed obligation: {k}: {failed[k][0].splitlines()[0] if failed[k] and failed[k][0] else ""}')
        for f in fresh[:3]:
            print('failing input:', f.get('dir') or f.get('file'), f.get('what', '')[:300])
        print(msg)
    else:
        print(f'{pid}: {len(v.discharged)}/{obligations} functions discharged, {len(v.undecided)} undecided, replay {rep["evaluations"]} cases, {ev["wall_s"]} s')
        for k, x in sorted(v.undecided.items()):
            print(f'  undecided: {k}: {x[:160]}')
        if v.broken:
            print('  verification stage: ' + v.broken[:600])
    sys.exit(code)


if __name__ == '__main__':
    main()
