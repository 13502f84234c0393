#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property
   check.py setup             build the engine and warm the dependency caches
   check.py replay FILE       run a recorded counterexample against the current tree
Everything built goes to /verif/build; /repo is only read."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '')
for k in ('CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'): ENV.pop(k, None)
RSYM, BC = os.path.join(B, 'rsym'), os.path.join(B, 'bc.bc')
PROFILES = {'dev': ['cargo', 'build', '--offline'], 'release': ['cargo', 'build', '--offline', '--release']}

def die(msg):
    print('check.py: ' + msg, flush=True); sys.exit(2)

def tree_hash():
    h = hashlib.sha256()
    for root, pats in ((REPO, None), (os.path.join(V, 'harness'), None)):
        fs = []
        for d, ds, f in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            fs += [os.path.join(d, x) for x in f]
        for f in sorted(fs):
            if os.path.islink(f) or not os.path.isfile(f): continue
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()

def run(cmd, cwd, env, log, timeout=700):
    with open(log, 'w') as f:
        try: r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired: r = -1
    if r: raise RuntimeError('%s failed (%s):\n%s' % (' '.join(cmd), r, open(log).read()[-4000:]))

def fresh(stamp, out, h): return os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h

def build_engine():
    src = hashlib.sha256(b''.join(open(f, 'rb').read() for f in sorted(glob.glob(V + '/engine/*.?pp') + [V + '/engine/build.sh']))).hexdigest()
    st = RSYM + '.stamp'
    if fresh(st, RSYM, src): return
    run(['bash', V + '/engine/build.sh', RSYM], V, ENV, B + '/engine.log'); open(st, 'w').write(src)

def build_bc(h):
    st = BC + '.stamp'
    if fresh(st, BC, h): return
    t = B + '/t-bc'; env = dict(ENV, CARGO_TARGET_DIR=t); cwd = V + '/harness/bc'
    for f in glob.glob(t + '/debug/deps/bc*.bc'): os.remove(f)
    if os.path.isdir(t + '/debug'): run(['cargo', 'clean', '-q', '--offline', '-p', 'bc', '-p', 'prosemirror'], cwd, env, B + '/bc-clean.log')
    run(['cargo', 'rustc', '--offline', '--', '--emit=llvm-bc', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], cwd, env, B + '/bc.log')
    c = [f for f in glob.glob(t + '/debug/deps/*.bc') if re.match(r'(lib)?bc[-.]', os.path.basename(f))]
    if not c: raise RuntimeError('no bitcode was produced')
    shutil.copyfile(max(c, key=os.path.getsize), BC); open(st, 'w').write(h)

def replay_bin(profile): return B + '/replay-' + profile
def build_replay(profile, h):
    out, st = replay_bin(profile), replay_bin(profile) + '.stamp'
    if fresh(st, out, h): return
    t = B + '/t-' + profile; env = dict(ENV, CARGO_TARGET_DIR=t); cwd = V + '/harness/replay'
    d = t + ('/debug' if profile == 'dev' else '/release')
    if os.path.isdir(d): run(['cargo', 'clean', '-q', '--offline', '-p', 'replay', '-p', 'prosemirror'] + (['--release'] if profile == 'release' else []), cwd, env, B + '/%s-clean.log' % profile)
    run(PROFILES[profile], cwd, env, B + '/%s.log' % profile)
    shutil.copy2(d + '/replay', out); open(st, 'w').write(h)

def build_all(profiles=('dev',)):
    os.makedirs(B, exist_ok=True)
    h = tree_hash(); errs = []
    def job(f, *a):
        try: f(*a)
        except Exception as e: errs.append(str(e))
    with open(B + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ts = [threading.Thread(target=job, args=(build_engine,)), threading.Thread(target=job, args=(build_bc, h))] + [threading.Thread(target=job, args=(build_replay, p, h)) for p in profiles]
        for t in ts: t.start()
        for t in ts: t.join()
    if errs: die('build failed: ' + '\n'.join(errs))
    return h

def limits(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def case_line(entry, inputs): return '\t'.join([entry] + ['%s=%d' % (a, b) for a, b in inputs])

def native(cases, profile='dev', verbose=False, timeout=30):
    """outcome of each case run natively: OK n, FAIL .., PANIC .., CRASH .., HANG, ASSUME, MISMATCH .."""
    out = []; i = 0
    while i < len(cases):
        try:
            p = subprocess.run([replay_bin(profile)] + (['-v'] if verbose else []), input='\n'.join(cases[i:]) + '\n', capture_output=True, text=True, timeout=timeout + len(cases[i:]) * 0.05, preexec_fn=limits)
            lines, rc, hang = p.stdout.split('\n')[:-1], p.returncode, False
        except subprocess.TimeoutExpired as e:
            lines, rc, hang = (e.stdout or b'').decode(errors='replace').split('\n')[:-1], 0, True
        notes = []
        for l in lines:
            if l.startswith('# '): notes.append(l[2:]); continue
            out.append((l, notes)); notes = []; i += 1
        if i < len(cases):
            if hang: out.append(('HANG', notes))
            else: out.append(('CRASH the process ended (%d)' % rc, notes))
            i += 1
    return out

def pretty(name):
    m = re.findall(r'prosemirror', name)
    if not m: return None
    s, i, parts = name, 0, []
    while i < len(s):
        if s[i].isdigit() and s[i] != '0':
            j = i
            while j < len(s) and s[j].isdigit(): j += 1
            n = int(s[i:j]); k = j + (s[j:j + 1] == '_')
            w = s[k:k + n]
            if len(w) == n and re.match(r'^[A-Za-z_]\w*$', w): parts.append(w); i = k + n; continue
            i = j; continue
        i += 1
    if 'drop_glue' in name or 'prosemirror' not in parts: return None
    a = parts.index('prosemirror'); return '::'.join(parts[a:a + 8])

BAD = ('FAIL', 'PANIC', 'CRASH', 'HANG')

def check(pid, tier):
    t0 = time.time(); P = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    for f in glob.glob(V + '/evidence/replay/%s-*' % pid): os.remove(f)
    build_all(); tb = time.time() - t0
    # open findings: lines "open: property=ID marker=WORD [panic=FILE:LINE] what fails"; fixed ones are a record and suppress nothing.
    # Without panic= the harness itself recognises the input; with it, a panic at that place is the finding.
    known = [dict(zip(('marker', 'site', 'what'), m.groups())) for m in (re.match(r'open: property=%s marker=(\S+) (?:panic=(\S+) )?(.*)' % pid, l) for l in open(V + '/known-findings.txt')) if m]
    sites = [(k['marker'], k['site']) for k in known if k['site']]
    def listed(res):
        for m, site in sites:
            if res.startswith('PANIC') and site in res: knowns.add(m); return True
        return False
    budget = 560 if tier == 'quick' else 6 * 3600
    tot = {k: 0 for k in ('paths', 'done', 'assumed', 'fails', 'errors', 'forks', 'queries', 'qsat', 'qunsat', 'qcache', 'insns', 'concretisations', 'solver_s')}
    entries, funcs, samples_out, notes, violations, knowns = [], set(), [], [], [], set()
    validated = 0; broken = []; exhaustive = True
    todo = [(e, True) for e in P['quick']] + ([(e, False) for e in P.get('thorough', [])] if tier == 'thorough' else [])
    skip = set(P.get('quick_only', [])) if tier == 'thorough' else set()
    for spec, must in todo:
        e, opt = (spec, {}) if isinstance(spec, str) else spec
        if e in skip: continue
        left = budget - (time.time() - t0)
        if left < 5: exhaustive = False; entries.append({'entry': e, 'skipped': 'out of time'}); continue
        out = os.path.join(B, 'run-%d-%s' % (os.getpid(), e))
        limit = min(left, opt.get('time', 300 if tier == 'quick' else 5400))
        cmd = [RSYM, '--bc', BC, '--entry', e, '--out', out, '--workers', str(os.cpu_count() or 8), '--time', '%d' % limit, '--seed', str(seed), '--samples', str(opt.get('samples', 40)), '--frontier', str(opt.get('frontier', 600)), '--stop-first'] + (['--path-insns', str(opt['insns'])] if 'insns' in opt else []) + [x for m, site in sites for x in ('--known', m + '=' + site)]
        try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit + 120); rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired: rc, err = 5, 'killed at the time limit'; subprocess.run(['pkill', '-f', out])
        try: head = json.loads(p.stdout.strip().split('\n')[-1])
        except Exception: head = {}
        rep = []
        for f in sorted(glob.glob(out + '.*')):
            try: rep.append(json.load(open(f)))
            except Exception: pass
            os.remove(f)
        if not rep: broken.append('%s: the engine gave no report (rc %d): %s' % (e, rc, err[-500:])); continue
        st = {k: sum(r.get(k, 0) for r in rep) for k in tot}
        for k in tot: tot[k] += st[k]
        cov = {}
        for r in rep:
            for k, v in r['cover'].items(): cov[k] = cov.get(k, 0) + v
            funcs.update(r['functions'])
        fails = [x for r in rep for x in r['failures']]; errs = [x for r in rep for x in r['error_samples']]; smp = [x for r in rep for x in r['samples']]
        ent = {'entry': e, 'paths': st['paths'], 'completed': st['done'], 'excluded_by_assumption': st['assumed'], 'engine_gave_up': st['errors'], 'forks': st['forks'], 'queries': st['queries'], 'solver_s': round(st['solver_s'], 2), 'wall_s': head.get('wall_s'), 'cover': cov}
        entries.append(ent)
        # counterexamples, replayed on the real code
        if fails:
            for (res, nt), x in zip(native([case_line(e, x['inputs']) for x in fails[:12]], verbose=True), fails[:12]):
                if res.startswith(BAD): violations.append((e, x, res, nt))
                else: broken.append('%s: the engine reports "%s" but the real code answers %s (%s)' % (e, x['key'], res, case_line(e, x['inputs'])))
        # paths the engine could not follow: their inputs run natively; a failure there is still one
        if errs and not fails:
            for (res, nt), x in zip(native([case_line(e, x['inputs']) for x in errs[:24]], verbose=True), errs[:24]):
                if res.startswith(BAD) and not listed(res): violations.append((e, x, res, nt))
            ent['gave_up_on'] = sorted({x['key'] for x in errs})[:8]; exhaustive = False
            if st['errors'] * 5 > st['paths']: broken.append('%s: %d of %d paths could not be executed: %s' % (e, st['errors'], st['paths'], sorted({x['key'] for x in errs})[:3]))
        # agreement of engine and real code on samples of the paths
        res = native([case_line(e, x['inputs']) for x in smp]) if smp else []
        bad = [(x, r) for x, (r, _) in zip(smp, res) if r != 'OK %d' % x['obs']]; validated += len(res) - len(bad)
        for x, r in bad:
            if r.startswith(BAD): violations.append((e, x, r, []))
            else: broken.append('%s: the engine and the real code disagree (%s, engine observed %d) on %s' % (e, r, x['obs'], case_line(e, x['inputs'])))
        if rc == 5: ent['cut_off'] = 'time limit'; exhaustive = False
        elif rc == 4: ent['cut_off'] = 'solver gave up'; exhaustive = False
        elif rc: broken.append('%s: engine rc %d %s' % (e, rc, err[-400:]))
        need = opt.get('cover', [])
        miss = [c for c in need if not cov.get(c)]
        if miss and not violations: broken.append('%s: never reached: %s' % (e, miss))
        if not cov and not violations and not fails: broken.append('%s: no path reached the assertions' % e)
        for c in cov:
            if c.startswith('known: '): knowns.add(c[7:])
        if smp:
            x = smp[0]; r, nt = native([case_line(e, x['inputs'])], verbose=True)[0]
            samples_out.append({'entry': e, 'inputs': dict((a, b) for a, b in x['inputs'][:12]), 'case': nt[:3], 'outcome': r})
        if violations: break
    for k in sorted(knowns):
        if any(f['marker'] == k for f in known): print('KNOWN-FINDING: property=%s %s' % (pid, [f for f in known if f['marker'] == k][0]['what']))
        else: broken.append('marker of a finding that is not listed: ' + k)
    vio = []
    if violations:
        # the clearest one: an assertion of the property before a bare panic
        violations.sort(key=lambda v: (not v[2].startswith('FAIL'), len(v[1]['inputs'])))
        e, x, res, nt = violations[0]
        path = V + '/evidence/replay/%s-%s.json' % (pid, e)
        rel = None
        if not res.startswith('FAIL'):
            try: build_replay('release', tree_hash()); rel = native([case_line(e, x['inputs'])], 'release')[0][0]
            except Exception as ex: rel = str(ex)[:200]
        json.dump({'property': pid, 'entry': e, 'inputs': x['inputs'], 'case': case_line(e, x['inputs']), 'what': res, 'concrete': nt, 'release_build': rel, 'how': 'python3 /verif/check.py replay ' + path}, open(path, 'w'), indent=1)
        vio.append(path)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(vio), 'assumptions': P.get('assumptions', []) + COMMON,
          'coverage': {'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated, 'samples': samples_out[:8], 'exhaustive': exhaustive and not broken, 'bounds': P['bounds'],
                       'paths_completed': tot['done'], 'paths_excluded_by_assumption': tot['assumed'], 'paths_engine_gave_up': tot['errors'], 'solver_queries': tot['queries'], 'solver_sat': tot['qsat'], 'solver_unsat': tot['qunsat'], 'decided_without_solver': tot['qcache'], 'solver_s': round(tot['solver_s'], 2), 'instructions': tot['insns'],
                       'functions_encoded': sorted({f for f in map(pretty, funcs) if f}), 'functions_encoded_total': len(funcs), 'build_s': round(tb, 1), 'entries': entries, 'broken': broken[:5]}}
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d paths, %d queries, %.1f s solver, %d native replays, %.1f s; exhaustive within bounds: %s' % (pid, tier, tot['paths'], tot['queries'], tot['solver_s'], validated, time.time() - t0, ev['coverage']['exhaustive']))
    if vio:
        print('  %s\n  %s' % (res, '\n  '.join(nt))); print('VIOLATION property=%s replay=%s' % (pid, vio[0]), flush=True); return 1
    if broken:
        for b in broken[:5]: print('  broken: ' + b)
        return 2
    return 0

COMMON = ['The program explored is the LLVM bitcode rustc emits for /repo (opt-level 1, fat LTO, overflow checks and debug assertions on, panics abort), linked with the harness and std.',
          'Trusted: the rsym executor and Z3; sampled paths are re-run natively and must give the same observations. Allocation never fails. Addresses are concrete.']

def main():
    a = sys.argv[1:]
    if a[:1] == ['setup']: build_all(('dev', 'release')); return 0
    if a[:1] == ['replay'] and len(a) == 2:
        build_all(); j = json.load(open(a[1])); r, nt = native([j['case']], verbose=True)[0]; print('\n'.join(nt + [r])); return 1 if r.startswith(BAD) else 0
    if len(a) == 2 and a[0] in PROPS and a[1] in ('quick', 'thorough'): return check(*a)
    print(__doc__); return 2
sys.exit(main())
