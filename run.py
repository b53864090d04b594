#!/usr/bin/env python3
"""Driver: symbolic checks of /repo.  usage: run.py PROPERTY [quick|thorough] | run.py --setup | run.py --all [tier]
Compiles the harness and the real sources of /repo to LLVM bitcode, runs the symbolic executor (engine/),
replays every counterexample against a native build of the same sources, writes evidence/<id>.json."""
import sys, os, json, time, hashlib, subprocess, shutil, tempfile, threading, re, random
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYM_REPO', '/repo')
BUILD = os.path.join(V, '.build')
CLANG = shutil.which('clang++-18') or shutil.which('clang++')
NCPU = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, V)

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

def hash_files(fs, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in fs:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

# ------------------------------------------------------------------ engine
ECXX = ['g++', '-std=c++17', '-O2', '-fexceptions', '-w', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
        '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-D_GNU_SOURCE']
def engine():
    d = os.path.join(V, 'engine')
    src = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(('.cpp', '.h'))]
    out = os.path.join(BUILD, 'symir-' + hash_files(src))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    t = tempfile.mkdtemp(dir=BUILD)
    cpps = [s for s in src if s.endswith('.cpp')]
    def one(c):
        o = os.path.join(t, os.path.basename(c) + '.o')
        r, so, se = sh(ECXX + ['-c', c, '-o', o], timeout=600)
        if r: raise RuntimeError('engine build failed: ' + se[-2000:])
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, cpps))
    r, so, se = sh(['g++'] + objs + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3', '-o', t + '/symir'], timeout=300)
    if r: raise RuntimeError('engine link failed: ' + se[-2000:])
    os.rename(t + '/symir', out)
    shutil.rmtree(t, ignore_errors=True)
    return out

BASEF = ['-std=gnu++98', '-D_LARGEFILE64_SOURCE', '-w', '-DSYM_CHECK', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DBOOST_ALLOW_DEPRECATED_HEADERS']
def bcflags(case):
    f = BASEF + ['-O1', '-g', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-D__NO_INLINE__', '-DSYMIR']
    if case.get('asio'): f += ['-isystem', V + '/shim/asio']
    f += ['-isystem', V + '/shim/include']
    f += ['-I' + V + '/harness', '-I' + REPO, '-I' + REPO + '/include', '-I' + REPO + '/daemon'] + case.get('flags', [])
    return f
def natflags(case):
    f = BASEF + ['-O1', '-g', '-fno-omit-frame-pointer', '-ffp-contract=off', '-U_FORTIFY_SOURCE', '-fno-builtin-printf', '-DSYMNATIVE', '-isystem', V + '/shim/native']
    if case.get('asan', True): f += ['-fsanitize=address']
    if case.get('asio'): f += ['-isystem', V + '/shim/asio']
    f += ['-I' + V + '/harness', '-I' + REPO, '-I' + REPO + '/include', '-I' + REPO + '/daemon'] + case.get('flags', [])
    return f

class Builder:
    """compiles (source, flags) once per run"""
    def __init__(self, work):
        self.work = work; self.lock = threading.Lock(); self.fut = {}; self.ex = ThreadPoolExecutor(NCPU)
    def obj(self, src, flags, native, extra=()):
        key = (src, tuple(flags), native, tuple(extra))
        with self.lock:
            if key not in self.fut:
                self.fut[key] = self.ex.submit(self._do, src, list(flags) + list(extra), native, len(self.fut))
            return self.fut[key]
    def _do(self, src, flags, native, n):
        out = os.path.join(self.work, '%s%d_%s' % ('n' if native else 'b', n, os.path.basename(src))) + ('.o' if native else '.bc')
        cmd = (['g++'] if native else [CLANG]) + flags + ['-c', src, '-o', out]
        r, so, se = sh(cmd, timeout=400)
        if r: raise RuntimeError('compile failed: %s\n%s' % (src, '\n'.join([l for l in se.split('\n') if 'error' in l][:8]) or se[-1500:]))
        return out

WRAP_T = ['time', 'gettimeofday', 'usleep', 'sleep']
WRAP_FS = ['open', 'open64', 'close', 'read', 'write', 'pread', 'pwrite', 'lseek', 'lseek64', 'ftruncate', 'ftruncate64', 'posix_fallocate', 'posix_fallocate64', 'fsync', 'fdatasync', 'unlink', 'rmdir', 'remove', 'rename', 'link', 'mkdir', 'access', 'stat', 'lstat', 'fstat', 'stat64', 'lstat64', 'fstat64', 'statvfs', 'statvfs64', 'sysconf', 'opendir', 'readdir', 'readdir64', 'closedir', 'fopen', 'fopen64', 'fclose', 'fseek', 'ftell', 'fread']
def wraps(case):
    return ['-Wl,' + ','.join('--wrap=' + w for w in WRAP_T + (WRAP_FS if case.get('fs') else []))]
def case_srcs(case):
    l = []
    for s in case.get('srcs', []):
        l.append((os.path.join(REPO, s), []))
    return l
def build_bc(b, case):
    fl = bcflags(case)
    h = os.path.join(V, 'harness', case['harness'])
    fs = [b.obj(h, fl, False), b.obj(V + '/rt/libc.cpp', fl, False, ['-fno-builtin']), b.obj(V + '/rt/libcxx.cpp', fl, False), b.obj(V + '/rt/fs.cpp', fl, False)]
    for s, e in case_srcs(case): fs.append(b.obj(s, fl, False, e))
    for s in case.get('rt', []): fs.append(b.obj(os.path.join(V, s), fl, False))
    return [f.result() for f in fs]
def build_native(b, case, lock={}):
    fl = natflags(case)
    h = os.path.join(V, 'harness', case['harness'])
    fs = [b.obj(h, fl, True), b.obj(V + '/rt/native.cpp', fl, True)]
    if case.get('fs'): fs.append(b.obj(V + '/rt/fs.cpp', fl, True))
    for s, e in case_srcs(case): fs.append(b.obj(s, fl, True, e))
    for s in case.get('rt', []): fs.append(b.obj(os.path.join(V, s), fl, True))
    objs = [f.result() for f in fs]
    out = os.path.join(b.work, 'nat_%s_%s' % (case['name'], hashlib.md5(repr(objs).encode()).hexdigest()[:8]))
    cmd = ['g++'] + (['-fsanitize=address'] if case.get('asan', True) else []) + objs + case.get('libs', []) + wraps(case) + ['-lpthread', '-o', out + '.tmp%d' % threading.get_ident()]
    r, so, se = sh(cmd, timeout=300)
    if r: raise RuntimeError('native link failed: ' + se[-1500:])
    os.rename(cmd[-1], out)
    return out

def replay_native(exe, inputs, params, alarm=8):
    """inputs: [[name,hex],...] -> (code, output)"""
    d = tempfile.mkdtemp(prefix='symreplay')
    try:
        f = os.path.join(d, 'in')
        with open(f, 'w') as fp:
            for k, v in params.items(): fp.write('param:%s\t%s\n' % (k, v))
            for n, h in inputs: fp.write('%s\t%s\n' % (n, h))
        env = dict(os.environ); env.update(SYM_REPLAY=f, SYM_ALARM=str(alarm), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096', HOME=d)
        w = os.path.join(d, 'w'); os.mkdir(w)
        r, so, se = sh([exe], timeout=alarm + 30, env=env, cwd=w)
        return r, so + se
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ known findings
def known():
    k = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l.strip())
            if m: k[(m.group(1), m.group(2))] = m.group(3)
    return k

def parse_sample(s):
    r = []
    for tok in s.strip().split(' '):
        if '=' in tok:
            n, h = tok.rsplit('=', 1); r.append([n, h])
    return r

def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        engine(); print('engine ready'); return 0
    import checks
    args = [a for a in sys.argv[1:]]
    only = None
    if '--case' in args: i = args.index('--case'); only = args[i + 1]; del args[i:i + 2]
    keep = '--keep' in args
    if keep: args.remove('--keep')
    if args and args[0] == '--all':
        tier = args[1] if len(args) > 1 else 'quick'
        rc = 0
        for p in sorted(checks.PROPS):
            t = time.time()
            r = subprocess.call([sys.executable, os.path.abspath(__file__), p, tier])
            print('== %s %s rc=%d %.1fs' % (p, tier, r, time.time() - t)); sys.stdout.flush()
            rc = rc or r
        return rc
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(checks, pid, tier, seed, only, keep)

def check(checks, pid, tier, seed, only, keep):
    t0 = time.time()
    prop = checks.PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
    wall_cap = 170 if tier == 'quick' else 840
    replays = os.path.join(V, 'replays'); os.makedirs(replays, exist_ok=True)
    b = Builder(work)
    b.ex.submit(lambda: None)
    engf = ThreadPoolExecutor(1).submit(engine)
    jobs = []
    cases = [c for c in prop['cases'] if tier in c.get('tiers', ('quick', 'thorough')) and (not only or c['name'] == only)]
    for c in cases:
        ps = c.get(tier) or c.get('quick') or [{}]
        for p in ps: jobs.append((c, p))
    bcs, nats, cerr = {}, {}, {}
    def prep(c):
        try: bcs[c['name']] = build_bc(b, c)
        except Exception as e: cerr[c['name']] = str(e)
    def prepn(c):
        try: nats[c['name']] = build_native(b, c)
        except Exception as e: cerr[c['name'] + ':native'] = str(e)
    with ThreadPoolExecutor(16) as ex: list(ex.map(prep, cases))
    natex = ThreadPoolExecutor(8)
    natf = {c['name']: natex.submit(prepn, c) for c in cases if c['name'] not in cerr}
    try: eng = engf.result()
    except Exception as e:
        print('engine build error', e); return 2
    results = []
    lock = threading.Lock()
    def runjob(j):
        c, p = j
        if c['name'] in cerr: return (c, p, None, 'compile')
        out = tempfile.mktemp(dir=work, suffix='.json')
        left = wall_cap - (time.time() - t0)
        if left < 5: return (c, p, None, 'not started: time budget of the tier used up')
        tmax = min(c.get('tmax_' + tier, c.get('tmax', 60 if tier == 'quick' else 400)), left)
        cmd = [eng, '-o', out, '-t', str(int(max(tmax, 3))), '-R', REPO, '-s', str(c.get('solver_ms', 20000))]
        if 'steps' in c: cmd += ['-b', str(c['steps'])]
        for k, v in p.items(): cmd.append('-p%s=%s' % (k, v))
        cmd += bcs[c['name']]
        pre = ['prlimit', '--as=%d' % (6 << 30)] if shutil.which('prlimit') else []
        r, so, se = sh(pre + cmd, timeout=tmax * 1.5 + 60)
        try: return (c, p, json.load(open(out)), '')
        except Exception: return (c, p, None, 'engine: rc=%s %s' % (r, (se or so)[-600:]))
    order = sorted(jobs, key=lambda j: -j[0].get('weight', 1) * (1 + sum(v for v in j[1].values() if isinstance(v, int)) * 0.01))
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(runjob, order))
    for f in natf.values(): f.result()
    # ---------------------------------------------------------------- verdicts
    KF = known()
    viol, kfseen, unconf, notes = [], {}, [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, solver_seconds=0.0, assertions=0,
               assertion_queries=0, byte_domain_decisions=0, cache_hits=0, instructions=0, jobs=len(jobs), jobs_complete=0, functions=set(), bounds=[], incomplete={}, replay_mismatch=[])
    replayjobs = []
    for c, p, res, msg in results:
        label = '%s%s' % (c['name'], json.dumps(p, sort_keys=True) if p else '')
        if res is None:
            notes.append('%s: %s' % (label if msg != 'compile' else c['name'], msg if msg != 'compile' else cerr[c['name']])) if (msg != 'compile' or not any(n.startswith(c['name'] + ': compile') for n in notes)) else None; cov['incomplete'][label] = msg; continue
        cov['states'] += res['paths']; cov['transitions'] += res['forks']; cov['instructions'] += res['steps']
        cov['assertions'] += res['checks']; cov['assertion_queries'] += res['check_queries']
        cov['queries'] += res['solver']['queries']; cov['solver_seconds'] += res['solver']['seconds']; cov['byte_domain_decisions'] += res['solver'].get('byte_domain', 0); cov['cache_hits'] += res['solver'].get('cache_hits', 0)
        cov['functions'].update(f for f in res['functions'] if '_GLOBAL__' not in f)
        inc = dict(res['incomplete'])
        complete = not inc
        if complete: cov['jobs_complete'] += 1
        else: cov['incomplete'][label] = inc
        cov['bounds'].append({'case': label, 'what': c.get('bound', ''), 'paths': res['paths'], 'checks': res['checks'], 'solver_queries': res['solver']['queries'], 'complete': complete, 'wall': res.get('wall')})
        for s in res['samples'][:2]:
            if len(cov['samples']) < 12: cov['samples'].append({'case': label, 'input': s[:400]})
        ns = 3 if tier == 'quick' else 12
        for s in res['samples'][:ns]: replayjobs.append(('sample', c, p, {'inputs': parse_sample(s)}))
        for e in res['errors']: replayjobs.append(('error', c, p, e))
        if complete and not res['errors']:
            for m in res['missing']: viol.append((c, p, {'kind': 'missing', 'msg': 'no input reaches outcome: ' + m, 'inputs': [], 'stack': [], 'trace': []}, 'exhaustive exploration', m))
            if (not res['reached'] and not res['checks']) or not res['paths']: notes.append(label + ': VACUOUS')
    def dorep(r):
        kind, c, p, e = r
        exe = nats.get(c['name'])
        if not exe: return (r, None, 'no native build: ' + cerr.get(c['name'] + ':native', '')[-800:])
        if kind == 'error' and e['kind'] == 'hang': al = 6
        else: al = 10
        rc, out = replay_native(exe, e['inputs'], p, al)
        return (r, rc, out)
    with ThreadPoolExecutor(NCPU) as ex: reps = list(ex.map(dorep, replayjobs))
    errmsgs = {}
    for c, p, res, msg in results:
        if res: errmsgs.setdefault(c['name'], set()).update(e['msg'] for e in res['errors'])
    for (kind, c, p, e), rc, out in reps:
        label = '%s%s' % (c['name'], json.dumps(p, sort_keys=True) if p else '')
        if kind == 'sample':
            if rc == 42 and any(('REPLAY-FAIL ' + m) in (out or '') for m in errmsgs.get(c['name'], ())): continue
            if rc == 0: cov['traces_validated_against_impl'] += 1
            else:
                cov['replay_mismatch'].append({'case': label, 'rc': rc, 'out': out[-300:], 'inputs': ' '.join('%s=%s' % tuple(x) for x in e['inputs'])[:600]})
                notes.append('%s: sample path does not replay natively (rc=%s): %s' % (label, rc, out[-200:].replace('\n', ' | ')))
            continue
        m = re.match(r'\[(K\d+)\]', e['msg'])
        confirmed = rc is not None and rc not in (0, 7) and rc != -999
        if rc == 7 or rc == 0 or rc is None:
            if c.get('engine_replay') and e['kind'] in c['engine_replay'] : confirmed = True
        if not confirmed:
            unconf.append({'case': label, 'kind': e['kind'], 'msg': e['msg'], 'native_rc': rc, 'native_out': (out or '')[-600:], 'inputs': e['inputs'], 'stack': e['stack'][:6]})
            continue
        if m and (pid, m.group(1)) in KF and rc == 42:
            kfseen[m.group(1)] = KF[(pid, m.group(1))]
            continue
        viol.append((c, p, e, out, None))
    seen = set(); n = 0
    for c, p, e, out, miss in viol:
        key = (c['name'], e['kind'], e['msg'])
        if key in seen: continue
        seen.add(key)
        rid = '%s-%s-%s' % (pid, c['name'], hashlib.md5(repr((key, p)).encode()).hexdigest()[:8])
        path = os.path.join(replays, rid + '.json')
        json.dump({'property': pid, 'case': c['name'], 'harness': c['harness'], 'params': p, 'kind': e['kind'], 'message': e['msg'], 'inputs': e['inputs'], 'stack': e['stack'], 'trace': e['trace'], 'native_output': (out or '')[-3000:], 'how': 'SYM_REPLAY file built from params+inputs, native build of harness/%s with %s' % (c['harness'], ', '.join(c.get('srcs', [])))}, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case %s %s: %s: %s' % (c['name'], p, e['kind'], e['msg']))
        for t in e['trace'][:12]: print('    ' + t[:200])
        for l in (out or '').strip().split('\n')[-4:]: print('    native: ' + l[:200])
        n += 1
    for k, d in sorted(kfseen.items()): print('KNOWN-FINDING: property=%s %s %s' % (pid, k, d))
    for u in unconf: print('  unconfirmed (not reported): %s %s %s native rc=%s' % (u['case'], u['kind'], u['msg'], u['native_rc']))
    for x in notes: print('  note: ' + x[:600])
    cov['functions'] = sorted(cov['functions']); cov['solver_seconds'] = round(cov['solver_seconds'], 3)
    cov['functions_encoded'] = len(cov['functions'])
    cov['unconfirmed'] = unconf; cov['notes'] = notes; cov['known_findings_seen'] = sorted(kfseen)
    cov['exhaustive'] = (not cov['incomplete']) and not notes
    cov['rule'] = 'states = feasible path classes explored to the end; transitions = symbolic branch forks; every path class covers all inputs satisfying its path condition; assertions decided by SMT query or byte-domain table'
    if not cov['samples']: cov['samples'] = [{'case': 'none', 'input': ''}]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'model_checking'), 'coverage': cov, 'assumptions': prop.get('assumptions', []) + checks.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': n}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if not keep: shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %d jobs (%d complete), %d path classes, %d assertions, %d solver queries, %.1fs solver, %d native replays ok, violations=%d, %.1fs' % (pid, tier, len(jobs), cov['jobs_complete'], cov['states'], cov['assertions'], cov['queries'], cov['solver_seconds'], cov['traces_validated_against_impl'], n, time.time() - t0))
    if n: return 1
    if jobs and all(r[2] is None for r in results):
        print('no case could be run'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
