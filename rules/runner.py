import os, sys, json, time, subprocess, hashlib, fcntl, importlib, traceback, shutil, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HUSH_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')

def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def base_env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        e.pop(k, None)
    e.setdefault('HOME', '/root')
    e['PATH'] = e.get('PATH', '/usr/bin:/bin') + ':/root/.cargo/bin'
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e

def tree_hash(root, dirs, files):
    h = hashlib.sha256()
    for d in dirs:
        for p, ds, fs in sorted(os.walk(os.path.join(root, d))):
            ds.sort()
            for f in sorted(fs):
                fp = os.path.join(p, f)
                h.update(os.path.relpath(fp, root).encode() + b'\0')
                with open(fp, 'rb') as fh: h.update(fh.read())
                h.update(b'\0')
    for f in files:
        fp = os.path.join(root, f)
        if os.path.exists(fp):
            h.update(f.encode() + b'\0')
            with open(fp, 'rb') as fh: h.update(fh.read())
    return h.hexdigest()

def build_driver():
    src = tree_hash(os.path.join(VERIF, 'driver'), ['src'], ['Cargo.toml'])
    out = os.path.join(CACHE, 'driver')
    exe = os.path.join(out, 'release', 'hushmir')
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == src:
        return exe
    os.makedirs(out, exist_ok=True)
    e = base_env(); e['CARGO_TARGET_DIR'] = out
    rc, o = sh(['cargo', 'build', '--release', '--offline', '--quiet'], e, os.path.join(VERIF, 'driver'))
    if rc != 0:
        raise SystemExit('driver build failed:\n' + o[-4000:])
    open(stamp, 'w').write(src)
    return exe

def dump():
    """MIR dump of the current working tree of /repo; returns (path, seconds, key)."""
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        key = tree_hash(REPO, ['src'], ['Cargo.toml', 'Cargo.lock', 'build.rs']) + '-' + hashlib.sha256(open(exe, 'rb').read()).hexdigest()[:12]
        key = hashlib.sha256((REPO + key).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, 'dumps', key)
        js = os.path.join(out, 'hush.json')
        if not os.path.exists(js):
            dd = os.path.join(CACHE, 'dumps')
            if os.path.isdir(dd):
                old = sorted((os.path.join(dd, x) for x in os.listdir(dd)), key=os.path.getmtime)
                for x in old[:-12]: shutil.rmtree(x, ignore_errors=True)
            tmp = out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            e = base_env()
            tgt = os.path.join(CACHE, 'target')
            e['CARGO_TARGET_DIR'] = tgt
            e['RUSTC_WORKSPACE_WRAPPER'] = exe
            e['HUSHMIR_OUT'] = tmp
            rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], e)
            e['LD_LIBRARY_PATH'] = os.path.join(sysroot.strip(), 'lib')
            # cargo would skip the wrapper on a warm target directory
            for sub in ('debug/build/hush', 'debug/incremental'):
                shutil.rmtree(os.path.join(tgt, sub), ignore_errors=True)
            fp = os.path.join(tgt, 'debug/.fingerprint')
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith('hush-'): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            rc, o = sh(['cargo', 'check', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], e, '/')
            if rc != 0 or not os.path.exists(os.path.join(tmp, 'hush.json')):
                raise SystemExit('analysis build of %s failed:\n%s' % (REPO, o[-4000:]))
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
    return js, time.time() - t0, key

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.violations = []      # (key, message)
        self.cov = {}
        self.notes = []
        self.assumptions = []
    def bad(self, key, msg):
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, msg))
    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n
    def floor(self, name, n):
        """fail closed when fewer instances than counted by hand were analysed"""
        if self.cov.get(name, 0) < n:
            self.bad('floor:' + name, 'only %s %s analysed, expected at least %d (anchor missing or code moved out of the analysed shape)' % (self.cov.get(name, 0), name, n))

def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))['findings']

def main(argv):
    if argv and argv[0] == '--setup':
        js, bt, key = dump()
        print('analysis driver built, tree dumped in %.1fs' % bt)
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    except Exception: pass
    t0 = time.time()
    js, bt, key = dump()
    import engine
    P = engine.Program(js)
    mod = importlib.import_module(pid.lower())
    R = Report(pid, tier)
    R.cov['functions_in_dump'] = len(P.fns)
    R.cov['local_functions_in_dump'] = sum(1 for f in P.fns if f.get('local'))
    try:
        mod.check(P, R, tier)
        import counts
        counts.check(P, R, engine.SEEN)
    except Exception:
        if os.environ.get('HV_DEBUG'): raise
        tb = traceback.format_exc()
        R.bad('internal', 'the analysis could not interpret the code under the property (fails closed):\n' + tb)
    ks = {f['key']: f for f in known() if f['property'] == pid and f.get('status', 'known') == 'known'}
    new = []
    hit = []
    for k, m in R.violations:
        if k in ks:
            hit.append(ks[k]); print('KNOWN-FINDING: property=%s %s' % (pid, ks[k]['what']))
        else: new.append((k, m))
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'reports')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.txt')
    with open(rp, 'w') as f:
        f.write('property %s, rule: %s\n' % (pid, getattr(mod, 'RULE', mod.__doc__)))
        f.write('coverage: %s\n' % json.dumps(R.cov))
        for k, m in new: f.write('\nVIOLATION [%s]\n%s\n' % (k, m))
        for n in R.notes: f.write('note: %s\n' % n)
    cov = dict(R.cov)
    cov['explanation'] = getattr(mod, 'RULE', mod.__doc__ or '').strip()
    cov['notes'] = R.notes[:60]
    ev = {'property': pid, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(new), 'violation_list': [{'key': k, 'message': m[:2000]} for k, m in new], 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + R.assumptions,
          'known_findings': [h['what'] for h in hit]}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, m in new:
        print('%s: [%s] %s' % (pid, k, m))
    print('%s: %s; %s; %.1fs (build %.1fs)' % (pid, 'VIOLATED' if new else 'holds', ', '.join('%s=%s' % (k, v) for k, v in R.cov.items() if isinstance(v, (int, float))), wall, bt))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
