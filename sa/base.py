"""Shared plumbing: building the exporter, exporting the MIR of /repo, reporting, evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
TOOLCHAIN = 'nightly-x86_64-unknown-linux-gnu'

CRATES = {    # short name -> library name
    'hand': 'jsonpath_rfc9535', 'pest': 'jsonpath_rfc9535_pest', 'recursive': 'jsonpath_rfc9535_pest_recursive',
    'serde': 'jsonpath_rfc9535_serde', 'iter': 'jsonpath_rfc9535_iter',
    'locations': 'jsonpath_rfc9535_locations', 'singular': 'jsonpath_rfc9535_singular',
}
DIRS = {'hand': 'jsonpath_rfc9535', 'pest': 'jsonpath_rfc9535_pest', 'recursive': 'jsonpath_rfc9535_pest_recursive',
        'serde': 'jsonpath_rfc9535_serde', 'iter': 'jsonpath_rfc9535_iter', 'locations': 'jsonpath_rfc9535_locations',
        'singular': 'jsonpath_rfc9535_singular_selector'}
EVAL_CRATES = ('serde', 'iter', 'locations', 'singular')
PEST_CRATES = ('pest', 'recursive', 'serde', 'iter', 'locations', 'singular')
ALL_CRATES = tuple(CRATES)

class Infra(Exception):
    """the check itself could not run"""

def env():
    e = dict(os.environ)
    e.update(HOME=e.get('HOME', '/root'), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:' + e.get('PATH', '')
    for k in ('CARGO_INCREMENTAL', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e

def run(cmd, **kw):
    kw.setdefault('env', env())
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = os.path.join(WORK, name + '.lock')
    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def repo_files():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('.git', 'target', 'node_modules', 'tests', 'benches')]
        for f in fs:
            if f.endswith(('.rs', '.pest', '.toml', '.lock')):
                out.append(os.path.join(root, f))
    return out

def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(WORK, 'driver-' + file_hash([src]))
    if os.path.exists(out):
        return out
    with Lock('driver'):
        if os.path.exists(out):
            return out
        sysroot = run(['rustc', '--print', 'sysroot']).stdout.strip().split('\n')[-1]
        r = run(['rustc', '--edition', '2021', '-O', src, '-o', out + '.tmp', '-C', f'link-arg=-Wl,-rpath,{sysroot}/lib'])
        if r.returncode:
            raise Infra('the MIR exporter does not build:\n' + r.stdout[-3000:])
        os.rename(out + '.tmp', out)
    return out

def dump():
    """directory with one MIR dump per crate of the current /repo tree"""
    drv = driver()
    files = repo_files()
    key = hashlib.sha256((file_hash(files) + os.path.basename(drv)).encode()).hexdigest()[:20]
    out = os.path.join(WORK, 'mir-' + key)
    if os.path.exists(os.path.join(out, 'done')):
        return out
    with Lock('dump'):
        if os.path.exists(os.path.join(out, 'done')):
            return out
        # keep only a few old dumps
        old = sorted((d for d in os.listdir(WORK) if d.startswith('mir-')), key=lambda d: os.path.getmtime(os.path.join(WORK, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(WORK, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(WORK, 'target')
        for sub in ('.fingerprint', 'build'):       # both layouts of cargo's target directory
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('jsonpath'):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        e = env()
        e.update(RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_DIR=out, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
        r = run(['cargo', 'check', '--workspace', '--lib', '--offline', '--locked'], cwd=REPO, env=e)
        if r.returncode:
            raise Infra('/repo does not compile:\n' + r.stdout[-3000:])
        for c in CRATES.values():
            if not os.path.exists(os.path.join(out, c + '.json')):
                raise Infra(f'no MIR was exported for {c}:\n' + r.stdout[-2000:])
        open(os.path.join(out, 'done'), 'w').close()
    return out

class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.undecided = []
        self.obligations = []
        self.counts = {}
        self.notes = []
        self.assume = []
        self.rules = []
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def ok(self, key, how=''):
        self.obligations.append((key, 'holds', how))
    def violate(self, key, msg, **detail):
        self.obligations.append((key, 'violated', msg))
        self.viol.append({'key': key, 'message': msg, **detail})
    def undec(self, key, why):
        self.obligations.append((key, 'undecided', str(why)))
        self.undecided.append((key, str(why)))
    def floor(self, what, n):
        """fail closed when fewer instances than confirmed by hand were found"""
        if self.counts.get(what, 0) < n:
            self.violate(f'floor:{what}', f'only {self.counts.get(what, 0)} of at least {n} expected instances of "{what}" were found: an anchor of this rule is missing')
    def finish(self):
        known = load_known()
        replay_dir = os.path.join(WORK, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        seen = set()
        bad = 0
        print(f'property {self.pid} tier {self.tier}')
        for r in self.rules:
            print('rule:', r)
        for k, v in sorted(self.counts.items()):
            print(f'analysed: {v} {k}')
        n = len(self.obligations)
        held = sum(1 for o in self.obligations if o[1] == 'holds')
        print(f'obligations: {n}, holding {held}, undecided {len(self.undecided)}, violated {len(self.viol)}')
        for k, why in self.undecided:
            print(f'UNDECIDED: {k}: {why}')
        for i, v in enumerate(self.viol):
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            if (self.pid, v['key']) in known:
                print(f"KNOWN-FINDING: property={self.pid} {v['key']} {known[(self.pid, v['key'])]}")
                continue
            bad += 1
            path = os.path.join(replay_dir, f'{self.pid}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': self.pid, **v}, f, indent=1, default=str)
            print(f"  {v['key']}: {v['message']}")
            print(f'VIOLATION property={self.pid} replay={path}')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'explanation': ' | '.join(self.rules) or 'static analysis', 'obligations': n, 'discharged': held,
               'undecided': [f'{k}: {w}'[:300] for k, w in self.undecided], 'analysed': self.counts,
               'samples': [f'{k}: {s}' + (f' ({h})' if h else '') for k, s, h in self.obligations[:400]]}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': bad}
        if self.assume:
            ev['assumptions'] = self.assume
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        return 1 if bad else 0

def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out

def parallel(fn, items, n=6):
    """fn(chunk) in forked processes, results (picklable) in order of the chunks; None for a process that ended"""
    import pickle
    chunks = [items[i::n] for i in range(n)]
    kids = []
    for c in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as h:
                    pickle.dump(fn(c), h)
                os._exit(0)
            except BaseException:
                os._exit(1)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as h:
            data = h.read()
        _, st = os.waitpid(pid, 0)
        try:
            out.append(pickle.loads(data) if st == 0 else None)
        except Exception:
            out.append(None)
    return out
