#!/usr/bin/env python3
"""plant.py ID PROPERTY SPEC.json : makes and confirms /verif/seeded/ID from a replacement in one or more files.
SPEC: {"edits": [[file, old, new], ...], "needs": ..., "breaks": ..., "main": rust source of the demonstration}"""
import json, os, subprocess, sys, tempfile, shutil
REPO = '/repo'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main():
    pid, prop, spec = sys.argv[1], sys.argv[2], json.load(open(sys.argv[3]))
    d = f'/verif/seeded/{pid}'
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty'
    os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write(spec['main'])
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    try:
        r = sh(f'{d}/demo.sh', cwd=REPO)
        if r.returncode:
            print('DEMO FAILS ON CLEAN', r.stdout[-800:], r.stderr[-1500:]); return 1
        for f, old, new in spec['edits']:
            p = os.path.join(REPO, f); s = open(p).read()
            if s.count(old) != 1:
                print('edit does not match once', f, s.count(old)); return 1
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print('BUILD FAILS', r.stderr[-1500:]); return 1
        sh('bash /opt/vp/test.sh /tmp/out.json')
        o = json.load(open('/tmp/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        stable = set(base.get('stable') or [])
        passed = set(o.get('passed', []))
        miss = stable - passed
        if miss or not stable:
            print('TESTS FAIL', len(stable), len(passed), sorted(miss)[:5]); return 1
        r = sh(f'{d}/demo.sh', cwd=REPO)
        if r.returncode == 0:
            print('DEMO PASSES WITH BUG'); return 1
        print('planted', pid, 'demo exit', r.returncode, (r.stdout + r.stderr)[-200:].strip().replace('\n', ' | '))
        if '--check' in sys.argv:
            r = sh(f'python3 check.py {prop}', cwd='/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('CAUGHT' if r.returncode == 1 and v else 'MISSED', (v or r.stdout.splitlines()[-3:])[:2])
    finally:
        sh('git -C /repo checkout -- .')
    return 0
sys.exit(main())
