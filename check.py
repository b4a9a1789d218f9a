#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py --setup"""
import importlib, os, sys, threading
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'      # the same rows are tried on every run
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
import base

CHECKS = {}    # property -> module in sa/checks
for f in sorted(os.listdir(os.path.join(HERE, 'sa', 'checks'))):
    if f.startswith('p') and f.endswith('.py'):
        CHECKS[f[:3].upper()] = 'checks.' + f[:-3]

def main():
    if sys.argv[1] == '--setup':
        base.driver()
        base.dump()
        print('exporter built, /repo analysed')
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    rep = base.Report(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    mod = importlib.import_module(CHECKS[pid])
    mod.check(rep, tier)
    return rep.finish()

rc = [3]
def body():
    try:
        rc[0] = main()
    except base.Infra as e:
        print('error:', e)
        rc[0] = 2
t = threading.Thread(target=body)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
