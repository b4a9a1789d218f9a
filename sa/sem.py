"""Running the value-flow obligations of a property over the crates and reporting them."""
import os, sys, threading, time, traceback, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import base

EVALS = ('serde', 'iter', 'locations', 'singular')

class Obl:
    """obligations of one crate"""
    def __init__(self, short, out, tier):
        self.short, self.out, self.tier = short, out, tier
        self._x = None
    @property
    def X(self):
        if self._x is None:
            import spec
            self._x = spec.Ctx(self.short)
        return self._x
    def add(self, kind, label, msg, **kw):
        self.out.append((kind, f'{self.short}: {label}', msg, kw))
    def ok(self, label, how=''): self.add('ok', label, how)
    def undec(self, label, why): self.add('undec', label, why)
    def violate(self, label, msg, **kw): self.add('violate', label, msg, **kw)
    def count(self, what, n=1): self.out.append(('count', what, n, {}))
    def assume(self, text): self.out.append(('assume', text, '', {}))
    def where(self, role):
        f = self.X.fn(role) if isinstance(role, str) else role
        s = f.d.get('span') or {}
        return f'{f.path}' + (f' ({s.get("file")})' if isinstance(s, dict) and s.get('file') else '')
    def decide(self, label, role, impl, sp, **kw):
        """one decision table of the code against one of the specification"""
        t0 = time.time()
        r = self.X.compare_terms(impl, sp, **kw)
        self.count('decision tables compared')
        self.count('cases of the partition', r.cases)
        w = self.where(role)
        if r.status == 'same':
            self.ok(label, f'{w}: {r.cases} cases, {time.time() - t0:.1f} s')
        elif r.status == 'differ':
            self.violate(label, f'{w} does not do what the specification table says when {r.row}', function=w)
        else:
            self.undec(label, f'{w}: {r.row} {r.diff}')
        return r.status
    def run(self, label, fn):
        """fn() records obligations; what it cannot analyse is undecided"""
        from term import Unk
        try:
            fn()
        except Unk as e:
            self.undec(label, f'not analysable: {e}')
        except base.Infra:
            raise
        except RecursionError:
            self.undec(label, 'recursion limit of the analysis')
        except Exception as e:
            self.undec(label, f'internal: {type(e).__name__}: {e} at {traceback.format_exc().strip().splitlines()[-3].strip()[:160]}')

def _job(modname, short, tier, limit):
    import importlib
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    out = []
    err = []
    def t():
        try:
            mod = importlib.import_module(modname)
            mod.crate(Obl(short, out, tier))
        except base.Infra as e:
            err.append(str(e))
        except BaseException as e:
            from term import Unk
            out.append(('undec', f'{short}: all', f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}', {}))
    th = threading.Thread(target=t, daemon=True)
    th.start()
    th.join(limit)
    res = list(out)
    if th.is_alive():
        res.append(('undec', f'{short}: rest', f'analysis stopped after {limit} s', {}))
    return res, err

def run(rep, modname, shorts, tier, limit=None):
    base.dump()
    limit = limit or (600 if tier == 'quick' else 780)
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(max_workers=min(8, len(shorts)), mp_context=ctx) as ex:
        fs = [ex.submit(_job, modname, s, tier, limit) for s in shorts]
        for s, f in zip(shorts, fs):
            try:
                res, err = f.result()
            except Exception as e:
                rep.undec(f'{s}: all', f'analysis process ended: {e}')
                continue
            if err:
                raise base.Infra(err[0])
            for kind, label, msg, kw in res:
                if kind == 'ok':
                    rep.ok(label, msg)
                elif kind == 'undec':
                    rep.undec(label, msg)
                elif kind == 'violate':
                    rep.violate(label.replace(' ', '_'), msg, **kw)
                elif kind == 'count':
                    rep.count(label, msg)
                elif kind == 'assume':
                    if label not in rep.assume:
                        rep.assume.append(label)
