"""Agreement of two decision tables (normal-form terms): proof by case split, refutation by a confirmed row."""
from term import *
import time
import term as TM, loops, ev
from facts import Facts, run_dead, member

class Budget(Exception): pass

def closed_atom(t, facts, seen=None):
    """an undecided closed decision inside a term (ite conditions first)"""
    seen = seen if seen is not None else set()
    def go(t, under):
        k = t
        if k in seen:
            return None
        seen.add(k)
        if t.op == 'ite':
            r = pick(t.args[0])
            if r is not None:
                return r
        args = t.args
        for a in args:
            if isinstance(a, T):
                r = go(a, under)
                if r is not None:
                    return r
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        r = go(x, under)
                        if r is not None:
                            return r
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, T):
                                r = go(y, under)
                                if r is not None:
                                    return r
        return None
    def pick(c):
        if c.op == 'not':
            return pick(c.args[0])
        if c.op == 'ite':
            for x in c.args:
                r = pick(x)
                if r is not None:
                    return r
            return None
        if c.op == 'bool' or ev.canon(c) - frozenset(x for x in ev.canon(c) if isinstance(x, str)):
            return None
        return c
    return go(t, False)

def head(t, f):
    """(t without its decided outer decisions, first undecided atom of the next one or None)"""
    while True:
        if t.op != 'ite':
            t2 = f.simp(t)
            if t2.op != 'ite':
                return t2, None
            t = t2
        c = lazy(t.args[0], f)
        if c is TRUE:
            t = t.args[1]
        elif c is FALSE:
            t = t.args[2]
        else:
            return t, c

def lazy(c, f):
    """TRUE / FALSE / an undecided atom the decision depends on"""
    if c.op == 'bool':
        return c
    if c.op == 'not':
        r = lazy(c.args[0], f)
        return Not(r) if r.op == 'bool' else r
    if c.op == 'ite':
        r = lazy(c.args[0], f)
        return lazy(c.args[1] if r is TRUE else c.args[2], f) if r.op == 'bool' else r
    d = f.decide(c)
    if d is not None:
        return Bool(d)
    c2 = f.simp(c)
    return c2 if c2 is c or c2.op not in ('bool', 'ite', 'not') else lazy(c2, f)

def small_number(t, f):
    """(integer that is written out in a text, its largest value) when it is at most 127 under the facts"""
    if t.op == 'cat':
        for x in t.args:
            r = small_number(x, f)
            if r is not None:
                return r
        return None
    if t.op not in ('fmt', 'hex', 'hexu'):
        return None
    v = t.args[-1]
    if v.op == 'int' or f.decide_c(le(Int(0), v)) is not True:
        return None
    for hi in (15, 31, 127):
        if f.decide_c(le(v, Int(hi))):
            return v, hi
    return None

class Prover:
    def __init__(self, budget=60000, maxdiff=6, debug=False):
        self.n, self.budget, self.maxdiff = 0, budget, maxdiff
        self.diffs = []          # (a, b, trail)
        self.cases = 0
        self.debug = debug
        self.memo = {}
        self.runs = False
    def prove(self, a, b, f):
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        if a is b:
            self.cases += 1
            return True
        a, c = head(a, f)
        if c is None:
            b, c = head(b, f)
        if c is not None:
            g, h = f.assume(c, True), f.assume(c, False)
            if not (g.trail == f.trail and not g.dead or h.trail == f.trail and not h.dead):
                return self.split(c, a, b, f)
            a, b = f.simp(a), f.simp(b)
        if a is b:
            self.cases += 1
            return True
        k = (a, b, f.trail)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._prove(a, b, f)
        self.memo[k] = r
        return r
    def split(self, c, a, b, f):
        if self.runs:
            for r in runs_of(c):
                z = ieq(r, Int(0))
                if f.decide(z) is None and member(f, *r.args) is False:
                    return self.prove(a, b, f.assume(z))
        ok = True
        for v in (True, False):
            g = f.assume(c, v)
            if g.dead or self.runs and run_dead(g):
                continue
            if not self.prove(a, b, g):
                ok = False
                if len(self.diffs) >= self.maxdiff:
                    return False
        return ok
    def diff(self, a, b, f):
        # a decimal or hexadecimal number over a small range: every value of it
        for x in (a, b):
            n = small_number(x, f)
            if n is not None:
                v, hi = n
                return all([self.prove(a, b, g) for k in range(hi + 1) for g in [f.assume(ieq(v, Int(k)))] if not g.dead])
        if len(self.diffs) < self.maxdiff:
            self.diffs.append((a, b, f.trail))
        return False
    def _prove(self, a, b, f):
        if a.op == 'ite' or b.op == 'ite':
            x = a if a.op == 'ite' else b
            c = self.cond(x.args[0])
            if c is not None:
                return self.split(c, a, b, f)
        if a.op == 'any' or b.op == 'any' or a.op == 'panic':
            self.cases += 1
            return True      # partial: the implementation does not produce a value here (P20)
        # an opaque value known to be a variant without fields
        for x, y in ((a, b), (b, a)):
            if x.op == 'adt' and len(x.args) == 2 and y.op not in ('adt', 'ite') and f.decide(isin(y, x.args[1])):
                self.cases += 1
                return True
        # booleans
        if self.isbool(a) or self.isbool(b):
            for x in (a, b):
                if x.op == 'not':
                    x = x.args[0]
                if x.op not in ('bool', 'exists') and self.isbool(x):
                    g = f.assume(x, True)
                    h = f.assume(x, False)
                    if g.trail != f.trail and h.trail != f.trail or g.dead or h.dead:
                        return self.split(x, a, b, f)
            x, y = (z.args[0] if z.op == 'not' else z for z in (a, b))
            if x.op == 'exists' and y.op == 'exists' and (a.op == 'not') == (b.op == 'not'):
                if self.quiet(lambda: self.binder(x, y, f)):
                    return True
            for z in (x, y):
                if z.op == 'exists':
                    g, h = f.assume(z, True), f.assume(z, False)
                    if not (g.trail == f.trail or h.trail == f.trail):
                        return self.split(z, a, b, f)
            return self.diff(a, b, f)
        if a.op == b.op:
            o = a.op
            if o in ('adt', 'tuple', 'closure', 'call', 'dyn', 'one', 'fld', 'nth', 'beq', 'num_i64', 'num_f64', 'mget', 'hget', 'rec', 'len', 'i2f', 'disp', 'dec', 'regex', 'ismatch', 'iregexp', 'utf8', 'drop', 'take', 'rev', 'enum', 'join', 'zip', 'range', 'replace', 'parse', 'fmt', 'hex') or o.startswith('str_'):
                if len(a.args) == len(b.args):
                    if o in ('adt', 'tuple'):
                        if self.parts(a, b, f):
                            return True
                        return False
                    n = len(self.diffs)
                    if self.quiet(lambda: self.parts(a, b, f)):
                        return True
            elif o in BINDERS:
                if self.quiet(lambda: self.binder(a, b, f)):
                    return True
            elif o == 'cat':
                if len(a.args) == len(b.args) and self.quiet(lambda: all(self.prove(x, y, f) for x, y in zip(a.args, b.args))):
                    return True
        # integers
        if self.isint(a) or self.isint(b):
            d = ieq(a, b)
            d = f.simp(d)
            if d is TRUE:
                self.cases += 1
                return True
        for x in (a, b):
            c = closed_atom(x, f)
            if c is not None:
                g, h = f.assume(c, True), f.assume(c, False)
                if g.trail == f.trail or h.trail == f.trail:
                    if not g.dead and not h.dead:
                        continue
                return self.split(c, a, b, f)
        # emptiness of the sources of one side
        if self.isseq(a) or self.isseq(b):
            for x, y in ((a, b), (b, a)):
                if x is EMPTY and f.simp(is_empty(y)) is TRUE:
                    self.cases += 1
                    return True
                if x is EMPTY and y.op in ('for',):
                    return self.forempty(y, f) or self.diff(a, b, f)
            if a.op == 'cat' or b.op == 'cat':
                r = self.align(a, b, f)
                if r:
                    return True
            for x in (a, b):
                for s in self.sources(x):
                    c = is_empty(s)
                    c = self.cond(c)
                    if c is not None and f.decide(c) is None and not ev.canon(c):
                        g, h = f.assume(c, True), f.assume(c, False)
                        if g.trail != f.trail and h.trail != f.trail:
                            return self.split(c, a, b, f)
        return self.diff(a, b, f)
    def sources(self, x):
        if x.op == 'cat':
            for p in x.args:
                yield from self.sources(p)
        elif x.op in ('for', 'tryfor'):
            yield x.args[1]
        elif x.op == 'drop':
            yield x.args[0]
    def align(self, a, b, f):
        pa, pb = list(seq_parts(a)), list(seq_parts(b))
        while pa and pb and self.quiet(lambda: self.prove(pa[0], pb[0], f)):
            pa.pop(0)
            pb.pop(0)
        while pa and pb and self.quiet(lambda: self.prove(pa[-1], pb[-1], f)):
            pa.pop()
            pb.pop()
        return not pa and not pb
    def forempty(self, y, f):
        uid = fresh()
        e, p = raw('el', uid), raw('pos', uid)
        g = loops.elem_facts(f, y.args[1], e, p)
        return g.dead or self.quiet(lambda: self.prove(EMPTY, open_(y, e, p)[0], g))
    def cond(self, c):
        while c.op in ('ite', 'not'):
            c = c.args[0]
        return None if c.op == 'bool' else c
    def quiet(self, fn):
        n = len(self.diffs)
        m = self.maxdiff
        self.maxdiff = n + 1
        r = fn()
        self.maxdiff = m
        if r:
            del self.diffs[n:]
            return True
        self.last = self.diffs[n:]
        del self.diffs[n:]
        return False
    def parts(self, a, b, f):
        ok = True
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if not self.prove(x, y, f):
                    ok = False
                    if len(self.diffs) >= self.maxdiff:
                        return False
            elif x != y:
                return self.diff(a, b, f)
        return ok
    def binder(self, a, b, f):
        if not self.prove(a.args[1], b.args[1], f):
            return False
        if a.op in ('fold', 'tryfold') and not self.prove(a.args[2], b.args[2], f):
            return False
        uid = fresh()
        e, p, c = raw('el', uid), raw('pos', uid), raw('acc', uid)
        g = loops.elem_facts(f, a.args[1], e, p)
        if g.dead:
            return True
        return all(self.prove(x, y, g) for x, y in zip(open_(a, e, p, c), open_(b, e, p, c)))
    def isbool(self, t):
        return t.op in ('bool', 'isin', 'le0', 'eq0', 'beq', 'exists', 'not', 'veq', 'numeq', 'feq', 'flt', 'fle', 'slt', 'ismatch', 'iregexp', 'num_is_f64', 'num_is_u64', 'boundary', 'eqic') or t.op.startswith('str_') and t.op[4:] in ('starts_with', 'ends_with', 'contains')
    def isint(self, t):
        return t.op in ('int', 'lin', 'len', 'mul', 'blen', 'ord', 'pos', 'iter_count') or TM.bounds(t) is not None
    def isseq(self, t):
        return t.op in ('empty', 'one', 'cat', 'for', 'str', 'drop', 'take', 'rev', 'join')

class Result:
    """status: 'same' | 'differ' | 'unknown'"""
    def __init__(self, status, cases=0, row='', diff=''):
        self.status, self.cases, self.row, self.diff = status, cases, row, diff

def runs_of(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'run':
                out.append(x)
            st += x.args
    return out

def compare(ip, impl, spec, types, roles=None, facts=None, assume=(), rows=700, hooks=None, budget=60000, seed=1, rowtime=12, strict=True):
    """decide impl == spec.  types: symbol -> type index; roles: role -> result type"""
    f = facts or Facts()
    impl, spec = TM.joins(impl), TM.joins(spec)
    for c in assume:
        f = f.assume(c)
    P = Prover(budget)
    P.runs = any(runs_of(t) for t in (impl, spec))
    why = ''
    try:
        if not impl.unk and not spec.unk and P.prove(impl, spec, f):
            return Result('same', P.cases)
    except Budget:
        why = 'case budget'
    except Unk as e:
        why = f'{e}'
    # a confirmed row
    pools = ev.constants([impl, spec] + [x for d in P.diffs for x in d[:2]])
    err = None
    trails = [d[2] for d in P.diffs] + [()]
    n = 0
    for tr in trails:
        got = 0
        t1 = time.time()
        for i in range(rows * (4 if tr == () else 8)):
            if time.time() - t1 > rowtime:
                break
            n += 1
            v = ev.Val(ip, types, seed * 100003 + n, pools, roles, hooks)
            try:
                if not all(v.ev(c) for c in assume):
                    continue
                if tr and not v.steer(tr):
                    continue
                y = v.ev(spec)
                try:
                    x = v.ev(impl)
                except ev.Undef as u:
                    if strict:
                        return Result('differ', P.cases, ev.describe(v, types) + f' :: code does not get a value ({u}), must be {ev.plain(v, y)[:300]}', '')
                    raise
                got += 1
                if not v.same(x, y):
                    return Result('differ', P.cases, ev.describe(v, types) + f' :: code gives {ev.plain(v, x)[:300]}, must be {ev.plain(v, y)[:300]}', '')
            except ev.Undef:
                continue
            except ev.NoEval as e:
                err = str(e)
            if got > (rows // 4 if tr else rows * 4):
                break
    d = P.diffs[0] if P.diffs else None
    return Result('unknown', P.cases, err or why, '' if d is None else f'{show(d[0])[:300]}  <>  {show(d[1])[:300]}  when {[(show(a)[:120], v) for a, v in d[2]][-9:]}')
