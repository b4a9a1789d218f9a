"""Path facts: which variants a value may have, linear integer constraints, known boolean atoms."""
from term import *
import term as TM

def universe(names):
    r = TM.REG.get(names[0])
    return r[1] if r else None

class Facts:
    __slots__ = ('parent', 'trail', 'allowed', 'atoms', 'lins', 'eqs', 'dead', '_simp', 'neqs', 'beqs')
    def __init__(self):
        self.trail = ()
        self.allowed = {}
        self.atoms = {}
        self.lins = ()
        self.neqs = ()
        self.beqs = {}
        self.dead = False
        self._simp = {}
    def _copy(self):
        f = Facts()
        f.trail, f.allowed, f.atoms, f.lins, f.neqs, f.beqs, f.dead = self.trail, dict(self.allowed), dict(self.atoms), self.lins, self.neqs, dict(self.beqs), self.dead
        return f

    # ---- deciding atoms
    def decide(self, a):
        """True, False or None for an atomic boolean term"""
        if a.op == 'bool':
            return a.args[0]
        if a.op == 'not':
            r = self.decide(a.args[0])
            return None if r is None else not r
        r = self.atoms.get(a)
        if r is not None:
            return r
        if a.op == 'isin':
            t, names = a.args
            al = self.allowed.get(t)
            if al is None:
                u = universe(names)
                if u is None:
                    return None
                al = frozenset(u)
            s = frozenset(names)
            if al <= s:
                return True
            if not (al & s):
                return False
            return None
        if a.op == 'le0':
            c, d = lin_of(a.args[0])
            if self.infeasible(1 - c, {k: -v for k, v in d.items()}):
                return True
            if self.infeasible(c, d):
                return False
            return None
        if a.op == 'eq0':
            c, d = lin_of(a.args[0])
            n = {k: -v for k, v in d.items()}
            # t < 0 or t > 0 impossible -> equal
            if self.infeasible(c, d) and True:
                return False         # t <= 0 impossible
            if self.infeasible(-c, n):
                return False         # t >= 0 impossible
            if self.infeasible(c + 1, d) and self.infeasible(1 - c, n):
                return True
            # both t<=0 and t>=0 together
            if self.infeasible2((c, d), (-c, n)):
                return False
            return None
        if a.op == 'beq':
            x, y = a.args
            for p, q in ((x, y), (y, x)):
                k = self.beqs.get(p)
                if k is not None and q.op in ('str', 'empty', 'int', 'char'):
                    return k is q
        if a.op == 'feq' or a.op == 'flt':
            # at most one of x < y, x == y and y < x
            x, y = a.args
            if a.op == 'flt' and x is y:
                return False
            for q in (raw('flt', x, y), raw('flt', y, x), feq(x, y)):
                if q is not a and self.atoms.get(q):
                    return False
        return None

    def decide_c(self, c):
        """decide a boolean term (not necessarily an atom)"""
        if c.op == 'ite':
            x = self.decide_c(c.args[0])
            if x is None:
                return None
            return self.decide_c(c.args[1] if x else c.args[2])
        if c.op == 'not':
            x = self.decide_c(c.args[0])
            return None if x is None else not x
        return self.decide(c)
    def infeasible(self, c, d):
        return self._fm([(c, d)])
    def infeasible2(self, a, b):
        return self._fm([a, b])

    def _fm(self, extra):
        """is  lins & extra  (each: c + sum d <= 0) infeasible over the integers? (incomplete: False = unknown)"""
        # relevant variables
        vars_ = set()
        for _, d in extra:
            vars_.update(d)
        cons = list(extra)
        pool = [(lin_of(l)) for l in self.lins]
        ch = True
        used = [False] * len(pool)
        while ch:
            ch = False
            for i, (c, d) in enumerate(pool):
                if not used[i] and (set(d) & vars_):
                    used[i] = True
                    vars_.update(d)
                    cons.append((c, d))
                    ch = True
        for v in list(vars_):
            b = TM.bounds(v)
            if b is not None:
                lo, hi = b
                if lo is not None:
                    cons.append((lo, {v: -1}))
                if hi is not None:
                    cons.append((-hi, {v: 1}))
        def norm(c, d):
            d = {k: x for k, x in d.items() if x}
            if not d:
                return (c, d)
            return _norm_le(c, d)
        cons = [norm(c, d) for c, d in cons]
        work = {}
        def addc(store, c, d):
            key = frozenset(d.items())
            o = store.get(key)
            if o is None or c > o:
                store[key] = c
        store = {}
        for c, d in cons:
            if not d:
                if c > 0:
                    return True
                continue
            addc(store, c, d)
        vs = set()
        for k in store:
            vs.update(v for v, _ in k)
        vs = list(vs)
        while vs:
            # the variable with the fewest products
            best = None
            for v in vs:
                p = sum(1 for k in store if dict(k).get(v, 0) > 0)
                n = sum(1 for k in store if dict(k).get(v, 0) < 0)
                if best is None or p * n < best[0]:
                    best = (p * n, v)
            if best[0] > 200 or len(store) > 400:
                return False
            v = best[1]
            vs.remove(v)
            pos, neg, rest = [], [], {}
            for k, c in store.items():
                d = dict(k)
                x = d.get(v, 0)
                if x > 0:
                    pos.append((c, d, x))
                elif x < 0:
                    neg.append((c, d, -x))
                else:
                    rest[k] = c
            for c1, d1, x in pos:
                for c2, d2, y in neg:
                    d = {}
                    for k, a in d1.items():
                        d[k] = d.get(k, 0) + a * y
                    for k, a in d2.items():
                        d[k] = d.get(k, 0) + a * x
                    c = c1 * y + c2 * x
                    c, d = norm(c, d)
                    if not d:
                        if c > 0:
                            return True
                        continue
                    addc(rest, c, d)
            store = rest
        return False

    # ---- assuming
    def assume(self, a, val=True):
        """new facts with the atom a having the value val; .dead if contradictory"""
        if a.op == 'not':
            return self.assume(a.args[0], not val)
        if a.op == 'bool':
            if a.args[0] == val:
                return self
            f = self._copy()
            f.dead = True
            return f
        if a.op == 'ite':
            # conjunctions / negated disjunctions can be added as several atoms
            c, x, y = a.args
            if val and y is FALSE:
                return self.assume(c, True).assume(x, True)
            if val and x is FALSE:
                return self.assume(c, False).assume(y, True)
            if not val and x is TRUE:
                return self.assume(c, False).assume(y, False)
            if not val and y is TRUE:
                return self.assume(c, True).assume(x, False)
            f = self._copy()
            f.atoms[a] = val
            f.trail = f.trail + ((a, val),)
            return f
        d = self.decide(a)
        if d is not None:
            if d == val:
                if a in self.atoms or a.op != 'le0':
                    return self
                return self
            f = self._copy()
            f.dead = True
            return f
        f = self._copy()
        f.trail = f.trail + ((a, val),)
        f.atoms[a] = val
        if a.op == 'isin':
            t, names = a.args
            al = f.allowed.get(t)
            if al is None:
                u = universe(names)
                al = frozenset(u) if u is not None else None
            s = frozenset(names)
            if val:
                f.allowed[t] = (al & s) if al is not None else s
            elif al is not None:
                f.allowed[t] = al - s
            if t in f.allowed and not f.allowed[t]:
                f.dead = True
        elif a.op == 'le0':
            t = a.args[0]
            f.lins = f.lins + ((t,) if val else (add(mulc(t, -1), Int(1)),))
        elif a.op == 'eq0':
            t = a.args[0]
            if val:
                f.lins = f.lins + (t, mulc(t, -1))
                c, d = lin_of(t)
                if len(d) == 1:
                    (x, k), = d.items()
                    if k in (1, -1):
                        f.beqs[x] = Int(-c * k)
                        if x.op == 'ord':
                            f.beqs[x.args[0]] = Char(-c * k)
            else:
                # tighten with a known bound: t <= 0 & t != 0 -> t <= -1
                c, d = lin_of(t)
                n = {k: -v for k, v in d.items()}
                if self.infeasible(1 - c, n):
                    f.lins = f.lins + (add(t, Int(1)),)
                elif self.infeasible(c + 1, d):
                    f.lins = f.lins + (add(mulc(t, -1), Int(1)),)
                else:
                    f.neqs = f.neqs + (t,)
        elif a.op == 'beq' and val:
            x, y = a.args
            if y.op in ('str', 'empty', 'int', 'char'):
                f.beqs[x] = y
            elif x.op in ('str', 'empty', 'int', 'char'):
                f.beqs[y] = x
        if a.op in ('le0',):
            # disequalities that became one sided
            for t in f.neqs:
                c, d = lin_of(t)
                n = {k: -v for k, v in d.items()}
                if f.infeasible(1 - c, n):
                    f.lins = f.lins + (add(t, Int(1)),)
                elif f.infeasible(c + 1, d):
                    f.lins = f.lins + (add(mulc(t, -1), Int(1)),)
        return f

    def implies(self, cond):
        return self.simp(cond) is TRUE

    def same_int(self, t):
        """a simpler integer that is equal under the facts"""
        if t.op != 'lin':
            return t
        c, d = lin_of(t)
        cand = [Int(0), Int(-1)] + [x for x, k in d.items() if k == 1] + [add(x, Int(-1)) for x, k in d.items() if k == 1 and x.op == 'len']
        for x in cand:
            if x is not t and self.decide_c(ieq(t, x)):
                return x
        return t
    # ---- simplification under the facts
    def simp(self, t):
        if not self.trail:
            memo = self._simp
        memo = self._simp
        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            o = t.op
            if o == 'ite':
                c = go(t.args[0])
                if c.op == 'bool':
                    r = go(t.args[1] if c.args[0] else t.args[2])
                elif c.op in ('ite', 'not') or True:
                    a = c
                    neg = False
                    if a.op == 'not':
                        a, neg = a.args[0], True
                    ft = self.assume(a, not neg)
                    ff = self.assume(a, neg)
                    if ft.dead:
                        r = go(t.args[2])
                    elif ff.dead:
                        r = go(t.args[1])
                    else:
                        r = ite(c, ft.simp(t.args[1]) if ft is not self else go(t.args[1]), ff.simp(t.args[2]) if ff is not self else go(t.args[2]))
            elif o in ('isin', 'le0', 'eq0', 'beq', 'exists') or o in BOOLOPS:
                d = self.decide(t)
                if d is None and t.args:
                    r = self._re(t, go)
                    if r is not t and r.op not in ('ite', 'not'):
                        d = self.decide(r)
                        if d is not None:
                            r = Bool(d)
                    elif r is not t:
                        r = go2(r)
                else:
                    r = Bool(d) if d is not None else t
            elif t in self.beqs:
                r = self.beqs[t]
            elif not t.args or o in ('sym', 'int', 'str', 'bool', 'char', 'hav', 'el', 'pos', 'acc', 'unk'):
                d = self.atoms.get(t)
                r = Bool(d) if d is not None else t
            else:
                d = self.atoms.get(t)
                if d is not None:
                    r = Bool(d)
                else:
                    r = self._re(t, go)
                    if r is not t:
                        d = self.atoms.get(r)
                        if d is not None:
                            r = Bool(d)
            if r.op == 'range':
                a, b, k = r.args
                up = self.decide_c(lt(Int(0), k))
                if up and self.decide_c(le(b, a)):
                    r = EMPTY
                elif not up and self.decide_c(lt(k, Int(0))) and self.decide_c(le(a, b)):
                    r = EMPTY
                else:
                    a2, b2 = self.same_int(a), self.same_int(b)
                    if a2 is not a or b2 is not b:
                        r = rng(a2, b2, k)
            elif r.op == 'chain' and self.decide(isin(r.args[0], 'None')):
                r = EMPTY
            memo[t] = r
            return r
        def go2(t):
            # result of rebuilding a condition: one more simplification of its own atoms
            if t.op == 'not':
                return Not(go2(t.args[0]))
            if t.op == 'ite':
                c = go2(t.args[0])
                if c.op == 'bool':
                    return go2(t.args[1] if c.args[0] else t.args[2])
                return ite(c, go2(t.args[1]), go2(t.args[2]))
            d = self.decide(t)
            return Bool(d) if d is not None else t
        return go(t)

    def _re(self, t, go):
        if t.op in BINDERS:
            return map_binder(t, go)
        na = [_map(a, go) for a in t.args]
        if all(x is y or x == y for x, y in zip(na, t.args)):
            return t
        return rebuild(t, na)

BOOLOPS = {'flt', 'fle', 'feq', 'slt', 'truthy'}

from term import _norm_le, _map

def atoms_of(c):
    """first atom of a boolean decision term"""
    while c.op in ('ite', 'not'):
        c = c.args[0]
    return c

# ---------------------------------------------------------------- characters of a text and runs of a class
ALLCH = [(0, 0x10FFFF)]
def clip(rs, lo, hi):
    return [(max(a, lo), min(b, hi)) for a, b in rs if max(a, lo) <= min(b, hi)]
def size(rs): return sum(b - a + 1 for a, b in rs)
def known_chars(f):
    """(runs spoken of, {character: code points it may have}) from the facts on single characters"""
    runs, chars = set(), {}
    for a, v in f.trail:
        if a.op not in ('le0', 'eq0'):
            continue
        k, co = TM.lin_of(a.args[0])
        runs |= {x for x in co if x.op == 'run'}
        if len(co) != 1:
            continue
        o, c = next(iter(co.items()))
        if o.op != 'ord' or o.args[0].op != 'nth' or abs(c) != 1:
            continue
        rs = chars.get(o.args[0], ALLCH)
        z = -k * c
        if a.op == 'eq0':
            rs = clip(rs, z, z) if v else clip(rs, 0, z - 1) + clip(rs, z + 1, 0x10FFFF)
        elif v == (c > 0):            # o <= z  /  not (z <= o)
            rs = clip(rs, 0, z if v else z - 1)
        else:
            rs = clip(rs, z if v else z + 1, 0x10FFFF)
        chars[o.args[0]] = rs
    return runs, chars
def without(rs, cls):
    for x, y in cls:
        rs = [z for a, b in rs for z in clip([(a, b)], 0, x - 1) + clip([(a, b)], y + 1, 0x10FFFF)]
    return rs
def after_run(V, i, rs):
    """the character behind a run of a class is not of the class"""
    for r, c in TM.lin_of(i)[1].items():
        if r.op == 'run' and c == 1 and r.args[0] is V and r.args[1] is TM.sub(i, r):
            rs = without(rs, r.args[2])
    return rs
def run_dead(f):
    """the known characters of a text contradict what is known of the run of a class at their position"""
    runs, chars = known_chars(f)
    for r in runs:
        V, i, cls = r.args
        z = f.decide_c(TM.ieq(r, TM.Int(0)))
        rs = after_run(V, i, chars.get(TM.nth(V, i), ALLCH))
        if z is False and (f.decide_c(TM.lt(i, TM.length(V))) is False or not any(clip(rs, a, b) for a, b in cls)):
            return True
        if z is True and f.decide_c(TM.lt(i, TM.length(V))) is True and size(rs) == sum(size(clip(rs, a, b)) for a, b in cls):
            return True
    return False
def member(f, V, i, cls):
    """is the i-th character of a text there and in a class: True, False or None"""
    runs, chars = known_chars(f)
    rs = after_run(V, i, chars.get(TM.nth(V, i), ALLCH))
    inside = f.decide_c(TM.lt(i, TM.length(V)))
    if inside is False:
        return False
    for r in runs:
        if r.args[0] is V and r.args[1] is i and f.decide_c(TM.ieq(r, TM.Int(0))) is False:
            inside = True
            rs = [x for a, b in r.args[2] for x in clip(rs, a, b)]
    n = sum(size(clip(rs, a, b)) for a, b in cls)
    return False if n == 0 else True if inside and n == size(rs) else None
