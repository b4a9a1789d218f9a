"""Tabulating decision tables: the value of a normal-form term in one row of the case partition.

A row assigns abstract values to the opaque leaves of two terms (variants, integers taken from the constants the
two terms compare with and their neighbours, strings, short sequences, uninterpreted results of cut calls).
Rows are only used to confirm that two decision tables, extracted from the source and from the specification,
differ; nothing of the analysed program is run."""
import random, math
from term import *
import term as TM
import interp

class NoEval(Exception): pass
class Undef(Exception): pass
class Diverge(NoEval):
    """a loop or a recursion that has come back to where it was"""

class A:
    __slots__ = ('v', 'f')
    def __init__(self, v, *f): self.v, self.f = v, f
    def __repr__(self): return self.v + (repr(self.f) if self.f else '')
class Tp(tuple):
    def __repr__(self): return 'T' + tuple.__repr__(self)
class Op:
    """opaque token"""
    __slots__ = ('n', 'ty')
    def __init__(self, n, ty=None): self.n, self.ty = n, ty
    def __repr__(self): return f'<{self.n}>'
class Num:
    __slots__ = ('k', 'x')
    def __init__(self, k, x): self.k, self.x = k, x
    def __repr__(self): return f'{self.x}'
    def key(self): return (self.k, repr(self.x))
class L:
    """a value whose variant is not decided yet"""
    __slots__ = ('ty', 'd', 'val', 'v', 'f', 'name')
    def __init__(self, val, ty, d, name):
        self.val, self.ty, self.d, self.v, self.f, self.name = val, ty, d, None, {}, name
    def __repr__(self): return f'{self.name}' + (f':{self.v}{self.f}' if self.v else '')

AST = {'FilterExpression', 'Query', 'Segment', 'Selector', 'Environment', 'QueryContext', 'SingularQuery'}
STRS = ['', 'a', 'b', 'ab', 'é', '😀', '"', '1', "a'b", '\\', '\n', '$']
INTS = [0, 1, 2, 3, -1, -2, -3, 5, -5]
FLOATS = [0.0, 1.0, 1.5, -1.0, -0.5, 1e300, 2.0, 1.25, 1.75, -1.25, 0.1, 2.5, 9007199254740993.0, 1e19, -1e19, 1e-300]

_fvc = {}
def canon(t):
    """indices of canonical variables that are free in t"""
    r = _fvc.get(t)
    if r is not None:
        return r
    s = set()
    def add_(a):
        if isinstance(a, T):
            s.update(canon(a))
        elif isinstance(a, tuple):
            for x in a:
                add_(x)
    if t.op in ('el', 'pos', 'acc'):
        s.add(t.args[0])
    elif t.op in BINDERS:
        add_(t.args[1])
        if t.op in ('fold', 'tryfold'):
            add_(t.args[2])
        in_ = set()
        for b in binder_bodies(t):
            in_ |= canon(b)
        in_.discard(t.args[0])
        s |= in_
    else:
        for a in t.args:
            add_(a)
    r = frozenset(s)
    _fvc[t] = r
    return r

def constants(ts):
    ints, strs, chars = set(), set(), set()
    seen = set()
    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'int':
            ints.add(t.args[0])
        elif t.op == 'lin':
            ints.add(t.args[0])
        elif t.op == 'str':
            strs.add(t.args[0])
        elif t.op == 'char':
            chars.add(t.args[0])
        elif t.op == 'le0' or t.op == 'eq0':
            c, d = lin_of(t.args[0])
            for k in d.values():
                if abs(k) == 1:
                    ints.add(-c * k)
        for a in t.args:
            if isinstance(a, T):
                go(a)
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        go(x)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, T):
                                go(y)
    for t in ts:
        go(t)
    p = set(INTS)
    for i in ints:
        p.update((i - 1, i, i + 1))
    return sorted(p), sorted(strs) + STRS, sorted(chars)

class Val:
    def __init__(self, ip, types, seed, pools, roles=None, hooks=None):
        self.ip, self.types, self.rng = ip, types, random.Random(seed)
        self.ints, self.strs, self.chars = pools
        self.roles = roles or {}
        self.hooks = hooks or {}
        self.memo, self.keep = {}, []
        self.syms, self.funs, self.by = {}, {}, {}
        self.n = 0
        self.hint, self.want = None, {}
    # ---------------------------------------------------------- generation
    def seqlen(self, d):
        h, self.hint = self.hint, None
        if h is not None:
            lo, hi = max(h[0], 0), min(h[1], max(h[0], 0) + 3)
            if hi >= lo:
                return self.rng.randint(lo, hi)
        if d > 5:
            return 0
        return self.rng.choice((0, 1, 1, 2, 2, 3, 4))
    def pick_int(self, lo, hi):
        r = self.rng
        h, self.hint = self.hint, None
        if h is not None and max(lo, h[0]) <= min(hi, h[1]):
            lo, hi = max(lo, h[0]), min(hi, h[1])
        for _ in range(8):
            x = r.choice(self.ints)
            if lo <= x <= hi:
                return x
        return r.choice([x for x in (lo, hi, 0, 1) if lo <= x <= hi])
    def pick_char(self):
        c = self.chars
        if c and self.rng.random() < .6:
            x = self.rng.choice(c) + self.rng.choice((0, 0, 0, 1, -1))
        else:
            x = ord(self.rng.choice("ab\"'\\0 \n\u007f\u0000é😀$@[]"))
        if x < 0 or 0xD800 <= x <= 0xDFFF or x > 0x10FFFF:
            x = 97
        return chr(x)
    def pick_str(self):
        r = self.rng
        x = r.random()
        if x < .6:
            return tuple(r.choice(self.strs))
        return tuple(self.pick_char() for _ in range(r.choice((1, 1, 2, 3))))
    def pick_num(self):
        r = self.rng
        x = r.random()
        if x < .45:
            n = self.pick_int(-(1 << 63), (1 << 63) - 1)
            return Num('p' if n >= 0 else 'n', n)
        if x < .9:
            y = r.choice(FLOATS) if r.random() < .5 else float(self.pick_int(-(1 << 63), (1 << 63) - 1))
            return Num('f', y)
        return Num('p', r.choice(((1 << 63), (1 << 64) - 1, (1 << 53) + 1)))
    def gen(self, ti, d, name='?', targs=None):
        ip = self.ip
        while True:
            t = ip.ty(ti)
            if t['k'] in ('ref', 'ptr'):
                ti = t['t']
            elif t['k'] == 'adt' and t['path'] in interp.TRANSPARENT:
                ti = [x for x in t['args'] if isinstance(x, int)][0]
            else:
                break
        k = t['k']
        if k in ('int', 'uint'):
            lo, hi = interp.INT_RANGE[t['n']]
            if self.hint is not None:
                return self.pick_int(lo, hi)
            return self.reuse(('i', t['n']), lambda: self.pick_int(lo, hi))
        if k == 'bool':
            return self.rng.random() < .5
        if k == 'char':
            return self.pick_char()
        if k == 'float':
            return self.rng.choice(FLOATS)
        if k == 'str':
            if isinstance(self.hint, str):
                h, self.hint = self.hint, None
                return tuple(h)
            return self.reuse('s', self.pick_str)
        if k in ('slice', 'array'):
            return self.seq(t['t'], d, name)
        if k == 'tuple':
            return Tp(self.gen(x, d + 1, f'{name}.{i}') for i, x in enumerate(t['ts']))
        if k == 'adt':
            p = t['path']
            last = p.split('::')[-1]
            args = [x for x in t['args'] if isinstance(x, int)]
            if last == 'String':
                if isinstance(self.hint, str):
                    h, self.hint = self.hint, None
                    return tuple(h)
                return self.reuse('s', self.pick_str)
            if p.startswith('serde_json::number'):
                return self.reuse('num', self.pick_num)
            if p.startswith('serde_json::map::Map'):
                ks = sorted({self.pick_str() for _ in range(self.seqlen(d))})
                vt = self.value_type()
                return tuple(Tp((kk, self.gen(vt, d + 1, f'{name}[{"".join(kk)!r}]'))) for kk in ks)
            if last in ('Vec', 'IntoIter', 'Iter', 'VecDeque') and args:
                return self.seq(args[0], d, name)
            a = ip.crate.adts.get(t['id'])
            if a is not None and last != 'HashMap':
                if last == 'Value':
                    # only share a value created at this depth or deeper: values stay acyclic
                    b = self.by.setdefault('Value', [])
                    c = [x for x in b if x.d >= d]
                    if c and self.rng.random() < .35:
                        return self.rng.choice(c)
                    x = L(self, ti, d, name)
                    b.append(x)
                    return x
                return L(self, ti, d, name)
            return Op(name, ti)
        if k == 'dyn':
            if 'Iterator' in str(t.get('trait')):
                nt = self.named('Node')
                return self.seq(nt, d, name)
            return Op(name, ti)
        return Op(name, ti)
    def seq(self, ti, d, name):
        t = self.ip.ty(ti)
        n = self.seqlen(d)
        return tuple(self.gen(ti, d + 1, f'{name}[{i}]') for i in range(n))
    def reuse(self, key, f):
        b = self.by.setdefault(key, [])
        if b and self.rng.random() < .35:
            return self.rng.choice(b)
        x = f()
        b.append(x)
        return x
    def value_type(self):
        return self.named('Value')
    def named(self, n):
        r = self.ip.__dict__.setdefault('_named', {}).get(n)
        if r is None:
            for i, t in enumerate(self.ip.crate.types):
                if t['k'] == 'adt' and t['path'].split('::')[-1] == n:
                    r = i
                    break
            else:
                raise NoEval('type ' + n)
            self.ip._named[n] = r
        return r
    # ---------------------------------------------------------- lazies
    def variants(self, l):
        t = self.ip.ty(l.ty)
        a = self.ip.crate.adts[t['id']]
        return a, [(self.ip.vn(a, i), v['fields']) for i, v in enumerate(a['variants'])]
    def force(self, l, allowed=None):
        if l.v is None:
            a, vs = self.variants(l)
            c = [x for x in vs if allowed is None or x[0] in allowed]
            if not c:
                raise Undef('no variant')
            if l.d > 6:
                m = min(len(x[1]) for x in c)
                c = [x for x in c if len(x[1]) == m]
            l.v = self.rng.choice(c)[0]
            p = self.roles.get('prefer') if self.roles else None
            if p and self.rng.random() < .5:
                c = [x[0] for x in c if x[0] in p]
                if c:
                    l.v = self.rng.choice(c)
        return l.v
    def field(self, l, variant, i):
        if variant is not None:
            if l.v is None:
                l.v = variant
            elif l.v != variant:
                raise Undef('field of another variant')
        else:
            self.force(l)
        if i not in l.f:
            t = self.ip.ty(l.ty)
            a, vs = self.variants(l)
            fs = dict(vs)[l.v]
            ft = fs[i]['ty'] if isinstance(fs[i], dict) else fs[i]
            if ft is None:
                l.f[i] = Op(f'{l.name}.{i}', None)
                return l.f[i]
            ft = self.inst(ft, [y for y in t['args'] if isinstance(y, int)])
            l.f[i] = self.gen(ft, l.d + 1, f'{l.name}.{i}')
        return l.f[i]
    def inst(self, ti, args):
        """type with its parameters replaced"""
        memo = self.ip.__dict__.setdefault('_inst', {})
        k = (ti, tuple(args))
        if k in memo:
            return memo[k]
        t = self.ip.ty(ti)
        if t['k'] == 'param':
            if t['i'] >= len(args):
                raise NoEval('generic field')
            r = args[t['i']]
        else:
            d = dict(t)
            for f in ('t', 'ts', 'args'):
                x = d.get(f)
                if isinstance(x, int) and not isinstance(x, bool):
                    d[f] = self.inst(x, args)
                elif isinstance(x, list):
                    d[f] = [self.inst(y, args) if isinstance(y, int) and not isinstance(y, bool) else y for y in x]
            r = ti
            if d != t:
                self.ip.crate.types.append(d)
                r = len(self.ip.crate.types) - 1
        memo[k] = r
        return r
    def var(self, x):
        return x.v if isinstance(x, A) else self.force(x) if isinstance(x, L) else None
    def fields(self, x):
        if isinstance(x, A):
            return x.f
        a, vs = self.variants(x)
        v = self.force(x)
        return tuple(self.field(x, v, i) for i in range(len(dict(vs)[v])))
    def freeze(self, x, full=False):
        if isinstance(x, L):
            if not full and self.ip.ty(x.ty)['path'].split('::')[-1] in AST:
                return ('L', id(x))
            return ('A', self.var(x)) + tuple(self.freeze(y, full) for y in self.fields(x))
        if isinstance(x, A):
            return ('A', x.v) + tuple(self.freeze(y, full) for y in x.f)
        if isinstance(x, tuple):
            return (type(x).__name__,) + tuple(self.freeze(y, full) for y in x)
        if isinstance(x, Num):
            return x.key()
        if isinstance(x, Op):
            return ('O', id(x)) if not isinstance(x.n, tuple) else ('O', x.n)
        if isinstance(x, float):
            return ('f', repr(x))
        if isinstance(x, bool):
            return ('b', x)
        return x
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (A, L)) and isinstance(b, (A, L)):
            if self.var(a) != self.var(b):
                return False
            fa, fb = self.fields(a), self.fields(b)
            return len(fa) == len(fb) and all(self.same(x, y) for x, y in zip(fa, fb))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return type(a) is type(b) and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return self.freeze(a) == self.freeze(b)
    # ---------------------------------------------------------- evaluation
    def fun(self, key, f):
        r = self.funs.get(key)
        if r is None:
            r = self.funs[key] = (f(),)
        return r[0]
    def coin(self, *key):
        return self.fun(('coin',) + key, lambda: self.rng.random() < .5)
    def ev(self, t, env=None):
        env = env or {}
        fr = canon(t)
        if not t.args:
            key = t
        elif fr:
            key = (t,) + tuple((i, id(env.get(('el', i))), env.get(('pos', i)), id(env.get(('acc', i)))) for i in sorted(fr, key=str))
        else:
            key = t
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        r = self._ev(t, env)
        self.memo[key] = (r, env)
        return r
    def seqv(self, t, env):
        x = self.ev(t, env)
        if not isinstance(x, tuple):
            raise NoEval(f'not a sequence: {show(t)[:80]}')
        return x
    def opt(self, x):
        return A('None') if x is None else A('Some', x)
    def num(self, x):
        if isinstance(x, Num):
            return x
        raise NoEval('number')
    def flt(self, x):
        if isinstance(x, (int, float)):
            return float(x)
        raise NoEval('float')
    def _ev(self, t, env):
        o, a = t.op, t.args
        E = lambda x: self.ev(x, env)
        h = self.hooks.get(o)
        if h is not None:
            return h(self, t, env)
        if o == 'int' or o == 'bool':
            return a[0]
        if o == 'char':
            return chr(a[0])
        if o == 'str':
            return tuple(a[0])
        if o == 'empty':
            return ()
        if o == 'float':
            return float(str(a[0]).replace('_', '').replace('f64', ''))
        if o == 'sym':
            if a[0] not in self.syms:
                if a[0] not in self.types:
                    raise NoEval('untyped ' + a[0])
                self.hint = self.want.get(t)
                self.syms[a[0]] = self.gen(self.types[a[0]], 0, a[0]) if isinstance(self.types[a[0]], int) else self.types[a[0]](self)
                self.hint = None
            return self.syms[a[0]]
        if o in ('el', 'pos', 'acc'):
            if (o, a[0]) not in env:
                raise NoEval('free variable')
            return env[(o, a[0])]
        if o == 'ite':
            return E(a[1]) if E(a[0]) else E(a[2])
        if o == 'not':
            return not E(a[0])
        if o == 'isin':
            x = E(a[0])
            if not isinstance(x, (A, L)):
                raise NoEval('variant of ' + repr(x)[:40])
            return self.var(x) in a[1]
        if o == 'fld':
            x = E(a[0])
            if isinstance(x, L):
                self.hint = self.want.get(t)
                r = self.field(x, a[1], a[2])
                self.hint = None
                return r
            if isinstance(x, A):
                if a[1] is not None and x.v != a[1]:
                    raise Undef('field of another variant')
                return x.f[a[2]]
            if isinstance(x, tuple):
                return x[a[2]]
            raise NoEval('field of ' + repr(x)[:40])
        if o == 'adt':
            return A(a[1], *[E(x) for x in a[2:]])
        if o == 'tuple':
            return Tp(E(x) for x in a)
        if o == 'lin':
            return a[0] + sum(k * E(x) for x, k in a[1])
        if o == 'mul':
            return E(a[0]) * E(a[1])
        if o == 'le0':
            return E(a[0]) <= 0
        if o == 'eq0':
            return E(a[0]) == 0
        if o == 'one':
            return (E(a[0]),)
        if o == 'cat':
            r = ()
            for x in a:
                r = r + self.seqv(x, env)
            return r
        if o in ('len', 'iter_count'):
            return len(self.seqv(a[0], env))
        if o == 'nth':
            s, i = self.seqv(a[0], env), E(a[1])
            if not 0 <= i < len(s):
                raise Undef('index')
            return s[i]
        if o == 'drop':
            return self.seqv(a[0], env)[max(0, E(a[1])):]
        if o == 'take':
            return self.seqv(a[0], env)[:max(0, E(a[1]))]
        if o == 'rev':
            return self.seqv(a[0], env)[::-1]
        if o == 'enum':
            return tuple(Tp((i, x)) for i, x in enumerate(self.seqv(a[0], env)))
        if o == 'zip':
            return tuple(Tp(x) for x in zip(self.seqv(a[0], env), self.seqv(a[1], env)))
        if o == 'range':
            lo, hi, st = E(a[0]), E(a[1]), E(a[2])
            if st == 0:
                raise Undef('step')
            r = range(lo, hi, st)
            if len(r) > 3000:
                raise Undef('long range')
            return tuple(r)
        if o == 'stepby':
            return self.seqv(a[0], env)[::E(a[1])]
        if o == 'join':
            s, sep = self.seqv(a[0], env), E(a[1])
            r = ()
            for i, x in enumerate(s):
                r = r + (sep if i else ()) + x
            return r
        if o == 'repeat':
            return self.seqv(a[0], env) * E(a[1])
        if o in BINDERS:
            return self.binder(t, env)
        if o == 'beq':
            return self.same(E(a[0]), E(a[1]))
        if o == 'veq':
            return self.freeze(E(a[0])) == self.freeze(E(a[1]))
        if o == 'numeq':
            x, y = self.num(E(a[0])), self.num(E(a[1]))
            return x.k == y.k and x.x == y.x
        if o == 'num_i64':
            n = self.num(E(a[0]))
            return self.opt(n.x if n.k != 'f' and n.x < 1 << 63 else None)
        if o == 'num_u64':
            n = self.num(E(a[0]))
            return self.opt(n.x if n.k == 'p' else None)
        if o == 'num_f64':
            return float(self.num(E(a[0])).x)
        if o == 'num_is_f64':
            return self.num(E(a[0])).k == 'f'
        if o == 'num_is_u64':
            return self.num(E(a[0])).k == 'p'
        if o == 'i2f':
            return float(E(a[0]))
        if o == 'f2i':
            x = E(a[1])
            lo, hi = interp.INT_RANGE[a[0]]
            return max(lo, min(hi, int(x))) if math.isfinite(x) else 0
        if o == 'feq':
            return self.flt(E(a[0])) == self.flt(E(a[1]))
        if o == 'flt':
            return self.flt(E(a[0])) < self.flt(E(a[1]))
        if o == 'fle':
            return self.flt(E(a[0])) <= self.flt(E(a[1]))
        if o == 'fneg':
            return -self.flt(E(a[0]))
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fmin', 'fmax') and len(a) == 2:
            x, y = self.flt(E(a[0])), self.flt(E(a[1]))
            try:
                return {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y, 'frem': lambda: math.fmod(x, y), 'fmin': lambda: min(x, y), 'fmax': lambda: max(x, y)}[o]()
            except (ZeroDivisionError, ValueError, OverflowError):
                raise Undef(o)
        if o in ('div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr') and len(a) == 2:
            x, y = E(a[0]), E(a[1])
            if not isinstance(x, int) or not isinstance(y, int):
                raise NoEval(o)
            if o in ('div', 'rem'):
                if y == 0:
                    raise Undef(o)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if o == 'div' else x - q * y
            if o in ('shl', 'shr') and not 0 <= y < 128:
                raise Undef(o)
            return {'bitand': lambda: x & y, 'bitor': lambda: x | y, 'bitxor': lambda: x ^ y, 'shl': lambda: x << y, 'shr': lambda: x >> y}[o]()
        if o == 'wrap':
            lo, hi = interp.INT_RANGE[a[0]]
            return lo + (E(a[1]) - lo) % (hi - lo + 1)
        if o == 'pow':
            x, y = E(a[0]), E(a[1])
            if not isinstance(y, int) or not 0 <= y < 200:
                raise Undef(o)
            return x ** y
        if o == 'boundary':
            b = ''.join(self.seqv(a[0], env)).encode('utf8', 'surrogatepass')
            ok = lambda i: 0 <= i <= len(b) and (i == len(b) or b[i] & 0xC0 != 0x80)
            i, j = E(a[1]), E(a[2])
            return ok(i) and ok(j) and i <= j
        if o == 'bslice':
            b = ''.join(self.seqv(a[0], env)).encode('utf8', 'surrogatepass')
            i, j = E(a[1]), E(a[2])
            try:
                if not 0 <= i <= j <= len(b):
                    raise Undef('slice')
                return tuple(b[i:j].decode('utf8', 'surrogatepass'))
            except UnicodeDecodeError:
                raise Undef('slice')
        if o == 'eqic':
            low = lambda z: ''.join(c.lower() if ord(c) < 128 else c for c in z)
            return low(E(a[0])) == low(E(a[1]))
        if o == 'fround':
            x = self.flt(E(a[0]))
            return math.copysign(math.floor(abs(x) + .5), x)
        if o in ('fis_nan', 'fis_finite', 'fis_infinite', 'fis_sign_negative', 'fis_sign_positive'):
            x = self.flt(E(a[0]))
            return {'fis_nan': math.isnan(x), 'fis_finite': math.isfinite(x), 'fis_infinite': math.isinf(x), 'fis_sign_negative': math.copysign(1, x) < 0, 'fis_sign_positive': math.copysign(1, x) > 0}[o]
        if o in ('ffract', 'ftrunc', 'ffloor', 'fceil', 'fabs'):
            x = self.flt(E(a[0]))
            return {'ffract': lambda: x - math.trunc(x), 'ftrunc': lambda: float(math.trunc(x)), 'ffloor': lambda: float(math.floor(x)),
                    'fceil': lambda: float(math.ceil(x)), 'fabs': lambda: abs(x)}[o]()
        if o == 'slt':
            return [ord(c) for c in E(a[0])] < [ord(c) for c in E(a[1])]
        if o == 'ord':
            return ord(E(a[0]))
        if o == 'chr':
            x = E(a[0])
            if 0xD800 <= x <= 0xDFFF or not 0 <= x <= 0x10FFFF:
                raise Undef('char')
            return chr(x)
        if o == 'blen':
            return len(''.join(self.seqv(a[0], env)).encode('utf8', 'surrogatepass'))
        if o == 'boff':
            v, k = self.seqv(a[0], env), E(a[1])
            if not 0 <= k <= len(v):
                raise Undef('position')
            return len(''.join(v[:k]).encode('utf8', 'surrogatepass'))
        if o == 'run':
            v, k = self.seqv(a[0], env), E(a[1])
            n = k
            while 0 <= n < len(v) and any(lo <= ord(v[n]) <= hi for lo, hi in a[2]):
                n += 1
            return n - k
        if o == 'utf8':
            return tuple(''.join(self.seqv(a[0], env)).encode('utf8', 'surrogatepass'))
        if o == 'replace':
            s, x, y = (''.join(self.seqv(z, env)) for z in a)
            return tuple(s.replace(x, y))
        if o == 'chain':
            out, x = [], E(a[0])
            while self.var(x) == 'Some' and len(out) < 40:
                n = self.fields(x)[0]
                out.append(n)
                x = self.fields(n)[a[2]]
            return tuple(out)
        if o == 'mget':
            m, k = self.seqv(a[0], env), E(a[1])
            for e in m:
                if e[0] == k:
                    return A('Some', e[1])
            return A('None')
        if o == 'hget':
            m, k = E(a[0]), E(a[1])
            def g():
                if self.rng.random() < .4:
                    return A('None')
                vt = [x for x in self.ip.ty(m.ty)['args'] if isinstance(x, int)][1] if isinstance(m, Op) and m.ty is not None else None
                if vt is None:
                    raise NoEval('map value type')
                return A('Some', self.gen(vt, 1, f'{m}[{k}]'))
            return self.fun(('hget', self.freeze(m), self.freeze(k)), g)
        if o == 'dec':
            return tuple(str(E(a[0])))
        if o == 'disp':
            x = E(a[0])
            if isinstance(x, (A, L, Op, Num, float)):
                return self.fun(('disp', self.freeze(x, True)), lambda: tuple(f'<{len(self.funs)}>'))
            if isinstance(x, bool):
                return tuple('true' if x else 'false')
            if isinstance(x, int):
                return tuple(str(x))
            return tuple(x)
        if o == 'fdec':
            return tuple(rust_float(self.flt(E(a[0]))))
        if o == 'fmt':
            flags, width, prec = a[1], a[2], a[3]
            kind, v = a[0], E(a[4])
            if kind in ('x', 'X') and isinstance(v, int) and not isinstance(v, bool):
                s = format(v, kind)
            elif kind == 'd' and isinstance(v, float) and not flags & (1 << 21):
                s = rust_float(v) if not prec else format(v, f'.{prec}f')
            else:
                raise NoEval('fmt')
            if width and len(s) < width:
                s = s.rjust(width, '0' if flags & (1 << 24) or flags & 8 else ' ')
            return tuple(s)
        if o in ('hex', 'hexu'):
            return tuple(format(E(a[0]), 'x' if o == 'hex' else 'X'))
        if o == 'call':
            role = a[0]
            args = [E(x) for x in a[1:]]
            rt = self.roles.get(role)
            if rt is None:
                raise NoEval('role ' + role)
            return self.fun(('call', role) + tuple(self.freeze(x) for x in args), lambda: self.gen(rt, 2, role) if isinstance(rt, int) else rt(self, args))
        if o == 'dyn':
            args = [E(x) for x in a[1:]]
            rt = self.dynty(a[0])
            return self.fun(('dyn', a[0]) + tuple(self.freeze(x) for x in args), lambda: self.gen(rt, 2, a[0]))
        if o == 'regex':
            x = self.freeze(E(a[0]))
            return A('Ok', Op(('re', x))) if self.coin('regex', x) else A('Err', Op(('reerr', x)))
        if o == 'rx':
            x = self.freeze(E(a[0]))
            return A('Ok', Op(('re', a[1], x))) if self.coin('regex', x) else A('Err', Op(('reerr', x)))
        if o == 'lruhit':
            return self.coin('lruhit', self.freeze(E(a[0])), self.freeze(E(a[1])))
        if o == 'ismatch':
            return self.coin('ismatch', self.freeze(E(a[0])), self.freeze(E(a[1])))
        if o == 'iregexp':
            return self.coin('iregexp', self.freeze(E(a[0])))
        if o.startswith('char_'):
            c = E(a[0])
            return {'char_is_alphabetic': c.isalpha, 'char_is_numeric': c.isnumeric, 'char_is_alphanumeric': c.isalnum, 'char_is_whitespace': c.isspace,
                    'char_is_uppercase': c.isupper, 'char_is_lowercase': c.islower}[o]()
        if o.startswith('str_'):
            return self.strop(o[4:], [E(x) for x in a])
        if o == 'panic' or o == 'any':
            raise Undef(o)
        if o == 'static':
            return Op(('static', a[0]))
        if o in ('zst', 'fnref', 'opaque', 'constitem', 'lru'):
            return Op((o, t.n))
        if o == 'closure':
            return A('closure', a[0], *[E(x) for x in a[1:]])
        if o == 'fromutf8':
            try:
                return A('Ok', tuple(bytes(E(a[0])).decode('utf8')))
            except (UnicodeDecodeError, ValueError):
                return A('Err', Op(('utf8 error',)))
        if o == 'radix' or o == 'parse':
            ty = a[0]
            s = ''.join(E(a[1]))
            base_ = E(a[2]) if o == 'radix' else 10
            if ty in interp.INT_RANGE:
                lo, hi = interp.INT_RANGE[ty]
                d = s[1:] if s[:1] in ('+', '-') and lo < 0 else s[1:] if s[:1] == '+' else s
                ok = d != '' and all(c in '0123456789abcdefABCDEF' and int(c, 16) < base_ for c in d)
                n = int(s, base_) if ok else None
                if n is None or not lo <= n <= hi:
                    return A('Err', Op(('parse', s, ty)))
                return A('Ok', n)
            if ty in ('f64', 'float'):
                try:
                    return A('Ok', float(s))
                except ValueError:
                    return A('Err', Op(('parse', s, ty)))
        raise NoEval(o)
    def strop(self, n, a):
        s = ''.join(a[0])
        if n == 'repeat' and isinstance(a[1], int):
            return tuple(s * min(a[1], 100))
        x = [''.join(y) if isinstance(y, tuple) else y for y in a[1:]]
        if any(not isinstance(y, str) for y in x):
            raise NoEval('str_' + n)
        if n == 'starts_with': return s.startswith(x[0])
        if n == 'ends_with': return s.endswith(x[0])
        if n == 'contains': return x[0] in s
        if n in ('find', 'rfind'):
            i = getattr(s, n)(x[0])
            return A('None') if i < 0 else A('Some', len(s[:i].encode('utf8')))
        if n == 'trim': return tuple(s.strip())
        if n == 'trim_start': return tuple(s.lstrip())
        if n == 'trim_end': return tuple(s.rstrip())
        if n == 'strip_prefix': return A('Some', tuple(s[len(x[0]):])) if s.startswith(x[0]) else A('None')
        if n == 'strip_suffix': return A('Some', tuple(s[:len(s) - len(x[0])])) if s.endswith(x[0]) else A('None')
        if n == 'split': return tuple(tuple(p) for p in s.split(x[0]))
        if n == 'to_lowercase': return tuple(s.lower())
        if n == 'to_uppercase': return tuple(s.upper())
        if n in ('trim_start_matches', 'trim_end_matches', 'trim_matches') and x[0]:
            while n != 'trim_end_matches' and s.startswith(x[0]):
                s = s[len(x[0]):]
            while n != 'trim_start_matches' and s.endswith(x[0]):
                s = s[:len(s) - len(x[0])]
            return tuple(s)
        if n == 'split_once':
            i = s.find(x[0])
            return A('None') if i < 0 else A('Some', Tp((tuple(s[:i]), tuple(s[i + len(x[0]):]))))
        if n in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            up = n.endswith('uppercase')
            return tuple((c.upper() if up else c.lower()) if ord(c) < 128 else c for c in s)
        if n == 'rsplit': return tuple(tuple(p) for p in s.split(x[0]))[::-1]
        if n == 'matches': return tuple(tuple(x[0]) for _ in range(s.count(x[0])))
        raise NoEval('str_' + n)
    def dynty(self, m):
        c = self.ip.crate
        for f in c.fns.values():
            if f.path.split('::')[-1] == m and '{closure' not in f.path and f.args >= 1:
                return f.locals[0]
        raise NoEval('dyn ' + m)
    def binder(self, t, env):
        o, h = t.op, t.args[0]
        nat = isinstance(t.args[1], TM.T) and t.args[1].op == 'nat'
        src = ((i, i) for i in range(FUEL)) if nat else enumerate(self.seqv(t.args[1], env))
        bodies = binder_bodies(t)
        e2 = dict(env)
        self.keep.append(src)
        acc = self.ev(t.args[2], env) if o in ('fold', 'tryfold') else None
        out, past = [], None
        for i, x in src:
            e2 = dict(e2)
            self.keep.append(e2)
            e2[('el', h)] = x
            e2[('pos', h)] = i
            past = acc
            if acc is not None:
                e2[('acc', h)] = acc
                self.keep.append(acc)
            b = self.ev(bodies[0], e2)
            if o == 'for':
                if not isinstance(b, tuple):
                    raise NoEval('for body')
                out.extend(b)
            elif o == 'exists':
                if b:
                    return True
            elif o == 'first':
                if b:
                    return A('Some', Tp((i, x)))
            elif o == 'tryfor':
                v = self.var(b)
                y = self.fields(b)[0]
                if v == 'Err':
                    return A('Err', y)
                out.extend(y)
            elif o == 'fold':
                acc = b
            elif o == 'tryfold':
                v = self.var(b)
                y = self.fields(b)[0]
                if v == 'Err':
                    return A('Err', y)
                acc = y
        if nat:
            if not counts(bodies[0], h) and (past is None or repeats(past, acc)):
                raise Diverge(f'after {FUEL} steps a loop is in the state it was in before')
            raise NoEval('loop does not end')
        if o == 'for':
            return tuple(out)
        if o == 'exists':
            return False
        if o == 'first':
            return A('None')
        if o == 'tryfor':
            return A('Ok', tuple(out))
        if o == 'fold':
            return acc
        return A('Ok', acc)
    # ---------------------------------------------------------- steering into a row
    def steer(self, trail):
        """choose the leaves so that the conditions of a decision path hold"""
        self.want, al = wants(trail), {}
        for c, val in trail:
            if c.op == 'isin' and not c.fv:
                try:
                    u = TM.REG[c.args[1][0]][1]
                except KeyError:
                    continue
                x = al.get(c.args[0], frozenset(u))
                al[c.args[0]] = x & frozenset(c.args[1]) if val else x - frozenset(c.args[1])
        for c, val in trail:
            if c.fv:
                continue
            try:
                if c.op == 'isin':
                    x = self.ev(c.args[0])
                    if isinstance(x, L) and x.v is None and c.args[0] in al:
                        self.force(x, al[c.args[0]])
                        continue
                if bool(self.ev(c)) != val:
                    return False
            except Undef:
                return False
        return True

FUEL = 5000
def counts(t, h):
    """does the body of a loop use the number of the step"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, TM.T) and x not in seen:
            seen.add(x)
            if x.op in ('el', 'pos') and x.args[0] == h:
                return True
            st += x.args
    return False
def repeats(a, b):
    """b is a, but for sequences that have grown at their end"""
    if a is b:
        return True
    if isinstance(a, Tp) and isinstance(b, Tp):
        return len(a) == len(b) and all(repeats(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b[:len(a)]
    if isinstance(a, A) and isinstance(b, A):
        return a.v == b.v and len(a.f) == len(b.f) and all(repeats(x, y) for x, y in zip(a.f, b.f))
    try:
        return bool(a == b)
    except Exception:
        return False
_want = {}
def wants(trail):
    """bounds of single integers and lengths, and string constants, that a decision path asks for"""
    r = _want.get(trail)
    if r is not None:
        return r
    out = {}
    for c, val in trail:
        if c.fv:
            continue
        if c.op in ('le0', 'eq0'):
            k, d = lin_of(c.args[0])
            if len(d) != 1:
                continue
            (x, m), = d.items()
            if abs(m) != 1:
                continue
            x = x.args[0] if x.op == 'len' else x
            lo, hi = out.get(x, (-(1 << 64), 1 << 64)) if not isinstance(out.get(x), str) else (-(1 << 64), 1 << 64)
            if c.op == 'eq0':
                if not val:
                    continue
                lo = hi = -k * m
            elif val == (m == 1):
                # m*x + k <= 0 with m = 1, or its negation with m = -1
                hi = min(hi, -k if m == 1 else k - 1)
            else:
                lo = max(lo, 1 - k if m == 1 else k)
            out[x] = (lo, hi)
        elif c.op == 'beq' and val:
            x, y = c.args
            for p, q in ((x, y), (y, x)):
                if q.op in ('str', 'empty'):
                    out[p] = q.args[0] if q.args else ''
    _want[trail] = out
    return out

def rust_float(x):
    """Display of an f64"""
    if x != x:
        return 'NaN'
    if x in (math.inf, -math.inf):
        return 'inf' if x > 0 else '-inf'
    import decimal
    r = format(decimal.Decimal(repr(x)), 'f')
    return r[:-2] if r.endswith('.0') else r
def describe(v, types):
    out = []
    for s, x in v.syms.items():
        out.append(f'{s} = {plain(v, x)}')
    for k, x in v.funs.items():
        if k[0] in ('call', 'dyn'):
            out.append(f'{k[1]}(..) = {plain(v, x[0])}')
    return '; '.join(out)[:1500]
def plain(v, x, d=0):
    if d > 8:
        return '…'
    if isinstance(x, L):
        if x.v is None:
            return x.name
        fs = [plain(v, x.f[i], d + 1) if i in x.f else '_' for i in range(max(x.f, default=-1) + 1)]
        return x.v + (f"({', '.join(fs)})" if fs else '')
    if isinstance(x, A):
        return x.v + (f"({', '.join(plain(v, y, d + 1) for y in x.f)})" if x.f else '')
    if isinstance(x, Tp):
        return '(' + ', '.join(plain(v, y, d + 1) for y in x) + ')'
    if isinstance(x, tuple):
        if x and all(isinstance(c, str) and len(c) == 1 for c in x):
            return repr(''.join(x))
        return '[' + ', '.join(plain(v, y, d + 1) for y in x) + ']'
    return repr(x)
