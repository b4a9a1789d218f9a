"""Hash-consed terms of the value-flow domain, with smart constructors that keep them in normal form.

Values are pure: references, boxes and Rc are transparent, strings are sequences of characters,
vectors, slices, strings and iterators are all sequences.  Sequences have a comprehension normal form
(empty, one, cat, for) over base sequences.  Binders use canonical indices so that alpha-equivalent
terms are identical objects.
"""
import itertools

class Unk(Exception):
    """The analysis cannot describe this construct (three-valued result: undecided)."""

class T:
    __slots__ = ('op', 'args', 'n', 'height', 'fv', 'unk', '__weakref__')
    def __repr__(self):
        return show(self)

_tab = {}
_ctr = itertools.count()
BINDERS = {'for', 'exists', 'tryfor', 'fold', 'tryfold', 'first'}
_E = frozenset()

def _walk_attrs(a, hs, fvs):
    """collect heights / fvs / unk from nested args"""
    unk = False
    if isinstance(a, T):
        hs.append(a.height)
        if a.fv:
            fvs.append(a.fv)
        return a.unk
    if isinstance(a, tuple):
        for x in a:
            if _walk_attrs(x, hs, fvs):
                unk = True
    return unk

def raw(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is not None:
        return t
    if DEAD in args and op not in BINDERS:
        return DEAD
    t = T()
    t.op = op
    t.args = args
    t.n = next(_ctr)
    hs = [0]
    fvs = []
    unk = op == 'unk'
    for a in args:
        if _walk_attrs(a, hs, fvs):
            unk = True
    h = max(hs)
    fv = frozenset().union(*fvs) if fvs else _E
    if op in ('el', 'pos', 'hav', 'acc') and isinstance(args[0], str):
        fv = fv | {args[0]}
    if op in BINDERS:
        h = args[0]           # args[0] is the canonical binder index
    t.height = h
    t.fv = fv
    t.unk = unk
    _tab[key] = t
    return t

DEAD = None
_uid = itertools.count()
def fresh(p='t'):
    return f'{p}{next(_uid)}'

# ---------------------------------------------------------------- basic values
def Int(n): return raw('int', n)
def Bool(b): return raw('bool', bool(b))
TRUE, FALSE = Bool(True), Bool(False)
EMPTY = raw('empty')
DEAD = raw('dead')         # a value that is only read on impossible paths
UNIT = raw('tuple')
def Str(s): return raw('str', s) if s else EMPTY
def Char(c): return raw('char', c if isinstance(c, int) else ord(c))
def Sym(name): return raw('sym', name)
def unk(why): return raw('unk', why)
def Tup(*xs): return raw('tuple', *xs)

REG = {}        # variant name -> (adt path, variant names of the type, number of fields)
def register(path, variants):
    """variants: [(qualified name, number of fields)]"""
    u = tuple(v for v, _ in variants)
    for v, n in variants:
        REG[v] = (path, u, n)
SHORT = {'core::option::Option', 'core::result::Result', 'core::cmp::Ordering', 'core::ops::control_flow::ControlFlow'}
def vname(path, variant, nvar=2):
    if path in SHORT:
        return variant
    last = path.split('::')[-1]
    return last if variant == last and nvar == 1 else f'{last}::{variant}'
register('core::option::Option', [('None', 0), ('Some', 1)])
register('core::result::Result', [('Ok', 1), ('Err', 1)])
register('core::cmp::Ordering', [('Less', 0), ('Equal', 0), ('Greater', 0)])
register('core::ops::control_flow::ControlFlow', [('Continue', 1), ('Break', 1)])

def adt(name, variant, *fields):
    # eta: rebuilding a value from all of its own fields
    if fields and fields[0].op == 'fld':
        b = fields[0].args[0]
        r = REG.get(variant)
        if r and r[2] == len(fields) and all(f.op == 'fld' and f.args[0] is b and f.args[1] == variant and f.args[2] == i for i, f in enumerate(fields)):
            return b
    return raw('adt', name, variant, *fields)

OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
def Some(x): return adt(OPTION, 'Some', x)
NONE = raw('adt', OPTION, 'None')
def Ok(x): return adt(RESULT, 'Ok', x)
def Err(x): return adt(RESULT, 'Err', x)
UNIVERSE = {}    # term -> tuple of variant names
OPTU = ('None', 'Some')
RESU = ('Ok', 'Err')

# ---------------------------------------------------------------- linear integers
INTB = {}        # term -> (lo, hi)
OPB = {'len': (0, 2**63 - 1), 'pos': (0, 2**63 - 1), 'blen': (0, 2**63 - 1), 'ord': (0, 0x10FFFF), 'iter_count': (0, 2**63 - 1)}
def bounds(t):
    b = OPB.get(t.op)
    if b is not None:
        return b
    b = INTB.get(t)
    if b is not None:
        return b
    if t.op == 'fld' and t.args[0].op in ('num_i64', 'parse'):
        if t.args[0].op == 'num_i64' or t.args[0].args[0] == 'i64':
            return (-(1 << 63), (1 << 63) - 1)
    if t.op in ('bitand', 'bitor', 'bitxor', 'shl', 'shr'):
        return bit_bounds(t)
    return None
def bit_bounds(t):
    def of(x):
        return (x.args[0], x.args[0]) if x.op == 'int' else bounds(x)
    x, y = of(t.args[0]), of(t.args[1])
    nn = [b for b in (x, y) if b is not None and b[0] >= 0]
    if t.op == 'bitand' and nn:
        return (0, min(b[1] for b in nn))
    if t.op in ('bitor', 'bitxor') and len(nn) == 2:
        return (0, (1 << max(x[1], y[1]).bit_length()) - 1)
    if len(nn) == 2 and y[0] == y[1] and y[1] < 64:
        if t.op == 'shl' and x[1] << y[1] < 1 << 31:
            return (x[0] << y[1], x[1] << y[1])
        if t.op == 'shr':
            return (x[0] >> y[1], x[1] >> y[1])
    return None
def lin_of(t):
    if t.op == 'int':
        return t.args[0], {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}

def lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return raw('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].n)))

def add(a, b, k=1):
    if a.op == 'ite':
        return ite(a.args[0], add(a.args[1], b, k), add(a.args[2], b, k))
    if b.op == 'ite':
        return ite(b.args[0], add(a, b.args[1], k), add(a, b.args[2], k))
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    d = dict(d1)
    for t, v in d2.items():
        d[t] = d.get(t, 0) + k * v
    return lin(c1 + k * c2, d)
def sub(a, b): return add(a, b, -1)
def mulc(a, k):
    if a.op == 'ite':
        return ite(a.args[0], mulc(a.args[1], k), mulc(a.args[2], k))
    c, d = lin_of(a)
    return lin(c * k, {t: v * k for t, v in d.items()})
def mul(a, b):
    if a.op == 'ite':
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    if a.op == 'int':
        return mulc(b, a.args[0])
    if b.op == 'int':
        return mulc(a, b.args[0])
    x, y = sorted((a, b), key=lambda t: t.n)
    return raw('mul', x, y)

from math import gcd
def _norm_le(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)        # sum <= -c  ->  floor
    return c, d

def le0(t):
    """boolean term  t <= 0"""
    if t.op == 'ite':
        return ite(t.args[0], le0(t.args[1]), le0(t.args[2]))
    c, d = lin_of(t)
    if not d:
        return Bool(c <= 0)
    if c in (0, 1) and len(d) == 2:
        r = _offsets(d)
        if r is not None:
            return le0(add(sub(*r), Int(c)))
    c, d = _norm_le(c, d)
    items = sorted(d.items(), key=lambda kv: kv[0].n)
    if items[0][1] < 0:
        # not (1 - t <= 0)
        c2, d2 = _norm_le(1 - c, {k: -v for k, v in d.items()})
        return Not(raw('le0', lin(c2, d2)))
    return raw('le0', lin(c, d))
def _offsets(d):
    """(i, j) when the sum is the offset of the i-th character of a text minus that of the j-th: offsets order like positions"""
    (x, p), (y, q) = d.items()
    if x.op == y.op == 'boff' and x.args[0] is y.args[0] and p + q == 0 and abs(p) == 1:
        return (x.args[1], y.args[1]) if p == 1 else (y.args[1], x.args[1])
    return None
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), Int(1)))
def ieq(a, b):
    t = sub(a, b)
    if t.op == 'ite':
        return ite(t.args[0], ieq(t.args[1], Int(0)), ieq(t.args[2], Int(0)))
    c, d = lin_of(t)
    if not d:
        return Bool(c == 0)
    if c == 0 and len(d) == 2:
        r = _offsets(d)
        if r is not None:
            return ieq(*r)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if c % g:
        return FALSE
    c //= g
    d = {k: v // g for k, v in d.items()}
    items = sorted(d.items(), key=lambda kv: kv[0].n)
    if items[0][1] < 0:
        c, d = -c, {k: -v for k, v in d.items()}
    if len(d) == 1:
        r = _high_bits(items[0][0], -c)
        if r is not None:
            return r
    return raw('eq0', lin(c, d))
def _high_bits(t, v):
    """x & m == v or x >> n == v as a range of x, where m keeps all but some low bits"""
    if t.op not in ('bitand', 'shr') or t.args[1].op != 'int' and t.args[0].op != 'int':
        return None
    x, m = t.args
    if t.op == 'shr':
        if m.op != 'int' or not 0 <= m.args[0] < 64 or x.op == 'int':
            return None
        n = 1 << m.args[0]
        lo = v * n
    else:
        if x.op == 'int':
            x, m = m, x
        m = m.args[0]
        b = bounds(x)
        n = m & -m if m > 0 else 0
        if not n or b is None or b[0] < 0 or b[1].bit_length() > m.bit_length() or (m + n) & m:
            return None
        if v % n or not 0 <= v <= m:
            return FALSE
        lo = v
    return And(le(Int(lo), x), le(x, Int(lo + n - 1)))

# ---------------------------------------------------------------- booleans and decisions
def Not(a):
    if a.op == 'bool':
        return Bool(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ite':
        return ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
    return raw('not', a)
def And(a, *bs):
    for b in bs:
        a = ite(a, b, FALSE)
    return a
def Or(a, *bs):
    for b in bs:
        a = ite(a, TRUE, b)
    return a

def ite(c, a, b):
    if c.op == 'bool':
        return a if c.args[0] else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ite':
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if a is b:
        return a
    if a is DEAD:
        return b
    if b is DEAD:
        return a
    if c is DEAD:
        return c
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    # eta for Option / Result
    if c.op == 'isin' and a.op == 'adt' and b.op == 'adt':
        r = _eta(c, a, b)
        if r is not None:
            return r
    return raw('ite', c, a, b)

def _eta(c, a, b):
    """if t is V1 { V1(t.0) } else { V2 }  ->  t   (two variants)"""
    t, names = c.args
    r = REG.get(names[0])
    if r is None or len(r[1]) != 2 or len(names) != 1 or a.args[0] != b.args[0]:
        return None
    if len(a.args) == 2 and len(b.args) == 2:
        if a.args[1] == names[0] and b.args[1] != names[0] and a.args[0] == r[0]:
            return t
        return None
    other = [x for x in r[1] if x not in names][0]
    if a.args[1] != names[0] or b.args[1] != other:
        return None
    for x in (a, b):
        for i, f in enumerate(x.args[2:]):
            if not (f.op == 'fld' and f.args[0] is t and f.args[1] == x.args[1] and f.args[2] == i):
                return None
    return t

def isin(t, names, universe=None):
    if isinstance(names, str):
        names = (names,)
    names = tuple(sorted(names))
    if not names:
        return FALSE
    if t.op == 'adt':
        return Bool(t.args[1] in names)
    if t.op == 'ite':
        return ite(t.args[0], isin(t.args[1], names), isin(t.args[2], names))
    r = REG.get(names[0])
    u = r[1] if r else None
    if u is not None:
        if len(names) >= len(u):
            return TRUE
        if len(u) == 2 and names[0] == max(u):
            return Not(isin(t, (min(u),)))
        if len(names) * 2 > len(u):
            return Not(isin(t, tuple(x for x in u if x not in names)))
        if t.op in ('int', 'str', 'tuple', 'bool'):
            return unk('variant test of a ' + t.op)
        if t.op == 'first' and names[0] == 'None':
            return Not(mk_exists_open(t.args[1], *_first_open(t)))
    return raw('isin', t, names)
def _first_open(t):
    uid = fresh()
    return uid, open_(t, raw('el', uid), raw('pos', uid))[0]
def is_some(t): return isin(t, 'Some')
def is_ok(t): return isin(t, 'Ok')

def fld(t, variant, i):
    if t.op == 'adt':
        if variant is not None and t.args[1] != variant:
            return DEAD
        return t.args[2 + i]
    if t.op == 'tuple':
        return t.args[i] if i < len(t.args) else DEAD         # (a tagged tuple, under another tag)
    if t.op == 'closure':
        return t.args[1 + i]
    if t.op == 'ite':
        return ite(t.args[0], fld(t.args[1], variant, i), fld(t.args[2], variant, i))
    if t.op == 'tryfor' and False:
        pass
    return raw('fld', t, variant, i)

# ---------------------------------------------------------------- sequences
def one(x):
    if x.op == 'char':
        return raw('str', chr(x.args[0]))
    return raw('one', x)

def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'cat' else (p,)
        for q in ps:
            if q is EMPTY:
                continue
            if out and out[-1].op == 'str' and q.op == 'str':
                out[-1] = Str(out[-1].args[0] + q.args[0])
                continue
            out.append(q)
    # Cat(body[head S], For(drop S 1, body)) -> For(S, body)  (S known non-empty where head is taken)
    i = 0
    while i + 1 < len(out):
        r = _rejoin(out[i], out[i + 1])
        if r is not None:
            out[i:i + 2] = [r]
        else:
            i += 1
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return raw('cat', *out)

def _rejoin(a, b):
    if b.op == 'drop' and b.args[1].op == 'int' and b.args[1].args[0] >= 1:
        s, k = b.args[0], b.args[1].args[0]
        if a is one(nth(s, Int(k - 1))):
            return drop(s, Int(k - 1))
        return None
    if b.op == 'for' and b.args[1].op == 'drop' and b.args[1].args[1].op == 'int':
        s, k = b.args[1].args[0], b.args[1].args[1].args[0]
        if k >= 1 and not uses_pos(b):
            body = open_(b, nth(s, Int(k - 1)), None)[0]
            if body is a:
                return mk_for(drop(s, Int(k - 1)), lambda e, p: open_(b, e, p)[0])
    return None

def seq_parts(s):
    return s.args if s.op == 'cat' else ((s,) if s is not EMPTY else ())

def length(s):
    o = s.op
    if o == 'empty':
        return Int(0)
    if o == 'one':
        return Int(1)
    if o == 'str':
        return Int(len(s.args[0]))
    if o == 'cat':
        r = Int(0)
        for p in s.args:
            r = add(r, length(p))
        return r
    if o == 'ite':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if o == 'drop':
        return sub(length(s.args[0]), s.args[1])
    if o == 'rev':
        return length(s.args[0])
    if o == 'for' and one_to_one(s):
        return length(s.args[1])
    if o == 'enum':
        return length(s.args[0])
    return raw('len', s)
def is_empty(s):
    if s.op == 'for':
        # empty iff the body is empty for every element
        b = s.args[2]
        if b.op in ('one', 'str'):
            return is_empty(s.args[1])
    if s.op == 'cat':
        return And(*[is_empty(p) for p in s.args])
    if s.op == 'ite':
        return ite(s.args[0], is_empty(s.args[1]), is_empty(s.args[2]))
    return le0(length(s))

def nth(s, i):
    if i.op == 'ite':
        return ite(i.args[0], nth(s, i.args[1]), nth(s, i.args[2]))
    o = s.op
    if o == 'ite':
        return ite(s.args[0], nth(s.args[1], i), nth(s.args[2], i))
    if o == 'one' and i is Int(0):
        return s.args[0]
    if o == 'str' and i.op == 'int' and 0 <= i.args[0] < len(s.args[0]):
        return Char(s.args[0][i.args[0]])
    if o == 'cat' and i.op == 'int':
        k = i.args[0]
        for j, p in enumerate(s.args):
            l = length(p)
            if l.op != 'int':
                if k == 0 and j == 0:
                    break
                return raw('nth', cat(*s.args[j:]), Int(k))
            if k < l.args[0]:
                return nth(p, Int(k))
            k -= l.args[0]
    if o == 'drop':
        return nth(s.args[0], add(s.args[1], i))
    if o == 'for' and s.args[2].op == 'one':
        src = s.args[1]
        b = open_(s, nth(src, i), i)[0]
        return b.args[0]
    if o == 'zip':
        return Tup(nth(s.args[0], i), nth(s.args[1], i))
    if o == 'rev' :
        return nth(s.args[0], sub(sub(length(s.args[0]), Int(1)), i))
    if o == 'range':
        return add(s.args[0], mul(i, s.args[2]))
    return raw('nth', s, i)

def drop(s, k):
    if k is Int(0):
        return s
    o = s.op
    if k.op == 'len' and k.args[0] is s:
        return EMPTY
    if o == 'drop':
        return drop(s.args[0], add(s.args[1], k))
    if k.op == 'int' and k.args[0] > 0:
        n = k.args[0]
        if o == 'one':
            return EMPTY if n == 1 else unk('drop past end')
        if o == 'str':
            return Str(s.args[0][n:])
        if o == 'empty':
            return EMPTY
        if o == 'ite':
            return ite(s.args[0], drop(s.args[1], k), drop(s.args[2], k))
        if o == 'cat':
            l = length(s.args[0])
            if l.op == 'int':
                if l.args[0] >= n:
                    return cat(drop(s.args[0], Int(n)), *s.args[1:])
                return drop(cat(*s.args[1:]), Int(n - l.args[0]))
    return raw('drop', s, k)

def take(s, k):
    if k.op == 'int':
        if k.args[0] == 0:
            return EMPTY
        if s.op == 'str':
            return Str(s.args[0][:k.args[0]])
        if s.op == 'one' and k.args[0] > 0:
            return s
        if s.op == 'cat' and k.args[0] > 0:
            out, n = [], k.args[0]
            for p in s.args:
                l = length(p)
                if l.op != 'int':
                    break
                if n <= l.args[0]:
                    return cat(*out, take(p, Int(n)))
                out.append(p)
                n -= l.args[0]
    if s.op == 'empty':
        return EMPTY
    if k.op == 'len' and k.args[0] is s:
        return s
    return raw('take', s, k)

def rev(s):
    o = s.op
    if o in ('empty', 'one'):
        return s
    if o == 'str':
        return Str(s.args[0][::-1])
    if o == 'rev':
        return s.args[0]
    if o == 'cat':
        return cat(*[rev(p) for p in reversed(s.args)])
    if o == 'ite':
        return ite(s.args[0], rev(s.args[1]), rev(s.args[2]))
    if o == 'for' and not uses_pos(s):
        return mk_for(rev(s.args[1]), lambda e, p: rev(open_(s, e, p)[0]))
    return raw('rev', s)

def one_to_one(f):
    def oto(b):
        if b.op == 'one':
            return True
        if b.op == 'str':
            return len(b.args[0]) == 1
        if b.op == 'ite':
            return oto(b.args[1]) and oto(b.args[2])
        return False
    return oto(f.args[2])

def binder_bodies(t):
    return t.args[2:] if t.op in ('for', 'exists', 'tryfor', 'first') else t.args[3:]

def uses_pos(f):
    return _occurs(f.args[-1], raw('pos', f.args[0]))

_occ_cache = {}
def _occurs(t, x):
    k = (t, x)
    r = _occ_cache.get(k)
    if r is not None:
        return r
    r = False
    if t is x:
        r = True
    else:
        for a in t.args:
            if isinstance(a, T):
                if _occurs(a, x):
                    r = True
                    break
            elif isinstance(a, tuple):
                if any(isinstance(y, T) and _occurs(y, x) or isinstance(y, tuple) and any(isinstance(z, T) and _occurs(z, x) for z in y) for y in a):
                    r = True
                    break
    _occ_cache[k] = r
    return r
def occurs(t, x): return _occurs(t, x)

def close(uid, body):
    """canonical index and body with the temporaries of uid renamed"""
    h = body.height + 1
    m = {raw('el', uid): raw('el', h), raw('pos', uid): raw('pos', h), raw('acc', uid): raw('acc', h)}
    return h, subst(body, m, {uid})

def open_(t, e, p, acc=None):
    """bodies of binder t with el/pos/acc replaced"""
    h = t.args[0]
    m = {raw('el', h): e}
    if p is not None:
        m[raw('pos', h)] = p
    if acc is not None:
        m[raw('acc', h)] = acc
    return [subst_canon(b, m, h) for b in binder_bodies(t)]

def rebuild(t, args):
    f = SC.get(t.op)
    if f is not None:
        return f(*args)
    return raw(t.op, *args)

def _map(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map(x, f) for x in a)
    return a

def subst(t, m, uids):
    """replace temporaries (free variables whose uid is in uids)"""
    memo = {}
    def go(t):
        if not (t.fv & uids):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif t.op in BINDERS:
            r = map_binder(t, go)
        else:
            r = rebuild(t, [_map(a, go) for a in t.args])
        memo[t] = r
        return r
    return go(t)

def subst_canon(t, m, h):
    """replace the canonical variable h that is bound just outside of t"""
    memo = {}
    def go(t):
        if t in m:
            return m[t]
        if t.op in BINDERS:
            # inner binders have smaller indices: no clash with h inside their bodies
            r = memo.get(t)
            if r is None:
                if any(occurs(t, x) for x in m):
                    r = map_binder(t, go)
                else:
                    r = t
                memo[t] = r
            return r
        if not t.args:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        na = [_map(a, go) for a in t.args]
        if all(x is y or x == y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t, na)
        memo[t] = r
        return r
    return go(t)

def map_binder(t, go):
    """apply go to the parts of a binder term (bodies opened with a fresh variable)"""
    uid = fresh()
    e, p, a = raw('el', uid), raw('pos', uid), raw('acc', uid)
    bodies = [go(b) for b in open_(t, e, p, a)]
    src = go(t.args[1])
    op = t.op
    if op == 'for':
        return mk_for_open(src, uid, bodies[0])
    if op == 'exists':
        return mk_exists_open(src, uid, bodies[0])
    if op == 'tryfor':
        return mk_tryfor_open(src, uid, bodies[0])
    if op == 'first':
        return mk_first_open(src, uid, bodies[0])
    if op == 'fold':
        return mk_fold_open(src, go(t.args[2]), uid, bodies[0])
    if op == 'tryfold':
        return mk_tryfold_open(src, go(t.args[2]), uid, bodies[0])
    raise AssertionError(op)

def sub1(body, uid, e, p):
    m = {raw('el', uid): e}
    if p is not None:
        m[raw('pos', uid)] = p
    return subst(body, m, {uid})

def _pos_free(body, uid):
    return not occurs(body, raw('pos', uid))

# ---- sources of a few known elements
def few(src):
    """elements of a source that is a sequence of at most eight known ones, or None"""
    if src.op == 'enum':
        xs = few(src.args[0])
        return None if xs is None else [Tup(Int(i), x) for i, x in enumerate(xs)]
    if src.op == 'one':
        return [src.args[0]]
    if src.op == 'cat' and len(src.args) <= 8 and all(x.op == 'one' for x in src.args):
        return [x.args[0] for x in src.args]
    return None

# ---- for
def mk_for(src, f):
    uid = fresh()
    return mk_for_open(src, uid, f(raw('el', uid), raw('pos', uid)))

def mk_for_open(src, uid, body):
    o = src.op
    if o == 'empty' or body is EMPTY:
        return EMPTY
    if o == 'one':
        return sub1(body, uid, src.args[0], Int(0))
    if o == 'ite':
        return ite(src.args[0], mk_for_open(src.args[1], uid, body), mk_for_open(src.args[2], uid, body))
    pf = _pos_free(body, uid)
    if o == 'cat' and pf:
        return cat(*[mk_for_open(s, uid, body) for s in src.args])
    xs = few(src)
    if xs is not None:
        return cat(*[sub1(body, uid, x, Int(i)) for i, x in enumerate(xs)])
    if o == 'str' and pf:
        return cat(*[sub1(body, uid, Char(c), None) for c in src.args[0]])
    if o == 'for' and (pf or one_to_one(src)):
        f2 = src
        def inner(e, p):
            b = open_(f2, e, p)[0]
            return bind_seq(b, uid, body, p)
        return mk_for(f2.args[1], inner)
    if o == 'range':
        a, b, st = src.args
        if a is Int(0) and st is Int(1) and b.op == 'len':
            # index loop over a sequence -> loop over the sequence
            s = b.args[0]
            e = raw('el', uid)
            at = raw('nth', s, e)
            u2 = fresh()
            body2 = rewrite(body, lambda t: raw('el', u2) if t is at else (raw('pos', u2) if t is e or t is raw('pos', uid) else None))
            return mk_for_open(s, u2, body2)
    e = raw('el', uid)
    if body is raw('one', e):
        return src
    if pf:
        # pos can be recovered when the element is an index
        pass
    if o == 'enum':
        # elements of enum are pairs
        s = src.args[0]
        u2 = fresh()
        return mk_for_open(s, u2, sub1(body, uid, Tup(raw('pos', u2), raw('el', u2)), raw('pos', u2)))
    if o == 'zip':
        p = raw('pos', uid)
        u2 = fresh()
        e2, p2 = raw('el', u2), raw('pos', u2)
        body = ite(lt(p2, length(src.args[1])), subst(body, {e: Tup(e2, nth(src.args[1], p2)), p: p2}, {uid}), EMPTY)
        return mk_for_open(src.args[0], u2, body)
    h, b = close(uid, body)
    return raw('for', h, src, b)

def bind_seq(b, uid, body, pos):
    """concatenation of body[el := x] for the elements x of sequence b; pos is only valid when b has one element"""
    o = b.op
    if o == 'empty':
        return EMPTY
    if o == 'one':
        return sub1(body, uid, b.args[0], pos)
    if o == 'str':
        return cat(*[sub1(body, uid, Char(c), pos) for c in b.args[0]])
    if o == 'cat':
        return cat(*[bind_seq(x, uid, body, pos) for x in b.args])
    if o == 'ite':
        return ite(b.args[0], bind_seq(b.args[1], uid, body, pos), bind_seq(b.args[2], uid, body, pos))
    # rename so that the binder variable is not shared
    u2 = fresh()
    return mk_for_open(b, u2, subst(body, {raw('el', uid): raw('el', u2), raw('pos', uid): raw('pos', u2)}, {uid}))

def enumerate_(s):
    if s.op == 'empty':
        return EMPTY
    if s.op == 'ite':
        return ite(s.args[0], enumerate_(s.args[1]), enumerate_(s.args[2]))
    return mk_for(s, lambda e, p: one(Tup(p, e))) if not (s.op in ('cat',) or s.op == 'for' and not one_to_one(s)) else raw('enum', s)

# ---- exists
def exists(src, f):
    uid = fresh()
    return mk_exists_open(src, uid, f(raw('el', uid), raw('pos', uid)))
def forall(src, f):
    return Not(exists(src, lambda e, p: Not(f(e, p))))
def mk_exists_open(src, uid, c):
    o = src.op
    if o == 'empty' or c is FALSE:
        return FALSE
    if o == 'one':
        return sub1(c, uid, src.args[0], Int(0))
    if o == 'ite':
        return ite(src.args[0], mk_exists_open(src.args[1], uid, c), mk_exists_open(src.args[2], uid, c))
    pf = _pos_free(c, uid)
    if c is TRUE:
        return Not(is_empty(src))
    if o == 'cat' and pf:
        r = FALSE
        for s in src.args:
            r = Or(r, mk_exists_open(s, uid, c))
        return r
    xs = few(src)
    if xs is not None:
        r = FALSE
        for i, x in enumerate(xs):
            r = Or(r, sub1(c, uid, x, Int(i)))
        return r
    if o == 'str' and pf:
        r = FALSE
        for ch in src.args[0]:
            r = Or(r, sub1(c, uid, Char(ch), None))
        return r
    if o == 'for' and (pf or one_to_one(src)):
        f2 = src
        def bind(b, p):
            if b.op == 'empty':
                return FALSE
            if b.op == 'one':
                return sub1(c, uid, b.args[0], p)
            if b.op == 'ite':
                return ite(b.args[0], bind(b.args[1], p), bind(b.args[2], p))
            if b.op == 'cat':
                return Or(*[bind(x, p) for x in b.args])
            u2 = fresh()
            return mk_exists_open(b, u2, sub1(c, uid, raw('el', u2), raw('pos', u2)))
        return exists(f2.args[1], lambda e, p: bind(open_(f2, e, p)[0], p))
    if o == 'zip':
        p = raw('pos', uid)
        u2 = fresh()
        e2, p2 = raw('el', u2), raw('pos', u2)
        c = And(lt(p2, length(src.args[1])), subst(c, {raw('el', uid): Tup(e2, nth(src.args[1], p2)), p: p2}, {uid}))
        return mk_exists_open(src.args[0], u2, c)
    if o == 'enum':
        u2 = fresh()
        return mk_exists_open(src.args[0], u2, sub1(c, uid, Tup(raw('pos', u2), raw('el', u2)), raw('pos', u2)))
    # loop-invariant condition
    if uid not in c.fv:
        return And(Not(is_empty(src)), c)
    h, b = close(uid, c)
    return raw('exists', h, src, b)

# ---- tryfor: body is a Result of a sequence; stops at the first Err
def tryfor(src, f):
    uid = fresh()
    return mk_tryfor_open(src, uid, f(raw('el', uid), raw('pos', uid)))
def all_ok(b):
    """sequence if the Result term b is always Ok, else None"""
    if b.op == 'adt':
        return b.args[2] if b.args[1] == 'Ok' else None
    if b.op == 'ite':
        x = all_ok(b.args[1])
        if x is None:
            return None
        y = all_ok(b.args[2])
        return None if y is None else ite(b.args[0], x, y)
    return None
def try_cat(rs):
    """Result of concatenating Results of sequences, left to right"""
    if not rs:
        return Ok(EMPTY)
    if len(rs) == 1:
        return rs[0]
    a, rest = rs[0], try_cat(rs[1:])
    def join(x, y):
        return Ok(cat(x, y))
    return ite(is_ok(a), ite(is_ok(rest), Ok(cat(fld(a, 'Ok', 0), fld(rest, 'Ok', 0))), Err(fld(rest, 'Err', 0))), Err(fld(a, 'Err', 0)))
def mk_tryfor_open(src, uid, body):
    s = all_ok(body)
    if s is not None:
        return Ok(mk_for_open(src, uid, s))
    o = src.op
    if o == 'empty':
        return Ok(EMPTY)
    if o == 'one':
        return sub1(body, uid, src.args[0], Int(0))
    if o == 'ite':
        return ite(src.args[0], mk_tryfor_open(src.args[1], uid, body), mk_tryfor_open(src.args[2], uid, body))
    pf = _pos_free(body, uid)
    if o == 'cat' and pf:
        return try_cat([mk_tryfor_open(x, uid, body) for x in src.args])
    xs = few(src)
    if xs is not None:
        return try_cat([sub1(body, uid, x, Int(i)) for i, x in enumerate(xs)])
    if o == 'for' and (pf or one_to_one(src)):
        f2 = src
        def bind(b, p):
            if b.op == 'empty':
                return Ok(EMPTY)
            if b.op == 'one':
                return sub1(body, uid, b.args[0], p)
            if b.op == 'ite':
                return ite(b.args[0], bind(b.args[1], p), bind(b.args[2], p))
            if b.op == 'cat':
                return try_cat([bind(x, p) for x in b.args])
            u2 = fresh()
            return mk_tryfor_open(b, u2, sub1(body, uid, raw('el', u2), raw('pos', u2)))
        return tryfor(f2.args[1], lambda e, p: bind(open_(f2, e, p)[0], p))
    if o == 'enum':
        u2 = fresh()
        return mk_tryfor_open(src.args[0], u2, sub1(body, uid, Tup(raw('pos', u2), raw('el', u2)), raw('pos', u2)))
    h, b = close(uid, body)
    t = raw('tryfor', h, src, b)
    UNIVERSE[t] = RESU
    return t

# ---- first: Option<(pos, el)> of the first element satisfying the condition
def first(src, f):
    uid = fresh()
    return mk_first_open(src, uid, f(raw('el', uid), raw('pos', uid)))
def mk_first_open(src, uid, c):
    if src.op == 'empty' or c is FALSE:
        return NONE
    if src.op == 'one':
        return ite(sub1(c, uid, src.args[0], Int(0)), Some(Tup(Int(0), src.args[0])), NONE)
    if c is TRUE:
        return ite(is_empty(src), NONE, Some(Tup(Int(0), nth(src, Int(0)))))
    xs = few(src)
    if xs is not None:
        r = NONE
        for i, x in reversed(list(enumerate(xs))):
            r = ite(sub1(c, uid, x, Int(i)), Some(Tup(Int(i), x)), r)
        return r
    h, b = close(uid, c)
    t = raw('first', h, src, b)
    UNIVERSE[t] = OPTU
    return t

# ---- fold
def fold(src, init, f):
    uid = fresh()
    return mk_fold_open(src, init, uid, f(raw('el', uid), raw('pos', uid), raw('acc', uid)))
def mk_fold_open(src, init, uid, body):
    acc = raw('acc', uid)
    o = src.op
    if o == 'empty' or body is acc:
        return init
    if o == 'one':
        return subst(body, {raw('el', uid): src.args[0], raw('pos', uid): Int(0), acc: init}, {uid})
    # accumulation by concatenation
    x = acc_parts(body, acc)
    if x is not None:
        pre, post = x
        if pre is EMPTY:
            return cat(init, mk_for_open(src, uid, post))
        if post is EMPTY:
            return cat(mk_for_open(rev(src), uid, pre), init)
    if o == 'for' and _pos_free(body, uid):
        f2 = src
        def bind(b, acc_):
            if b.op == 'empty':
                return acc_
            if b.op == 'one':
                return subst(body, {raw('el', uid): b.args[0], acc: acc_}, {uid})
            if b.op == 'ite':
                return ite(b.args[0], bind(b.args[1], acc_), bind(b.args[2], acc_))
            if b.op == 'cat':
                for y in b.args:
                    acc_ = bind(y, acc_)
                return acc_
            u2 = fresh()
            return mk_fold_open(b, acc_, u2, subst(body, {raw('el', uid): raw('el', u2), acc: raw('acc', u2)}, {uid}))
        return fold(f2.args[1], init, lambda e, p, a: bind(open_(f2, e, p)[0], a))
    # integer accumulation
    h, b = close(uid, body)
    return raw('fold', h, src, init, b)
def acc_parts(body, acc):
    """(pre, post) with body = pre ++ acc ++ post, or None"""
    if body is acc:
        return EMPTY, EMPTY
    if body.op == 'cat':
        ps = list(body.args)
        if acc in ps:
            i = ps.index(acc)
            pre, post = cat(*ps[:i]), cat(*ps[i + 1:])
            if not occurs(pre, acc) and not occurs(post, acc):
                return pre, post
        return None
    if body.op == 'ite' and not occurs(body.args[0], acc):
        a, b = acc_parts(body.args[1], acc), acc_parts(body.args[2], acc)
        if a is None or b is None:
            return None
        return ite(body.args[0], a[0], b[0]), ite(body.args[0], a[1], b[1])
    return None
def tryfold(src, init, f):
    uid = fresh()
    return mk_tryfold_open(src, init, uid, f(raw('el', uid), raw('pos', uid), raw('acc', uid)))
def mk_tryfold_open(src, init, uid, body):
    """body: Result of the new accumulator"""
    if src.op == 'empty':
        return Ok(init)
    s = all_ok(body)
    if s is not None:
        return Ok(mk_fold_open(src, init, uid, s))
    # Ok(acc ++ post) / Err
    acc = raw('acc', uid)
    xs = few(src)
    if xs is not None:
        def go(i, a):
            if i == len(xs):
                return Ok(a)
            r = subst(body, {raw('el', uid): xs[i], raw('pos', uid): Int(i), acc: a}, {uid})
            return try_map(r, lambda x: go(i + 1, x))
        return go(0, init)
    p = _try_acc(body, acc)
    if p is not None:
        r = mk_tryfor_open(src, uid, p)
        return ite(is_ok(r), Ok(cat(init, fld(r, 'Ok', 0))), Err(fld(r, 'Err', 0))) if init is not EMPTY else r
    h, b = close(uid, body)
    t = raw('tryfold', h, src, init, b)
    UNIVERSE[t] = RESU
    return t
def try_map(r, f, known=()):
    """the Result r, with its Ok payload mapped by f to a Result"""
    if r.op == 'ite':
        c = r.args[0]
        k = c.args[0] if c.op == 'isin' and c.args[1] == ('Err',) else None
        return ite(c, r.args[1] if r.args[1] is k else try_map(r.args[1], f, known), try_map(r.args[2], f, known + (k,) if k is not None else known))
    if r.op == 'adt':
        return f(r.args[2]) if r.args[1] == 'Ok' else r
    if r in known:
        return f(fld(r, 'Ok', 0))
    if r.op == 'panic':
        return r
    return ite(is_ok(r), f(fld(r, 'Ok', 0)), Err(fld(r, 'Err', 0)))
def fuse(t):
    """if r is Err { Err(decoded payload) } else { .. }, of a loop r  ->  the loop with decoded payloads"""
    if t.op != 'ite':
        return t
    c, a, b = t.args
    a, b = fuse(a), fuse(b)
    if c.op == 'isin' and c.args[1] == ('Err',) and c.args[0].op in ('tryfold', 'tryfor'):
        r = c.args[0]
        pay = fld(r, 'Err', 0)
        if a.op != 'adt' or a.args[1] != 'Err' or a.args[2] is not pay:
            uid, u2 = fresh(), fresh()
            x = raw('el', u2)
            d = rewrite(a, lambda y: x if y is pay else None)
            acc = raw('acc', uid)
            d = _err_only(d)
            if d is not None and not occurs(d, r):
                body = open_(r, raw('el', uid), raw('pos', uid), acc)[0]
                body = _decode(body, lambda y: subst(d, {x: y}, {u2}), ())
                n = mk_tryfold_open(r.args[1], r.args[2], uid, body) if r.op == 'tryfold' else mk_tryfor_open(r.args[1], uid, body)
                b = rewrite(b, lambda y: n if y is r else None)
                return ite(is_ok(n), b, Err(fld(n, 'Err', 0)))
    return ite(c, a, b)
def _err_only(t):
    """Err of a payload, as the payload; None if the term may be something else"""
    if t.op == 'adt':
        return t.args[2] if t.args[1] == 'Err' else None
    if t.op == 'ite':
        c = t.args[0]
        a = _err_only(t.args[1])
        if a is None and c.op == 'isin' and c.args[1] == ('Err',) and t.args[1] is c.args[0]:
            a = fld(c.args[0], 'Err', 0)
        b = _err_only(t.args[2])
        return None if a is None or b is None else ite(c, a, b)
    return None
def _decode(b, d, errs):
    if b.op == 'ite':
        c = b.args[0]
        k = c.args[0] if c.op == 'isin' and c.args[1] == ('Err',) else None
        x = _decode(b.args[1], d, errs + ((k, True),) if k is not None else errs)
        y = _decode(b.args[2], d, errs + ((k, False),) if k is not None else errs)
        return ite(c, x, y)
    if b.op == 'panic':
        return b
    if b.op == 'adt':
        if b.args[1] == 'Ok':
            return b
        return Err(d(b.args[2]))
    for k, v in errs:
        if k is b and not v:
            return b
    p = d(fld(b, 'Err', 0))
    return Err(p) if (b, True) in errs else ite(is_ok(b), b, Err(p))
def _try_acc(b, acc):
    if b.op == 'ite':
        if occurs(b.args[0], acc):
            return None
        c = b.args[0]
        x = b.args[1] if c.op == 'isin' and c.args[1] == ('Err',) and b.args[1] is c.args[0] else _try_acc(b.args[1], acc)
        y = _try_acc(b.args[2], acc)
        return None if x is None or y is None else ite(b.args[0], x, y)
    if b.op == 'adt':
        if b.args[1] == 'Err':
            return None if occurs(b, acc) else b
        q = acc_parts(b.args[2], acc)
        if q is None or q[0] is not EMPTY:
            return None
        return Ok(q[1])
    return None

def rewrite(t, f):
    """bottom-up-free rewriting: f(t) returns a replacement or None"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            if t.op in BINDERS:
                r = map_binder(t, go)
            elif t.args:
                na = [_map(a, go) for a in t.args]
                r = t if all(x is y or x == y for x, y in zip(na, t.args)) else rebuild(t, na)
            else:
                r = t
        memo[t] = r
        return r
    return go(t)

def rng(a, b, step):
    for i, x in enumerate((a, b, step)):
        if x.op == 'ite':
            g = lambda y: rng(*[y if j == i else z for j, z in enumerate((a, b, step))])
            return ite(x.args[0], g(x.args[1]), g(x.args[2]))
    if step.op == 'int' and step.args[0] < 0 and a.op == 'int' and b.op == 'int' and a.args[0] <= b.args[0]:
        return EMPTY
    if step is Int(1) or step.op == 'int' and step.args[0] > 0:
        if a.op == 'int' and b.op == 'int' and a.args[0] >= b.args[0]:
            return EMPTY
    return raw('range', a, b, step)

def join(s, sep):
    if sep is EMPTY:
        return mk_for(s, lambda e, p: e)
    if s.op == 'empty':
        return EMPTY
    if s.op == 'one':
        return s.args[0]
    if s.op == 'cat' and all(p.op == 'one' for p in s.args):
        out = []
        for i, p in enumerate(s.args):
            if i:
                out.append(sep)
            out.append(p.args[0])
        return cat(*out)
    return raw('join', s, sep)

def beq(a, b):
    """structural equality of two values as a boolean term"""
    if a is b:
        return TRUE
    if a.op in ('str', 'empty') and b.op in ('str', 'empty'):
        return FALSE
    if a.op in ('char',) and b.op == 'char':
        return Bool(a.args[0] == b.args[0])
    if a.op == 'bool' and b.op == 'bool':
        return Bool(a.args[0] == b.args[0])
    if a.op == 'bool':
        return b if a.args[0] else Not(b)
    if b.op == 'bool':
        return a if b.args[0] else Not(a)
    if a.op == 'adt' and b.op == 'adt' and a.args[1] != b.args[1]:
        return FALSE
    if a.op == 'adt' and b.op == 'adt' and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = And(r, beq(x, y))
        return r
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = And(r, beq(x, y))
        return r
    if a.op == 'adt' and len(a.args) == 2:
        return isin(b, a.args[1])
    if b.op == 'adt' and len(b.args) == 2:
        return isin(a, b.args[1])
    if 'int' in (a.op, b.op) and 'ite' not in (a.op, b.op):
        return ieq(a, b)
    if a.op == 'ite':
        return ite(a.args[0], beq(a.args[1], b), beq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], beq(a, b.args[1]), beq(a, b.args[2]))
    if a is EMPTY:
        return is_empty(b)
    if b is EMPTY:
        return is_empty(a)
    x, y = sorted((a, b), key=lambda t: t.n)
    return raw('beq', x, y)

def _sc_lin(c, items):
    r = Int(c)
    for t, k in items:
        r = add(r, mulc(t, k))
    return r
def feq(a, b):
    x, y = sorted((a, b), key=lambda t: t.n)
    return raw('feq', x, y)
def ord_(c):
    return Int(c.args[0]) if c.op == 'char' else raw('ord', c)
def fmt(kind, flags, width, prec, v):
    if v.op == 'int' and kind in ('x', 'X', 'd') and v.args[0] >= 0 and prec == -1 and not flags & 0x00E00000:
        s = format(v.args[0], kind)
        return Str(s.rjust(width, '0' if flags & (1 << 24) else ' ')) if flags & (1 << 24) or not width else Str(s) if len(s) >= width else raw('fmt', kind, flags, width, prec, v)
    return raw('fmt', kind, flags, width, prec, v)
def chain(h, variant, i):
    """the nodes of a linked list from link h on; the next link is field i of a node"""
    if h.op == 'ite':
        return ite(h.args[0], chain(h.args[1], variant, i), chain(h.args[2], variant, i))
    if h.op == 'adt':
        return EMPTY if h.args[1] == 'None' else cat(one(h.args[2]), chain(fld(h.args[2], variant, i), variant, i))
    return raw('chain', h, variant, i)
def hexs(op):
    def h(v):
        if v.op == 'int' and v.args[0] >= 0:
            return Str(format(v.args[0], 'x' if op == 'hex' else 'X'))
        return raw(op, v)
    return h
SC = {
    'chain': chain, 'hex': hexs('hex'), 'hexu': hexs('hexu'), 'feq': feq, 'ord': ord_, 'fmt': fmt,
    'adt': adt, 'lin': _sc_lin, 'le0': le0, 'eq0': lambda t: ieq(t, Int(0)), 'mul': mul,
    'not': Not, 'ite': ite, 'isin': lambda t, n: isin(t, n), 'fld': fld,
    'one': one, 'cat': cat, 'len': length, 'nth': nth, 'drop': drop, 'take': take, 'rev': rev,
    'range': rng, 'join': join, 'beq': beq, 'enum': enumerate_,
    'str': lambda s: Str(s),
}

# ---------------------------------------------------------------- printing
_left = [0]
def show(t, d=0):
    if d == 0:
        _left[0] = 2500
    _left[0] -= 1
    if _left[0] < 0:
        return '...'
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, tuple) else '(' + ','.join(show(x, d + 1) for x in t) + ')'
    if d > 40:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o in ('int', 'bool'):
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'char':
        return f'c{chr(a[0])!r}'
    if o == 'empty':
        return '[]'
    if o == 'sym':
        return a[0]
    if o in ('el', 'pos', 'hav', 'acc'):
        return f'{o}.{a[0]}'
    if o == 'adt':
        v = a[1]
        return v + (f"({', '.join(map(s, a[2:]))})" if len(a) > 2 else '')
    if o == 'tuple':
        return '(' + ', '.join(map(s, a)) + ')'
    if o == 'lin':
        r = ' + '.join((s(x) if k == 1 else f'{k}*{s(x)}') for x, k in a[1])
        return f'({r}{a[0]:+d})' if a[0] else f'({r})'
    if o == 'ite':
        return f'if {s(a[0])} {{{s(a[1])}}} else {{{s(a[2])}}}'
    if o == 'isin':
        return f"{s(a[0])} is {'|'.join(a[1])}"
    if o == 'fld':
        return f"{s(a[0])}.{(a[1] + '.') if a[1] else ''}{a[2]}"
    if o == 'le0':
        return f'{s(a[0])}<=0'
    if o == 'eq0':
        return f'{s(a[0])}==0'
    if o == 'not':
        return f'!({s(a[0])})'
    if o == 'one':
        return f'[{s(a[0])}]'
    if o == 'cat':
        return '(' + ' ++ '.join(map(s, a)) + ')'
    if o in ('for', 'exists', 'tryfor', 'first'):
        return f'{o} e{a[0]} in {s(a[1])} {{{s(a[2])}}}'.replace(f'el.{a[0]}', f'e{a[0]}')
    return f"{o}({', '.join(map(s, a))})"

_joins = {}
def joins(t):
    """separated sequences in one form: every element but the first is preceded by the separator"""
    if not isinstance(t, T) or not t.args:
        return t
    r = _joins.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        n = map_binder(t, joins)
    else:
        n = rebuild(t, [_map(a, joins) for a in t.args])
    if n.op == 'join':
        s, sep = n.args
        if s.op == 'for':
            uid = fresh()
            e, p = raw('el', uid), raw('pos', uid)
            b = open_(s, e, p)[0]
            if b.op == 'one':
                n = mk_for_open(s.args[1], uid, ite(le(p, Int(0)), b.args[0], cat(sep, b.args[0])))
        else:
            n = mk_for(s, lambda e, p: ite(le(p, Int(0)), e, cat(sep, e)))
    elif n.op == 'for':
        uid = fresh()
        e, p = raw('el', uid), raw('pos', uid)
        b = open_(n, e, p)[0]
        src = n.args[1]
        x = None
        last = (le(length(src), add(p, Int(1))), ieq(add(p, Int(1)), length(src)))
        more = tuple(Not(c) for c in last)
        def split(c, y, z):
            """body = common prefix, then a separator unless c"""
            py, pz = list(seq_parts(y)), list(seq_parts(z))
            if len(pz) == len(py) + 1 and pz[:-1] == py and pz[-1].op in ('str', 'one'):
                return y, pz[-1]
            if len(pz) == len(py) and py and pz[:-1] == py[:-1] and py[-1].op == pz[-1].op == 'str' and pz[-1].args[0].startswith(py[-1].args[0]):
                return y, Str(pz[-1].args[0][len(py[-1].args[0]):])
            return None
        if b.op == 'ite' and (b.args[0] in last or b.args[0] in more):
            y, z = (b.args[1], b.args[2]) if b.args[0] in last else (b.args[2], b.args[1])
            x = split(b.args[0], y, z)
        elif b.op == 'cat':
            ps = list(seq_parts(b))
            c = ps[-1]
            if c.op == 'ite' and (c.args[0] in last and c.args[1] is EMPTY or c.args[0] in more and c.args[2] is EMPTY):
                x = cat(*ps[:-1]), c.args[2] if c.args[0] in last else c.args[1]
        if x is not None and not occurs(x[1], e) and not occurs(x[1], p):
            n = mk_for_open(src, uid, ite(le(p, Int(0)), x[0], cat(x[1], x[0])))
    _joins[t] = n
    return n

# ------------------------------------------------------------------ classes of characters
def charset(cond, c):
    """ranges of the characters c that satisfy a condition on nothing else, None if it is another kind of condition"""
    cuts = {0, 0x110000}
    o = ord_(c)
    seen, st = set(), [cond]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ('le0', 'eq0'):
            k, co = lin_of(x.args[0])
            if list(co) != [o] or abs(co[o]) != 1:
                return None
            v = -k * co[o]
            cuts |= {v, v + 1}
        elif x.op in ('ite', 'not', 'and', 'or', 'bool', 'true', 'false'):
            st += x.args
        elif x not in (TRUE, FALSE):
            return None
    cuts = sorted(v for v in cuts if 0 <= v <= 0x110000)
    out = []
    for a, b in zip(cuts, cuts[1:]):
        v = rewrite(cond, lambda t: Int(a) if t is o else None)
        if v is TRUE:
            if out and out[-1][1] == a - 1:
                out[-1] = (out[-1][0], b - 1)
            else:
                out.append((a, b - 1))
        elif v is not FALSE:
            return None
    return tuple(out)

def _run(V, k, ranges):
    """number of consecutive characters of a class from the k-th character of a text on"""
    t = raw('run', V, k, ranges)
    INTB[t] = (0, 2 ** 63 - 1)
    return t
run = SC['run'] = _run
