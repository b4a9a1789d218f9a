"""The decoding of escapes: the loop of the decoder as a step function on the rest of the text, item by item against the specification."""
import random
import loops, pref
import term as TM
from term import *
from facts import Facts

SIMPLE = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', '/': '/', '\\': '\\', '"': '"'}
HEX = '0123456789abcdefABCDEF'

def walk(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, TM.T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st += x.args
        elif isinstance(x, tuple):
            st += x

class Step:
    """the only loop of a function, as a step function of the unread rest of its text"""
    def __init__(self, t, text):
        ls = {x for x in walk(t) if x.op in TM.BINDERS and x.args[1].op == 'nat'}
        if len(ls) != 1:
            raise Unk(f'{len(ls)} loops instead of one')
        self.t, (self.loop,) = t, ls
        self.errors = {}
        if self.loop.op != 'tryfold':
            raise Unk('loop ' + self.loop.op)
        init = self.loop.args[2]
        self.accs = [raw('hav', fresh('s')) for _ in (init.args if init.op == 'tuple' else (init,))]
        inits = list(init.args) if init.op == 'tuple' else [init]
        whole = self.accs[0] if len(self.accs) == 1 else Tup(*self.accs)
        self.body = TM.open_(self.loop, raw('el', fresh()), raw('pos', fresh()), whole)[0]
        outs = [a for a, i in zip(self.accs, inits) if i is EMPTY]
        if len(outs) != 1:
            raise Unk('accumulators of the decoded text')
        self.out, = outs
        drv = [(a, i) for a, i in zip(self.accs, inits) if a is not self.out]
        if len(drv) != 1:
            raise Unk('loop state')
        (self.drv, i), = drv
        self.bytes = False
        if i is Int(0):
            self.kind = 'index'
            base = {x.args[0] for x in walk(self.body) if x.op in ('nth', 'drop', 'len') and self.drv.args[0] not in x.args[0].fv}
            if len(base) != 1:
                raise Unk('text of the loop')
            self.base, = base
        else:
            self.kind, self.base = 'rest', i
        if self.base.op == 'utf8':
            self.bytes = True
        if (self.base.args[0] if self.bytes else self.base) is not text:
            raise Unk('the loop reads something else than the text')
    def rebase(self, t, R, drv=None):
        """t with the unread text R; the position is only a parameter of the new position"""
        drv = drv or self.drv
        if self.kind == 'rest':
            return TM.subst(t, {drv: R}, {drv.args[0]})
        B = self.base
        def rel(i):
            k = sub(i, drv)
            if k.op != 'int':
                raise Unk('position of the text')
            return k
        def f(x):
            if x.op == 'nth' and x.args[0] is B:
                return TM.nth(R, rel(go(x.args[1])))
            if x.op == 'drop' and x.args[0] is B:
                return TM.drop(R, rel(go(x.args[1])))
            if x.op == 'len' and x.args[0] is B:
                return add(drv, length(R))
            return None
        go = lambda x: rewrite(x, f)
        return go(t)
    def step(self, R, facts):
        b = facts.simp(self.rebase(self.body, R))
        return b
    def exit(self, payload):
        """value of the whole function when the loop ends with payload"""
        return rewrite(self.t, lambda x: Err(payload) if x is self.loop else None)

def advance(S, new, R, n):
    """is `new` the driver after n elements of R"""
    if S.kind == 'index':
        return sub(new, S.drv) is Int(n)
    return new is TM.drop(R, Int(n))

def lit(S, c):
    return Int(ord(c)) if S.bytes else Char(c)
def ordof(S, x):
    return x if S.bytes else TM.ord_(x)
def symel(S, name):
    s = Sym(name)
    if S.bytes:
        TM.INTB[s] = (0, 255)
    return s

def hexed(S, hs, facts):
    """facts: the elements are hexadecimal digits; the value of the four"""
    seq_ = cat(*[one(h) for h in hs])
    if S.bytes:
        v = raw('fromutf8', seq_)
        UNIVERSE[v] = RESU
        facts = facts.assume(is_ok(v))
        seq_ = fld(v, 'Ok', 0)
    r = raw('radix', 'u32', seq_, Int(16))
    UNIVERSE[r] = RESU
    facts = facts.assume(is_ok(r))
    u = fld(r, 'Ok', 0)
    TM.INTB.setdefault(u, (0, (1 << 32) - 1))
    return u, facts.assume(le(Int(0), u)).assume(le(u, Int(0xFFFF)))

def same_pair(r, emit, U, L):
    """is what the step does the decoding of a surrogate pair, for all pairs"""
    names = {U: 'u', L: 'l'}
    wrong = []
    def src(t):
        if t.op == 'ite':
            return f'({src(t.args[1])} if {compile_(t.args[0], names)} else {src(t.args[2])})'
        p = emit(t)
        if isinstance(p, str):
            wrong.append(p)
            return '-1'
        if p.op != 'one' or p.args[0].op != 'chr':
            wrong.append(str(p)[:160])
            return '-1'
        return compile_(p.args[0].args[0], names)
    g = {}
    exec(f'def f(u, l): return {src(r)}', g)
    f = g['f']
    for u in range(0xD800, 0xDC00):
        base = 0x10000 + ((u - 0xD800) << 10) - 0xDC00
        for l in range(0xDC00, 0xE000):
            if f(u, l) != base + l:
                return f'{u:#x} {l:#x} decoded as {f(u, l):#x} ' + (wrong[0] if wrong else '')
    return None

def compile_(t, names):
    if t in names:
        return names[t]
    o = t.op
    if o == 'int':
        return repr(t.args[0])
    ops = {'bitand': '&', 'bitor': '|', 'bitxor': '^', 'shl': '<<', 'shr': '>>'}
    if o in ops:
        return f'({compile_(t.args[0], names)} {ops[o]} {compile_(t.args[1], names)})'
    if o == 'lin':
        c, co = lin_of(t)
        return '(' + ' + '.join([repr(c)] + [f'{k} * {compile_(x, names)}' for x, k in co.items()]) + ')'
    if o == 'wrap':
        return compile_(t.args[0], names)
    if o == 'ite':
        return f'({compile_(t.args[1], names)} if {compile_(t.args[0], names)} else {compile_(t.args[2], names)})'
    if o == 'le0':
        return f'({compile_(t.args[0], names)} <= 0)'
    if o == 'eq0':
        return f'({compile_(t.args[0], names)} == 0)'
    if o == 'not':
        return f'(not {compile_(t.args[0], names)})'
    raise Unk('arithmetic ' + o)

CLASSES = '''done plain simple unit pair'''.split()
def digits(S, k):
    return [symel(S, f'digit{k}{j}') for j in range(4)]
def items(S, hand):
    """(name, elements, facts, expectation) : the classes of what the rest of the text can start with"""
    f0 = Facts()
    c = symel(S, 'char')
    fc = f0.assume(ieq(ordof(S, c), Int(92)), False)
    if hand:
        fc = fc.assume(le(ordof(S, c), Int(0x1F)), False)
    yield 'a character other than \\', [c], fc, ('emit', one(c), None)
    for k, v in SIMPLE.items():
        yield f'\\{k}', [lit(S, '\\'), lit(S, k)], f0, ('emit', one(lit(S, v)), None)
    def digs(hs, f, combo):
        for h, (lo, hi) in zip(hs, combo):
            f = f.assume(le(Int(lo), ordof(S, h))).assume(le(ordof(S, h), Int(hi)))
        return f
    import itertools
    K = ((48, 57), (65, 70), (97, 102))
    combos = list(itertools.product(K, repeat=4)) if hand else [None]
    for combo in combos:
        hs = digits(S, 1)
        el = [lit(S, '\\'), lit(S, 'u')] + hs
        fd = digs(hs, f0, combo) if combo else f0
        U, fd = hexed(S, hs, fd)
        for lo, hi in ((0x20 if hand else 0, 0xD7FF), (0xE000, 0xFFFF)):
            yield f'\\u{lo:04x}..\\u{hi:04x}', el, fd.assume(le(Int(lo), U)).assume(le(U, Int(hi))), ('emit', one(raw('chr', U)), None)
        ls = digits(S, 2)
        fl = digs(ls, fd, combo) if combo else fd
        L, fl = hexed(S, ls, fl)
        fl = fl.assume(le(Int(0xD800), U)).assume(le(U, Int(0xDBFF))).assume(le(Int(0xDC00), L)).assume(le(L, Int(0xDFFF)))
        yield 'a surrogate pair', el + [lit(S, '\\'), lit(S, 'u')] + ls, fl, ('emit', None, (U, L))
    if hand:
        yield from refused(S, f0, digs, combos)

ENDS = 'end of the text'
def refused(S, f0, digs, combos):
    """the classes of what a text cannot go on with; with ENDS the text ends behind the elements"""
    bs, u = lit(S, '\\'), lit(S, 'u')
    no, noend = ('error', None, None), ('error', ENDS, None)
    c = symel(S, 'char')
    o = ordof(S, c)
    yield 'a control character', [c], f0.assume(le(o, Int(0x1F))), no
    yield '\\ at the end', [bs], f0, noend
    f = f0
    for k in list(SIMPLE) + ['u']:
        f = f.assume(ieq(o, Int(ord(k))), False)
    yield '\\ and another character', [bs, c], f, no
    def nothex(name, pre, k, f):
        """four characters from the k-th on that are not all digits"""
        for n in range(4):
            hs = digits(S, k)[:n]
            yield f'{name} {n} characters', pre + hs, f, noend
        for j in range(4):
            hs = digits(S, k)
            x = ordof(S, hs[j])
            r = raw('radix', 'u32', cat(*[one(h) for h in hs]), Int(16))
            UNIVERSE[r] = RESU
            v = fld(r, 'Ok', 0)
            TM.INTB.setdefault(v, (0, (1 << 32) - 1))
            for lo, hi in ((0, 47), (58, 64), (71, 96), (103, 0x10FFFF)):
                g = f.assume(le(Int(lo), x)).assume(le(x, Int(hi)))
                # a sign may precede digits
                g = g.assume(le(v, Int(0xFFF))) if (j, lo) == (0, 0) else g.assume(is_ok(r), False)
                yield f'{name}, no digit {j + 1}: {lo:#x}..{hi:#x}', pre + hs, g, no
    yield from nothex('\\u', [bs, u], 1, f0)
    for combo in combos:
        hs = digits(S, 1)
        el = [bs, u] + hs
        U, fd = hexed(S, hs, digs(hs, f0, combo))
        def between(f, x, lo, hi): return f.assume(le(Int(lo), x)).assume(le(x, Int(hi)))
        yield '\\u0000..\\u001f', el, between(fd, U, 0, 0x1F), no
        yield 'a low surrogate', el, between(fd, U, 0xDC00, 0xDFFF), no
        fh = between(fd, U, 0xD800, 0xDBFF)
        if fh.dead:
            continue
        yield 'a high surrogate at the end', el, fh, noend
        yield 'a high surrogate and \\ at the end', el + [bs], fh, noend
        yield 'a high surrogate and another character', el + [c], fh.assume(ieq(o, Int(92)), False), no
        yield 'a high surrogate and another escape', el + [bs, c], fh.assume(ieq(o, Int(117)), False), no
        yield from nothex('a high surrogate and \\u', el + [bs, u], 2, fh)
        ls = digits(S, 2)
        L, fl = hexed(S, ls, fh)
        for lo, hi in ((0, 0xDBFF), (0xE000, 0xFFFF)):
            yield f'a high surrogate and \\u{lo:04x}..\\u{hi:04x}', el + [bs, u] + ls, between(fl, L, lo, hi), no

def unbytes(S, piece):
    """the characters whose UTF-8 bytes the piece is"""
    if not S.bytes:
        return piece
    out = []
    for p in TM.seq_parts(piece):
        if p.op == 'utf8':
            out.append(p.args[0])
        else:
            out.append(p)
    return cat(*out)

def rest_of(el, want):
    """the unread text of a class"""
    if not el:
        return EMPTY
    return cat(*[one(x) for x in el], *([] if want[:2] == ('error', ENDS) else [Sym('tail')]))

def errs(S, r, f):
    """does the step end with an error of the function"""
    if f.dead or r.op == 'panic':
        return True
    if r.op == 'ite':
        return errs(S, r.args[1], f.assume(r.args[0])) and errs(S, r.args[2], f.assume(r.args[0], False))
    if r.op != 'adt' or r.args[1] != 'Err':
        return False
    x = r.args[2]
    k = x.args[0] if x.op == 'tuple' and x.args and x.args[0].op == 'int' else x
    if k not in S.errors:
        def err(v, f):
            v = f.simp(v)
            if v.op == 'ite':
                return err(v.args[1], f.assume(v.args[0])) and err(v.args[2], f.assume(v.args[0], False))
            return f.dead or v.op == 'adt' and v.args[1] == 'Err'
        S.errors[k] = err(S.exit(x), f)
    return S.errors[k]

def check_item(S, name, el, facts, want):
    """None if the step of the code on this class of items is the specified one, else what it does"""
    kind, exp, pair = want
    R = rest_of(el, want)
    r = S.step(R, facts)
    if kind == 'error':
        return None if errs(S, r, facts) else f'{name}: accepted: {str(r)[:160]}'
    if pair is None:
        piece = emitted(S, name, r, R, len(el), facts)
        if isinstance(piece, str):
            return piece
        return None if piece is unbytes(S, exp) else f'{name}: decoded as {str(piece)[:160]}'
    bad = same_pair(r, lambda leaf: emitted(S, name, leaf, R, len(el), facts), *pair)
    return None if bad is None else f'{name}: {bad}'

def emitted(S, name, r, R, n, facts):
    if r.op != 'adt' or r.args[1] != 'Ok':
        return f'{name}: {str(r)[:200]}'
    new = r.args[2]
    comps = list(new.args) if len(S.accs) > 1 else [new]
    d = dict(zip(S.accs, comps))
    if not advance(S, facts.simp(d[S.drv]), R, n):
        return f'{name}: position {str(d[S.drv])[:120]}'
    o = facts.simp(d[S.out])
    if o.op != 'cat' or o.args[0] is not S.out:
        return f'{name}: text {str(o)[:120]}'
    return unbytes(S, cat(*o.args[1:]))

def constants(t):
    """the integers the step compares with and their neighbours"""
    out = set()
    for x in walk(t):
        if x.op == 'int':
            out.add(x.args[0])
        elif x.op in ('le0', 'eq0', 'lin'):
            c, co = lin_of(x if x.op == 'lin' else x.args[0])
            out.add(abs(c))
        elif x.op == 'char':
            out.add(x.args[0] if isinstance(x.args[0], int) else ord(x.args[0]))
    return sorted({d for c in out for d in (c - 1, c, c + 1) if 0 <= d <= 0x10FFFF})

def texts_of(consts):
    """well formed texts with these characters, plain and escaped"""
    out = []
    for c in consts:
        if c < 0x20 or 0xD800 <= c <= 0xDFFF:
            if 0xD800 <= c <= 0xDBFF:
                out += [f'\\u{c:04x}\\udc01', f'\\u{c:04x}\\udfff']
            elif 0xDC00 <= c <= 0xDFFF:
                out += [f'\\ud801\\u{c:04x}', f'\\udbff\\u{c:04x}']
            else:
                out.append(f'\\u{c:04x}')
            continue
        if c not in (0x5c, 0x22):
            out += [chr(c), 'a' + chr(c), chr(c) * 2 + 'b']
        if c <= 0xFFFF:
            out.append(f'\\ud801\\u{c:04x}')
        if c > 0xFFFF:
            d = c - 0x10000
            out += [f'\\u{0xD800 + (d >> 10):04x}\\u{0xDC00 + (d & 0x3FF):04x}']
        else:
            out += [f'\\u{c:04x}', f'\\u{c:04X}a']
    return out

def panics(S, X, f, hand, edges):
    """edges of the decoder that a class of items reaches: [(edge, class)]"""
    out = []
    cl = [(n, el, fa, rest_of(el, w)) for n, el, fa, w in items(S, hand)] + [('end of the text', [], Facts(), EMPTY)]
    for p in edges:
        path, kind, detail, facts, cond = p
        if cond is None:
            out.append((p, 'unknown condition'))
            continue
        parts = [a if v else Not(a) for a, v in facts.trail] + [cond]
        if any(x.op == 'fromutf8' and any(y is S.loop for y in walk(x)) for t in parts for x in walk(t)):
            # the text decoded so far is valid UTF-8: every step appends the bytes of characters or copies bytes of the text
            continue
        if any(x is S.loop for t in parts for x in walk(t)):
            bad = exits_live(S, parts, cl)
            if bad:
                out.append((p, bad))
            continue
        hv = sorted({x for t in parts for x in walk(t) if x.op == 'hav'}, key=lambda x: x.n)
        for n, el, fa, R in cl:
            if fa.dead:
                continue
            g, c = fa, TRUE
            ok = False
            try:
                for t in parts:
                    for h in hv:
                        if S.kind == 'index' or h.args[0] in t.fv:
                            t = S.rebase(t, R, h)
                    t = g.simp(t)
                    g = g.assume(t)
                    if g.dead:
                        ok = True
                        break
            except Unk:
                pass
            if not ok:
                ok = g.dead
            if not ok:
                out.append((p, n))
                break
    return out

def first_panic(S, X, a, edge, texts):
    """a text whose first item takes the edge (the loop starts with its initial state: no induction needed)"""
    import ev
    path, kind, detail, facts, cond = edge
    parts = [x if v else Not(x) for x, v in facts.trail] + [cond]
    hv = {x for t in parts for x in walk(t) if x.op == 'hav'}
    m = {h: Int(0) if S.kind == 'index' else S.base for h in hv}
    parts = [TM.subst(t, m, {h.args[0] for h in hv}) for t in parts]
    for s in texts:
        types = {a[0].args[0]: (lambda val, s=s: tuple(s))}
        for x in a[1:]:
            types[x.args[0]] = lambda val: ev.Tp((0, 1))
        v = ev.Val(X.ip, types, 1, ([0], ['a'], [97]), {}, {})
        try:
            if all(v.ev(x) is True for x in parts):
                return s
        except (ev.NoEval, ev.Undef, AttributeError, TypeError, IndexError):
            pass
    return None

def exits_live(S, parts, cl):
    """a class of items in whose step the loop ends in a way that satisfies parts (None: no class)"""
    def leaves(r, g):
        if g.dead:
            return
        if r.op == 'ite':
            yield from leaves(r.args[1], g.assume(r.args[0]))
            yield from leaves(r.args[2], g.assume(r.args[0], False))
        else:
            yield r, g
    for n, el, fa, R in cl:
        if fa.dead:
            continue
        for r, g in leaves(S.step(R, fa), fa):
            if r.op == 'adt' and r.args[1] == 'Ok' or r.op == 'panic':
                continue
            if r.op != 'adt' or r.args[1] != 'Err':
                return n
            for t in parts:
                g = g.assume(g.simp(rewrite(t, lambda x: r if x is S.loop else None)))
            if not g.dead:
                return n
    return None

def check_end(S, fallible):
    r = S.step(EMPTY, Facts())
    if r.op != 'adt' or r.args[1] != 'Err':
        return f'end of the text: {str(r)[:200]}'
    v = S.exit(r.args[2])
    want = S.out
    if S.bytes:
        u = raw('fromutf8', S.out)
        UNIVERSE[u] = RESU
        f = Facts().assume(is_ok(u))
        v = f.simp(v)
        want = fld(u, 'Ok', 0)
    return None if v is (Ok(want) if fallible else want) else f'end of the text: result {str(v)[:200]}'

def samples(seed):
    """well formed contents of string literals"""
    rng = random.Random(seed)
    out = ['', 'a', 'é', '\U0001f600', 'a\\nb', '\\u00e9x', 'x\\ud83d\\ude00y', '\\\\', '\\\\n', '\\/', '\\b\\f\\n\\r\\t', '\\"', 'é\\u00e9é', '\\u0041\\u0042', '\\uD834\\uDD1E\\u0041', '\\ud800\\udc00', '\\udbff\\udfff', '\\ud800\\udfff', '\\udbff\\udc00',
           '\\ud7ff', '\\ue000', '\\uffff', '\\u0020', '\\u007f', '\\u0080', '\\u07ff', '\\u0800', '\\uABCD', '\\uabcd', '\\uAbCd', '\\ud83D\\uDe00']
    for k in SIMPLE:
        out += ['\\' + k, 'a\\' + k, '\\' + k + 'b', '\\' + k + '\\' + k, '\\u0041\\' + k, '\\' + k + '\\u0041', 'é\\' + k, '\\ud83d\\ude00\\' + k, k, k + '\\' + k]
    for u in list(range(0x20, 0x10000, 977)) + [1 << k for k in range(5, 16)] + [(1 << k) - 1 for k in range(6, 17)]:
        if not 0xD800 <= u <= 0xDFFF:
            out += [f'\\u{u:04x}', f'a\\u{u:04X}b', f'\\u{u:04x}\\u{u:04x}']
    for _ in range(150):
        h, l = rng.randrange(0xD800, 0xDC00), rng.randrange(0xDC00, 0xE000)
        out += [f'\\u{h:04x}\\u{l:04x}', f'a\\u{h:04X}\\u{l:04X}b']
    for k in range(10):
        out += [f'\\u{0xD800 + (1 << k):04x}\\udc00', f'\\ud800\\u{0xDC00 + (1 << k):04x}']
    for _ in range(200):
        out.append(''.join(rng.choice(['a', 'b', 'n', 'u', '0', 'é', '😀', '\\n', '\\\\', '\\t', '\\u0041', '\\u20ac', '\\ud83d\\ude00', '/', '\\/']) for _ in range(rng.randrange(1, 9))))
    return out
def malformed():
    """texts that cannot stand between quotes"""
    out = []
    for t in ('\\n', '\\u0041', '\\ud83d\\ude00'):
        for i in range(1, len(t)):
            out += [t[:i] + c + t[i + 1:] for c in '/:@G`g\\uvtUxz09afAF +-é'] + [t[:i]]
    return [x for x in out if pref.unescape(x) is None] + ['\\', 'a\\', '\\x', "\\'", '\\U0041', '\\u', '\\u0', '\\u00', '\\u004', '\\u004g', '\\u+041', '\\u-041', '\\u 041', '\\ud83d', '\\ud83dx', '\\ud83d\\n', '\\ud83d\\u', '\\ud83d\\u0041', '\\ud83d\\ude0', '\\ude00', '\\ude00\\ud83d', '\\udc00',
            '\\ud800\\ue000', '\\ud800\\udbff', '\\ud83d\\', '\\ud83d\\u1', '\\ud83d\\u12', '\\u/000', '\\u0:00', '\\u00@0', '\\u000G', '\\u`000', '\\ud83d\\u/e00', '\\ud83d\\ud:00', '\\ud83d\\udeG0', '\\ud83d\\udc0`',
            '\\udfff', '\\ud800\\ud800', '\\ud83d\\\\ude00', '\\ud83d\\ude0g', 'a\\u00zz', '\\ud83d\\u+e00', '\\udbff', '\\udbff\\ue000', '\\a', '\\0', '\\u{41}', '\\ud83dude00', '\\ud83d\\xde00', '\\\\\\']
