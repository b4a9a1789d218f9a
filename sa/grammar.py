"""Grammars as formal languages: a reader for .pest grammars and for RFC style ABNF, exact semantics of
parsing expression grammars through derivatives of extended regular terms, and language equivalence.

M(e, K) is the language of all strings of which the PEG expression e consumes a prefix such that the rest
is in K.  Ordered choice and greedy repetition are expressed exactly:
    M(a / b, K) = M(a, K) | (~M(a, S*) & M(b, K))      M(a*, K) = M(a, M(a*, K)) | (~M(a, S*) & K)
CFG expressions use plain union.  Derivatives over a finite partition of the alphabet turn both into
automata whose product is searched for a distinguishing string.
"""
import re, sys

sys.setrecursionlimit(20000)

class GrammarError(Exception):
    pass

MAXC = 0x10FFFF

# ------------------------------------------------------------------ character sets (tuples of ranges)
def cs(*rs):
    out = []
    for a, b in sorted(rs):
        # no surrogates in Rust strings
        for x, y in ((a, min(b, 0xD7FF)), (max(a, 0xE000), b)):
            if x > y:
                continue
            if out and x <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], y))
            else:
                out.append((x, y))
    return tuple(out)

BUILTIN = {
    'ANY': cs((0, MAXC)), 'ASCII_DIGIT': cs((48, 57)), 'ASCII_NONZERO_DIGIT': cs((49, 57)),
    'ASCII_BIN_DIGIT': cs((48, 49)), 'ASCII_OCT_DIGIT': cs((48, 55)),
    'ASCII_HEX_DIGIT': cs((48, 57), (65, 70), (97, 102)), 'ASCII_ALPHA_LOWER': cs((97, 122)),
    'ASCII_ALPHA_UPPER': cs((65, 90)), 'ASCII_ALPHA': cs((65, 90), (97, 122)),
    'ASCII_ALPHANUMERIC': cs((48, 57), (65, 90), (97, 122)), 'ASCII': cs((0, 127)),
}

# expressions: ('cs', ranges) ('seq', [..]) ('alt', [..]) ('star', e) ('and', e) ('not', e) ('ref', name) ('eps',) ('eoi',)
EPS_E = ('eps',)
def seq(*es):
    out = []
    for e in es:
        if e[0] == 'seq':
            out.extend(e[1])
        elif e[0] != 'eps':
            out.append(e)
    return out[0] if len(out) == 1 else (('seq', tuple(out)) if out else EPS_E)
def alt(*es):
    out = []
    for e in es:
        out.extend(e[1] if e[0] == 'alt' else [e])
    return out[0] if len(out) == 1 else ('alt', tuple(out))
def lit(s):
    return seq(*[('cs', cs((ord(c), ord(c)))) for c in s])
def ilit(s):
    return seq(*[('cs', cs((ord(c.lower()), ord(c.lower())), (ord(c.upper()), ord(c.upper())))) for c in s])
def rep(e, lo, hi):
    parts = [e] * lo
    if hi is None:
        parts.append(('star', e))
    else:
        tail = EPS_E
        for _ in range(hi - lo):
            tail = alt(seq(e, tail), EPS_E)
        parts.append(tail)
    return seq(*parts)

# ------------------------------------------------------------------ .pest reader
TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\(?:u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)|[^'\\])')|(?P<rng>\.\.)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>\d+)|(?P<op>[~|?*+{}(),&!=@$#\[\]-])''', re.S)

def unesc(s):
    def f(m):
        e = m.group(1)
        if e[0] == 'u':
            return chr(int(e[2:-1], 16))
        if e[0] == 'x':
            return chr(int(e[1:], 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(e, e)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, s, flags=re.S)

class PestReader:
    def __init__(self, text):
        self.toks = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise GrammarError(f'cannot read grammar at {text[i:i+20]!r}')
            if m.lastgroup:
                self.toks.append((m.lastgroup, m.group()))
            i = m.end()
        self.i = 0
        self.rules = {}
        self.mods = {}
        while self.i < len(self.toks):
            self.rule()
        self.ws = [r for r in ('WHITESPACE', 'COMMENT') if r in self.rules]

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else (None, None)
    def next(self):
        t = self.peek()
        self.i += 1
        return t
    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise GrammarError(f'expected {v!r}, found {t[1]!r}')
    def rule(self):
        k, name = self.next()
        if k != 'id':
            raise GrammarError(f'rule name expected, found {name!r}')
        self.expect('=')
        mod = ''
        if self.peek()[1] in ('@', '$', '!') or self.peek()[1] == '_':
            mod = self.next()[1]
        self.expect('{')
        if self.peek()[1] == '|':
            self.next()
        e = self.alt()
        self.expect('}')
        self.rules[name] = e
        self.mods[name] = mod
    def alt(self):
        xs = [self.seq()]
        while self.peek()[1] == '|':
            self.next()
            xs.append(self.seq())
        return ('alt', tuple(xs)) if len(xs) > 1 else xs[0]
    def seq(self):
        xs = [self.prefix()]
        while self.peek()[1] == '~':
            self.next()
            xs.append(('ws',))
            xs.append(self.prefix())
        return ('seq', tuple(xs)) if len(xs) > 1 else xs[0]
    def prefix(self):
        v = self.peek()[1]
        if v == '&':
            self.next()
            return ('and', self.prefix())
        if v == '!':
            self.next()
            return ('not', self.prefix())
        return self.postfix()
    def postfix(self):
        e = self.atom()
        while True:
            v = self.peek()[1]
            if v == '?':
                self.next()
                e = ('alt', (e, EPS_E))
            elif v == '*':
                self.next()
                e = ('rep', e, 0, None)
            elif v == '+':
                self.next()
                e = ('rep', e, 1, None)
            elif v == '{':
                self.next()
                lo = hi = None
                if self.peek()[0] == 'num':
                    lo = int(self.next()[1])
                    hi = lo
                if self.peek()[1] == ',':
                    self.next()
                    hi = None
                    if self.peek()[0] == 'num':
                        hi = int(self.next()[1])
                self.expect('}')
                e = ('rep', e, lo or 0, hi)
            else:
                return e
    def atom(self):
        k, v = self.next()
        if v == '(':
            if self.peek()[1] == '|':
                self.next()
            e = self.alt()
            self.expect(')')
            return e
        if k == 'str':
            if v[0] == '^':
                return ilit(unesc(v[2:-1]))
            return lit(unesc(v[1:-1]))
        if k == 'chr':
            if self.peek()[0] == 'rng':
                self.next()
                b = self.next()[1]
                return ('cs', cs((ord(unesc(v[1:-1])), ord(unesc(b[1:-1])))))
            return lit(unesc(v[1:-1]))
        if k == 'id':
            if v in BUILTIN:
                return ('cs', BUILTIN[v])
            if v == 'SOI':
                return EPS_E
            if v == 'EOI':
                return ('eoi',)
            if v == 'NEWLINE':
                return alt(lit('\n'), lit('\r\n'), lit('\r'))
            if v in ('PUSH', 'POP', 'PEEK', 'DROP', 'POP_ALL', 'PEEK_ALL'):
                raise GrammarError('stack operators are not supported')
            return ('ref', v)
        raise GrammarError(f'unexpected {v!r} in grammar')

class Grammar:
    """rules: name -> expression; peg: ordered choice semantics"""
    def __init__(self, rules, peg):
        self.rules, self.peg = rules, peg
        for n, e in rules.items():
            for r in refs(e):
                if r not in rules:
                    raise GrammarError(f'rule {n} refers to the unknown rule {r}')

def read_pest(text):
    r = PestReader(text)
    skip = ('star', alt(*[('ref', w) for w in r.ws])) if r.ws else None
    def conv(e, atomic):
        k = e[0]
        if k == 'seq':
            out = []
            for x in e[1]:
                if x[0] == 'ws':
                    if skip and not atomic:
                        out.append(skip)
                else:
                    out.append(conv(x, atomic))
            return seq(*out)
        if k == 'alt':
            return alt(*[conv(x, atomic) for x in e[1]])
        if k in ('and', 'not'):
            return (k, conv(e[1], atomic))
        if k == 'star':
            return ('star', conv(e[1], atomic))
        if k == 'rep':
            x = conv(e[1], atomic)
            if skip and not atomic:
                if e[3] is None and e[2] == 0:
                    return alt(seq(x, ('star', seq(skip, x))), EPS_E)
                if e[3] is None:
                    return seq(*([x] + [seq(skip, x)] * (e[2] - 1) + [('star', seq(skip, x))]))
                raise GrammarError('bounded repetition with implicit whitespace')
            return rep(x, e[2], e[3])
        return e
    rules = {}
    for n, e in r.rules.items():
        rules[n] = conv(e, r.mods[n] in ('@', '$') or n in r.ws)
    g = Grammar(rules, True)
    g.mods = r.mods
    return g

def refs(e):
    if e[0] == 'ref':
        return {e[1]}
    if e[0] in ('seq', 'alt'):
        return set().union(*[refs(x) for x in e[1]]) if e[1] else set()
    if e[0] in ('star', 'and', 'not'):
        return refs(e[1])
    return set()

# ------------------------------------------------------------------ ABNF reader (RFC 5234 subset used by RFC 9535)
ATOK = re.compile(r'\s+|;[^\n]*|(?P<str>"[^"]*")|(?P<num>%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+|(?:\.[0-9A-Fa-f]+)+)?)|(?P<id>[A-Za-z][A-Za-z0-9-]*)|(?P<n>\d+)|(?P<op>[/()\[\]*=])')
def read_abnf(text):
    rules = {}
    # a rule starts in column 0
    cur = []
    chunks = []
    for line in text.split('\n'):
        if line.strip() == '' or line.lstrip().startswith(';'):
            continue
        if not line[0].isspace():
            cur = [line]
            chunks.append(cur)
        else:
            cur.append(line)
    for ch in chunks:
        src = '\n'.join(ch)
        toks = []
        i = 0
        while i < len(src):
            m = ATOK.match(src, i)
            if not m:
                raise GrammarError(f'cannot read ABNF at {src[i:i+20]!r}')
            if m.lastgroup:
                toks.append((m.lastgroup, m.group()))
            i = m.end()
        name = toks[0][1]
        assert toks[1][1] == '='
        pos = [2]
        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else (None, None)
        def nxt():
            pos[0] += 1
            return toks[pos[0] - 1]
        def alts():
            xs = [cat()]
            while peek()[1] == '/':
                nxt()
                xs.append(cat())
            return alt(*xs)
        def cat():
            xs = [repx()]
            while peek()[0] is not None and peek()[1] not in ('/', ')', ']'):
                xs.append(repx())
            return seq(*xs)
        def repx():
            lo, hi = None, None
            if peek()[0] == 'n':
                lo = int(nxt()[1])
                hi = lo
            if peek()[1] == '*':
                nxt()
                lo = lo or 0
                hi = None
                if peek()[0] == 'n':
                    hi = int(nxt()[1])
            e = elem()
            return e if lo is None else rep(e, lo, hi)
        def elem():
            k, v = nxt()
            if v == '(':
                e = alts()
                assert nxt()[1] == ')'
                return e
            if v == '[':
                e = alts()
                assert nxt()[1] == ']'
                return alt(e, EPS_E)
            if k == 'str':
                return ilit(v[1:-1])
            if k == 'num':
                b = v[2:]
                if '-' in b:
                    x, y = b.split('-')
                    return ('cs', cs((int(x, 16), int(y, 16))))
                return seq(*[('cs', cs((int(x, 16), int(x, 16)))) for x in b.split('.')])
            if k == 'id':
                return ('ref', v)
            raise GrammarError(f'unexpected {v!r} in ABNF')
        rules[name] = alts()
        assert pos[0] == len(toks), (name, toks[pos[0]:])
    return Grammar(rules, False)

# ------------------------------------------------------------------ alphabet partition
def all_sets(e, acc):
    if e[0] == 'cs':
        acc.add(e[1])
    elif e[0] in ('seq', 'alt'):
        for x in e[1]:
            all_sets(x, acc)
    elif e[0] in ('star', 'and', 'not'):
        all_sets(e[1], acc)
def partition(gs):
    acc = set()
    for g in gs:
        for e in g.rules.values():
            all_sets(e, acc)
    cuts = {0, 0xE000, MAXC + 1}
    for s in acc:
        for a, b in s:
            cuts.add(a)
            cuts.add(b + 1)
    # quotes, brackets and escapes are needed for nesting
    for c in '[]()"\'\\':
        cuts.add(ord(c))
        cuts.add(ord(c) + 1)
    cuts = sorted(cuts)
    pieces = [(a, b - 1) for a, b in zip(cuts, cuts[1:]) if not (a >= 0xD800 and b <= 0xE000)]
    pieces = [(a, min(b, 0xD7FF) if a < 0xD800 else b) for a, b in pieces]
    # merge pieces with the same membership
    sig = {}
    sets = sorted(acc)
    for p in pieces:
        c = p[0]
        key = tuple(any(x <= c <= y for x, y in s) for s in sets) + ((chr(c),) if chr(c) in '[]()"\'\\' else (None,))
        sig.setdefault(key, []).append(p)
    classes = list(sig.values())
    return classes     # each: list of ranges; representative: first code point

# ------------------------------------------------------------------ language terms
class Lang:
    def __init__(self, gs, classes=None):
        self.classes = classes or partition(gs)
        self.reps = [c[0][0] for c in self.classes]
        self.tab = {}
        self.n = 0
        self.dmemo = {}
        self.nmemo = {}
        self.setmemo = {}
        self.NULL = self.mk('null')
        self.ALL = self.mk('all')
        self.EPS = self.mk('epsl')
        self.NEPS = self.mk('noteps')
    def mk(self, *key):
        t = self.tab.get(key)
        if t is None:
            t = key + (len(self.tab),)
            self.tab[key] = t
        return t
    def Or(self, *xs):
        s = set()
        for x in xs:
            if x[0] == 'or':
                s.update(x[1])
            elif x is not self.NULL:
                s.add(x)
        if self.ALL in s:
            return self.ALL
        for x in s:
            if x[0] == 'notl' and x[1] in s:
                return self.ALL
        # absorption
        s = self.absorb(s, 'and')
        if not s:
            return self.NULL
        if len(s) == 1:
            return next(iter(s))
        return self.mk('or', frozenset(s))
    def And(self, *xs):
        s = set()
        for x in xs:
            if x[0] == 'and':
                s.update(x[1])
            elif x is not self.ALL:
                s.add(x)
        if self.NULL in s:
            return self.NULL
        for x in s:
            if x[0] == 'notl' and x[1] in s:
                return self.NULL
        if self.EPS in s:
            return self.EPS if all(self.nullable(x) for x in s) else self.NULL
        s = self.absorb(s, 'or')
        if not s:
            return self.ALL
        if len(s) == 1:
            return next(iter(s))
        return self.mk('and', frozenset(s))
    def absorb(self, s, dual):
        if len(s) < 2:
            return s
        drop = set()
        for x in s:
            if x[0] == dual and x[1] & s:
                drop.add(x)
        return s - drop
    def Not(self, x):
        if x is self.NULL:
            return self.ALL
        if x is self.ALL:
            return self.NULL
        if x[0] == 'notl':
            return x[1]
        return self.mk('notl', x)
    def M(self, g, e, K):
        """language of e followed by K in grammar g"""
        if K is self.NULL:
            return self.NULL
        k = e[0]
        if k == 'eps':
            return K
        if k == 'eoi':
            return self.And(self.EPS, K)
        if k == 'seq':
            for x in reversed(e[1]):
                K = self.M(g, x, K)
            return K
        if k == 'and':
            return self.And(self.M(g, e[1], self.ALL), K)
        if k == 'not':
            return self.And(self.Not(self.M(g, e[1], self.ALL)), K)
        if k == 'cs':
            return self.mk('chr', self.cset(e[1]), K)
        if k == 'ref':
            return self.mk('ref', g, e[1], K)
        if k == 'alt':
            return self.mk('alt', g, e[1], K)
        if k == 'star':
            return self.mk('star', g, e[1], K)
        raise GrammarError(k)
    def cset(self, ranges):
        r = self.setmemo.get(ranges)
        if r is None:
            r = frozenset(i for i, c in enumerate(self.reps) if any(a <= c <= b for a, b in ranges))
            self.setmemo[ranges] = r
        return r
    def unfold(self, t):
        g = t[1]
        K = t[3]
        if t[0] == 'ref':
            return self.M(g, g.rules[t[2]], K)
        if t[0] == 'alt':
            r = self.NULL
            guard = self.ALL
            for x in t[2]:
                r = self.Or(r, self.And(guard, self.M(g, x, K)))
                if g.peg:
                    guard = self.And(guard, self.Not(self.M(g, x, self.ALL)))
            return r
        if t[0] == 'star':
            e = t[2]
            once = self.M(g, e, t)
            if g.peg:
                return self.Or(once, self.And(self.Not(self.M(g, e, self.ALL)), K))
            return self.Or(once, K)
    def nullable(self, t):
        r = self.nmemo.get(t)
        if r is not None:
            return r
        k = t[0]
        self.nmemo[t] = False     # a nullable star body cannot contribute
        if k in ('null', 'chr', 'noteps'):
            r = False
        elif k in ('all', 'epsl'):
            r = True
        elif k == 'or':
            r = any(self.nullable(x) for x in t[1])
        elif k == 'and':
            r = all(self.nullable(x) for x in t[1])
        elif k == 'notl':
            r = not self.nullable(t[1])
        else:
            r = self.nullable(self.unfold(t))
        self.nmemo[t] = r
        return r
    def deriv(self, t, a):
        key = (t[-1], a)
        r = self.dmemo.get(key)
        if r is not None:
            return r
        k = t[0]
        if k in ('null', 'epsl'):
            r = self.NULL
        elif k in ('all', 'noteps'):
            r = self.ALL
        elif k == 'chr':
            r = t[2] if a in t[1] else self.NULL
        elif k == 'or':
            r = self.Or(*[self.deriv(x, a) for x in t[1]])
        elif k == 'and':
            r = self.ALL
            for x in t[1]:
                r = self.And(r, self.deriv(x, a))
                if r is self.NULL:
                    break
        elif k == 'notl':
            r = self.Not(self.deriv(t[1], a))
        else:
            self.dmemo[key] = self.NULL
            r = self.deriv(self.unfold(t), a)
        self.dmemo[key] = r
        return r

class Nesting:
    """quote aware bracket depth: a string property independent of both grammars"""
    def __init__(self, L, bound):
        self.L, self.bound = L, bound
    start = ('n', 0)
    def step(self, st, i):
        c = chr(self.L.reps[i])
        m, d = st
        if m == 'n':
            if c in '[(':
                return ('n', d + 1) if d < self.bound else None
            if c in '])':
                return ('n', max(d - 1, 0))
            if c == '"':
                return ('d', d)
            if c == "'":
                return ('s', d)
            return st
        if m in ('d', 's'):
            if c == '\\':
                return (m + 'e', d)
            if c == ('"' if m == 'd' else "'"):
                return ('n', d)
            return st
        return (m[0], d)

def equivalent(L, A, B, bound, letters=None, limit=400000):
    """None if A and B contain the same strings (bracket depth <= bound, characters of the classes in letters),
    else (shortest distinguishing string, in A?, in B?); also returns the number of states"""
    nest = Nesting(L, bound)
    start = (A, B, nest.start)
    seen = {(A[-1], B[-1], nest.start)}
    layer = [(start, None)]
    idx = letters if letters is not None else range(len(L.reps))
    trans = 0
    while layer:
        nxt = []
        for node in layer:
            (a, b, n), _ = node
            x, y = L.nullable(a), L.nullable(b)
            if x != y:
                s = []
                p = node
                while p[1] is not None:
                    s.append(p[1][1])
                    p = p[1][0]
                return (''.join(chr(L.reps[i]) for i in reversed(s)), x, y), len(seen), trans
            for i in idx:
                n2 = nest.step(n, i)
                if n2 is None:
                    continue
                trans += 1
                a2, b2 = L.deriv(a, i), L.deriv(b, i)
                if a2 is b2:
                    continue
                key = (a2[-1], b2[-1], n2)
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > limit:
                    raise GrammarError(f'more than {limit} states')
                nxt.append(((a2, b2, n2), (node, i)))
        layer = nxt
    return None, len(seen), trans
