"""Rows of the hand written parser: its lexer and parser tables applied to whole texts."""
import os, time
import base, ev, interp, hand, panalysis
from panalysis import Panicked, edge, taken
import term as TM
from term import *

def decide(v, tree):
    while tree is not None and tree[0] == 'fork':
        tree = tree[2] if v.ev(tree[1]) is True else tree[3]
    if tree is None:
        raise ev.Undef('no leaf')
    return tree[1:]

class Tables:
    """decision trees of the lexer and the parser, computed when needed"""
    def __init__(self):
        self.L, self.H = hand.LCtx(), hand.HCtx()
        self.tab = {}
        for n, names in (('JSONPathError', ('kind',)),):
            self.errpos = self.H.variant('JSONPathError', 'JSONPathError')[2].index('kind')
    def get(self, key, f):
        if key not in self.tab:
            try:
                self.tab[key] = f()
            except Unk as e:
                self.tab[key] = e
        r = self.tab[key]
        if isinstance(r, Unk):
            raise ev.NoEval(f'{key}: {r}')
        return r
    def lexer(self, n):
        def f():
            lx, facts = self.L.entry()
            more = [Sym('quote'), Sym('next')] if n == 'lex_string' else []
            t = self.L.run(n, self.L.lexer(**lx), facts, *more)
            return t, [edge(p) for p in self.L.last_panics if p[4] is not None]
        return self.get(('lexer', n), f)
    def whole(self, n):
        def f():
            t = self.L.paths_of(self.L.fn(n), [Sym('q')], None, lambda v, st, a: (v,))
            return t, [edge(p) for p in self.L.last_panics if p[4] is not None]
        return self.get(('whole', n), f)
    def parser(self, role, known=False):
        """known: the first token is of a kind the function is called with"""
        import hparse
        def f():
            a, facts = hparse.inputs(self.H, self.S, role) if known else (self.H.syms_of(role), None)
            t = self.H.run(role, a, facts)
            return t, [x.args[0] for x in a], [edge(p) for p in self.H.last_panics if p[4] is not None]
        return self.get(('parser', role, known), f)
    @property
    def S(self):
        import hparse
        if not hasattr(self, '_S'):
            self._S = hparse.HSpec(self.H)
        return self._S

class Model:
    """the tables applied to texts"""
    def __init__(self, T):
        self.T = T
    def leaf(self, ip, types, roles, tree, edges):
        v = ev.Val(ip, types, 1, ([0], ['a'], [97]), roles, {'panic': self.panic})
        for where, parts, uids in edges:
            if not uids and taken(v, parts, uids):
                raise Panicked(where)
        try:
            r = decide(v, tree)
            return [v.ev(x) for x in r]
        except ev.Diverge:
            raise
        except (ev.NoEval, ev.Undef, IndexError) as e:
            for where, parts, uids in edges:
                if uids and taken(v, parts, uids):
                    raise Panicked(where)
            raise ev.NoEval('index' if isinstance(e, IndexError) else str(e))
    def panic(self, val, t, env):
        raise Panicked(' '.join(str(x) for x in t.args if not isinstance(x, TM.T))[:200])
    # ---------------------------------------------------------------- lexer
    def step(self, n, args):
        L = self.T.L
        lx = dict(zip(L.names, args[0].f))
        q, k = lx['query'], lx['chars'].f[1]
        b = [0]
        for c in q:
            b.append(b[-1] + len(c.encode('utf8', 'surrogatepass')))
        if lx['chars'].f[0] != q or lx['pos'] not in b or b.index(lx['pos']) != k or lx['start'] not in b:
            raise ev.NoEval('offsets of the lexer')
        types = {'q': q, 'k': k, 's': b.index(lx['start']), 'depth': lx['filter_depth'], 'stack': lx['paren_stack'], 'toks': lx['tokens']}
        if len(args) > 1:
            types['quote'], types['next'] = args[1:]
        tree, edges = self.T.lexer(n)
        return ev.Tp(self.leaf(L.ip, {x: (lambda val, y=y: y) for x, y in types.items()}, {}, tree, edges))
    def whole(self, n, text):
        L = self.T.L
        tree, edges = self.T.whole(n)
        roles = {r: (lambda val, a, r=r: self.step(r, a)) for r in hand.STATES}
        return self.leaf(L.ip, {'q': lambda val: tuple(text)}, roles, tree, edges)[0]
    # ---------------------------------------------------------------- parser
    def apply(self, role, args):
        if role == 'lex':
            return self.whole('lexer::lex', args[0])
        if self.stack is None:
            return self.applied(role, args)
        if (role, args) in self.stack:
            raise ev.Diverge(f'{role} calls itself with what it was given')
        self.stack.append((role, args))
        try:
            return self.applied(role, args)
        finally:
            self.stack.pop()
    stack = None           # the calls that are running, if they are to be watched
    def applied(self, role, args):
        import hparse
        known = role in hparse.PRE and len(args[0]) and args[0][0].f[self.T.S.ki].v in self.T.S.kinds(*hparse.PRE[role])
        tree, names, edges = self.T.parser(role, bool(known))
        types = {n: (lambda val, x=x: x) for n, x in zip(names, args)}
        roles = {r: (lambda val, a, r=r: self.apply(r, a)) for r in self.T.H.A.fns}
        r = self.leaf(self.T.H.ip, types, roles, tree, edges)
        return r[0] if len(r) == 1 else ev.Tp(r)
    def parse(self, text):
        return self.apply('parse', [tuple(text)])
    def token(self, kind, value, a, b):
        H, S = self.T.H, self.T.S
        k = ev.A(H.variant('TokenType', kind)[1], *([] if value is None else [tuple(value)]))
        d = {S.ki: k, S.si: ev.Tp((a, b))}
        return ev.A(S.tk, d[0], d[1])
    def parse_tokens(self, text):
        """the parser alone, on the tokens of the specification"""
        return self.apply('tokens', [tuple(self.token(*t) for t in tokens_of(text))])

# ---------------------------------------------------------------- the reference
class Ref(panalysis.pref.Ref):
    """the syntax tree of the hand written parser, without its source positions"""
    def __init__(self, H):
        H.rec = False
        super().__init__(H)
    def mk(self, enum, v, **fs):
        if (enum, v) not in self.names:
            self.names[(enum, v)] = self.X.variant(enum, v)[1:]
        n, order = self.names[(enum, v)]
        return ev.A(n, *[fs.get(x) for x in order])
    def query(self, nodes):
        return self.mk('Query', 'Query', segments=tuple(self.segment(p) for p in nodes if self.rule(p) != 'EOI'))
    def singular_query(self, q):
        for s in q.f[0]:
            if not self.isv(s, 'Segment', 'Child'):
                return False
            sel = self.get(s, 'Segment', 'Child', 'selectors')
            if len(sel) != 1 or not self.isv(sel[0], 'Selector', 'Name', 'Index'):
                return False
        return True

def plain(x, spans):
    """a syntax tree of the code without its source positions"""
    if isinstance(x, ev.A):
        i = spans.get(x.v)
        return ev.A(x.v, *[None if j == i else plain(y, spans) for j, y in enumerate(x.f)])
    if isinstance(x, tuple):
        return type(x)(plain(y, spans) for y in x)
    return x
def spans_of(H):
    out = {}
    for a in H.crate.adts.values():
        if a.get('local'):
            for i, v in enumerate(a['variants']):
                for j, f in enumerate(v['fields']):
                    if f['name'] == 'span':
                        out[H.ip.vn(a, i)] = j
    return out
def norm(x):
    """comparable form of a syntax tree; chains of one logical operator are associative"""
    if isinstance(x, ev.A):
        n = x.v.split('::')[-1]
        fs = [norm(y) for y in x.f if y is not None]
        if n == 'Logical':
            op = next(y for y in fs if y[0].startswith('LogicalOperator'))
            xs = []
            for y in fs:
                if y is not op:
                    xs += y[2] if y[0] == x.v and y[1] == op else [y]
            return (x.v, op, xs)
        return (x.v,) + tuple(fs)
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, float):
        return ('float', repr(x))
    if isinstance(x, (str, int)):
        return x
    raise ev.NoEval('value')

SYN = {'SyntaxError', 'LexerError'}
def kinds(text, tree, errs):
    """error kinds that are right for a text the specification rejects"""
    if tree is None:
        return SYN | ({'TypeError', 'NameError'} if '?' in text else set())
    ks = {k for k, _ in errs}
    return ks | SYN if ks & SYN else ks

# ---------------------------------------------------------------- the reference lexer
class LexError(Exception): pass
def tokens_of(text):
    """[(kind, text or None, first byte, byte behind)] of a text, LexError if it has no tokens"""
    import hspec
    off = [0]
    for c in text:
        off.append(off[-1] + len(c.encode('utf8', 'surrogatepass')))
    out = []
    def inside(i, cls):
        return i < len(text) and any(a <= ord(text[i]) <= b for a, b in cls)
    def run(i, cls):
        while inside(i, cls):
            i += 1
        return i
    def emit(kind, a, b, value=False):
        out.append((kind, text[a:b] if value else None, off[a], off[b]))
        return b
    def name(i):
        if not inside(i, hspec.NAME1):
            raise LexError(i)
        return emit('Name', i, run(i + 1, hspec.NAME), True)
    def string(i):
        q = text[i]
        i = a = i + 1
        while i < len(text) and text[i] != q:
            if text[i] == '\0':
                raise LexError(i)
            if text[i] == '\\':
                i += 1
                if i >= len(text) or text[i] not in hspec.ESCAPES + q:
                    raise LexError(i)
            i += 1
        if i >= len(text):
            raise LexError(i)
        return emit('DoubleQuoteString' if q == '"' else 'SingleQuoteString', a, i, True) + 1
    def number(k):
        p = k + 1 if text[k] == '-' else k
        i = run(p, hspec.DIGIT)
        if i == p or text[p] == '0' and i > p + 1:
            raise LexError(i)
        kind = 'Int'
        if text[i:i + 1] == '.':
            kind, a = 'Float', i + 1
            i = run(a, hspec.DIGIT)
            if i == a:
                raise LexError(i)
        if text[i:i + 1] in ('e', 'E'):
            i += 1
            if text[i:i + 1] in ('+', '-'):
                kind = 'Float' if text[i] == '-' else kind
                i += 1
            a, i = i, run(i, hspec.DIGIT)
            if i == a:
                raise LexError(i)
        return emit(kind, k, i, True)
    i, stack, state = 0, [], 'root'
    while True:
        c = text[i:i + 1]
        if state == 'root':
            if c != '$':
                raise LexError(i)
            i, state = emit('Root', i, i + 1), 'segment'
            continue
        j = run(i, hspec.WS)
        c, two = text[j:j + 1], text[j:j + 2]
        if state == 'segment':
            if two == '..':
                i, state = emit('DoubleDot', j, j + 2), 'segment'
                c = text[i:i + 1]
                if c == '*':
                    i = emit('Wild', i, i + 1)
                elif c == '[':
                    i, state = emit('LBracket', i, i + 1), 'bracket'
                else:
                    i = name(i)
            elif c == '.':
                i = j + 1
                i = emit('Wild', i, i + 1) if text[i:i + 1] == '*' else name(i)
            elif c == '[':
                i, state = emit('LBracket', j, j + 1), 'bracket'
            elif stack and c not in ('', '\0'):
                i, state = j, 'filter'
            elif j == len(text) and i == j and not stack:
                emit('Eoq', j, j)
                return out
            else:
                raise LexError(j)
        elif state == 'bracket':
            if c == '?':
                i, state = emit('Filter', j, j + 1), 'filter'
                stack.append(0)
            elif c == ']':
                i, state = emit('RBracket', j, j + 1), 'segment'
            elif c in ('*', ',', ':') and c:
                i = emit(hspec.SIMPLE[c], j, j + 1)
            elif c in ('"', "'") and c:
                i = string(j)
            elif c == '-' or inside(j, hspec.DIGIT):
                a = j + 1 if c == '-' else j
                i = run(a, hspec.DIGIT)
                if i == a:
                    raise LexError(i)
                emit('Index', j, i, True)
            else:
                raise LexError(j)
        else:
            if c == ']':
                if stack.pop() != 0:
                    raise LexError(j)
                i, state = j, 'bracket'
            elif c == ',':
                i = emit('Comma', j, j + 1)
                if stack[-1] == 0:
                    stack.pop()
                    state = 'bracket'
            elif c in ('"', "'") and c:
                i = string(j)
            elif c == '(':
                i = emit('LParen', j, j + 1)
                stack[-1] += stack[-1] > 0
            elif c == ')':
                i = emit('RParen', j, j + 1)
                if stack[-1] == 1:
                    stack.pop()
                elif stack[-1]:
                    stack[-1] -= 1
            elif c in ('$', '@') and c:
                i, state = emit(hspec.SIMPLE[c], j, j + 1), 'segment'
            elif c == '.':
                i, state = j, 'segment'
            elif two in ('==', '!=', '<=', '>=', '&&', '||'):
                i = emit({'==': 'Eq', '!=': 'Ne', '<=': 'Le', '>=': 'Ge', '&&': 'And', '||': 'Or'}[two], j, j + 2)
            elif c in ('<', '>', '!') and c:
                i = emit({'<': 'Lt', '>': 'Gt', '!': 'Not'}[c], j, j + 1)
            elif c == '-' or inside(j, hspec.DIGIT):
                i = number(j)
            elif inside(j, hspec.LOWER):
                e = run(j, hspec.FNAME)
                w = text[j:e]
                if w in ('true', 'false', 'null'):
                    i = emit(w.capitalize(), j, e)
                elif text[e:e + 1] == '(':
                    emit('Function', j, e, True)
                    stack.append(1)
                    i = e + 1
                else:
                    raise LexError(j)
            else:
                raise LexError(j)

def lexed(M, toks):
    """tokens of the code in the form of the reference, 'error' if they end in an error token"""
    out = []
    for t in toks:
        d = dict(zip(M.T.L.variant('Token', 'Token')[2], t.f))
        kind = d['kind'].v.split('::')[-1]
        if kind == 'Error':
            return 'error'
        v = [x for x in d['kind'].f]
        sp = d['span']
        out.append((kind, ''.join(v[0]) if v else None, sp[0], sp[1]))
    return out

CHARS = ['\0', '\x01', '\x08', '\t', '\n', '\x0b', '\x0c', '\r', '\x0e', '\x1f', ' ', '!', '"', '#', '$', '%', '&', "'", '(', ')', '*', '+', ',', '-', '.', '/', '0', '1', '8', '9', ':', ';', '<', '=', '>', '?', '@', 'A', 'B', 'E', 'Y', 'Z', '[', '\\', ']', '^',
         '_', '`', 'a', 'b', 'e', 'f', 'g', 'n', 'o', 'r', 's', 't', 'u', 'v', 'y', 'z', '{', '|', '}', '~', '\x7f', '\x80', '\x85', '\xa0', '\xff', '\u0100', '\u0660', '\u07ff', '\u0800', '\u1680', '\u2028', '\u3000', '\ud7ff', '\ue000', '\ufeff', '\uffff', '\U00010000', '\U0001d7d8', '\U0010ffff']
SPOTS = ['%s', '$%s', '$.%s', '$.%sb', '$.a%s', '$.a%sb', '$..%s', '$..a%s', '$%s.a', '$.%s.a', '$[%s]', '$[%s0]', '$[0%s]', '$[1%s2]', '$[-%s]', "$['%s']", "$['\\%s']", "$['a%sb']", '$["%s"]', '$["\\%s"]', "$['a'%s]", '$[?%s]', '$[?@%s]', '$[?@%s.a]', '$[?@.a%s]',
         '$[?@.a%s==1]', '$[?@.a%s1]', '$[?@.a=%s1]', '$[?@.a<%s1]', '$[?@.a>%s1]', '$[?@.a!%s1]', '$[?@.a&%s@.b]', '$[?@.a|%s@.b]', '$[?@.a==1%s]', '$[?@.a==1%s2]', '$[?@.a==%s1]', '$[?@.a==-%s]', '$[?@.a==-%s1]', '$[?@.a==1.%s]', '$[?@.a==1.2%s]', '$[?@.a==1.2%s3]',
         '$[?@.a==1e%s]', '$[?@.a==1e%s2]', '$[?@.a==1E%s2]', '$[?@.a==1.5e%s2]', '$[?@.a==1e-%s]', '$[?@.a==1e-2%s]', '$[?@.a==1e2%s3]', '$[?@.a==0%s]', '$[?@.a==-0%s]', "$[?@.a=='%s']", "$[?@.a=='\\%s']", '$[?@.a=="%s"]', '$[?@.a=="\\%s"]', '$[?%s(@.a)]', '$[?f%s(@.a)]', '$[?f1%s]',
         '$[?length%s(@.a)==1]', '$[?length(%s@.a)==1]', '$[?length(@.a%s)==1]', '$[?length(@.a)%s==1]', '$[?tru%s==1]', '$[?@.a==true%s]', '$[?@.a==nul%s]', '$[?@.a==false%s]', '$[?(@.a)%s]', '$[?@.a,%s@.b]', '$[?@.a]%s', '$[0]%s', '$.a%s[0]', '$[0%s:1]', '$[0,%s1]', '$[?@[%s0]]', '$[?@[0]%s]', "$[?@['a']%s['b']]"]
NEST = ['$[?f(@[?@.a],@.b)]', '$[?f(@[?@.a,?@.b],@.c)]', '$[?f((@.a),@.b),0]', '$[?(f(@.a,@.b)),0]', '$[?f(g(@.a,@.b),@.c),1]', '$[?((@.a)),?(@.b)]', '$[?f((@.a)]', '$[?(@.a],0]', '$[?@[?(@.a)],1]', '$[?f(@[?(g(@.a,@.b)),?@.c],@.d),2]',
        '$[?f(((@.a)),@.b),1]', '$[?@.a)]', '$[?)]', '$[?f(@.a)),0]', '$[?f(@[?(@.a],@.b)]', '$[?(f(@.a)),?f(@.b)]', '$[?f(@.a,g(@.b)),0,1:2]', '$[?f(@.a)&&(g(@.b,@.c)),0]', '$[?f(@[0,1],@[1:2])]', "$[?f(@['a','b'],'c'),'d']"]

def lexer_texts(M, extra=()):
    out = list(NEST)
    cs = list(dict.fromkeys(CHARS + sorted(extra)))
    for s in SPOTS:
        out += [s.replace('%s', c) for c in cs]
        out += [s.replace('%s', c) for c in ('', '  ', 'ab', '00', '12', '\\\\', "\\'", '\\"', '==', '..', 'é1', '0.0', '1e5')]
    return list(dict.fromkeys(out))
