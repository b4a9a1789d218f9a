"""What each state of the lexer of the hand written parser does, as terms over the entry of the state."""
from term import *
from models import boff
from hand import LCtx, DELIM, FILTER

WS = ((9, 10), (13, 13), (32, 32))
DIGIT = ((48, 57),)
LOWER = ((97, 122),)
FNAME = ((48, 57), (95, 95), (97, 122))
NAME1 = ((65, 90), (95, 95), (97, 122), (128, 1114111))
NAME = ((48, 57),) + NAME1
ESCAPES = 'bfnrtu/\\'
ERR = raw('err')
SIMPLE = {'(': 'LParen', ')': 'RParen', '$': 'Root', '@': 'Current', '*': 'Wild', '?': 'Filter', ',': 'Comma', ':': 'Colon', '[': 'LBracket', ']': 'RBracket'}

class LSpec:
    def __init__(self, L):
        self.L = L
        self.q, self.toks, self.depth, self.stack = Sym('q'), Sym('toks'), None, Sym('stack')
        self.len = length(self.q)
        self.states = {}
        self.path, self.tname, tnames = L.variant('Token', 'Token')
        if sorted(tnames) != ['kind', 'span']:
            raise Unk('fields of a token')
        self.tn = tnames
    # ---- texts
    def code(self, i): return raw('ord', nth(self.q, i))
    def end(self, i): return le(self.len, i)
    def at(self, i, *cs):
        return And(lt(i, self.len), Or(*[ieq(self.code(i), Int(ord(c))) for c in cs]))
    def isin(self, i, ranges):
        o = self.code(i)
        return And(lt(i, self.len), Or(*[ieq(o, Int(a)) if a == b else And(le(Int(a), o), le(o, Int(b))) for a, b in ranges]))
    def span_of(self, i, ranges):
        from term import _run
        return _run(self.q, i, ranges)
    def text(self, a, b): return take(drop(self.q, a), sub(b, a))
    # ---- results
    def tok(self, kind, a, b, value=None):
        p, n, names = self.L.variant('TokenType', kind)
        k = adt(p, n, *[value for _ in names])
        d = {'kind': k, 'span': Tup(boff(self.q, a), boff(self.q, b))}
        return adt(self.path, self.tname, *[d[x] for x in self.tn])
    def to(self, state, k, *toks, start=None, depth=None, stack=None):
        p, n, _ = self.L.variant('State', state)
        lx = dict(query=self.q, tokens=cat(self.toks, *[one(t) for t in toks]), chars=adt('CharIndices', 'CharIndices', self.q, k), start=boff(self.q, k if start is None else start),
                  pos=boff(self.q, k), filter_depth=self.depth if depth is None else depth, paren_stack=self.stack if stack is None else stack)
        return Tup(adt(p, n), self.L.lexer(**lx))
    # ---- states
    def lex_root(self, k):
        return ite(self.at(k, '$'), self.to('LexSegment', add(k, Int(1)), self.tok('Root', k, add(k, Int(1)))), ERR)
    def lex_segment(self, k):
        w = self.span_of(k, WS)
        j = add(k, w)
        one_ = add(j, Int(1))
        r = ite(self.at(j, '.'),
                ite(self.at(one_, '.'), self.to('LexDescendantSegment', add(j, Int(2)), self.tok('DoubleDot', j, add(j, Int(2)))), self.to('LexShorthandSegment', one_, start=j)),
            ite(self.at(j, '['), self.to('LexInsideBracketedSegment', one_, self.tok('LBracket', j, one_)),
            ite(le(Int(1), self.depth), self.to('LexInsideFilter', j),
            ite(self.end(j), self.to('EndOfQuery', j, self.tok('Eoq', j, j)), ERR))))
        return ite(And(le(Int(1), w), Or(self.end(j), self.at(j, '\0'))), ERR, r)
    def name(self, k):
        j = add(add(k, Int(1)), self.span_of(add(k, Int(1)), NAME))
        return ite(self.isin(k, NAME1), self.to('LexSegment', j, self.tok('Name', k, j, self.text(k, j))), ERR)
    def lex_descendant_segment(self, k):
        j = add(k, Int(1))
        return ite(self.at(k, '*'), self.to('LexSegment', j, self.tok('Wild', k, j)),
               ite(self.at(k, '['), self.to('LexInsideBracketedSegment', j, self.tok('LBracket', k, j)), self.name(k)))
    def lex_shorthand_selector(self, k):
        j = add(k, Int(1))
        return ite(le(Int(1), self.span_of(k, WS)), ERR, ite(self.at(k, '*'), self.to('LexSegment', j, self.tok('Wild', k, j)), self.name(k)))
    def lex_inside_bracketed_segment(self, k):
        k = add(k, self.span_of(k, WS))
        j = add(k, Int(1))
        def index(p):
            e = add(p, self.span_of(p, DIGIT))
            return ite(self.isin(p, DIGIT), self.to('LexInsideBracketedSegment', e, self.tok('Index', k, e, self.text(k, e))), ERR)
        r = ite(self.at(k, '-'), index(j), index(k))
        for c in '"\'':
            r = ite(self.at(k, c), self.to('LexInside%sQuotedString' % ('Double' if c == '"' else 'Single'), j, start=k), r)
        for c in ',:*':
            r = ite(self.at(k, c), self.to('LexInsideBracketedSegment', j, self.tok(SIMPLE[c], k, j)), r)
        r = ite(self.at(k, '?'), self.to('LexInsideFilter', j, self.tok('Filter', k, j), depth=add(self.depth, Int(1)), stack=cat(self.stack, one(Int(0)))), r)
        return ite(self.at(k, ']'), self.to('LexSegment', j, self.tok('RBracket', k, j)), r)
    def lex_inside_filter(self, k):
        F, B = 'LexInsideFilter', 'LexInsideBracketedSegment'
        k = add(k, self.span_of(k, WS))
        j, jj = add(k, Int(1)), add(k, Int(2))
        top = sub(length(self.stack), Int(1))
        last, less = nth(self.stack, top), sub(self.depth, Int(1))
        popped = take(self.stack, top)
        set_ = lambda x: cat(popped, one(x))
        r = ite(self.at(k, '-'), self.number(k, j), ite(self.isin(k, DIGIT), self.number(k, k), self.word(k)))
        for c, two, kind in (('&', '&', 'And'), ('|', '|', 'Or'), ('=', '=', 'Eq')):
            r = ite(self.at(k, c), ite(self.at(j, two), self.to(F, jj, self.tok(kind, k, jj)), ERR), r)
        for c, kind, short in (('<', 'Le', 'Lt'), ('>', 'Ge', 'Gt'), ('!', 'Ne', 'Not')):
            r = ite(self.at(k, c), ite(self.at(j, '='), self.to(F, jj, self.tok(kind, k, jj)), self.to(F, j, self.tok(short, k, j))), r)
        for c in '$@':
            r = ite(self.at(k, c), self.to('LexSegment', j, self.tok(SIMPLE[c], k, j)), r)
        r = ite(self.at(k, '.'), self.to('LexSegment', k), r)
        for c in '"\'':
            r = ite(self.at(k, c), self.to('LexInside%sQuotedFilterString' % ('Double' if c == '"' else 'Single'), j, start=k), r)
        cl = self.tok('RParen', k, j)
        r = ite(self.at(k, ')'), ite(ieq(last, Int(0)), self.to(F, j, cl), ite(ieq(last, Int(1)), self.to(F, j, cl, stack=popped), self.to(F, j, cl, stack=set_(sub(last, Int(1)))))), r)
        op = self.tok('LParen', k, j)
        r = ite(self.at(k, '('), ite(ieq(last, Int(0)), self.to(F, j, op), self.to(F, j, op, stack=set_(add(last, Int(1))))), r)
        comma = self.tok('Comma', k, j)
        r = ite(self.at(k, ','), ite(ieq(last, Int(0)), self.to(B, j, comma, depth=less, stack=popped), self.to(F, j, comma)), r)
        return ite(self.at(k, ']'), ite(ieq(last, Int(0)), self.to(B, k, depth=less, stack=popped), ERR), r)
    def number(self, k, p):
        d = self.span_of(p, DIGIT)
        m = add(p, d)
        def done(kind, e): return self.to('LexInsideFilter', e, self.tok(kind, k, e, self.text(k, e)))
        def digits(p, then):
            return ite(self.isin(p, DIGIT), then(add(p, self.span_of(p, DIGIT))), ERR)
        f = add(m, Int(1))
        def frac(n):
            a, b = add(n, Int(1)), add(n, Int(2))
            return ite(self.at(n, 'e', 'E'), ite(self.at(a, '+', '-'), digits(b, lambda e: done('Float', e)), digits(a, lambda e: done('Float', e))), done('Float', n))
        b = add(m, Int(2))
        whole = ite(self.at(m, 'e', 'E'), ite(self.at(f, '-'), digits(b, lambda e: done('Float', e)),
                    ite(self.at(f, '+'), digits(b, lambda e: done('Int', e)), digits(f, lambda e: done('Int', e)))), done('Int', m))
        r = ite(self.at(m, '.'), digits(f, frac), whole)
        r = ite(And(self.at(p, '0'), le(Int(2), d)), ERR, r)
        return ite(self.isin(p, DIGIT), r, ERR)
    def word(self, k):
        F = 'LexInsideFilter'
        m = add(k, self.span_of(k, LOWER))
        e = add(m, self.span_of(m, FNAME))
        t = self.text(k, e)
        j = add(e, Int(1))
        r = ite(self.at(e, '('), self.to(F, j, self.tok('Function', k, e, t), stack=cat(self.stack, one(Int(1)))), ERR)
        for w in ('true', 'false', 'null'):
            r = ite(beq(t, Str(w)), self.to(F, e, self.tok(w.capitalize(), k, e)), r)
        return ite(self.isin(k, LOWER), r, ERR)
    def step(self, n, lx, more=()):
        self.depth = lx['filter_depth']
        k = lx['chars'].args[-1]
        return getattr(self, n)(k, *more)

def normal(L, tree):
    """a decision tree with its error leaves reduced to the mark for them"""
    import interp
    i = L.names.index('tokens')
    toks = Sym('toks')
    def leaf(l):
        if l[1].op == 'adt' and l[1].args[1] == L.variant('State', 'Error')[1]:
            ts = seq_parts(l[2].args[2 + i]) if l[2].op == 'adt' else []
            if len(ts) == 2 and ts[0] is toks and ts[1].op == 'one':
                return ('leaf', ERR)
        return ('leaf', Tup(l[1], l[2]))
    return interp.map_leaves(tree, leaf)
