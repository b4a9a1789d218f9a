"""What the functions of the hand written parser do over a sequence of tokens, and the comparison of the code with it.

A loop is compared as a state machine: `head(state)` is what is computed from a state of the loop on, up to the end of the
function.  One step of the code (its body, and what follows the loop where it is left) must equal one step of the specification."""
import itertools
import base, eq, hand, interp
import term as TM
from term import *
from facts import Facts
from pspec import MAXI
import registry

CMP = ('Eq', 'Ge', 'Gt', 'Le', 'Lt', 'Ne')
INFIX = CMP + ('And', 'Or')
PREC = {'LOWEST': 1, 'Or': 3, 'And': 4, 'CMP': 5, 'Not': 7}
DONE = raw('tuple')
STREAM = ('segments', 'selectors', 'bracketed', 'slice', 'filter', 'not', 'infix', 'grouped', 'basic', 'call', 'fexpr')
PURE = ('okcompared', 'okcomparable', 'typed', 'isval', 'islog', 'isnodes', 'int', 'tokens', 'parse')
# kinds of the first token a function is called with
# (the lexer gives one of three tokens behind `..`: P27)
PRE = {'selectors': ('LBracket', 'Name', 'Wild'), 'bracketed': ('LBracket',), 'slice': ('Index', 'Colon'), 'filter': ('Filter',), 'not': ('Not',), 'infix': INFIX, 'grouped': ('LParen',), 'call': ('Function',)}

def ok_(v, rest): return Tup(Ok(v), rest)
def err_(e): return Tup(Err(e), DONE)

class HSpec:
    def __init__(self, X):
        self.X = X
        _, self.tk, names = X.variant('Token', 'Token')
        self.ki, self.si = names.index('kind'), names.index('span')
        self.heads, self.level = {}, 0
    # ---- tokens
    def kinds(self, *ks): return tuple(self.X.variant('TokenType', k)[1] for k in ks)
    def kindof(self, ts): return fld(nth(ts, Int(0)), self.tk, self.ki)
    def span(self, ts): return fld(nth(ts, Int(0)), self.tk, self.si)
    def isk(self, ts, *ks): return And(lt(Int(0), length(ts)), isin(self.kindof(ts), self.kinds(*ks)))
    def eoq(self, ts): return Or(le(length(ts), Int(0)), isin(self.kindof(ts), self.kinds('Eoq')))
    def val(self, ts, k): return fld(self.kindof(ts), self.kinds(k)[0], 0)
    def rest(self, ts): return drop(ts, Int(1))
    def mk(self, enum, v, **fs): return self.X.mk(enum, v, **fs)
    def op(self, enum, v):
        return adt(*self.X.variant(enum, v)[:2])
    def error(self, kind, err):
        """err(error of a kind); kind None: any"""
        from spec import ANY
        return err(ANY if kind is None else self.X.err(kind).args[2])
    def cases(self, ts, rules, other):
        r = other()
        for ks, f in reversed(rules):
            r = ite(self.isk(ts, *((ks,) if isinstance(ks, str) else ks)), f(), r)
        return r
    # ---- calls
    def call(self, role, args, ok, err):
        if self.X.A.get(role) is None:
            return getattr(self, 's_' + role)(*args, ok, err)
        c = raw('call', role, *args)
        r = fld(c, None, 0)
        return ite(is_ok(r), ok(fld(r, 'Ok', 0), fld(c, None, 1)), err(fld(r, 'Err', 0)))
    def pure(self, role, args, ok, err):
        if self.X.A.get(role) is None:
            return getattr(self, 's_' + role)(*args, ok, err)
        c = raw('call', role, *args)
        return ite(is_ok(c), ok(fld(c, 'Ok', 0)), err(fld(c, 'Err', 0)))
    def flag(self, role, e):
        if self.X.A.get(role) is None:
            return getattr(self.X, 's_' + role)(e)
        return raw('call', role, e)
    def loop(self, name, args, fn):
        self.heads.setdefault(name, (len(args), fn))
        return raw('call', '@' + name, *args)
    def unescape(self, v, single, sp, ok, err):
        if single:
            v = raw('replace', v, Str("\\'"), Str("'"))
        return self.pure('unescape', [v, sp], ok, err)
    def spanof(self, e): return raw('call', 'span', e)
    def literal(self, e): return self.X.is_(e, 'FilterExpression', 'True', 'False', 'Null', 'String', 'Int', 'Float')
    # ---- functions that take tokens
    def s_segments(self, ts, ok, err):
        def step(ts, segs):
            def seg(v, sp, at):
                return self.call('selectors', [at], lambda s, r: self.loop('segments', [r, cat(segs, one(self.mk('Segment', v, span=sp, selectors=s)))], step), err)
            return self.cases(ts, [('DoubleDot', lambda: seg('Recursive', self.span(ts), self.rest(ts))), (('LBracket', 'Name', 'Wild'), lambda: seg('Child', self.span(ts), ts))], lambda: ok(segs, ts))
        return self.loop('segments', [ts, EMPTY], step)
    def s_selectors(self, ts, ok, err):
        name = lambda: self.unescape(self.val(ts, 'Name'), False, self.span(ts), lambda n: ok(one(self.mk('Selector', 'Name', span=self.span(ts), name=n)), self.rest(ts)), err)
        return self.cases(ts, [('Name', name), ('Wild', lambda: ok(one(self.mk('Selector', 'Wild', span=self.span(ts))), self.rest(ts))),
                               ('LBracket', lambda: self.call('bracketed', [ts], ok, err))], lambda: self.error('SyntaxError', err))
    def s_bracketed(self, ts, ok, err):
        fail = lambda: self.error('SyntaxError', err)
        def step(ts, sels):
            def then(sel, r):
                def comma():
                    return ite(self.isk(self.rest(r), 'RBracket'), fail(), self.loop('bracketed', [self.rest(r), cat(sels, one(sel))], step))
                return self.cases(r, [('RBracket', lambda: self.loop('bracketed', [r, cat(sels, one(sel))], step)), ('Comma', comma)], fail)
            def string(k, single):
                return self.unescape(self.val(ts, k), single, self.span(ts), lambda n: then(self.mk('Selector', 'Name', span=self.span(ts), name=n), self.rest(ts)), err)
            return self.cases(ts, [
                ('RBracket', lambda: ite(is_empty(sels), fail(), ok(sels, self.rest(ts)))),
                (('Index', 'Colon'), lambda: self.call('slice', [ts], then, err)),
                ('DoubleQuoteString', lambda: string('DoubleQuoteString', False)), ('SingleQuoteString', lambda: string('SingleQuoteString', True)),
                ('Wild', lambda: then(self.mk('Selector', 'Wild', span=self.span(ts)), self.rest(ts))),
                ('Filter', lambda: self.call('filter', [ts], then, err))], fail)
        return self.loop('bracketed', [self.rest(ts), EMPTY], step)
    def s_slice(self, ts, ok, err):
        sp = self.span(ts)
        def number(t, f): return self.pure('int', [self.val(t, 'Index'), self.span(t)], f, err)
        def maybe(t, f):
            """an optional number"""
            return ite(self.isk(t, 'Index'), number(t, lambda n: f(Some(n), self.rest(t))), f(NONE, t))
        def after(start, t):
            # behind the first colon
            def stop(v, t2):
                return ite(self.isk(t2, 'Colon'), maybe(self.rest(t2), lambda w, t3: build(v, w, t3)), build(v, NONE, t2))
            def build(v, w, t3):
                return ok(self.mk('Selector', 'Slice', span=sp, start=start, stop=v, step=w), t3)
            return maybe(t, stop)
        def index():
            r = self.rest(ts)
            return number(ts, lambda n: ite(self.isk(r, 'Colon'), after(Some(n), self.rest(r)), ok(self.mk('Selector', 'Index', span=sp, index=n), r)))
        return ite(self.isk(ts, 'Colon'), after(NONE, self.rest(ts)), index())
    def s_filter(self, ts, ok, err):
        return self.call('fexpr', [self.rest(ts), Int(PREC['LOWEST'])], lambda e, r: self.pure('okcompared', [e], lambda _: ok(self.mk('Selector', 'Filter', span=self.span(ts), expression=e), r), err), err)
    def s_not(self, ts, ok, err):
        r = self.rest(ts)
        return ite(self.isk(r, 'Not'), self.error('SyntaxError', err), self.call('fexpr', [r, Int(PREC['Not'])], lambda e, r: self.pure('okcompared', [e], lambda _: ok(
            self.mk('FilterExpression', 'Not', span=self.span(ts), expression=e), r), err), err))
    def s_infix(self, ts, left, ok, err):
        from spec import ANY
        r = self.rest(ts)
        def logical(k):
            def right(e, r2):
                done = lambda: ok(self.mk('FilterExpression', 'Logical', span=self.spanof(left), left=left, operator=self.op('LogicalOperator', k), right=e), r2)
                return ite(Or(self.literal(left), self.literal(e)), self.error(None, err), self.pure('okcompared', [left], lambda _: self.pure('okcompared', [e], lambda _: done(), err), err))
            return self.call('fexpr', [r, Int(PREC[k])], right, err)
        def comparison(k):
            def right(e, r2):
                done = lambda: ok(self.mk('FilterExpression', 'Comparison', span=self.spanof(left), left=left, operator=self.op('ComparisonOperator', k), right=e), r2)
                return self.pure('okcomparable', [left, self.spanof(left)], lambda _: self.pure('okcomparable', [e, self.spanof(e)], lambda _: done(), err), err)
            return ite(self.isk(r, 'LParen'), self.error('SyntaxError', err), self.call('fexpr', [r, Int(PREC['CMP'])], right, err))
        return self.cases(ts, [(k, lambda k=k: logical(k)) for k in ('And', 'Or')] + [(k, lambda k=k: comparison(k)) for k in CMP], lambda: ANY)
    def s_grouped(self, ts, ok, err):
        def step(t, e):
            def close():
                r = self.rest(t)
                return self.pure('okcompared', [e], lambda _: ite(self.isk(r, *CMP), self.error('SyntaxError', err), ok(e, r)), err)
            return self.cases(t, [('RParen', close), (INFIX, lambda: self.call('infix', [t, e], lambda e2, r: self.loop('grouped', [r, e2], step), err))], lambda: self.error('SyntaxError', err))
        return self.call('fexpr', [self.rest(ts), Int(PREC['LOWEST'])], lambda e, r: self.loop('grouped', [r, e], step), err)
    def s_basic(self, ts, ok, err):
        sp, r = self.span(ts), self.rest(ts)
        F = lambda v, **fs: self.mk('FilterExpression', v, span=sp, **fs)
        string = lambda k, single: self.unescape(self.val(ts, k), single, sp, lambda s: ok(F('String', value=s), r), err)
        def float_(k):
            n = raw('parse', 'f64', self.val(ts, k))
            return ite(is_ok(n), ok(F('Float', value=fld(n, 'Ok', 0)), r), self.error('SyntaxError', err))
        def int_():
            n = raw('parse', 'i64', self.val(ts, 'Int'))
            return ite(is_ok(n), ok(F('Int', value=fld(n, 'Ok', 0)), r), float_('Int'))
        def query(v): return self.call('segments', [r], lambda s, r2: ok(F(v, query=self.mk('Query', 'Query', segments=s)), r2), err)
        return self.cases(ts, [
            ('DoubleQuoteString', lambda: string('DoubleQuoteString', False)), ('SingleQuoteString', lambda: string('SingleQuoteString', True)),
            ('True', lambda: ok(F('True'), r)), ('False', lambda: ok(F('False'), r)), ('Null', lambda: ok(F('Null'), r)),
            ('Float', lambda: float_('Float')), ('Int', int_), ('Function', lambda: self.call('call', [ts], ok, err)),
            ('Root', lambda: query('RootQuery')), ('Current', lambda: query('RelativeQuery')),
            ('LParen', lambda: self.call('grouped', [ts], ok, err)), ('Not', lambda: self.call('not', [ts], ok, err))], lambda: self.error('SyntaxError', err))
    def s_call(self, ts, ok, err):
        n = self.val(ts, 'Function')
        fail = lambda: self.error('SyntaxError', err)
        def close(t, args):
            return self.pure('typed', [n, args, nth(ts, Int(0))], lambda _: ok(self.mk('FilterExpression', 'Function', span=self.span(ts), name=n, args=args), self.rest(t)), err)
        def step(t, args):
            def operand(t, e):
                def comma():
                    return ite(self.isk(self.rest(t), 'RParen'), fail(), self.loop('arguments', [self.rest(t), cat(args, one(e))], step))
                return self.cases(t, [(INFIX, lambda: self.call('infix', [t, e], lambda e2, r: self.loop('argument', [r, e2], operand), err)),
                                      ('RParen', lambda: close(t, cat(args, one(e)))), ('Comma', comma)], fail)
            return ite(self.isk(t, 'RParen'), close(t, args), self.call('basic', [t], lambda e, r: self.loop('argument', [r, e], operand), err))
        return self.loop('arguments', [self.rest(ts), EMPTY], step)
    def s_fexpr(self, ts, p, ok, err):
        def step(t, e):
            more = lambda: self.call('infix', [t, e], lambda e2, r: self.loop('fexpr', [r, e2], step), err)
            level = lambda n: ite(le(p, Int(n)), more(), ok(e, t))
            return self.cases(t, [('Or', lambda: level(PREC['Or'])), ('And', lambda: level(PREC['And'])), (CMP, lambda: level(PREC['CMP']))], lambda: ok(e, t))
        return self.call('basic', [ts], lambda e, r: self.loop('fexpr', [r, e], step), err)
    # ---- functions that do not
    def ftype(self, name, types): return self.X.ftype(name, types)
    def fname(self, e): return self.X.get(e, 'FilterExpression', 'Function', 'name')
    def s_okcompared(self, e, ok, err):
        F = self.X.is_(e, 'FilterExpression', 'Function')
        return ite(Or(self.literal(e), And(F, self.ftype(self.fname(e), ('Value',)))), self.error('TypeError', err), ok(DONE))
    def s_okcomparable(self, e, sp, ok, err):
        t = lambda c: ite(c, ok(DONE), self.error('TypeError', err))
        r = ite(self.X.is_(e, 'FilterExpression', 'Not', 'Logical', 'Comparison'), self.error('TypeError', err), ok(DONE))
        r = ite(self.X.is_(e, 'FilterExpression', 'Function'), t(self.ftype(self.fname(e), ('Value',))), r)
        for v in ('RelativeQuery', 'RootQuery'):
            r = ite(self.X.is_(e, 'FilterExpression', v), t(self.X.call('qsing', self.X.get(e, 'FilterExpression', v, 'query'))), r)
        return r
    def s_typed(self, name, args, tok, ok, err):
        r = self.error('NameError', err)
        for n, (ps, ret) in sorted(registry.SIGNATURES.items()):
            x = ok(DONE)
            for i, p in reversed(list(enumerate(ps))):
                x = ite(self.flag({'Value': 'isval', 'Logical': 'islog', 'Nodes': 'isnodes'}[p], nth(args, Int(i))), x, self.error('TypeError', err))
            r = ite(TM.beq(name, Str(n)), ite(ieq(length(args), Int(len(ps))), x, self.error('TypeError', err)), r)
        return r
    def s_int(self, t, sp, ok, err):
        n = raw('parse', 'i64', t)
        v = fld(n, 'Ok', 0)
        from models import boff
        fail = self.error('SyntaxError', err)
        long = le(Int(2), boff(t, length(t)))
        zero = Or(And(lt(Int(0), length(t)), ieq(raw('ord', nth(t, Int(0))), Int(48))), raw('str_starts_with', t, Str('-0')))
        return ite(And(long, zero), fail, ite(is_ok(n), ite(And(le(Int(-MAXI), v), le(v, Int(MAXI))), ok(v), fail), fail))
    def s_tokens(self, ts, ok, err):
        def segs(s, r): return ite(self.eoq(r), ok(s), self.error('SyntaxError', err))
        return ite(self.isk(ts, 'Root'), self.call('segments', [self.rest(ts)], segs, err), self.error('SyntaxError', err))
    def s_parse(self, q, ok, err):
        return self.pure('lex', [q], lambda ts: self.s_tokens(ts, lambda s: ok(self.mk('Query', 'Query', segments=s)), err), err)
    # ---- whole functions
    def term(self, role, a):
        self.heads = {}
        if role in ('isval', 'islog', 'isnodes'):
            return getattr(self.X, 's_' + role)(*a)
        if role in STREAM:
            return getattr(self, 's_' + role)(*a, ok_, err_)
        return getattr(self, 's_' + role)(*a, Ok, Err)

# ---------------------------------------------------------------------------- comparison
def loops_in(t, memo={}):
    r = memo.get(t)
    if r is None:
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st += x
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == 'tryfold':
                    out.append(x)
                    continue
                st += x.args
        r = memo[t] = out
    return r
def first_loop(t):
    """the loop of a term that runs first: its start depends on no other"""
    ls = loops_in(t)
    while ls:
        inner = loops_in(Tup(ls[0].args[1], ls[0].args[2]))
        if not inner:
            return ls[0]
        ls = inner

class Machine:
    """the code as a state machine: terms without loops over calls of loop heads"""
    def __init__(self):
        self.heads = []          # (loop, what follows, facts)
    def cut(self, t, f):
        if not loops_in(t):
            return t
        if t.op == 'ite' and not loops_in(t.args[0]):
            c, a, b = t.args
            return ite(c, self.cut(a, f.assume(c)), self.cut(b, f.assume(c, False)))
        R = first_loop(t.args[0] if t.op == 'ite' else t)
        if R.args[1].op != 'nat':
            raise Unk(f'loop over {show(R.args[1])[:60]}')
        parts = list(R.args[2].args) if R.args[2].op == 'tuple' else [R.args[2]]
        for i, (R2, t2, f2, n) in enumerate(self.heads):
            if R2 is R and t2 is t or n == len(parts) and TM.rewrite(t2, lambda y: R if y is R2 else None) is t:
                return raw('call', f'#{i}', *parts)
        self.heads.append((R, t, f, len(parts)))
        return raw('call', f'#{len(self.heads) - 1}', *parts)

def step(R, t, f, syms, name):
    """one step of a loop from a state, in final form"""
    acc = Tup(*syms) if R.args[2].op == 'tuple' else syms[0]
    uid = fresh()
    body = f.simp(open_(R, raw('el', uid), raw('pos', uid), acc)[0])
    def outcome(b, f):
        if f.dead or b.op == 'panic':
            return raw('panic', 'dead')
        if b.op == 'ite':
            c = b.args[0]
            return ite(c, outcome(b.args[1], f.assume(c)), outcome(b.args[2], f.assume(c, False)))
        if b.op == 'adt' and b.args[1] == 'Ok':
            x = b.args[2]
            return raw('call', name, *(x.args if R.args[2].op == 'tuple' and x.op == 'tuple' else [fld(x, None, i) for i in range(len(syms))] if R.args[2].op == 'tuple' else [x]))
        if b.op == 'adt' and b.args[1] == 'Err':
            return f.simp(TM.rewrite(t, lambda y: b if y is R else None))
        raise Unk(f'outcome of a step: {show(b)[:80]}')
    return outcome(body, f)

class Comparison:
    def __init__(self, X, S):
        self.X, self.S, self.cases, self.diff, self.loops = X, S, 0, '', 0
    def same(self, a, b, f):
        r = eq.compare(self.X.ip, a, b, self.X.types, self.X.roles, facts=f, rows=0)
        self.cases += r.cases
        if r.status != 'same':
            self.diff = self.diff or r.diff or r.row
        return r.status == 'same'
    def run(self, impl, spec, f, names=(), depth=0):
        """impl == spec() where both may enter loops"""
        S = self.S
        before = dict(S.heads)
        sp = spec() if callable(spec) else spec
        new = [n for n in S.heads if n not in before]
        M = Machine()
        im = M.cut(impl, f)
        if len(M.heads) != len(new):
            self.diff = self.diff or f'{len(M.heads)} loops, {len(new)} specified'
            return False
        if not new:
            return self.same(im, sp, f)
        for perms in itertools.product(*[list(itertools.permutations(range(S.heads[n][0]))) for n in new]):
            def name(y):
                if y.op == 'call' and isinstance(y.args[0], str) and y.args[0].startswith('#'):
                    i = int(y.args[0][1:])
                    a = y.args[1:]
                    if len(a) != len(perms[i]):
                        return None
                    return raw('call', '@' + new[i], *[TM.rewrite(a[j], name) for j in perms[i]])
                return None
            mark = self.diff
            if self.same(TM.rewrite(im, name), sp, f):
                self.diff = mark
                break
        else:
            return False
        for i, n in enumerate(new):
            R, t, fh, k = M.heads[i]
            perm = perms[i]
            syms = [Sym(f'{n}.{j}') for j in range(k)]       # in the order of the specification
            acc = [None] * k
            for j in range(k):
                acc[perm[j]] = syms[j]
            body = step(R, t, fh, acc, '~' + n)
            def own(y):
                if y.op == 'call' and y.args[0] == '~' + n:
                    return raw('call', '@' + n, *[TM.rewrite(y.args[1 + j], own) for j in perm])
                return None
            body = TM.rewrite(body, own)
            fn = S.heads[n][1]
            self.loops += 1
            if not self.run(body, lambda: fn(*syms), fh, depth=depth + 1):
                return False
        return True

def inputs(X, S, role):
    a = X.syms_of(role)
    f = Facts()
    if role in PRE:
        f = f.assume(lt(Int(0), length(a[0]))).assume(S.isk(a[0], *PRE[role]))
    if role == 'fexpr':
        TM.INTB[a[1]] = (0, 255)
    return a, f

def table(X, S, role):
    """(argument symbols, facts, term of the code, panicking edges)"""
    a, f = inputs(X, S, role)
    tree = X.run(role, a, f)
    pans = list(X.last_panics)
    stream = role in STREAM
    def leaf(l):
        if not stream:
            return l[1]
        v, r = l[1], l[2]
        if v.op == 'adt':
            return Tup(v, r if v.args[1] == 'Ok' else DONE)
        return ite(is_ok(v), Tup(v, r), Tup(v, DONE))
    return a, f, interp.tree_term(tree, leaf), pans, tree

def compare(X, S, role):
    a, f, impl, pans, tree = table(X, S, role)
    C = Comparison(X, S)
    ok = C.run(impl, lambda: S.term(role, a), f)
    return ok, C, tree, pans

# ---------------------------------------------------------------------------- panics
def offsets(R, f):
    """states of a loop over the characters of a text that keeps a character index and its byte offset: (symbols, facts), if every step keeps that"""
    from models import boff
    if R.args[2].op != 'tuple' or len(R.args[2].args) != 2:
        return None
    for a, b in ((0, 1), (1, 0)):
        k, o = R.args[2].args[a], R.args[2].args[b]
        if o.op != 'boff' or o.args[1] is not k:
            continue
        q = o.args[0]
        i = Sym(f'i{fresh()}')
        TM.INTB[i] = (0, 2 ** 63 - 1)
        g = f.assume(le(k, i)).assume(le(i, length(q)))
        syms = [None, None]
        syms[a], syms[b] = i, boff(q, i)
        body = open_(R, raw('el', fresh()), raw('pos', fresh()), Tup(*syms))[0]
        def keeps(t, g):
            if g.dead or t.op == 'panic':
                return True
            if t.op == 'ite':
                return keeps(t.args[1], g.assume(t.args[0])) and keeps(t.args[2], g.assume(t.args[0], False))
            if t.op == 'adt' and t.args[1] == 'Err':
                return True
            if t.op == 'adt' and t.args[1] == 'Ok' and t.args[2].op == 'tuple':
                x, y = t.args[2].args[a], t.args[2].args[b]
                return g.simp(y) is g.simp(boff(q, x)) and g.decide_c(le(i, x)) is True and g.decide_c(le(x, length(q))) is True
            return False
        if keeps(g.simp(body), g):
            return syms, g
    return None

def exits(R, f):
    """[(what a loop is left with, facts)] of one step from any state"""
    parts = R.args[2].args if R.args[2].op == 'tuple' else [R.args[2]]
    syms = [raw('sym', fresh()) for _ in parts]
    sh = offsets(R, f)
    if sh is not None:
        syms, f = sh
    acc = Tup(*syms) if R.args[2].op == 'tuple' else syms[0]
    body = open_(R, raw('el', fresh()), raw('pos', fresh()), acc)[0]
    out = []
    def go(t, f):
        if f.dead or t.op == 'panic':
            return
        if t.op == 'ite':
            c = t.args[0]
            go(t.args[1], f.assume(c)); go(t.args[2], f.assume(c, False))
        elif t.op == 'adt' and t.args[1] in ('Ok', 'Err'):
            if t.args[1] == 'Err':
                out.append((t, f))
        else:
            raise Unk(f'outcome of a step: {show(t)[:80]}')
    go(f.simp(body), f)
    return out

def impossible(t):
    """does a condition take apart a value of another kind: it belongs to another way out of the loop"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            if x.op == 'dead':
                return True
            if x.op in ('ite', 'and', 'or', 'tryfold', 'for', 'fold'):
                continue
            seen.add(x)
            st += x.args
    return False

def within(t):
    """offsets of characters are boundaries if they are in order"""
    def r(y):
        if y.op == 'boundary' and all(x.op == 'boff' and x.args[0] is y.args[0] for x in y.args[1:]):
            i, j = y.args[1].args[1], y.args[2].args[1]
            return And(le(i, j), le(j, length(y.args[0])))
        return None
    return TM.rewrite(t, r)

def unreachable(panic, f, depth=0):
    """is a panicking edge dead: by the facts on its path, and by how the loops before it are left"""
    import panalysis
    if panalysis.dead(panic, [x if v else Not(x) for x, v in f.trail]):
        return True
    path, kind, detail, facts, cond = panic
    if cond is None:
        return False
    parts = [x if v else Not(x) for x, v in facts.trail] + [cond]
    def go(parts, f, depth):
        g = f
        for x in parts:
            if not loops_in(x):
                g = g.assume(g.simp(x))
        if g.dead:
            return True
        left = [g.simp(x) for x in parts if loops_in(x)]
        if any(x is FALSE for x in left) or any(impossible(x) for x in parts):
            return True
        left = [x for x in left if x is not TRUE]
        if not left or depth > 3:
            return False
        R = first_loop(Tup(*left))
        if R is None:
            return go(left, g, depth + 1)
        if R.args[1].op != 'nat':
            return False
        for e, h in exits(R, g):
            if not go([within(TM.rewrite(x, lambda y: e if y is R else None)) for x in left], h, depth + 1):
                return False
        return True
    return go(parts, f, depth)
