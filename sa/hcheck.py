"""Obligations about the lexer of the hand written parser."""
import time
import base, ev, eq, hand, hspec, interp
import term as TM
from term import *
from facts import Facts, known_chars, ALLCH
from models import boff

def find_op(t, op):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == op:
                out.append(x)
                continue
            st += x.args
    return out

def same(L, impl, sp, facts):
    r = eq.compare(L.ip, impl, sp, {}, {}, facts=facts, rows=0)
    return r.status == 'same', r

def state_table(L, S, n):
    """(holds, cases, difference, tree, facts) of one state that does not scan a string"""
    lx, f = L.entry(n)
    tree = L.run(n, L.lexer(**lx), f)
    t = hspec.normal(L, tree)
    ok, r = same(L, interp.tree_term(t, lambda l: l[1]), S.step(n, lx), f)
    return ok, r, tree, f

def string_table(L, S, quote):
    """the scan of a string: every step of the loop and what follows it"""
    lx, f = L.entry('lex_string')
    nxt = Sym('next')
    tree = L.run('lex_string', L.lexer(**lx), f, Char(quote), nxt)
    impl = interp.tree_term(hspec.normal(L, tree), lambda l: l[1])
    S.depth = lx['filter_depth']
    k = lx['chars'].args[-1]
    q, n = S.q, S.len
    loops = find_op(impl, 'tryfold')
    if len(loops) != 1:
        raise Unk(f'{len(loops)} loops in the scan of a string')
    R = loops[0]
    init = R.args[2]
    parts = list(init.args) if init.op == 'tuple' else [init]
    i = Sym('i')
    TM.INTB[i] = (0, 2 ** 63 - 1)
    shape = []
    for p in parts:
        if p is k:
            shape.append(i)
        elif p is boff(q, k):
            shape.append(boff(q, i))
        else:
            raise Unk(f'state of the scan {show(p)[:60]}')
    acc = Tup(*shape) if init.op == 'tuple' else shape[0]
    fi = f.assume(le(k, i)).assume(le(i, n))
    uid = fresh()
    body = open_(R, raw('el', uid), raw('pos', uid), acc)[0]
    def leave(x):
        """what follows the loop when it is left with x"""
        t = TM.rewrite(impl, lambda y: Err(x) if y is R else None)
        g = fi.assume(lt(k, n)).assume(ieq(S.code(k), Int(0)), False)
        return g.simp(t)
    def outcome(t):
        if t.op == 'ite':
            return ite(t.args[0], outcome(t.args[1]), outcome(t.args[2]))
        if t.op == 'adt' and t.args[1] == 'Err':
            return leave(t.args[2])
        return t
    body = outcome(fi.simp(body))
    nxt_acc = lambda d: TM.rewrite(Ok(acc), lambda y: add(i, Int(d)) if y is i else None)
    j = add(i, Int(1))
    esc = S.at(j, *(hspec.ESCAPES + chr(quote)))
    def done():
        e = add(i, Int(1))
        t = S.tok('SingleQuoteString' if quote == 39 else 'DoubleQuoteString', k, i, S.text(k, i))
        lx2 = dict(query=q, tokens=cat(S.toks, one(t)), chars=adt('CharIndices', 'CharIndices', q, e), start=boff(q, e), pos=boff(q, e), filter_depth=S.depth, paren_stack=S.stack)
        return Tup(nxt, L.lexer(**lx2))
    sp = ite(S.end(i), hspec.ERR, ite(S.at(i, '\\'), ite(esc, nxt_acc(2), hspec.ERR), ite(S.at(i, '\0'), hspec.ERR, ite(S.at(i, chr(quote)), done(), nxt_acc(1)))))
    g = fi.assume(lt(k, n)).assume(ieq(S.code(k), Int(0)), False)
    ok1, r1 = same(L, body, sp, g)
    # before the loop: a text that ends here, or a null character, is an error
    ok2, r2 = same(L, ite(Or(S.end(k), S.at(k, '\0')), impl, hspec.ERR), hspec.ERR, f)
    return ok1 and ok2, r1 if not ok1 else r2, tree, f

def dispatch_table(L, S, fn='tokenize'):
    """tokenize: which function is run in which state, where it starts and stops"""
    tree = L.paths_of(L.fn(fn), [S.q], None, lambda v, st, a: (v,))
    impl = interp.tree_term(tree, lambda l: l[1])
    loops = find_op(impl, 'tryfold')
    if len(loops) != 1:
        raise Unk(f'{len(loops)} loops in tokenize')
    R = loops[0]
    st = lambda v: adt(*L.variant('State', v)[:2])
    lx = Sym('lexer')
    i0 = Int(0)
    first = L.lexer(query=S.q, tokens=EMPTY, chars=adt('CharIndices', 'CharIndices', S.q, i0), start=i0, pos=i0, filter_depth=i0, paren_stack=EMPTY)
    init = R.args[2]
    order = None
    if init.op == 'tuple' and len(init.args) == 2:
        for o in ((0, 1), (1, 0)):
            if init.args[o[0]] is st('LexRoot') and init.args[o[1]] is first:
                order = o
    if order is None:
        raise Unk(f'start of the lexer {show(init)[:200]}')
    pack = lambda a, b: Tup(*([a, b] if order == (0, 1) else [b, a]))
    want = {'LexRoot': ('lex_root',), 'LexSegment': ('lex_segment',), 'LexDescendantSegment': ('lex_descendant_segment',), 'LexShorthandSegment': ('lex_shorthand_selector',),
            'LexInsideBracketedSegment': ('lex_inside_bracketed_segment',), 'LexInsideFilter': ('lex_inside_filter',)}
    for q, a in (("'", 'Single'), ('"', 'Double')):
        for e, b in (('LexInsideBracketedSegment', ''), ('LexInsideFilter', 'Filter')):
            want[f'LexInside{a}Quoted{b}String'] = ('lex_string', Char(ord(q)), st(e))
    bad, n = [], 0
    variants = L.states()
    for v in variants:
        n += 1
        uid = fresh()
        body = Facts().simp(open_(R, raw('el', uid), raw('pos', uid), pack(st(v), lx))[0])
        if v in want:
            c = raw('call', want[v][0], lx, *want[v][1:])
            sp = Ok(pack(fld(c, None, 0), fld(c, None, 1)))
            if body is not sp:
                bad.append((v, show(body)[:200]))
        elif v in ('Error', 'EndOfQuery'):
            if body.op != 'adt' or body.args[1] != 'Err':
                bad.append((v, show(body)[:200]))
                continue
            if fn != 'tokenize':
                continue
            out = Facts().simp(TM.rewrite(impl, lambda y: body if y is R else None))
            if out is not fld(lx, L.vn, L.names.index('tokens')):
                bad.append((v, show(out)[:200]))
        else:
            raise Unk(f'state {v}')
    if set(want) - set(variants):
        raise Unk('states of the lexer')
    return bad, n

def lex_table(L, S):
    """lex: the tokens, or an error if they end in an error token"""
    tree = L.paths_of(L.fn('lexer::lex'), [S.q], None, lambda v, st, a: (v,))
    impl = interp.tree_term(tree, lambda l: l[1])
    R = find_op(impl, 'tryfold')
    bad, n = dispatch_table(L, S, 'lexer::lex')
    tk = Sym('tokens')
    lx = TM.rewrite(L.lexer(**{n: Sym('l.' + n) for n in L.names}), lambda y: tk if y is Sym('l.tokens') else None)
    body = open_(R[0], raw('el', 'z'), raw('pos', 'z'), Sym('acc0'))[0]
    # every way the loop is left, with the lexer it is left with
    exits = []
    def walk(t):
        if t.op == 'ite':
            walk(t.args[1]); walk(t.args[2])
        elif t.op == 'adt' and t.args[1] == 'Err':
            x = t.args[2]
            if x.op == 'tuple' and x.args[0].op == 'int':
                exits.append(Tup(x.args[0], *[lx if i == len(x.args) - 1 else y for i, y in enumerate(x.args) if i]))
    walk(body)
    if not exits:
        raise Unk('ends of the lexer')
    p, en, names = L.variant('JSONPathError', 'JSONPathError')
    _, kerr, _ = L.variant('TokenType', 'Error')
    last = nth(tk, sub(length(tk), Int(1)))
    ki = S.tn.index('kind')
    from spec import ANY
    def err(kind):
        a, b, _ = L.variant('JSONPathErrorType', kind)
        return Err(adt(p, en, *[adt(a, b) if x == 'kind' else ANY for x in names]))
    for x in exits:
        t = TM.rewrite(impl, lambda y: Err(x) if y is R[0] else None)
        cond = And(Not(is_empty(tk)), isin(fld(last, S.tname, ki), kerr))
        oks = [same(L, t, ite(cond, err(kind), Ok(tk)), Facts()) for kind in ('SyntaxError', 'LexerError')]
        if not any(o for o, _ in oks):
            bad.append(str(oks[0][1].diff)[:200])
    return bad, n + len(exits)

def nesting(S, f, d, stk):
    """a step keeps: the depth is the number of zeros on the stack of open parentheses, and its first entry is zero.
    (So the stack has an entry exactly if the depth is positive.)"""
    old, s = S.depth, S.stack
    top = sub(length(s), Int(1))
    last = nth(s, top)
    is_ = lambda x, y: f.simp(x) is f.simp(y)
    up, dn, eqd = is_(d, add(old, Int(1))), is_(d, sub(old, Int(1))), is_(d, old)
    popped = take(s, top)
    zero = f.decide_c(ieq(last, Int(0)))
    pos = f.decide_c(le(Int(1), last)) is True or zero is False       # entries are never negative
    if eqd and is_(stk, s) or up and is_(stk, cat(s, one(Int(0)))):
        return True
    if eqd and is_(stk, cat(s, one(Int(1)))):
        return f.decide_c(le(Int(1), old)) is True
    if is_(stk, popped):
        return dn and zero is True or eqd and pos
    if eqd and pos:
        for x, ok in ((add(last, Int(1)), True), (sub(last, Int(1)), f.decide_c(le(Int(2), last)) is True or f.decide_c(ieq(last, Int(1))) is False)):
            if is_(stk, cat(popped, one(x))) or is_(stk, cat(popped, one(x), drop(s, length(s)))):
                return ok
    return False

def invariant(L, S, n, tree, f):
    """what holds when a state is entered is established by every step that leads to it, and every step makes progress: (violated, edges without consumption)"""
    bad, idle = [], []
    k = Sym('k')
    get = lambda lx, x: lx.args[2 + L.names.index(x)] if lx.op == 'adt' else fld(lx, L.vn, L.names.index(x))
    count = [0]
    def go(t, f):
        if t is None or f.dead:
            return
        if t[0] == 'fork':
            go(t[2], f.assume(t[1], True))
            go(t[3], f.assume(t[1], False))
            return
        st, lx = t[1], t[2]
        if st.op != 'adt':
            bad.append(f'{n}: next state')
            return
        name = st.args[1].split('::')[-1]
        if name in ('Error', 'EndOfQuery'):
            return
        count[0] += 1
        ch = get(lx, 'chars')
        if ch.op != 'adt':
            bad.append(f'{name}: characters')
            return
        q2, k2 = ch.args[2], ch.args[3]
        delim = name == 'LexShorthandSegment' or 'Quoted' in name
        d, stk = get(lx, 'filter_depth'), get(lx, 'paren_stack')
        ks = k2 if not delim else sub(k2, Int(1))
        req = [('position', f.simp(get(lx, 'pos')) is f.simp(boff(S.q, k2))), ('start', f.simp(get(lx, 'start')) is f.simp(boff(S.q, ks))), ('text', q2 is S.q and get(lx, 'query') is S.q),
               ('nesting', nesting(S, f, d, stk)), ('within the text', f.decide_c(le(k2, length(S.q))) is not False)]
        if name == 'LexInsideFilter' or 'FilterString' in name:
            req.append(('inside a filter', f.decide_c(le(Int(1), d)) is True))
        for what, ok in req:
            if not ok:
                bad.append(f'{n} -> {name}: {what}')
        if f.decide_c(le(add(k, Int(1)), k2)) is not True:
            rs = known_chars(f)[1].get(nth(S.q, k2), ALLCH)
            idle.append((n, name, rs))
    go(tree, f)
    return bad, idle, count[0]

def run(o):
    L = hand.LCtx()
    S = hspec.LSpec(L)
    o._x = L
    bad, idle = [], []
    entered = {v: k for k, v in hand.STATES.items() if v}
    def one_state(label, fn, n):
        try:
            t0 = time.time()
            ok, r, tree, f = fn()
            if ok:
                o.ok(label, f'{L.fn(n).path}: {len(interp.leaves(tree))} leaves, {r.cases} cases, {time.time() - t0:.1f} s')
            else:
                bad.append((label, f'{L.fn(n).path}: {str(r.diff)[:300]}'))
            o.count('state tables compared')
            o.count('cases of the partition', r.cases)
            if n == 'lex_string':
                return              # the table itself says what holds after a string: that is the entry of the next state
            b, i, c = invariant(L, S, n, tree, f)
            o.count('transitions', c)
            for x in sorted(set(b)):
                bad.append((f'entry conditions: {x}', 'not established'))
            if not b:
                o.ok(f'{label}: entry conditions of the next state', f'{c} transitions')
            idle.extend(i)
        except Unk as e:
            bad.append((label, f'not analysable: {e}'))
        except base.Infra:
            raise
        except Exception as e:
            bad.append((label, f'internal: {type(e).__name__}: {e}'))
    for n in hand.STATES:
        if n == 'lex_string':
            for c in '\'"':
                one_state(f'{n} {c}', lambda: string_table(L, S, ord(c)), n)
        else:
            one_state(n, lambda: state_table(L, S, n), n)
    for label, fn in (('dispatch of tokenize', dispatch_table), ('lex', lex_table)):
        try:
            b, c = fn(L, S)
            o.count('state tables compared', c)
            if b:
                bad.append((label, str(b)[:300]))
            else:
                o.ok(label, f'{c} states')
        except Unk as e:
            bad.append((label, f'not analysable: {e}'))
        except Exception as e:
            bad.append((label, f'internal: {type(e).__name__}: {e}'))
    return L, S, bad, idle

def lexer_rows(o, L, bad):
    """texts on which the tables of the lexer give other tokens than the specification"""
    import hrows, panalysis, pairs
    T = hrows.Tables()
    M = hrows.Model(T)
    peg = pairs.Peg(file=base.os.path.join(base.VERIF, 'sa', 'query.pest'))
    T.H.peg = peg
    t0, n, un, why, hit = time.time(), 0, 0, '', None
    limit = 120 if o.tier == 'quick' else 300
    for q in hrows.lexer_texts(M) + panalysis.queries(T.H):
        if time.time() - t0 > limit:
            break
        try:
            want = hrows.tokens_of(q)
        except hrows.LexError:
            want = 'error'
        try:
            got = hrows.lexed(M, M.whole('tokenize', q))
            if got != want and (got == 'error' or want == 'error'):
                # where errors are found is not fixed: only valid queries must be lexed, and what is not must not be accepted
                tree = peg.parse('jsonpath', q)
                valid = tree is not None and tree[1] == len(q)
                if got == 'error' and not valid:
                    got = want
                elif want == 'error':
                    r = M.parse(q)
                    got = want if isinstance(r, ev.A) and r.v == 'Err' else got
        except (hrows.Panicked, ev.NoEval, ev.Undef, AttributeError, IndexError, RecursionError, TypeError, KeyError, ValueError) as e:
            un += 1
            why = why or f'{q!r}: {type(e).__name__} {e}'
            continue
        n += 1
        if got != want:
            hit = (q, got, want)
            break
    o.count('rows (texts) evaluated in the tables', n)
    if hit is not None:
        lab = bad[0][0] if bad else 'whole lexer'
        o.violate(lab, f'the text {hit[0]!r} has the tokens {str(hit[2])[:300]}, but the tables of the code give {str(hit[1])[:300]}; tables that are not as specified: ' + '; '.join(b[0] for b in bad)[:600], function=lab)
    else:
        for lab, w in bad:
            o.undec(lab, f'{w} (no text among {n} on which the tokens differ; {un} not evaluated {why[:150]})')

# ---------------------------------------------------------------------------- the parser
def classify(text, want, errs, ints, got, tree):
    """the properties a difference between the hand written parser and the reference belongs to; () if they agree"""
    import hrows, panalysis
    if not errs:
        if got[0] == 'ok':
            if hrows.norm(got[1]) == hrows.norm(want):
                return ()
            a, b = panalysis.leaves(hrows.norm(got[1])), panalysis.leaves(hrows.norm(want))
            return ('P28',) + (('P14',) if a[0] != b[0] else ()) + (('P15',) if a[1] != b[1] else ())
        if got[1] in ('TypeError', 'NameError'):
            return ('P13',)
        return ('P28',) + (('P14',) if ints else ()) + (('P15',) if '\\' in text else ())
    if got[0] == 'ok':
        return tuple(sorted({p for _, p in errs} | ({'P28'} if tree is None else set())))
    if got[1] not in hrows.kinds(text, tree, errs):
        return ('P23',)
    return ()

def parser_rows(tier):
    """({property: message}, (query, panic) or None, queries evaluated, not evaluated, why): the tables of the parser on the tokens of queries"""
    import hrows, panalysis, pairs
    T = hrows.Tables()
    M = hrows.Model(T)
    H = T.H
    H.peg = pairs.Peg(file=base.os.path.join(base.VERIF, 'sa', 'query.pest'))
    R = hrows.Ref(H)
    sp = hrows.spans_of(H)
    for q in ("$['a\\u0041','b',1:2]..b[?@.a==-1.5e2 && length(@.c)>0||!(count(@.*)==1)]", '$[0]', '$.*', '$[1]'):      # tables computed once
        try:
            M.parse_tokens(q)
        except Exception:
            pass
    limit = time.time() + (150 if tier == 'quick' else 400)
    def run(qs):
        out, n, un, why, pan = {}, 0, 0, '', None
        for q in qs:
            if time.time() > limit:
                break
            tree = H.peg.parse('jsonpath', q)
            tree = None if tree is None or tree[1] != len(q) else tree[0]
            want, errs, ints = None, [('SyntaxError', 'P23')], 0
            try:
                if tree is not None:
                    want, errs = R.read(tree)
                    ints = R.ints
                r = M.parse_tokens(q)
                got = ('ok', hrows.plain(ev.Tp((r.f[0],)), sp)) if r.v == 'Ok' else ('err', r.f[0].f[T.errpos].v.split('::')[-1])
                if r.v == 'Ok':
                    got = ('ok', ev.A(want.v if want is not None else 'Query', got[1][0]))
                ps = classify(q, want, errs, ints, got, tree)
            except hrows.LexError:
                continue
            except hrows.Panicked as e:
                n += 1
                pan = pan or (q, str(e))
                continue
            except (ev.NoEval, ev.Undef, AttributeError, IndexError, RecursionError, TypeError, KeyError, ValueError) as e:
                un += 1
                why = why or f'{q}: {type(e).__name__} {e}'
                continue
            n += 1
            for p in ps:
                if p not in out:
                    exp = 'is accepted as ' + str(want)[:300] if not errs else 'is rejected with ' + '/'.join(sorted({k for k, _ in errs}))
                    out[p] = f'the query {q!r} {exp} by the specification, but the tables of the code give {str(got)[:300]}'
        return out, pan, n, un, why
    qs = list(dict.fromkeys(panalysis.queries(H) + hrows.NEST))
    out, pan, n, un, why = {}, None, 0, 0, ''
    for r in base.parallel(run, qs):
        if r is None:
            un += 1
            why = why or 'a process ended'
            continue
        for p, m in r[0].items():
            out.setdefault(p, m)
        pan, n, un, why = pan or r[1], n + r[2], un + r[3], why or r[4]
    return out, pan, n, un, why

def parser_run(o, prop, roles, panics=False, rowcheck=False):
    """obligations of the functions of the hand written parser; what is not as specified is reported with a query on which the parser as a whole differs"""
    import hparse
    X = o._x = hand.HCtx()
    S = hparse.HSpec(X)
    bad = []
    for role in roles:
        if X.A.get(role) is None:
            continue                  # inlined where it is used, in the code and in the specification
        label = hand.TABLE[role]
        try:
            t0 = time.time()
            o.count('function tables computed')
            if panics:
                a, f, impl, pans, tree = hparse.table(X, S, role)
                live = [p for p in pans if not hparse.unreachable(p, f)]
                o.count('panicking edges', len(pans))
                for p in live:
                    bad.append((f'{label}: {p[0]}: {p[1]} {p[2]}'.strip(), 'not shown to be unreachable'))
                if not live:
                    o.ok(label, f'{X.fn(role).path}: {len(pans)} panicking edges, all unreachable')
                continue
            ok, C, tree, pans = hparse.compare(X, S, role)
            o.count('cases of the partition', C.cases)
            o.count('loops compared as state machines', C.loops)
            if ok:
                o.ok(label, f'{X.fn(role).path}: {len(interp.leaves(tree))} leaves, {C.loops} loops, {C.cases} cases, {time.time() - t0:.1f} s')
            else:
                bad.append((label, f'{X.fn(role).path}: {str(C.diff)[:300]}'))
        except Unk as e:
            bad.append((label, f'not analysable: {e}'))
        except base.Infra:
            raise
        except Exception as e:
            bad.append((label, f'internal: {type(e).__name__}: {e}'))
    if not bad and not (rowcheck and o.tier != 'quick'):
        return
    out, pan, n, un, why = parser_rows(o.tier)
    o.count('rows (queries) evaluated in the tables', n)
    hit = (f'the query {pan[0]!r} reaches a panic: {pan[1]}' if pan else None) if panics else out.get(prop)
    lab = bad[0][0] if bad else 'whole parser'
    if hit is not None:
        o.violate(lab, f'{hit}; tables that are not as specified: ' + '; '.join(b[0] for b in bad)[:600], function=lab)
    else:
        for lab, w in bad:
            o.undec(lab, f'{w} (no query among {n} on which the parsers differ; {un} not evaluated {why[:150]})')

def decoder_ctx():
    import pspec
    X = hand.HCtx()
    X.ip.paths = False
    X.run = lambda role, args, facts=None: pspec.PCtx.run(X, role, args, facts)
    return X

def lex_errors(o):
    """what has no tokens is an error of `lex`"""
    L = hand.LCtx()
    S = hspec.LSpec(L)
    try:
        b, n = lex_table(L, S)
        if b:
            o.undec('lex', str(b)[:300])
        else:
            o.ok('lex', f'{n} states')
    except Unk as e:
        o.undec('lex', f'not analysable: {e}')

def exhausts(panic):
    """a counter of nesting that would have to exceed 32 bits (it grows by at most one per character of the text)"""
    kind, c = panic[1], panic[4]
    x = c.args[0].args[0] if kind == 'overflow-add' and c is not None and c.op == 'not' and c.args[0].op == 'le0' else None
    return x is not None and x.op == 'lin' and -(2 ** 32 - 2) in [y for y in x.args if isinstance(y, int)]

def lexer_panics(o):
    """no panicking edge of the lexer is reachable from its entry conditions (which every transition establishes)"""
    import hparse
    L = hand.LCtx()
    S = hspec.LSpec(L)
    live = []
    for n in hand.STATES:
        for q in ((34, 39) if n == 'lex_string' else (None,)):
            label = n + (f' {chr(q)}' if q else '')
            try:
                lx, f = L.entry(n)
                tree = L.run(n, L.lexer(**lx), f, *([Char(q), Sym('next')] if q else []))
                edges = list(L.last_panics)
                o.count('panicking edges', len(edges))
                k = [p for p in edges if not exhausts(p) and not hparse.unreachable(p, f)]
                for p in k:
                    live.append((f'{label}: {p[0]}: {p[1]} {p[2]}'.strip(), 'not shown to be unreachable'))
                if n != 'lex_string':
                    hspec.normal(L, tree)
                    S.depth = lx['filter_depth']
                    b, _, c = invariant(L, S, n, tree, f)
                    k += b
                    live += [(f'entry conditions: {x}', 'not established') for x in sorted(set(b))]
                if not k:
                    o.ok(label, f'{L.fn(n).path}: {len(edges)} panicking edges, all unreachable')
            except Unk as e:
                live.append((label, f'not analysable: {e}'))
    for n in ('tokenize', 'lexer::lex'):
        try:
            L.paths_of(L.fn(n), [S.q], None, lambda v, st, a: (v,))
            edges = list(L.last_panics)
            o.count('panicking edges', len(edges))
            k = [p for p in edges if not hparse.unreachable(p, Facts())]
            live += [(f'{n}: {p[0]}: {p[1]} {p[2]}'.strip(), 'not shown to be unreachable') for p in k]
            if not k:
                o.ok(n, f'{len(edges)} panicking edges, all unreachable')
        except Unk as e:
            live.append((n, f'not analysable: {e}'))
    if not live:
        return
    import hrows
    T = hrows.Tables()
    M = hrows.Model(T)
    limit = time.time() + (120 if o.tier == 'quick' else 300)
    for n in hand.STATES:
        try:
            T.lexer(n)
        except Exception:
            pass
    def run(qs):
        for q in qs:
            if time.time() > limit:
                break
            try:
                M.whole('tokenize', q)
            except hrows.Panicked as e:
                return q, str(e)
            except Exception:
                pass
    for r in base.parallel(run, hrows.lexer_texts(M)):
        if r:
            o.violate(live[0][0], f'the text {r[0]!r} reaches a panic: {r[1]}', function=live[0][0])
            return
    for lab, w in live:
        o.undec(lab, w + ' (no text found)')
