"""Obligations of the pest based parsers: every (function, grammar rule) table of the code against the specification's."""
import os, random, time
import base, ev, eq, interp, loops, pairs, pspec, pref
import term as TM
from term import *
from facts import Facts

TREES = ('seg', 'seginner', 'sel', 'lor', 'land', 'basic', 'comparable', 'number', 'testinner', 'fun', 'arg')
def obligations(X):
    """[(role, rule or None, shape)] : every role with every kind of parse tree the grammar gives it"""
    out = []
    for role in TREES:
        for rule in pspec.RULES[role]:
            if rule != 'EOI' and rule not in X.peg.rules:
                continue
            for sh in pairs.variants(X.peg.inner(rule)):
                out.append((role, rule, sh))
    for role in ('okcomparable', 'okcompared', 'isval', 'islog', 'isnodes', 'typed', 'parse'):
        out.append((role, None, None))
    return out

def inputs(X, role, rule, sh):
    """(argument terms, facts)"""
    f = Facts()
    if rule is None:
        return X.syms_of(role), f
    p, syms, f = pairs.sym_pair(X.peg, rule, f'{rule}:', f, sh)
    if role == 'seg' and X.rec:
        return [Sym('acc'), p], f
    if role in ('lor', 'land'):
        return [p, Sym('flag')], f
    return [p], f

def tables(X, role, rule, sh):
    """(code table, specification table, facts, panicking edges)"""
    a, f = inputs(X, role, rule, sh)
    impl = TM.fuse(X.run(role, a, f))
    pans = list(X.last_panics)
    return impl, X.table(role, *a), f, pans

def unroll(terms, limit=64):
    """substitutions for the elements of sequences of known elements that occur in terms"""
    seen, st, els = set(), list(terms), {}
    while st:
        t = st.pop()
        if isinstance(t, TM.T):
            if t in seen:
                continue
            seen.add(t)
            if t.op in ('el', 'pos') and t in loops.SOURCES:
                xs = TM.few(loops.SOURCES[t])
                if xs is not None:
                    els[t.args[0]] = xs
            st += t.args
        elif isinstance(t, tuple):
            st += t
    out = [{}]
    for u, xs in els.items():
        out = [{**m, raw('el', u): x, raw('pos', u): Int(i)} for m in out for i, x in enumerate(xs)]
        if len(out) > limit:
            return None
    return out, set(els)

def dead(panic, assume):
    """is a panicking edge unreachable, by the facts on its path and what is assumed of the parse tree"""
    path, kind, detail, facts, cond = panic
    if cond is None:
        return False
    if facts.assume(cond).dead:
        return True
    parts = [a if v else Not(a) for a, v in facts.trail] + [cond]
    r = unroll(parts + list(assume))
    if r is None:
        return False
    ms, uids = r
    for m in ms:
        g, c = Facts(), TRUE
        for x in list(assume) + parts:
            x = TM.subst(x, m, uids) if uids else x
            g = g.assume(x)
            c = And(c, x)
        if not g.dead and g.simp(c) is not FALSE and Facts().simp(c) is not FALSE:
            return False
    return True

# ---------------------------------------------------------------------------- rows: whole queries
class Panicked(Exception): pass

def hooks_of(M):
    def pestparse(val, t, env):
        rule, q = t.args
        start = rule.args[1].split('::')[1]
        r = M.nodes(start, ''.join(val.ev(q, env)))
        return ev.A('Err', ev.Op('pest error')) if r is None else ev.A('Ok', r)
    def adt_(val, t, env):
        if t.args[1].split('::')[-1] == M.errname:
            k = t.args[2 + M.kindpos]
            return ev.A('JSONPathError', val.ev(k, env))
        return ev.A(t.args[1], *[val.ev(x, env) for x in t.args[2:]])
    def panic(val, t, env):
        raise Panicked(' '.join(str(x) for x in t.args if not isinstance(x, TM.T))[:200])
    return {'pestparse': pestparse, 'adt': adt_, 'panic': panic}

def edge(p):
    """(description, conditions, [(loop, sequence)]) of a panicking edge"""
    path, kind, detail, facts, cond = p
    parts = [a if v else Not(a) for a, v in facts.trail] + [cond]
    uids, seen, st = {}, set(), list(parts)
    while st:
        t = st.pop()
        if isinstance(t, TM.T):
            if t in seen:
                continue
            seen.add(t)
            if t.op in ('el', 'pos') and t in loops.SOURCES:
                src = loops.SOURCES[t]
                uids[t.args[0]] = src
                st.append(src)
            st += t.args
        elif isinstance(t, tuple):
            st += t
    return f'{path}: {kind} {detail}'.strip(), parts, uids

def taken(v, parts, uids):
    """do the values of `v` take the edge, at some element of its loops"""
    def go(env, left):
        ready = None
        for u, src in left.items():
            try:
                ready = u, v.seqv(src, env)
                break
            except (ev.NoEval, ev.Undef, KeyError, IndexError, AttributeError, TypeError):
                continue
        if left:
            if ready is None:
                return False
            u, xs = ready
            rest = {w: s for w, s in left.items() if w != u}
            return any(go({**env, ('el', u): x, ('pos', u): i}, rest) for i, x in enumerate(xs[:50]))
        try:
            return all(v.ev(x, env) is True for x in parts)
        except (ev.NoEval, ev.Undef, KeyError, IndexError, AttributeError, TypeError):
            return False
    return go({}, uids)

class Model:
    """the code's tables, applied to the parse trees of whole queries"""
    def __init__(self, X):
        self.X = X
        self.ref = pref.Ref(X)
        self.tab = {}
        p, n, names = X.variant('JSONPathError', 'JSONPathError')
        self.errname, self.kindpos = n.split('::')[-1], names.index('kind')
        self.hooks = hooks_of(self)
        self.memo = {}
    def nodes(self, start, text):
        r = self.X.peg.parse(start, text)
        return None if r is None or r[1] != len(text) else r[0]
    def table(self, role):
        if role not in self.tab:
            a = self.X.syms_of(role)
            try:
                t = self.X.run(role, a)
                self.tab[role] = (t, [x.args[0] for x in a], [edge(p) for p in self.X.last_panics if p[4] is not None])
            except Unk as e:
                self.tab[role] = e
        r = self.tab[role]
        if isinstance(r, Unk):
            raise ev.NoEval(f'{role}: {r}')
        return r
    def unescape(self, s):
        u = pref.unescape(''.join(s))
        if self.X.fallible_unescape():
            return ev.A('Ok', tuple(u)) if u is not None else ev.A('Err', ev.A('JSONPathError', ev.A('JSONPathErrorType::SyntaxError')))
        if u is None:
            raise ev.NoEval('malformed escape')
        return tuple(u)
    def apply(self, role, args):
        if role == 'unescape':
            return self.unescape(args[0])
        if role == 'qsing':
            return self.ref.singular_query(args[0])
        if self.stack is None:
            return self.applied(role, args)
        if (role, args) in self.stack:
            raise ev.Diverge(f'{role} calls itself with what it was given')
        self.stack.append((role, args))
        try:
            return self.applied(role, args)
        finally:
            self.stack.pop()
    stack = None           # the calls that are running, if they are to be watched
    def applied(self, role, args):
        t, names, edges = self.table(role)
        types = {n: (lambda val, x=x: x) for n, x in zip(names, args)}
        roles_ = {r: (lambda val, a, r=r: self.apply(r, a)) for r in self.X.A.fns}
        v = ev.Val(self.X.ip, types, 1, ([0], ['a'], [97]), roles_, self.hooks)
        for where, parts, uids in edges:
            if not uids and taken(v, parts, uids):
                raise Panicked(where)
        try:
            return v.ev(t)
        except ev.Diverge:
            raise
        except (ev.NoEval, ev.Undef, IndexError) as e:
            for where, parts, uids in edges:
                if uids and taken(v, parts, uids):
                    raise Panicked(where)
            raise ev.NoEval(f'index' if isinstance(e, IndexError) else str(e))
    def parse(self, text):
        return self.apply('parse', [tuple(text)])

def norm(x):
    if isinstance(x, ev.A):
        return (x.v,) + tuple(norm(y) for y in x.f)
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, float):
        return ('float', repr(x))
    if isinstance(x, (str, int)):
        return x
    raise ev.NoEval('value')

LIT = ['1', '-1', '0', '-0', '1.5', '-1.5e3', '1e2', '1E+2', '2e-1', '1e400', '9007199254740993', '99999999999999999999', "'a'", '"a"', 'true', 'false', 'null']
SING = ['@', '$', '@.a', '$.a', "@['a']", '@["b"][0]', '@.a[-1].b', '$[0]']
QRY = ['@.*', '@..a', '$.*', '@[*]', '@[1:2]', "@['a','b']", '@[0,1]', '@[?@.a]', '$..*', '@.a.*', '@[?@.a==1].b']
FUN = ["length('a')", 'length(@.a)', 'count(@.*)', 'value(@..a)', "match(@.a,'b')", "search('a',@.a)", 'nofn(1)', 'length(@.*)', 'count(1)', 'value(1)',
       'length()', "length('a','b')", 'match(@.a)', "match('a','b','c')", "search(@.*,'a')", "match('a',@.*)", 'count()', 'count(@,@)', 'value(@.a,@.b)',
       'length(value(@.*))', 'length(count(@.*))', "length(match('a','b'))", 'count(value(@.*))', 'length(@.a==1)', 'length(!@.a)', 'count(@.a&&@.b)', 'count((@.a))', "match(@.a==1,'a')",
       'length((@.a))', 'length(length(@.a))', 'length(true)', 'length(null)', "search(1.5,'a')", 'match(null,false)', 'count(length(@.a))', 'value((@.a||@.b))', "match('a',length(@))", 'nofn()', 'nofn(nofn(1))', 'count(nofn(1))']
LOGI = ['@.a==1', '@.a && @.b', '@.a||@.b', '!@.a', '(@.a)', '!(@.a||@.b)', '@.a&&@.b||@.c', '@.a||@.b&&@.c', '(@.a||@.b)&&@.c', '@.a&&@.b&&@.c', '@.a||@.b||@.c', '!@.a&&@.b', '!@.a||!@.b',
        '1!=2', '1<=2', '1>=2', '1<2', '1>2', '@.a<=$.b', "@['x']!='y'", '((@.a))', '!(@.a==1)', '@.a==1&&@.b!=2||@.c<3']
INTS = ['0', '1', '-1', '9007199254740991', '9007199254740992', '-9007199254740991', '-9007199254740992', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '123456789012345678901234567890']
CTX = ['%s', '!%s', '(%s)', '!(%s)', '(!%s)', '((%s))', '%s && @.q', '@.q && %s', '%s || @.q', '@.q || %s', '@.q && @.r && %s', '@.q && %s && @.r', '%s && @.q && @.r', '@.q || %s || @.r', '@.q||@.r||%s', '@.q && !%s', '@.q||(%s)',
       '%s == 1', '1 == %s', '%s != @.a', "'x' < %s", '%s >= %s', 'length(%s)', 'count(%s)', 'value(%s)', "match(%s,'a')", "match('a',%s)", "search(%s,'a')", "search('a',%s)", 'nofn(%s)', '(%s)==1', 'length(%s)==1', 'count(%s)>0', 'value(%s)==1', "@[?%s]", 'count(@[?%s])==1', '@.q && (%s || @.r)',
       'length((%s))', "match((%s),'a')", 'count((%s))', 'value((%s))', 'length(((%s)))', "search('a',(%s))", 'count((%s)&&@.q)', 'length(@.q||%s)', 'nofn((%s))', 'length(!%s)', 'length((!%s))']

BAS = ['@.a', '@.*', '@.a==1', '!@.a', '(@.b||@.c)', 'length(@.a)', 'count(@.*)>1', "match(@.a,'b')", 'value(@.*)', '!length(@.a)', '(length(@.a))', 'true', '$.a<$.b', "'a'", 'nofn(1)']
PCTX = ['%s', '(%s)', '@.q || %s', '%s || @.q', '@.q && (%s)', 'count(@[?%s])==1', '!(%s)']
OPD = ['1', "'a'", 'null', '@.a', '@.*', 'length(@.a)', "match(@.a,'b')", 'count(@.*)', '-1.5', '$', 'true', 'nofn()']
SELS = ['0', '-1', "'a'", '"b"', '*', ':', '1:2', '::2', '?@.a', '?length(@)==1', '?1==1', '-0', '01', '9007199254740992', '?length(@.a)', '?@.*==1']
SEGS = ['.a', '.*', '[0]', "['a']", '..a', '..*', '..[0]', '[*,1]', '[?@.a]', '[1:]', '..[?@.b,0]']
def combinations():
    """every pair (and, for few, every triple) of kinds of operands, arguments, selectors and segments"""
    out = ['$[?%s]' % c.replace('%s', f'{a} {op} {b}') for op in ('&&', '||') for a in BAS for b in BAS for c in PCTX]
    few = ['@.a', '@.a==1', 'length(@.a)', '!@.b', '(@.c&&@.d)', "match(@.a,'b')"]
    out += [f'$[?{a} {o} {b} {p} {c}]' for a in few for b in few for c in few for o in ('&&', '||') for p in ('&&', '||')]
    out += [f'$[?{a}{o}{b}]' for a in OPD for b in OPD for o in ('==', '!=', '<=', '>=', '<', '>')]
    args = OPD + ['@.a==1', '!@.a', '(@.a)', '@..b', 'value(@.*)']
    out += [f'$[?{f % (a, b)}]' for f in ('match(%s,%s)', 'search(%s,%s)', 'length(%s,%s)==1', 'count(%s,%s)==1') for a in args for b in args]
    out += [f'$[{a},{b}]' for a in SELS for b in SELS] + [f'$..[{a},{b},{a}]' for a in SELS for b in SELS]
    out += ['$' + a + b for a in SEGS for b in SEGS] + [f'$[?@{a}{b}]' for a in SEGS for b in SEGS] + [f'$[?@{a}{b}==1]' for a in SEGS for b in SEGS] + [f'$[?count(${a}{b})==1]' for a in SEGS for b in SEGS]
    return out

def queries(X):
    """texts whose parse trees exercise every table: every kind of expression in every context, numbers at the boundaries, and derivations of the grammar"""
    out = []
    for e in LIT + SING + QRY + FUN + LOGI:
        for c in CTX:
            out.append('$[?%s]' % c.replace('%s', e))
    for n in INTS:
        out += [f'$[{n}]', f'$[{n}:]', f'$[:{n}]', f'$[::{n}]', f'$[1:2:{n}]', f'$[{n}:{n}:{n}]', f'$[?@[{n}]==1]', f'$[?@.a=={n}]', f'$[0,{n}]', f'$..[{n}]', f'$[{n}:1]', f'$[1:{n}]']
    for a in ('', '1', '-2'):
        for b in ('', '3', '-4'):
            for c in (None, '', '5', '-6'):
                out.append('$[%s:%s%s]' % (a, b, '' if c is None else ':' + c))
                out.append('$[%s : %s%s]' % (a, b, '' if c is None else ' : ' + c))
    for s in ('a', '', 'é', '\\n', "\\'", '\\u0041', '\\ud83d\\ude00', '\\\\', '\\/', 'a b', '\\b\\t', '"', '\\u00e9x'):
        out += [f"$['{s}']", f"$[?@.a=='{s}']", f"$[?@['{s}']==1]", f"$[?length('{s}')==1]", f"$..['{s}']"]
    for s in ('a', '', 'é', '\\n', '\\"', '\\u0041', '\\uD83D\\uDE00', "'", '\\\\'):
        out += [f'$["{s}"]', f'$[?@.a=="{s}"]', f'$[?@["{s}"]==1]', f'$[?length("{s}")==1]', f'$..["{s}"]']
    out += ['$', '$.a', '$.*', '$..*', '$..a', '$[*]', '$..[*]', '$.a.b..c[0].*', "$['a','b']", "$['a',*,1,1:2,?@.a]", "$..['a',0]", '$ .a', '$.a [0]', '$[ 0 ]', '$[0 , 1]', '$[? @.a]', '$[?@.a == 1 ]', '$[?@ .a]',
            '', 'a', '$.', '$[', '$[]', '$[01]', '$[-0]', '$x', ' $', '$ ', '$[?]', '$[?@.a=]', "$['a]", '$[1,]', '$..', '$.1', '$[?(@.a]',
            "$[?$['a']]", '$.é', '$._a1', '$[?@]', '$[?$]', '$[?@.a,?@.b]', '$[?@[?@[?@.a]]]']
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    pools = {'chars': [], 'texts': {'function_name': ['length', 'count', 'match', 'search', 'value', 'foo']}}
    for r in X.peg.rules:
        for _ in range(6):
            out.append(X.peg.derive(('ref', 'jsonpath'), rng, 0, [r], pools))
    return list(dict.fromkeys(out + combinations()))

def classify(X, text, want, errs, ints, got):
    """the properties a difference between code and reference belongs to; () if they agree"""
    if not errs:
        if got[0] == 'ok':
            if norm(got[1]) == norm(want):
                return ()
            a, b = leaves(norm(got[1])), leaves(norm(want))
            return ('P17',) + (('P14',) if a[0] != b[0] else ()) + (('P15',) if a[1] != b[1] else ())
        if got[1] in ('TypeError', 'NameError'):
            return ('P13',)
        return ('P17',) + (('P14',) if ints else ()) + (('P15',) if '\\' in text else ())
    if got[0] == 'ok':
        return tuple(sorted({p for _, p in errs}))
    if got[1] not in {k for k, _ in errs}:
        return ('P23',)
    return ()
def leaves(x):
    ints, strs = [], []
    def go(y):
        if isinstance(y, bool):
            return
        if isinstance(y, int):
            ints.append(y)
        elif isinstance(y, tuple):
            if y and all(isinstance(z, str) and len(z) == 1 for z in y):
                strs.append(y)
            for z in y:
                go(z)
    go(x)
    return ints, strs

def witnesses(X, deadline=120):
    """({property: (text, message)}, panics, queries tried, queries not evaluated)"""
    M = Model(X)
    limit = time.time() + deadline
    for q in ("$['a\\u0041',\"b\",1:2:-1,*,-1]..b[?@.a==-1.5e2 && length(@.c)>0||!(count(@.*)==$.x)]", '$[0]', '$.*', '$..[1]', "$[?@['a'][0]=='b'||match(@.a,'c')&&true!=null]"):      # tables computed once
        try:
            M.nodes('jsonpath', q) and M.parse(q)
        except Exception:
            pass
    def run(qs):
        out, pan, n, un, why = {}, None, 0, 0, ''
        for q in qs:
            if time.time() > limit:
                break
            tree = M.nodes('jsonpath', q)
            if tree is None:
                want, errs, ints = None, [('SyntaxError', 'P23')], 0
            else:
                want, errs = M.ref.read(tree)
                ints = M.ref.ints
            try:
                r = M.parse(q)
                if not isinstance(r, ev.A) or r.v not in ('Ok', 'Err'):
                    raise ev.NoEval('result')
                got = ('ok', r.f[0]) if r.v == 'Ok' else ('err', r.f[0].f[0].v.split('::')[-1])
                ps = classify(X, q, want, errs, ints, got)
            except Panicked as e:
                n += 1
                pan = pan or (q, str(e))
                continue
            except (ev.NoEval, ev.Undef, AttributeError, IndexError, RecursionError, TypeError) as e:
                un += 1
                why = why or f'{q}: {type(e).__name__} {e}'
                continue
            n += 1
            for p in ps:
                if p not in out:
                    exp = 'is accepted as ' + str(want)[:300] if not errs else 'is rejected with ' + '/'.join(sorted({k for k, _ in errs}))
                    out[p] = (q, f'the query {q!r} {exp} by the specification, but the tables of the code give {str(got)[:300]}')
        return out, pan, n, un, why
    out, pan, n, un, why = {}, None, 0, 0, ''
    for r in base.parallel(run, queries(X)):
        if r is None:
            un += 1
            why = why or 'a process ended'
            continue
        for p, m in r[0].items():
            out.setdefault(p, m)
        pan, n, un, why = pan or r[1], n + r[2], un + r[3], why or r[4]
    return out, pan, n, un, why

# ---------------------------------------------------------------------------- reporting
def run(o, prop, roles, rules=None, panics=False, rowcheck=False):
    """obligations of the roles; a table that is not the specification's is reported with a query on which the parser as a whole differs"""
    X = o._x = pspec.PCtx(o.short)
    bad, live, n = [], [], 0
    for role, rule, sh in obligations(X):
        if role not in roles or rules and rule is not None and rule not in rules:
            continue
        if rule is None and X.A.get(role) is None:
            continue                  # inlined where it is used, in the code and in the specification
        label = role_name(X, role) + (f' of {rule}' if rule else '')
        if sh is not None and sh[0] == 'cat' and len(pairs.variants(X.peg.inner(rule))) > 1:
            label += ' [' + ' '.join('/'.join(sorted(x[1])) for x in sh[1]) + ']'
        elif sh is not None and sh[0] == 'one' and len(pairs.variants(X.peg.inner(rule))) > 1:
            label += ' [' + '/'.join(sorted(sh[1])) + ']'
        n += 1
        try:
            t0 = time.time()
            impl, sp, f, pans = tables(X, role, rule, sh)
            o.count('function tables computed')
            if panics:
                k = 0
                for p in pans:
                    o.count('panicking edges')
                    if not dead(p, [a if v else Not(a) for a, v in f.trail]):
                        live.append((f'{label}: {p[0]}: {p[1]} {p[2]}'.strip(), 'not shown to be unreachable'))
                        k += 1
                if not k:
                    o.ok(label, f'{X.fn(role).path}: {len(pans)} panicking edges, all unreachable')
                continue
            r = X.compare_terms(impl, sp, facts=f, rows=0)
            o.count('cases of the partition', r.cases)
            if r.status == 'same':
                o.ok(label, f'{X.fn(role).path}: {r.cases} cases, {time.time() - t0:.1f} s')
            else:
                bad.append((label, f'{X.fn(role).path}: {str(r.diff)[:300]}'))
        except Unk as e:
            bad.append((label, f'not analysable: {e}'))
        except base.Infra:
            raise
        except Exception as e:
            bad.append((label, f'internal: {type(e).__name__}: {e}'))
    bad += live
    if not bad and not (rowcheck and o.tier != 'quick'):
        return
    out, pan, n, un, why = witnesses(X, 150 if o.tier == 'quick' else 400)
    o.count('rows (queries) evaluated in the tables', n)
    hit = pan if panics else out.get(prop)
    if hit is not None:
        if panics:
            hit = (pan[0], f'the query {pan[0]!r} reaches a panic: {pan[1]}')
        lab = bad[0][0] if bad else 'whole parser'
        o.violate(lab, f'{hit[1]}; tables that are not as specified: ' + '; '.join(b[0] for b in bad)[:600], function=lab)
    else:
        for lab, why2 in bad:
            o.undec(lab, f'{why2} (no query among {n} on which the parsers differ; {un} not evaluated {why[:150]})')

def role_name(X, role):
    return pspec.TABLE.get(role, role)
