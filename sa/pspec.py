"""The parsers that use pest: how their functions are called, and what they must do, over the parse trees of the grammar."""
import random
import base, ev, interp, roles, models, pairs, registry
import term as TM
from term import *
from facts import Facts
from spec import Ctx, ANY

SHORTS = ('pest', 'recursive', 'serde', 'iter', 'locations', 'singular')
TABLE = {
    'seg': 'parse_segment', 'seginner': 'parse_segment_inner', 'sel': 'parse_selector', 'slice': 'parse_slice_selector',
    'filter': 'parse_filter_selector', 'lor': 'parse_logical_or_expression', 'land': 'parse_logical_and_expression',
    'basic': 'parse_basic_expression', 'paren': 'parse_paren_expression', 'cmp': 'parse_comparison_expression',
    'comparable': 'parse_comparable', 'number': 'parse_number', 'test': 'parse_test_expression',
    'testinner': 'parse_test_expression_inner', 'fun': 'parse_function_expression', 'arg': 'parse_function_argument',
    'int': 'parse_i_json_int', 'sq': 'parse_singular_query_selector', 'okcomparable': 'assert_comparable',
    'okcompared': 'assert_compared', 'typed': 'assert_well_typed', 'isval': 'is_value_type', 'islog': 'is_logical_type',
    'isnodes': 'is_nodes_type',
}
# located, but stay inlined (in the code and in the specification)
INLINE = {'slice', 'filter', 'paren', 'cmp', 'test', 'int', 'sq', 'parse', 'new'}
# rules of the pairs that a role is given
RULES = {
    'seg': ('child_segment', 'descendant_segment', 'name_segment', 'index_segment', 'EOI', 'implicit_root_segment', 'implicit_root_name_segment'),
    'seginner': ('bracketed_selection', 'wildcard_selector', 'member_name_shorthand'),
    'sel': ('double_quoted', 'single_quoted', 'wildcard_selector', 'slice_selector', 'index_selector', 'filter_selector', 'member_name_shorthand', 'singular_query_selector'),
    'lor': ('logical_or_expr',), 'land': ('logical_and_expr',), 'basic': ('paren_expr', 'comparison_expr', 'test_expr'),
    'comparable': ('number', 'double_quoted', 'single_quoted', 'true_literal', 'false_literal', 'null', 'rel_singular_query', 'abs_singular_query', 'function_expr'),
    'number': ('number',), 'testinner': ('rel_query', 'root_query', 'function_expr'), 'fun': ('function_expr',),
    'arg': ('number', 'double_quoted', 'single_quoted', 'true_literal', 'false_literal', 'null', 'rel_query', 'root_query', 'logical_or_expr', 'function_expr'),
}
MAXI = (1 << 53) - 1
OPS = (('==', 'Eq'), ('!=', 'Ne'), ('<=', 'Le'), ('>=', 'Ge'), ('<', 'Lt'), ('>', 'Gt'))

class PAnchors:
    def __init__(self, ip):
        self.ip = ip
        self.fns, self.perm = {}, {}
        t = {'unescape': 'unescape', 'parse': 'JSONPathParser::parse', 'new': 'JSONPathParser::new', 'qsing': 'Query::is_singular'}
        t.update({k: 'JSONPathParser::' + v for k, v in TABLE.items()})
        for r, suffix in t.items():
            f = roles.find_fn(ip.crate, suffix, None)
            if f is None and r == 'unescape':
                f = roles.find_fn(ip.crate, 'unescape_string', None)
            if f is None:
                continue
            self.fns[r] = f
            self.perm[r] = [i for i in range(f.args) if roles.plain_type(roles.ts(f.crate, f.locals[i + 1])) != 'JSONPathParser']
        rec = roles.recorded().get('parser:' + ip.short, {})
        for r in list(self.fns):
            if r in rec and not self.accept(r, rec[r]):
                del self.fns[r]
        for it, items in ip.crate.impl_items('Parser'):
            if items.get('parse'):
                ip.roles[items['parse'].id] = lambda ip_, st, args, ctx: raw('pestparse', ip_.deep(st, args[0]), ip_.deep(st, args[1]))
        for r, f in self.fns.items():
            if r not in INLINE:
                roles.cut(ip, r, f, self.perm[r])
    def accept(self, r, rec):
        f = self.fns[r]
        if roles.ts(f.crate, f.locals[0]) != rec['ret']:
            return False
        own = [x for x in rec['params'] if roles.plain_type(x[0]) != 'JSONPathParser']
        ps = roles.params(f)
        act = [(i, x) for i, x in enumerate(ps) if roles.plain_type(x[0]) != 'JSONPathParser']
        p = roles.permutation(own, [x for _, x in act])
        if p is None:
            return False
        self.perm[r] = [act[j][0] for j in p]
        return True
    def get(self, r): return self.fns.get(r)

class PCtx(Ctx):
    def __init__(self, short):
        self.short = short
        self.ip = interp.Interp(short)
        self.crate = self.ip.crate
        self.types, self.roles, self.adtpaths = {}, {}, {}
        self.A = PAnchors(self.ip)
        for r, f in self.A.fns.items():
            self.roles[r] = f.locals[0]
        self.peg = pairs.Peg(short)
        self.rec = short == 'recursive'
        f = self.fn('new')
        self.P = self.summary_of(f, [])
        self.generic = {}
    # ------------------------------------------------------------- code
    def run(self, role, args, facts=None):
        """table of a role applied to arguments (in the order of the anchored version, without the parser)"""
        f = self.fn(role)
        a = [self.P] * f.args
        for i, x in zip(self.A.perm[role], args):
            a[i] = x
        return self.summary_of(f, a, facts)
    def nargs(self, role):
        return len(self.A.perm[role])
    def syms_of(self, role):
        f = self.fn(role)
        a = []
        for k, i in enumerate(self.A.perm[role]):
            s = Sym(f'{role}.{k}')
            self.types[s.args[0]] = f.locals[i + 1]
            a.append(s)
        return a
    # ------------------------------------------------------------- syntax tree
    def variant(self, enum, v):
        """(variant name, field names) with the names this crate uses"""
        for a in self.crate.adts.values():
            if a['path'].split('::')[-1] == enum and a.get('local'):
                for i, x in enumerate(a['variants']):
                    if x['name'] in (v, v + '_', v + 'Literal'):
                        return a['path'], self.ip.vn(a, i), [f['name'] for f in x['fields']]
        raise Unk(f'{enum}::{v} not found')
    def mk(self, enum, v, **fs):
        p, n, names = self.variant(enum, v)
        if set(names) != set(fs):
            raise Unk(f'fields of {enum}::{v}')
        return adt(p, n, *[fs[x] for x in names])
    def is_(self, x, enum, *vs):
        return isin(x, tuple(self.variant(enum, v)[1] for v in vs))
    def get(self, x, enum, v, name):
        p, n, names = self.variant(enum, v)
        return fld(x, n, names.index(name))
    def err(self, kind):
        p, n, names = self.variant('JSONPathError', 'JSONPathError')
        kp, kn, _ = self.variant('JSONPathErrorType', kind)
        return Err(adt(p, n, *[raw('adt', kp, kn) if x == 'kind' else ANY for x in names]))
    # ------------------------------------------------------------- specification
    def bind(self, r, f):
        return ite(is_ok(r), f(fld(r, 'Ok', 0)), Err(fld(r, 'Err', 0)))
    def call(self, role, *args):
        if self.A.get(role) is not None:
            return raw('call', role, *args)
        return self.table(role, *args)
    def rule(self, p, *names): return isin(pairs.prule(p), tuple('Rule::' + n for n in names))
    def kid(self, p, i=0): return nth(pairs.pinner(p), Int(i))
    def cases(self, p, rules):
        r = ANY
        for ns, f in reversed(rules):
            ns = (ns,) if isinstance(ns, str) else ns
            ns = [n for n in ns if n in self.peg.rules or n == 'EOI']
            if ns:
                r = ite(self.rule(p, *ns), f(), r)
        return r
    def each(self, src, role):
        return TM.tryfor(src, lambda e, i: self.bind(self.call(role, e), lambda x: Ok(one(x))))
    def query(self, segs, f):
        """f(query) of the segments in a sequence of pairs"""
        if self.rec:
            r = TM.tryfold(segs, self.mk('Segment', 'Root'), lambda e, i, acc: self.call('seg', acc, e))
            return self.bind(r, lambda s: Ok(f(self.mk('Query', 'Query', ast=s))))
        return self.bind(self.each(segs, 'seg'), lambda s: Ok(f(self.mk('Query', 'Query', segments=s))))
    def text(self, p, f):
        """f(decoded text) of a quoted string"""
        t = pairs.ptext(p)
        t = ite(self.rule(p, 'single_quoted'), raw('replace', t, Str("\\'"), Str("'")), t)
        u = self.call('unescape', t)
        if self.fallible_unescape():
            return self.bind(u, lambda s: Ok(f(s)))
        return Ok(f(u))
    def fallible_unescape(self):
        f = self.A.get('unescape')
        if f is None:
            raise Unk('unescape not found')
        t = self.ip.ty(f.locals[0])
        return t['k'] == 'adt' and t['path'] == RESULT
    def int_(self, t):
        n = raw('parse', 'i64', t)
        v = fld(n, 'Ok', 0)
        return ite(is_ok(n), ite(And(le(Int(-MAXI), v), le(v, Int(MAXI))), Ok(v), self.err('SyntaxError')), self.err('SyntaxError'))
    def ftype(self, name, types):
        """whether a function of that name returns one of the types"""
        r = FALSE
        for n, (ps, ret) in sorted(registry.SIGNATURES.items()):
            if ret in types:
                r = Or(r, TM.beq(name, Str(n)))
        return r
    def table(self, role, *a):
        return getattr(self, 's_' + role)(*a)
    def s_seg(self, *a):
        p = a[-1]
        def child(v, sels):
            kw = {'left': a[0]} if self.rec else {}
            return self.mk('Segment', v, selectors=sels, **kw)
        return self.cases(p, [
            (('child_segment', 'implicit_root_segment'), lambda: self.bind(self.call('seginner', self.kid(p)), lambda s: Ok(child('Child', s)))),
            ('descendant_segment', lambda: self.bind(self.call('seginner', self.kid(p)), lambda s: Ok(child('Recursive', s)))),
            (('name_segment', 'index_segment', 'implicit_root_name_segment'), lambda: self.bind(self.call('sel', self.kid(p)), lambda s: Ok(child('Child', one(s))))),
            ('EOI', lambda: Ok(a[0]) if self.rec else Ok(self.mk('Segment', 'Eoi')))])
    def s_seginner(self, p):
        return self.cases(p, [
            ('bracketed_selection', lambda: self.each(pairs.pinner(p), 'sel')),
            ('wildcard_selector', lambda: Ok(one(self.mk('Selector', 'Wild')))),
            ('member_name_shorthand', lambda: Ok(one(self.mk('Selector', 'Name', name=pairs.ptext(p)))))])
    def s_sel(self, p):
        def slice_():
            def step(e, i, acc):
                g = [fld(acc, None, k) for k in range(3)]
                def put(k):
                    return self.bind(self.int_(pairs.ptext(e)), lambda n: Ok(Tup(*[Some(n) if j == k else g[j] for j in range(3)])))
                return ite(self.rule(e, 'start'), put(0), ite(self.rule(e, 'stop'), put(1), ite(self.rule(e, 'step'), put(2), ANY)))
            r = TM.tryfold(pairs.pinner(p), Tup(NONE, NONE, NONE), step)
            return self.bind(r, lambda t: Ok(self.mk('Selector', 'Slice', start=fld(t, None, 0), stop=fld(t, None, 1), step=fld(t, None, 2))))
        return self.cases(p, [
            (('double_quoted', 'single_quoted'), lambda: self.text(p, lambda s: self.mk('Selector', 'Name', name=s))),
            ('wildcard_selector', lambda: Ok(self.mk('Selector', 'Wild'))),
            ('slice_selector', slice_),
            ('index_selector', lambda: self.bind(self.int_(pairs.ptext(p)), lambda n: Ok(self.mk('Selector', 'Index', index=n)))),
            ('filter_selector', lambda: self.bind(self.call('lor', self.kid(p), TRUE), lambda e: Ok(self.mk('Selector', 'Filter', expression=e)))),
            ('member_name_shorthand', lambda: Ok(self.mk('Selector', 'Name', name=pairs.ptext(p)))),
            ('singular_query_selector', lambda: self.query(pairs.pinner(p), lambda q: self.mk('Selector', 'SingularQuery', query=q)))])
    def chain(self, p, role, op, c):
        """operands of a left associative chain; c: the first operand must be fit for a test even on its own"""
        okc = lambda e, f: self.bind(self.call('okcompared', e), lambda _: f())
        if role == 'basic':
            first = self.call('basic', self.kid(p))
            other = lambda e: self.call('basic', e)
        else:
            first = self.call(role, self.kid(p), c)
            other = lambda e: self.call(role, e, TRUE)
        o = raw('adt', *self.variant('LogicalOperator', op)[:2])
        def rest(x):
            return TM.tryfold(TM.drop(pairs.pinner(p), Int(1)), x, lambda e, i, acc: self.bind(other(e), lambda r: okc(acc, lambda: okc(r, lambda: Ok(
                self.mk('FilterExpression', 'Logical', left=acc, operator=o, right=r))))))
        return self.bind(first, lambda x: ite(c, okc(x, lambda: rest(x)), rest(x)))
    def s_lor(self, p, c): return self.chain(p, 'land', 'Or', c)
    def s_land(self, p, c): return self.chain(p, 'basic', 'And', c)
    def s_basic(self, p):
        def paren():
            k = self.kid(p)
            return ite(self.rule(k, 'logical_not_op'),
                       self.bind(self.call('lor', self.kid(p, 1), TRUE), lambda e: Ok(self.mk('FilterExpression', 'Not', expression=e))),
                       self.call('lor', k, TRUE))
        def cmp():
            t = pairs.ptext(self.kid(p, 1))
            op = ANY
            for s, n in OPS:
                op = ite(TM.beq(t, Str(s)), raw('adt', *self.variant('ComparisonOperator', n)[:2]), op)
            def build(l, r):
                return self.bind(self.call('okcomparable', l), lambda _: self.bind(self.call('okcomparable', r), lambda _: Ok(
                    self.mk('FilterExpression', 'Comparison', left=l, operator=op, right=r))))
            known = FALSE
            for s, n in OPS:
                known = Or(known, TM.beq(t, Str(s)))
            return self.bind(self.call('comparable', self.kid(p, 0)), lambda l: self.bind(self.call('comparable', self.kid(p, 2)), lambda r: ite(known, build(l, r), ANY)))
        def test():
            k = self.kid(p)
            return ite(self.rule(k, 'logical_not_op'),
                       self.bind(self.call('testinner', self.kid(p, 1)), lambda e: self.bind(self.call('okcompared', e), lambda _: Ok(self.mk('FilterExpression', 'Not', expression=e)))),
                       self.call('testinner', k))
        return self.cases(p, [('paren_expr', paren), ('comparison_expr', cmp), ('test_expr', test)])
    def rel(self, p): return self.query(pairs.pinner(p), lambda q: self.mk('FilterExpression', 'RelativeQuery', query=q))
    def root(self, p): return self.query(pairs.pinner(p), lambda q: self.mk('FilterExpression', 'RootQuery', query=q))
    def literals(self, p):
        return [('number', lambda: self.call('number', p)),
                (('double_quoted', 'single_quoted'), lambda: self.text(p, lambda s: self.mk('FilterExpression', 'String', value=s))),
                ('true_literal', lambda: Ok(self.mk('FilterExpression', 'True'))),
                ('false_literal', lambda: Ok(self.mk('FilterExpression', 'False'))),
                ('null', lambda: Ok(self.mk('FilterExpression', 'Null')))]
    def s_comparable(self, p):
        return self.cases(p, self.literals(p) + [('rel_singular_query', lambda: self.rel(p)), ('abs_singular_query', lambda: self.root(p)), ('function_expr', lambda: self.call('fun', p))])
    def s_testinner(self, p):
        return self.cases(p, [('rel_query', lambda: self.rel(p)), ('root_query', lambda: self.root(p)), ('function_expr', lambda: self.call('fun', p))])
    def s_arg(self, p):
        return self.cases(p, self.literals(p) + [('rel_query', lambda: self.rel(p)), ('root_query', lambda: self.root(p)),
                                                 ('logical_or_expr', lambda: self.call('lor', p, FALSE)), ('function_expr', lambda: self.call('fun', p))])
    def s_number(self, p):
        t = pairs.ptext(p)
        i, f = raw('parse', 'i64', t), raw('parse', 'f64', t)
        return ite(is_ok(i), Ok(self.mk('FilterExpression', 'Int', value=fld(i, 'Ok', 0))),
                   ite(is_ok(f), Ok(self.mk('FilterExpression', 'Float', value=fld(f, 'Ok', 0))), self.err('SyntaxError')))
    def s_fun(self, p):
        n = pairs.ptext(self.kid(p))
        args = self.each(TM.drop(pairs.pinner(p), Int(1)), 'arg')
        return self.bind(args, lambda a: self.bind(self.call('typed', n, a), lambda b: Ok(self.mk('FilterExpression', 'Function', name=n, args=b))))
    def s_okcomparable(self, e):
        t = lambda b: ite(b, Ok(raw('tuple')), self.err('TypeError'))
        r = Ok(raw('tuple'))
        r = ite(self.is_(e, 'FilterExpression', 'Function'), t(self.ftype(self.get(e, 'FilterExpression', 'Function', 'name'), ('Value',))), r)
        for v in ('RelativeQuery', 'RootQuery'):
            r = ite(self.is_(e, 'FilterExpression', v), t(self.call('qsing', self.get(e, 'FilterExpression', v, 'query'))), r)
        return r
    def s_okcompared(self, e):
        return ite(And(self.is_(e, 'FilterExpression', 'Function'), self.ftype(self.get(e, 'FilterExpression', 'Function', 'name'), ('Value',))), self.err('TypeError'), Ok(raw('tuple')))
    def s_isval(self, e):
        r = self.is_(e, 'FilterExpression', 'True', 'False', 'Null', 'String', 'Int', 'Float')
        for v in ('RelativeQuery', 'RootQuery'):
            r = Or(r, And(self.is_(e, 'FilterExpression', v), self.call('qsing', self.get(e, 'FilterExpression', v, 'query'))))
        return Or(r, And(self.is_(e, 'FilterExpression', 'Function'), self.ftype(self.get(e, 'FilterExpression', 'Function', 'name'), ('Value',))))
    def s_islog(self, e):
        return Or(self.is_(e, 'FilterExpression', 'RelativeQuery', 'RootQuery', 'Not', 'Logical', 'Comparison'),
                  And(self.is_(e, 'FilterExpression', 'Function'), self.ftype(self.get(e, 'FilterExpression', 'Function', 'name'), ('Logical', 'Nodes'))))
    def s_isnodes(self, e):
        return Or(self.is_(e, 'FilterExpression', 'RelativeQuery', 'RootQuery'),
                  And(self.is_(e, 'FilterExpression', 'Function'), self.ftype(self.get(e, 'FilterExpression', 'Function', 'name'), ('Nodes',))))
    def s_typed(self, name, args):
        r = self.err('NameError')
        for n, (ps, ret) in sorted(registry.SIGNATURES.items()):
            ok = Ok(args)
            for i, p in reversed(list(enumerate(ps))):
                ok = ite(self.call({'Value': 'isval', 'Logical': 'islog', 'Nodes': 'isnodes'}[p], nth(args, Int(i))), ok, self.err('TypeError'))
            r = ite(TM.beq(name, Str(n)), ite(ieq(length(args), Int(len(ps))), ok, self.err('TypeError')), r)
        return r
    def s_parse(self, q):
        r = raw('pestparse', raw('adt', self.adt_path('Rule'), 'Rule::jsonpath'), q)
        pr = fld(r, 'Ok', 0)
        e = self.err('SyntaxError')
        return ite(is_ok(r), self.query(pr, lambda x: x), e)
