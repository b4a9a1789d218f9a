"""What RFC 9535 says, as decision tables in the term domain (independent of how the code is written)."""
import os, sys, threading
import interp, roles, loops, eq, ev, models, base
import term as TM
from term import *
from facts import Facts

ANY = raw('any')          # the specification says nothing here

def field_ix(crate, adt_name, variant, name, default):
    for a in crate.adts.values():
        if a['path'].split('::')[-1] == adt_name and not a['path'].startswith('core'):
            for v in a['variants']:
                if v['name'] == variant:
                    for i, f in enumerate(v['fields']):
                        if f.get('name') == name:
                            return i
    return default

def leaves(t, g):
    """g applied to the alternatives of a decision"""
    return ite(t.args[0], leaves(t.args[1], g), leaves(t.args[2], g)) if t.op == 'ite' else g(t)

class Ctx:
    """one evaluator crate: how its functions are called and how its values are built"""
    def __init__(self, short):
        self.short = short
        self.ip = interp.Interp(short)
        self.A = roles.Anchors(self.ip)
        self.crate = self.ip.crate
        self.fallible = short == 'serde'
        self.types, self.roles = {}, {}
        for r, f in self.A.fns.items():
            self.roles[r] = f.locals[0]
        self.adtpaths = {}
    @property
    def FERp(self): return self.adt_path('FilterExpressionResult')
    @property
    def Nodep(self): return self.adt_path('Node', 2)
    def adt_path(self, name, nf=None):
        c = [a['path'] for a in self.crate.adts.values() if a['path'].split('::')[-1] == name and not a['path'].startswith(('core', 'std', 'alloc', 'conslist', 'serde_json')) and 'conslist' not in a['path']]
        if len(c) != 1:
            raise Unk(f'type {name} not found in {self.short}')
        return c[0]
    # ------------------------------------------------------- values
    def FER(self, v, *f): return adt(self.FERp, 'FilterExpressionResult::' + v, *f)
    def isF(self, x, *vs): return isin(x, tuple('FilterExpressionResult::' + v for v in vs))
    def F(self, x, v, i=0): return fld(x, 'FilterExpressionResult::' + v, i)
    def E(self, x, v, name=None, i=0):
        return fld(x, 'FilterExpression::' + v, field_ix(self.crate, 'FilterExpression', v, name, i) if name else i)
    def isE(self, x, *vs): return isin(x, tuple('FilterExpression::' + v for v in vs))
    def S(self, x, v, name=None, i=0):
        return fld(x, 'Selector::' + v, field_ix(self.crate, 'Selector', v, name, i) if name else i)
    def isS(self, x, *vs): return isin(x, tuple('Selector::' + v for v in vs))
    def nval(self, n): return fld(n, 'Node', field_ix(self.crate, 'Node', 'Node', 'value', 0))
    def nloc(self, n): return fld(n, 'Node', 1)
    # ------------------------------------------------------- summaries
    def args(self, role, types=True):
        f = self.fn(role)
        a = [Sym(f'{role}{i}') for i in range(f.args)]
        for i, s in enumerate(a):
            self.types[s.args[0]] = f.locals[self.A.perm[role][i] + 1]
        return a
    def fn(self, role):
        f = self.A.get(role)
        if f is None:
            raise Unk(f'function of role "{role}" not found')
        return f
    def summary(self, role, args, facts=None):
        f = self.fn(role)
        st0 = interp.State({}, facts or Facts())
        a2 = []
        perm = self.A.perm[role]
        for i, x in sorted(((perm[i], x) for i, x in enumerate(args)), key=lambda y: y[0]) if len(args) > 1 else enumerate(args):
            t = self.ip.ty(f.locals[i + 1])
            if t['k'] == 'ref' and t.get('mut'):
                x = self.ip.ptr(self.ip.new_cell(st0, x))
            a2.append(x)
        n0 = len(self.ip.panics)
        self.ip.steps = 0
        t, st = interp.summarise(self.ip, f, a2, st0.facts, st0.mem)
        self.last_panics = self.ip.panics[n0:]
        self.last_state = st
        return self.ip.deep(st, t)
    def symbols(self, f):
        """one symbol per parameter of a function that has no role"""
        a = [Sym(f'arg{i}') for i in range(f.args)]
        for i, s in enumerate(a):
            self.types[s.args[0]] = f.locals[i + 1]
        return a
    def summary_of(self, f, args, facts=None):
        """summary of a function that has no role; references to mutable data become cells"""
        st0 = interp.State({}, facts or Facts())
        a2 = []
        for i, x in enumerate(args):
            t = self.ip.ty(f.locals[i + 1])
            if t['k'] == 'ref' and t.get('mut'):
                x = self.ip.ptr(self.ip.new_cell(st0, x))
            a2.append(x)
        n0 = len(self.ip.panics)
        self.ip.steps = 0
        t, st = interp.summarise(self.ip, f, a2, st0.facts, st0.mem)
        self.last_panics = self.ip.panics[n0:]
        self.last_state, self.last_args = st, a2
        return self.ip.deep(st, t)
    def written(self, f, args, facts=None):
        """text a Display::fmt writes"""
        st0 = interp.State({}, facts or Facts())
        cell = self.ip.new_cell(st0, EMPTY)
        n0 = len(self.ip.panics)
        self.ip.steps = 0
        t, st = interp.summarise(self.ip, f, [args[0], self.ip.ptr(cell)], st0.facts, st0.mem)
        self.last_panics = self.ip.panics[n0:]
        return self.ip.deep(st, st.mem[cell])
    def field(self, adt, name, default):
        return field_ix(self.crate, adt, adt, name, default)
    def ok_type(self, ti):
        """payload type of a Result type"""
        return [x for x in self.ip.ty(ti)['args'] if isinstance(x, int)][0]
    def same_function(self, role, other):
        """calls of one role count as calls of another (shown equal as an obligation of its own)"""
        roles.cut(self.ip, other, self.fn(role), self.A.perm[role])
    def toseq(self, t, ti):
        """an iterator value of the crate as the sequence it yields"""
        st = interp.State({}, Facts())
        return models.as_seq(self.ip, st, t, ti)
    def calls(self, t, role):
        """call terms of a role inside a term"""
        seen, out = set(), []
        def go(a):
            if isinstance(a, T):
                if a in seen:
                    return
                seen.add(a)
                if a.op == 'call' and a.args[0] == role:
                    out.append(a)
                for x in a.args:
                    go(x)
            elif isinstance(a, tuple):
                for x in a:
                    go(x)
        go(t)
        return out
    # ------------------------------------------------------- crate shaped calls
    def cx(self, c, name, i):
        return fld(c, 'QueryContext', field_ix(self.crate, 'QueryContext', 'QueryContext', name, i))
    def context(self, env, root):
        f = [env, root]
        f[field_ix(self.crate, 'QueryContext', 'QueryContext', 'env', 0)] = env
        f[field_ix(self.crate, 'QueryContext', 'QueryContext', 'root', 1)] = root
        return adt(self.adt_path('QueryContext'), 'QueryContext', *f)
    def ev_args(self):
        """evaluate(): (self, everything else) and accessors current / root / query call"""
        a = self.args('eval')
        if self.short == 'serde':
            return dict(self_=a[0], current=a[1], ctx=a[2], root=self.cx(a[2], 'root', 1), env=self.cx(a[2], 'env', 0), all=a)
        return dict(self_=a[0], env=a[1], root=a[2], current=a[3], all=a)
    def eval(self, e, w, current=None):
        c = w['current'] if current is None else current
        if self.short == 'serde':
            return raw('call', 'eval', e, c, w['ctx'])
        return raw('call', 'eval', e, w['env'], w['root'], c)
    def qres(self, q, value, w):
        """nodes (Result of nodes in the fallible crate) of resolving q from value"""
        if self.short == 'serde':
            return raw('call', 'qres', q, value, w['ctx'])
        if self.short == 'iter':
            return self.toseq(raw('call', 'qres', w['env'], w['root'], value, q), self.roles['qres'])
        return raw('call', 'qres', q, value, w['env'], w['root'])
    # Result plumbing
    def ret(self, x): return Ok(x) if self.fallible else x
    def bind(self, r, f):
        """f applied to the value of r; an error of r is the result"""
        if not self.fallible:
            return f(r)
        return ite(is_ok(r), f(fld(r, 'Ok', 0)), Err(fld(r, 'Err', 0)))
    # ------------------------------------------------------- JSON
    def children(self, v, f):
        """concatenation of f(child value, path element) over the children of v"""
        return ite(isin(v, 'Value::Array'), mk_for(fld(v, 'Value::Array', 0), lambda e, p: f(e, ('i', p))),
                   ite(isin(v, 'Value::Object'), mk_for(fld(v, 'Value::Object', 0), lambda e, p: f(fld(e, None, 1), ('k', fld(e, None, 0)))), EMPTY))
    def trychildren(self, v, f):
        return ite(isin(v, 'Value::Array'), tryfor(fld(v, 'Value::Array', 0), lambda e, p: f(e, ('i', p))),
                   ite(isin(v, 'Value::Object'), tryfor(fld(v, 'Value::Object', 0), lambda e, p: f(fld(e, None, 1), ('k', fld(e, None, 0)))), Ok(EMPTY)))
    def esc(self, name):
        return raw('call', 'esc', name) if self.A.get('esc') is not None else escaped(name)
    def facts(self): return Facts()
    def steps(self, loc):
        """the path elements of a list location, newest first"""
        nd = [v for a in self.crate.adts.values() if a['path'].endswith('conslist::Node') for v in a['variants']][0]
        tail = [i for i, f in enumerate(nd['fields']) if 'next' == f.get('name')] or [1]
        return mk_for(TM.chain(fld(loc, 'ConsList', 0), 'Node', tail[0]), lambda e, p: one(fld(e, 'Node', 1 - tail[0])))
    def step_text(self, e):
        """one step of a normalized path"""
        return ite(isin(e, 'PathElement::Index'), cat(Str('['), raw('dec', fld(e, 'PathElement::Index', 0)), Str(']')),
                   cat(Str("['"), self.esc(fld(e, 'PathElement::Name', 0)), Str("']")))
    def child_node(self, parent_loc, value, el):
        """node of a child: its value and its own location"""
        if self.short in ('serde', 'iter'):
            loc = cat(parent_loc, Str('['), raw('dec', el[1]), Str(']')) if el[0] == 'i' else cat(parent_loc, Str("['"), self.esc(el[1]), Str("']"))
            if el[0] == 'i' and el[1].op == 'int':
                loc = cat(parent_loc, Str(f'[{el[1].args[0]}]'))
        else:
            pe = self.adt_path('PathElement')
            x = adt(pe, 'PathElement::Index', el[1]) if el[0] == 'i' else adt(pe, 'PathElement::Name', el[1])
            loc = self.cons(x, parent_loc)
        return adt(self.Nodep, 'Node', value, loc)
    def cons(self, x, l):
        cl = [a['path'] for a in self.crate.adts.values() if a['path'].endswith('conslist::ConsList')][0]
        nd = [a['path'] for a in self.crate.adts.values() if a['path'].endswith('conslist::Node')][0]
        return adt(cl, 'ConsList', Some(adt(nd, 'Node', x, fld(l, 'ConsList', 0))), add(fld(l, 'ConsList', 1), Int(1)))
    def from_value(self, v):
        """filter expression result of a JSON value"""
        n = fld(v, 'Value::Number', 0)
        i = models.as_i64(n)
        num = ite(is_some(i), self.FER('Int', fld(i, 'Some', 0)), self.FER('Float', fld(models.as_f64(n), 'Some', 0)))
        r = self.FER('Object', v)
        r = ite(isin(v, 'Value::Array'), self.FER('Array', v), r)
        r = ite(isin(v, 'Value::String'), self.FER('String', fld(v, 'Value::String', 0)), r)
        r = ite(isin(v, 'Value::Number'), num, r)
        r = ite(isin(v, 'Value::Bool'), self.FER('Bool', fld(v, 'Value::Bool', 0)), r)
        return ite(isin(v, 'Value::Null'), self.FER('Null'), r)
    def err_of(self, r): return Err(fld(r, 'Err', 0))
    def anynode(self, value):
        """a node of which only the value matters"""
        f = [Int(0)] * 2
        f[field_ix(self.crate, 'Node', 'Node', 'value', 0)] = value
        return adt(self.Nodep, 'Node', *f)
    # ------------------------------------------------------- filter semantics
    def truthy(self, r):
        """truth of a test expression: a logical value, or existence of nodes (see testable)"""
        return ite(self.isF(r, 'Bool'), self.F(r, 'Bool'), Not(is_empty(self.F(r, 'Nodes'))))
    def testable(self, r, x):
        """x where r is a result that can occur as a test expression (P13), unspecified otherwise"""
        return ite(self.isF(r, 'Bool', 'Nodes'), x, ANY)
    def jeq(self, a, b):
        return raw('call', 'jeq', a, b)
    def comparable(self, r):
        ns = self.F(r, 'Nodes')
        one_ = ieq(length(ns), Int(1))
        return ite(self.isF(r, 'Nodes'), ite(one_, self.from_value(self.nval(nth(ns, Int(0)))), self.FER('Nothing')), r)
    def equal(self, l, r):
        F, I = self.F, self.isF
        return ite(I(l, 'Nothing'), I(r, 'Nothing'),
               ite(I(l, 'Bool'), And(I(r, 'Bool'), beq(F(l, 'Bool'), F(r, 'Bool'))),
               ite(I(l, 'Int'), ite(I(r, 'Int'), ieq(F(l, 'Int'), F(r, 'Int')), And(I(r, 'Float'), self.feq(raw('i2f', F(l, 'Int')), F(r, 'Float')))),
               ite(I(l, 'Float'), ite(I(r, 'Int'), self.feq(F(l, 'Float'), raw('i2f', F(r, 'Int'))), And(I(r, 'Float'), self.feq(F(l, 'Float'), F(r, 'Float')))),
               ite(I(l, 'Null'), I(r, 'Null'),
               ite(I(l, 'String'), And(I(r, 'String'), beq(F(l, 'String'), F(r, 'String'))),
               ite(I(l, 'Array'), And(I(r, 'Array'), self.jeq(F(l, 'Array'), F(r, 'Array'))),
               ite(I(l, 'Object'), And(I(r, 'Object'), self.jeq(F(l, 'Object'), F(r, 'Object'))), FALSE))))))))
    def feq(self, a, b): return self.ip.fcmp('Eq', a, b)
    def less(self, l, r):
        F, I = self.F, self.isF
        flt = lambda a, b: raw('flt', a, b)
        return ite(I(l, 'Int'), ite(I(r, 'Int'), lt(F(l, 'Int'), F(r, 'Int')), And(I(r, 'Float'), flt(raw('i2f', F(l, 'Int')), F(r, 'Float')))),
               ite(I(l, 'Float'), ite(I(r, 'Int'), flt(F(l, 'Float'), raw('i2f', F(r, 'Int'))), And(I(r, 'Float'), flt(F(l, 'Float'), F(r, 'Float')))),
               ite(I(l, 'String'), And(I(r, 'String'), raw('slt', F(l, 'String'), F(r, 'String'))), FALSE)))
    def compare(self, op, l, r):
        C = lambda n: isin(op, 'ComparisonOperator::' + n)
        EQ, LT, GT = self.equal(l, r), self.less(l, r), self.less(r, l)
        return ite(C('Eq'), EQ, ite(C('Ne'), Not(EQ), ite(C('Lt'), LT, ite(C('Gt'), GT, ite(C('Le'), Or(LT, EQ), Or(GT, EQ))))))
    def json_equal(self, a, b):
        """deep equality of JSON values; numbers compare by value"""
        def nums(x, y):
            i, j = models.as_i64(x), models.as_i64(y)
            f = lambda n: fld(models.as_f64(n), 'Some', 0)
            return ite(And(is_some(i), is_some(j)), ieq(fld(i, 'Some', 0), fld(j, 'Some', 0)), self.feq(f(x), f(y)))
        V = lambda x, k: fld(x, 'Value::' + k, 0)
        I = lambda x, k: isin(x, 'Value::' + k)
        sa, sb = V(a, 'Array'), V(b, 'Array')
        oa, ob = V(a, 'Object'), V(b, 'Object')
        arr = And(ieq(length(sa), length(sb)), forall(sa, lambda e, p: self.jeq(e, nth(sb, p))))
        obj = And(ieq(length(oa), length(ob)), forall(oa, lambda e, p: ite(is_some(models.mget(ob, fld(e, None, 0))), self.jeq(fld(e, None, 1), fld(models.mget(ob, fld(e, None, 0)), 'Some', 0)), FALSE)))
        return ite(I(a, 'Null'), I(b, 'Null'),
               ite(I(a, 'Bool'), And(I(b, 'Bool'), beq(V(a, 'Bool'), V(b, 'Bool'))),
               ite(I(a, 'Number'), And(I(b, 'Number'), nums(V(a, 'Number'), V(b, 'Number'))),
               ite(I(a, 'String'), And(I(b, 'String'), beq(V(a, 'String'), V(b, 'String'))),
               ite(I(a, 'Array'), And(I(b, 'Array'), arr), And(I(b, 'Object'), obj))))))
    # ------------------------------------------------------- selectors
    def sel_args(self):
        a = self.args('sel')
        if self.short == 'serde':
            n = a[1]
            return dict(self_=a[0], node=n, value=self.nval(n), loc=self.nloc(n), ctx=a[2], root=self.cx(a[2], 'root', 1), env=self.cx(a[2], 'env', 0), all=a)
        if self.short == 'iter':
            n = a[3]
            return dict(self_=a[2], node=n, value=self.nval(n), loc=self.nloc(n), env=a[0], root=a[1], all=a)
        return dict(self_=a[0], env=a[1], value=a[2], root=a[3], loc=a[4], all=a)
    def sel_result(self, t):
        """the nodes of a result of the selector function (Result of nodes when fallible)"""
        return self.toseq(t, self.roles['sel']) if self.short == 'iter' else t
    def vals(self, t):
        """values of a node list (of a Result of one)"""
        f = lambda s: mk_for(s, lambda e, p: one(self.nval(e)))
        if self.fallible:
            return self.map_result(t, f)
        return f(t)
    def map_result(self, t, f):
        if t.op == 'ite':
            return ite(t.args[0], self.map_result(t.args[1], f), self.map_result(t.args[2], f))
        if t.op == 'adt':
            return Ok(f(t.args[2])) if t.args[1] == 'Ok' else t
        if t.op == 'tryfor':
            return tryfor(t.args[1], lambda e, p: self.map_result(open_(t, e, p)[0], f))
        return ite(is_ok(t), Ok(f(fld(t, 'Ok', 0))), Err(fld(t, 'Err', 0)))
    def index_sel(self, v, i, mk):
        a = fld(v, 'Value::Array', 0)
        j = ite(lt(i, Int(0)), add(length(a), i), i)
        return ite(isin(v, 'Value::Array'), ite(And(le(Int(0), j), lt(j, length(a))), one(mk(nth(a, j), ('i', j))), EMPTY), EMPTY)
    def name_sel(self, v, name, mk):
        m = models.mget(fld(v, 'Value::Object', 0), name)
        return ite(isin(v, 'Value::Object'), ite(is_some(m), one(mk(fld(m, 'Some', 0), ('k', name))), EMPTY), EMPTY)
    def slice_sel(self, v, start, stop, step, mk):
        """RFC 9535 section 2.3.4.2.2"""
        a = fld(v, 'Value::Array', 0)
        n = length(a)
        opt = lambda o, d: ite(is_some(o), fld(o, 'Some', 0), d)
        st = opt(step, Int(1))
        norm = lambda i: leaves(i, lambda i: ite(le(Int(0), i), i, add(n, i)))
        mn = lambda x, y: leaves(x, lambda x: ite(le(x, y), x, y))
        mx = lambda x, y: leaves(x, lambda x: ite(le(y, x), x, y))
        up_lo = mn(mx(norm(opt(start, Int(0))), Int(0)), n)
        up_hi = mn(mx(norm(opt(stop, n)), Int(0)), n)
        # with a negative step the default bounds are n-1 and -n-1
        dn_hi = mn(mx(ite(is_some(start), norm(fld(start, 'Some', 0)), sub(n, Int(1))), Int(-1)), sub(n, Int(1)))
        dn_lo = ite(is_some(stop), mn(mx(norm(fld(stop, 'Some', 0)), Int(-1)), sub(n, Int(1))), Int(-1))
        rng = lambda a, b, k: leaves(a, lambda a: leaves(b, lambda b: leaves(k, lambda k: TM.rng(a, b, k))))
        each = lambda r: mk_for(r, lambda i, p: one(mk(nth(a, i), ('i', i))))
        return ite(isin(v, 'Value::Array'),
                   ite(lt(Int(0), st), each(rng(up_lo, up_hi, st)), ite(lt(st, Int(0)), each(rng(dn_hi, dn_lo, st)), EMPTY)), EMPTY)
    def filter_sel(self, v, expr, w, mk):
        if self.fallible:
            return self.trychildren(v, lambda c, el: self.bind(self.eval(expr, w, c), lambda r: self.testable(r, ite(self.truthy(r), Ok(one(mk(c, el))), Ok(EMPTY)))))
        def child(c, el):
            r = self.eval(expr, w, c)
            return self.testable(r, ite(self.truthy(r), one(mk(c, el)), EMPTY))
        return self.children(v, child)
    def sq_sel(self, v, q, w, mk):
        """singular query selector: the string or integer found at the query is a name or an index"""
        ns = self.qres(q, w['root'], w)
        x = self.nval(nth(ns, Int(0)))
        i = models.as_i64(fld(x, 'Value::Number', 0))
        r = ite(isin(x, 'Value::String'), self.name_sel(v, fld(x, 'Value::String', 0), mk),
                ite(isin(x, 'Value::Number'), ite(is_some(i), self.index_sel(v, fld(i, 'Some', 0), mk), EMPTY), EMPTY))
        return ite(ieq(length(ns), Int(1)), r, EMPTY)
    def seg_args(self):
        a = self.args('seg')
        if self.short == 'serde':
            return dict(self_=a[0], nodes=a[1], ctx=a[2], root=self.cx(a[2], 'root', 1), env=self.cx(a[2], 'env', 0), all=a)
        if self.short == 'iter':
            return dict(self_=a[2], nodes=a[3], env=a[0], root=a[1], all=a)
        return dict(self_=a[0], nodes=a[1], env=a[2], root=a[3], all=a)
    def G(self, x, v, name=None, i=0):
        return fld(x, 'Segment::' + v, field_ix(self.crate, 'Segment', v, name, i) if name else i)
    def isG(self, x, *vs): return isin(x, tuple('Segment::' + v for v in vs))
    def start(self, v):
        """the start node: a value at the empty location"""
        if self.short in ('serde', 'iter'):
            return adt(self.Nodep, 'Node', v, Str('$'))
        cl = [a['path'] for a in self.crate.adts.values() if a['path'].endswith('conslist::ConsList')][0]
        return adt(self.Nodep, 'Node', v, adt(cl, 'ConsList', NONE, Int(0)))
    def fold(self, src, init, step):
        """step(element, accumulator) over src; Result valued steps stop at the first error"""
        uid = fresh()
        b = step(raw('el', uid), raw('acc', uid))
        return (TM.mk_tryfold_open if self.fallible else TM.mk_fold_open)(src, init, uid, b)
    def call_sel(self, s, n, w):
        """nodes (Result of nodes) of one selector applied to one node"""
        if self.short == 'serde':
            return raw('call', 'sel', s, n, w['ctx'])
        if self.short == 'iter':
            return self.toseq(raw('call', 'sel', w['env'], w['root'], s, n), self.roles['sel'])
        return raw('call', 'sel', s, w['env'], self.nval(n), w['root'], self.nloc(n))
    def loop(self, src, f):
        """concatenation of f(element) in order; the first error is the result"""
        return tryfor(src, lambda e, p: f(e)) if self.fallible else mk_for(src, lambda e, p: f(e))
    def selector(self, w, mk):
        """nodes selected; mk(child value, path element) builds what is compared"""
        s, v = w['self_'], w['value']
        R = self.ret
        wild = R(self.children(v, lambda c, el: one(mk(c, el))))
        r = wild
        if self.short == 'singular':
            r = ite(self.isS(s, 'SingularQuery'), self.sq_sel(v, self.S(s, 'SingularQuery'), w, mk), r)
        r = ite(self.isS(s, 'Filter'), self.filter_sel(v, self.S(s, 'Filter'), w, mk), r)
        r = ite(self.isS(s, 'Slice'), R(self.slice_sel(v, self.S(s, 'Slice', 'start', 0), self.S(s, 'Slice', 'stop', 1), self.S(s, 'Slice', 'step', 2), mk)), r)
        r = ite(self.isS(s, 'Index'), R(self.index_sel(v, self.S(s, 'Index'), mk)), r)
        return ite(self.isS(s, 'Name'), R(self.name_sel(v, self.S(s, 'Name'), mk)), r)
    # ------------------------------------------------------- deciding
    def align(self, impl, part, **kw):
        """the subterm of the code shown equal to this part of the specification (else the part itself)"""
        seen = set()
        def go(a):
            if isinstance(a, T):
                if a in seen:
                    return None
                seen.add(a)
                if a.op == part.op and a.args[1:2] == part.args[1:2] and self.compare_terms(a, part, **kw).status == 'same':
                    return a
            for x in (a.args if isinstance(a, T) else a if isinstance(a, tuple) else ()):
                r = go(x)
                if r is not None:
                    return r
        return go(impl) or part
    def compare_terms(self, impl, spec, **kw):
        kw.setdefault('seed', int(os.environ.get('VERIF_SEED') or 1))
        return eq.compare(self.ip, impl, spec, self.types, self.roles, **kw)

# named escapes of a normalized path
ESC = {0x27: "\\'", 0x5C: '\\\\', 8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r'}
def escaped(s):
    """RFC 9535 section 2.7: the characters of a name in a normalized path"""
    def ch(c, p):
        o = raw('ord', c) if c.op != 'char' else Int(c.args[0])
        r = ite(lt(o, Int(0x20)), cat(Str('\\u00'), hexdigit(o, 16), hexdigit(o, 1)), one(c))
        for k, x in ESC.items():
            r = ite(ieq(o, Int(k)), Str(x), r)
        return r
    return mk_for(s, ch)
def hexdigit(o, w):
    """the lower case hexadecimal digit of weight w of a number below 0x20"""
    r = raw('unk', 'hex')
    out = None
    for v in range(0x20):
        d = '0123456789abcdef'[(v // w) % 16]
        out = Str(d) if out is None else ite(ieq(o, Int(v)), Str(d), out)
    return out

def run_big(fn, *a):
    """run in a thread with a deep stack"""
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    out = []
    def t():
        try:
            out.append(fn(*a))
        except BaseException as e:
            out.append(e)
    th = threading.Thread(target=t)
    th.start()
    th.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]
