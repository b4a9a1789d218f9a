"""P10: length, count, value and the arguments of a function call."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the definitions of RFC 9535 2.4.4, 2.4.5 and 2.4.8 and the argument conversions of 2.4.3'
NOTE = 'All arguments, no bound. Arguments that cannot reach a function (ill-typed calls, P13) and calls of functions that are not registered (P12) are left unspecified.'

def crate(o):
    from term import And, Not, Int, ite, isin, fld, length, mk_for, tryfor, one, Ok, is_some, raw, ieq, nth, le, TRUE
    from spec import ANY
    import roles, interp, models
    from facts import Facts
    X = o.X
    def method(adt):
        f = roles.trait_fn(X.crate, adt, 'FunctionExtension', 'call')
        if f is None:
            from term import Unk
            raise Unk(f'no `call` of {adt}')
        return f
    def std(name, spec):
        def run():
            f = method(name)
            args = X.symbols(f)
            impl = X.summary_of(f, args)
            a = args[1]
            o.decide(f'{name}::call', f, impl, ite(le(length(a), Int(0)), ANY, spec(nth(a, Int(0)))))
        return run
    def count(a):
        return ite(X.isF(a, 'Nodes'), X.FER('Int', length(X.F(a, 'Nodes'))), ANY)
    def value(a):
        ns = X.F(a, 'Nodes')
        return ite(X.isF(a, 'Nodes'), ite(ieq(length(ns), Int(1)), X.from_value(X.nval(nth(ns, Int(0)))), X.FER('Nothing')), ANY)
    def length_(a):
        arr, obj = X.F(a, 'Array'), X.F(a, 'Object')
        return ite(X.isF(a, 'String'), X.FER('Int', length(X.F(a, 'String'))),
               ite(X.isF(a, 'Array'), ite(isin(arr, 'Value::Array'), X.FER('Int', length(fld(arr, 'Value::Array', 0))), ANY),
               ite(X.isF(a, 'Object'), ite(isin(obj, 'Value::Object'), X.FER('Int', length(fld(obj, 'Value::Object', 0))), ANY),
               X.FER('Nothing'))))
    def call():
        w = X.ev_args()
        s = w['self_']
        cond = X.isE(s, 'Function')
        f = X.facts().assume(cond)
        impl = X.summary('eval', w['all'], f)
        name, args = X.E(s, 'Function', 'name', 0), X.E(s, 'Function', 'args', 1)
        reg = fld(w['env'], 'Environment', 0)
        found = raw('hget', reg, name)
        fn = fld(found, 'Some', 0)
        types = fld(raw('dyn', 'sig', fn), 'FunctionSignature', X.field('FunctionSignature', 'param_types', 0))
        def conv(r, p):
            t = nth(types, p)
            ns = X.F(r, 'Nodes')
            logical = X.testable(r, X.FER('Bool', X.truthy(r)))
            val = ite(X.isF(r, 'Nodes'), ite(le(length(ns), Int(0)), X.FER('Nothing'), ite(ieq(length(ns), Int(1)), X.from_value(X.nval(nth(ns, Int(0)))), ANY)), r)
            return ite(isin(t, 'ExpressionType::Logical'), logical, ite(isin(t, 'ExpressionType::Nodes'), ite(X.isF(r, 'Nodes'), r, ANY), val))
        def any_one(x, g):
            return ANY if x is ANY else g(x)
        from spec import leaves
        if X.fallible:
            seq = tryfor(args, lambda e, p: X.bind(X.eval(e, w), lambda r: leaves(conv(r, p), lambda x: any_one(x, lambda y: Ok(one(y))))))
        else:
            seq = mk_for(args, lambda e, p: leaves(conv(X.eval(e, w), p), lambda x: any_one(x, one)))
        X.roles['prefer'] = ('FilterExpressionResult::Nodes', 'ExpressionType::Value')    # of the rows tried
        seq = X.align(impl, seq, facts=f, assume=[cond])
        sp = X.bind(seq, lambda l: X.ret(raw('dyn', 'call', fn, l)))
        sp = ite(is_some(found), ite(ieq(length(args), length(types)), sp, ANY), ANY)
        o.decide('function call', 'eval', impl, sp, facts=f, assume=[cond], strict=False)
    o.run('Count::call', std('Count', count))
    o.run('Length::call', std('Length', length_))
    o.run('Value::call', std('Value', value))
    o.run('function call', call)

def check(rep, tier):
    rep.rule('count/length/value of an argument == RFC 9535 2.4.4, 2.4.5, 2.4.8')
    rep.rule('a call passes its arguments in written order, each converted for the declared type of its parameter, to the function registered under the name')
    sem.run(rep, __name__, sem.EVALS, tier)
