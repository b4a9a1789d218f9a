"""P02: logical operators and tests in filters."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the RFC truth tables'
NOTE = 'All operand results and operators, no bound. A filter expression whose right operand is in error while the left one decides may be evaluated either way.'

def crate(o):
    from term import And, Not, TRUE, FALSE, Int, ite, isin, fld, is_ok, Or
    from spec import ANY
    from facts import Facts
    X = o.X
    def neg():
        w = X.ev_args()
        s = w['self_']
        cond = X.isE(s, 'Not')
        f = Facts().assume(cond)
        impl = X.summary('eval', w['all'], f)
        r = X.eval(X.E(s, 'Not', 'expression', 0), w)
        o.decide('!', 'eval', impl, X.bind(r, lambda r: X.testable(r, X.ret(X.FER('Bool', Not(X.truthy(r)))))), facts=f, assume=[cond])
    def logical():
        w = X.ev_args()
        s = w['self_']
        cond = X.isE(s, 'Logical')
        f = Facts().assume(cond)
        impl = X.summary('eval', w['all'], f)
        l = X.eval(X.E(s, 'Logical', 'left', 0), w)
        r = X.eval(X.E(s, 'Logical', 'right', 2), w)
        op = X.E(s, 'Logical', 'operator', 1)
        land = isin(op, 'LogicalOperator::And')
        B = lambda b: X.ret(X.FER('Bool', b))
        def right(tl, r):
            return X.testable(r, B(ite(land, And(tl, X.truthy(r)), Or(tl, X.truthy(r)))))
        def left(l):
            tl = X.truthy(l)
            if X.fallible:
                # when the left operand decides, an error of the right one may or may not surface
                decided = ite(land, Not(tl), tl)
                return X.testable(l, ite(is_ok(r), right(tl, fld(r, 'Ok', 0)), ite(decided, ANY, X.err_of(r))))
            return X.testable(l, right(tl, r))
        o.decide('&& and ||', 'eval', impl, X.bind(l, left), facts=f, assume=[cond])
    def test():
        w = X.sel_args()
        s = w['self_']
        cond = X.isS(s, 'Filter')
        f = Facts().assume(cond)
        impl = X.vals(X.sel_result(X.summary('sel', w['all'], f)))
        sp = X.filter_sel(w['value'], X.S(s, 'Filter', 'expression', 0), w, lambda c, el: c)
        o.decide('filter test', 'sel', impl, sp, facts=f, assume=[cond])
    o.run('!', neg)
    o.run('&& and ||', logical)
    o.run('filter test', test)

def check(rep, tier):
    rep.rule('evaluate(Not/Logical) == the truth table over the truth of the operands, where a logical value is itself and a query is true iff it has nodes')
    rep.rule('a filter selects exactly the children for which its expression is true, in order')
    sem.run(rep, __name__, sem.EVALS, tier)
