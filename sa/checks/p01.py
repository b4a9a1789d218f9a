"""P01: the comparison table."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the RFC comparison table'
NOTE = 'All operand kinds, operators and values (no bound): every case of the partition of evaluate(Comparison) and of deep equality is compared. Assumes an operand that is a query yields at most one node (P13) and models serde_json::Number by as_i64/as_f64.'

def crate(o):
    from term import And, Not, TRUE, Int, ite, isin, le, length
    from spec import ANY
    from facts import Facts
    X = o.X
    def table():
        w = X.ev_args()
        s = w['self_']
        cond = X.isE(s, 'Comparison')
        f = Facts().assume(cond)
        impl = X.summary('eval', w['all'], f)
        L, R = X.eval(X.E(s, 'Comparison', 'left', 0), w), X.eval(X.E(s, 'Comparison', 'right', 2), w)
        op = X.E(s, 'Comparison', 'operator', 1)
        small = lambda x: ite(X.isF(x, 'Nodes'), le(length(X.F(x, 'Nodes')), Int(1)), TRUE)
        body = lambda l, r: ite(And(small(l), small(r)), X.ret(X.FER('Bool', X.compare(op, X.comparable(l), X.comparable(r)))), ANY)
        o.decide('comparison', 'eval', impl, X.bind(L, lambda l: X.bind(R, lambda r: body(l, r))), facts=f, assume=[cond], strict=False)
    def deep():
        if X.A.get('jeq') is None:
            o.undec('deep equality', 'no function (&Value, &Value) -> bool')
            return
        a = X.args('jeq')
        o.decide('deep equality', 'jeq', X.summary('jeq', a), X.json_equal(*a))
    o.run('comparison', table)
    o.run('deep equality', deep)

def check(rep, tier):
    rep.rule('evaluate(Comparison) == the comparison table of RFC 9535 2.3.5.2.2 over the values of its operands, for each evaluator crate')
    rep.rule('deep equality of JSON values: same kind, numbers by value, arrays elementwise, objects by member')
    sem.run(rep, __name__, sem.EVALS, tier)
