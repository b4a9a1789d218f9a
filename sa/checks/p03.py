"""P03: roots and current nodes."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the evaluation rule of embedded queries'
NOTE = 'No bound. Embedded queries, filter children, function arguments and operands are covered at one level; nesting follows by induction over the recursion, whose calls are compared with all their arguments.'

def crate(o):
    from term import Not, raw, fld
    from facts import Facts
    X = o.X
    def embedded(v, start):
        def run():
            w = X.ev_args()
            s = w['self_']
            cond = X.isE(s, v)
            f = Facts().assume(cond)
            impl = X.summary('eval', w['all'], f)
            r = X.qres(X.E(s, v, 'query', 0), w[start], w)
            o.decide(v, 'eval', impl, X.bind(r, lambda n: X.ret(X.FER('Nodes', n))), facts=f, assume=[cond])
        return run
    o.run('RelativeQuery', embedded('RelativeQuery', 'current'))
    o.run('RootQuery', embedded('RootQuery', 'root'))
    def children():
        w = X.sel_args()
        s = w['self_']
        cond = X.isS(s, 'Filter')
        f = Facts().assume(cond)
        impl = X.vals(X.sel_result(X.summary('sel', w['all'], f)))
        o.decide('filter children', 'sel', impl, X.filter_sel(w['value'], X.S(s, 'Filter', 'expression', 0), w, lambda c, el: c), facts=f, assume=[cond])
    o.run('filter children', children)
    def nested():
        # every recursive evaluation below evaluate() keeps root and current
        w = X.ev_args()
        impl = X.summary('eval', w['all'])
        import term as TM
        bad, n = [], 0
        for t in X.calls(impl, 'eval'):
            n += 1
            if t is not X.eval(t.args[1], w):
                bad.append(TM.show(t)[:200])
        o.count('nested evaluations inside evaluate()', n)
        if bad:
            o.violate('nested evaluation', f'{o.where("eval")} evaluates an operand with another root or current value: {bad[0]}')
        elif n < 4:
            o.undec('nested evaluation', f'only {n} nested evaluations found')
        else:
            o.ok('nested evaluation', f'{n} call terms')
    o.run('nested evaluation', nested)
    def segs():
        # segments hand the same root to every selector
        w = X.seg_args()
        impl = X.summary('seg', w['all'])
        if X.short == 'iter':
            impl = X.toseq(impl, X.roles['seg'])
        import term as TM
        n = 0
        for role in ('sel', 'visit'):
            if role == 'visit' and X.short in ('serde', 'iter'):
                continue
            i = {'serde': 3, 'iter': 2, 'locations': 4, 'singular': 4}[X.short] if role == 'sel' else 5
            for t in X.calls(impl, role):
                n += 1
                want = w['ctx'] if X.short == 'serde' else w['root']
                if t.args[i] is not want:
                    o.violate('segment root', f'{o.where("seg")} resolves a selector with another root: {TM.show(t)[:200]}')
                    return
        o.count('selector calls inside segments', n)
        o.ok('segment root', f'{n} call terms') if n else o.undec('segment root', 'no selector call found')
    o.run('segment root', segs)

def check(rep, tier):
    rep.rule('evaluate(@query) resolves the query from the current value, evaluate($query) from the root argument, both keep the root')
    rep.rule('operands, negated expressions, function arguments and filter children are evaluated with the same root; only a filter changes the current value, to the tested child')
    sem.run(rep, __name__, sem.EVALS, tier)
