"""P24: singular query selectors."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the rule for singular query selectors'
NOTE = 'No bound. The parse side (implied root) is part of P16 and P17.'

def crate(o):
    from facts import Facts
    X = o.X
    def one(v):
        def run():
            w = X.sel_args()
            s = w['self_']
            cond = X.isS(s, v)
            f = Facts().assume(cond)
            impl = X.vals(X.sel_result(X.summary('sel', w['all'], f)))
            o.decide(v, 'sel', impl, X.selector(w, lambda c, el: c), facts=f, assume=[cond])
        return run
    for v in ('SingularQuery',):
        o.run(v, one(v))

def check(rep, tier):
    rep.rule('Selector::resolve(SingularQuery) == member or element named by the only value of the query resolved from the root, else nothing')
    sem.run(rep, __name__, ('singular',), tier)
