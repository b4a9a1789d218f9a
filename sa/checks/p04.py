"""P04: index and slice selectors."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the RFC normalisation and slice algorithm over linear integer arithmetic'
NOTE = 'All array lengths below 2^63, all 64 bit indices and all optional bounds, no bound on the array. Integer overflow is excluded here and decided by P20.'

def crate(o):
    from facts import Facts
    X = o.X
    def one(v):
        def run():
            w = X.sel_args()
            s = w['self_']
            cond = X.isS(s, v)
            f = Facts().assume(cond)
            impl = X.vals(X.sel_result(X.summary('sel', w['all'], f)))
            o.decide(v, 'sel', impl, X.selector(w, lambda c, el: c), facts=f, assume=[cond])
        return run
    for v in ('Index', 'Slice'):
        o.run(v, one(v))

def check(rep, tier):
    rep.rule('Selector::resolve(Index) == element i or len+i, else nothing')
    rep.rule('Selector::resolve(Slice) == the elements of the RFC 9535 2.3.4.2.2 algorithm in its order')
    sem.run(rep, __name__, sem.EVALS, tier)
