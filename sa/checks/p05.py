"""P05: selectors by value kind."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the selector table over value kinds'
NOTE = 'All selector kinds and value kinds, no bound on the size of arrays and objects. serde_json maps are modelled as sequences of members with unique keys in iteration order.'

def crate(o):
    from facts import Facts
    X = o.X
    def one(v):
        def run():
            w = X.sel_args()
            s = w['self_']
            cond = X.isS(s, v)
            f = Facts().assume(cond)
            impl = X.vals(X.sel_result(X.summary('sel', w['all'], f)))
            o.decide(v, 'sel', impl, X.selector(w, lambda c, el: c), facts=f, assume=[cond])
        return run
    for v in ['Name', 'Index', 'Slice', 'Wild', 'Filter']:
        o.run(v, one(v))

def check(rep, tier):
    rep.rule('Selector::resolve == the RFC selector table: name on object, wildcard and filter on array and object in order, index and slice on array, nothing else')
    sem.run(rep, __name__, sem.EVALS, tier)
