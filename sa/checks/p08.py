"""P08: locations of selected nodes."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the selector table extended with locations'
NOTE = 'All selector kinds and value kinds, no bound. Together with P06 and P07 (which hand nodes on unchanged) the location of every result node is the path of its value by induction.'

def crate(o):
    from facts import Facts
    X = o.X
    def one(v):
        def run():
            w = X.sel_args()
            s = w['self_']
            cond = X.isS(s, v)
            f = Facts().assume(cond)
            impl = (X.sel_result(X.summary('sel', w['all'], f)))
            o.decide(v, 'sel', impl, X.selector(w, lambda c, el: X.child_node(w['loc'], c, el)), facts=f, assume=[cond])
        return run
    for v in ['Name', 'Index', 'Slice', 'Wild', 'Filter'] + (['SingularQuery'] if X.short == 'singular' else []):
        o.run(v, one(v))

def check(rep, tier):
    rep.rule('every node a selector creates carries the location of its parent extended by the member name or the real array index of the value it carries')
    rep.rule('the start node of a query has the empty location')
    sem.run(rep, __name__, sem.EVALS, tier)
