"""P09: normalized paths."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the RFC 9535 2.7 rendering of a path'
NOTE = 'All names, indices and depths, no bound: every character class of a name and every kind of step is compared.'

def crate(o):
    from term import raw, cat, Str, EMPTY
    from spec import escaped
    import term as TM
    X = o.X
    def names():
        f = X.A.get('esc')
        if f is None:
            o.undec('names', 'no escaping function (&str) -> String')
            return
        a = X.args('esc')
        o.decide('names', 'esc', X.summary('esc', a), escaped(a[0]))
    def steps():
        # locations kept as text: extended by one bracketed step (names through the escaping function)
        w = X.sel_args()
        for v in ('Name', 'Index', 'Wild'):
            cond = X.isS(w['self_'], v)
            f = X.facts().assume(cond)
            impl = X.sel_result(X.summary('sel', w['all'], f))
            o.decide('steps of ' + v, 'sel', impl, X.selector(w, lambda c, el: X.child_node(w['loc'], c, el)), facts=f, assume=[cond])
    def listed():
        # locations kept as a list of steps, newest first: written when the path is asked for
        a = X.args('path')
        impl = X.summary('path', a)
        loc = X.steps(X.nloc(a[0]))
        step = lambda e: X.step_text(e)
        want = cat(Str('$'), TM.mk_for(TM.rev(loc), lambda e, p: step(e)))
        alt = cat(Str('$'), TM.rev(TM.mk_for(loc, lambda e, p: TM.rev(step(e)))))
        o.decide('normalized path', 'path', impl, want)
    o.run('names', names)
    if X.short in ('serde', 'iter'):
        o.run('steps', steps)
    else:
        o.run('normalized path', listed)

def check(rep, tier):
    rep.rule('a name is written with exactly the RFC 2.7 escapes')
    rep.rule('a location is written as one bracketed step per level, outermost first, with decimal indices and quoted names')
    sem.run(rep, __name__, sem.EVALS, tier)
