"""P26: the two evaluators of the serde crate and all entry points agree."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms; the terms of both evaluators are compared case by case, and each entry point is compared with parse-then-find'
NOTE = 'No bound. The comparison is by coinduction on the query and the document: corresponding calls of the two evaluators count as equal, which each step is shown to preserve.'

def crate(o):
    from term import raw, fld
    import spec, wrappers
    X = o.X
    if X.short == 'serde':
        for a, b in (('sel_loop', 'sel'), ('seg_loop', 'seg')):
            X.same_function(a, b)
        def kinds(enum):
            return [v['name'] for a in X.crate.adts.values() if a['path'].split('::')[-1] == enum and 'conslist' not in a['path'] for v in a['variants']]
        def step(role, v, test):
            def run():
                a = X.args(role)
                cond = test(a[0], v)
                f = X.facts().assume(cond)
                o.decide(f'{"selector" if role == "sel" else "segment"} {v}', role + '_loop', X.summary(role + '_loop', a, f), X.summary(role, a, f), facts=f, assume=[cond])
            return run
        for v in kinds('Selector'):
            o.run('selector ' + v, step('sel', v, X.isS))
        for v in kinds('Segment'):
            o.run('segment ' + v, step('seg', v, X.isG))
        def query():
            q, v, env = a = X.args('find')
            f = X.summary('qres', [q, v, X.context(env, v)])
            o.decide('query', 'find_loop', X.summary('find_loop', a), f)
            o.decide('find', 'find', X.summary('find', a), raw('call', 'qres', q, v, X.context(env, v)))
        o.run('query', query)
    wrappers.wrappers(o, True)

def check(rep, tier):
    rep.rule('resolve_loop == resolve, for every selector kind and every segment kind')
    rep.rule('find_loop == find; every entry point == Query::standard, then find on the parsed query')
    sem.run(rep, __name__, sem.EVALS, tier)
