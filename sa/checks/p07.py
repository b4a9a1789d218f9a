"""P07: composition of queries."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the composition rule of queries, segments and selectors'
NOTE = 'No bound on segments, selectors and nodes. A fold over the segments is compared by its start value and its step.'

def crate(o):
    from term import cat, one, raw, mk_for, EMPTY, Str, ite, adt, NONE, Int, Ok, fld, is_ok
    X = o.X
    def segment(v):
        def run():
            w = X.seg_args()
            s = w['self_']
            cond = X.isG(s, v)
            f = X.facts().assume(cond)
            impl = X.summary('seg', w['all'], f)
            if X.short == 'iter':
                impl = X.toseq(impl, X.roles['seg'])
            if v == 'Eoi':
                sp = X.ret(w['nodes'])
            else:
                sels = X.G(s, 'Child', 'selectors', 0)
                sp = X.loop(w['nodes'], lambda n: X.loop(sels, lambda t: X.call_sel(t, n, w)))
            o.decide('segment ' + v, 'seg', impl, sp, facts=f, assume=[cond])
        return run
    def query():
        import term as TM
        segs = lambda q: fld(q, 'Query', 0)
        if X.short == 'serde':
            a = q, v, ctx = X.args('qres')
            impl = X.summary('qres', a)
            sp = X.fold(segs(q), one(X.start(v)), lambda e, acc: raw('call', 'seg', e, acc, ctx))
        elif X.short == 'iter':
            a = env, root, cur, q = X.args('qres')
            impl = X.toseq(X.summary('qres', a), X.roles['qres'])
            def step(e, acc):
                return ite(X.isG(e, 'Eoi'), acc, X.toseq(raw('call', 'seg', env, root, e, acc), X.roles['seg']))
            sp = X.fold(segs(q), one(X.start(cur)), step)
        else:
            a = q, v, env, root = X.args('qres')
            impl = X.summary('qres', a)
            sp = X.fold(segs(q), one(X.start(v)), lambda e, acc: raw('call', 'seg', e, acc, env, root))
        o.decide('query', 'qres', impl, sp)
    def find():
        a = X.args('find')
        impl = X.summary('find', a)
        if X.short == 'serde':
            q, v, env = a
            sp = raw('call', 'qres', q, v, X.context(env, v))
        elif X.short == 'iter':
            env, root, q = a
            impl = X.toseq(impl, X.roles['find'])
            sp = X.toseq(raw('call', 'qres', env, root, root, q), X.roles['qres'])
        else:
            q, v, env = a
            sp = raw('call', 'qres', q, v, env, v)
        o.decide('find', 'find', impl, sp)
    for v in ('Child',) + (('Eoi',) if X.short != 'iter' else ()):
        o.run('segment ' + v, segment(v))
    o.run('query', query)
    o.run('find', find)
    import wrappers
    wrappers.wrappers(o)

def check(rep, tier):
    rep.rule('a child segment is, node by node, every selector in written order')
    rep.rule('a query is its segments applied in order to the whole previous node list, starting with the start node')
    rep.rule('find starts with the root as start node and as root; every entry point is parse, then find')
    sem.run(rep, __name__, sem.EVALS, tier)
