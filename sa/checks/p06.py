"""P06: descendant segments."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the recursive definition of the descendant segment'
NOTE = 'No bound: the recursion equation of the traversal is compared for every value kind; by induction on the value it fixes the visit order at every depth.'

def crate(o):
    from term import cat, one, raw, mk_for, EMPTY
    X = o.X
    def traversal():
        if X.short == 'serde':
            n, = X.args('visit')
            v, l = X.nval(n), X.nloc(n)
            sp = cat(one(n), X.children(v, lambda c, el: raw('call', 'visit', X.child_node(l, c, el))))
            o.decide('visit', 'visit', X.summary('visit', [n]), sp)
        elif X.short == 'iter':
            n, = X.args('visit')
            it = lambda role, x: X.toseq(raw('call', role, x), X.roles[role])
            o.decide('visit', 'visit', X.toseq(X.summary('visit', [n]), X.roles['visit']), cat(one(n), it('desc', n)))
            n, = X.args('desc')
            v, l = X.nval(n), X.nloc(n)
            def each(c, el):
                k = X.child_node(l, c, el)
                return cat(one(k), it('desc', k))
            o.decide('descendants', 'desc', X.toseq(X.summary('desc', [n]), X.roles['desc']), X.children(v, each))
        else:
            a = s_, env, v, sels, root, loc = X.args('visit')
            def each(c, el):
                return raw('call', 'visit', s_, env, c, sels, root, X.nloc(X.child_node(loc, c, el)))
            sp = cat(mk_for(sels, lambda s, p: raw('call', 'sel', s, env, v, root, loc)), X.children(v, each))
            o.decide('visit', 'visit', X.summary('visit', a), sp)
    def segment():
        w = X.seg_args()
        s = w['self_']
        cond = X.isG(s, 'Recursive')
        f = X.facts().assume(cond)
        impl = X.summary('seg', w['all'], f)
        sels = X.G(s, 'Recursive', 'selectors', 0)
        if X.short == 'iter':
            impl = X.toseq(impl, X.roles['seg'])
            sp = mk_for(w['nodes'], lambda n, p: mk_for(X.toseq(raw('call', 'visit', n), X.roles['visit']), lambda m, q: mk_for(sels, lambda t, r: X.call_sel(t, m, w))))
        elif X.short == 'serde':
            sp = X.loop(w['nodes'], lambda n: X.loop(raw('call', 'visit', n), lambda m: X.loop(sels, lambda t: X.call_sel(t, m, w))))
        else:
            sp = mk_for(w['nodes'], lambda n, p: raw('call', 'visit', s, w['env'], X.nval(n), sels, w['root'], X.nloc(n)))
        o.decide('descendant segment', 'seg', impl, sp, facts=f, assume=[cond])
    o.run('traversal', traversal)
    o.run('descendant segment', segment)

def check(rep, tier):
    rep.rule('visit(node) == the node, then the visits of its children in order, each child with its own location')
    rep.rule('a descendant segment applies, for every input node and every visited node in order, all selectors in written order')
    sem.run(rep, __name__, sem.EVALS, tier)
