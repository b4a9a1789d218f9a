"""P11: match() and search()."""
import itertools
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms with the pattern cache as an abstract map; the invariant of its entries is taken from every insertion, and the result is compared case by case with RFC 9535 2.4.6 and 2.4.7'
NOTE = 'All arguments and all earlier calls, no bound. Trusted: iregexp::check decides I-Regexp, the regex crate implements its documented syntax (flag R, anchors), LruCache is a map that may forget entries.'

def crate(o):
    import roles, registry, rx, ev
    import term as TM
    from term import T, And, Or, Int, ite, fld, le, nth, raw, is_ok, Unk, show, TRUE, Not
    from spec import ANY
    X = o.X
    caches = {}     # cache -> (meaning, where)
    def run_of(name, kind):
        def run():
            ty = registry.implementation(X, name)
            f = roles.trait_fn(X.crate, ty, 'FunctionExtension', 'call') if ty else None
            if f is None:
                raise Unk(f'no implementation of {name}')
            args = X.symbols(f)
            n0 = len(X.ip.lru)
            impl = X.summary_of(f, args)
            ops = X.ip.lru[n0:]
            a = args[1]
            S, P = X.F(nth(a, Int(0)), 'String'), X.F(nth(a, Int(1)), 'String')
            r = rx.rx(P, kind)
            strs = And(X.isF(nth(a, Int(0)), 'String'), X.isF(nth(a, Int(1)), 'String'))
            truth = And(raw('iregexp', P), And(is_ok(r), raw('ismatch', fld(r, 'Ok', 0), S)))
            sp = ite(le(length_(a), Int(1)), ANY, ite(strs, X.FER('Bool', truth), X.FER('Bool', TM.FALSE)))
            impl = rx.canonical(impl)
            impl = cache(f, impl, ops, S, P, kind)
            if impl is not None:
                o.decide(name, f, impl, sp)
        return run
    def length_(a):
        return TM.length(a)
    def only(t, k):
        """t mentions nothing but k"""
        h = raw('sym', '#k')
        u = rx.replace(t, lambda x: h if x is k else None)
        bad = []
        rx.replace(u, lambda x: bad.append(x) if x.op == 'sym' and x is not h else None)
        return not bad
    def cache(f, impl, ops, S, P, kind):
        """the invariant of the cache entries, applied to the lookups"""
        pushes = [x for x in ops if x[0] == 'push']
        keys = {x[2] for x in ops if x[0] == 'get'}
        where = o.where(f)
        o.count('cache lookups', len(ops) - len(pushes))
        o.count('cache insertions', len(pushes))
        if not pushes:
            if keys:
                o.ok(f'{f.path}: cache', 'nothing is ever inserted')
            return rx.replace(impl, lambda x: TM.FALSE if x.op == 'lruhit' else None) if keys else impl
        vals = {rx.canonical(x[3]) for x in pushes}
        roots = {x[1] for x in ops}
        if len(roots) != 1 or len(vals) != 1:
            raise Unk('cache with several kinds of entries')
        root, val = roots.pop(), vals.pop()
        prev = caches.get(show(root)) if 'static' in show(root) else None
        caches[show(root)] = (kind, where)
        if prev is not None and prev[0] != kind:
            o.violate('cache', f'{where} and {prev[1]} share one cache of compiled patterns but compile them differently', function=where)
            return None
        allk = keys | {x[2] for x in pushes}
        if len(allk) == 1 and injective(next(iter(allk)), P):
            k = next(iter(allk))
            conds = []
            for x in pushes:
                c = TRUE
                for atom, v in x[4].trail:
                    atom = rx.canonical(atom)
                    if only(atom, P):
                        c = And(c, atom if v else Not(atom))
                conds.append(c)
            inv = conds[0]
            for c in conds[1:]:
                inv = Or(inv, c)
            o.ok(f'{f.path}: cache', f'every entry is the pattern compiled from its key; {len(pushes)} insertion, {len(keys)} lookup')
            def g(x):
                if x.op == 'cached' and x.args[1] is k:
                    return val
                if x.op == 'lruhit' and x.args[1] is k:
                    return And(x, inv)
                return None
            return rx.replace(impl, g)
        # can a lookup find the entry of another pattern?
        pool = ['a', 'b', 'A', 'ab', 'aB', 'a ', ' a', 'a|b', 'b|a', '(a)', 'a.', '.a', 'a*', 'abc', 'abcdefghijklmnopqrstuvwxyz0123456789a', 'abcdefghijklmnopqrstuvwxyz0123456789b', 'abab', 'ä', 'a\n']
        pool += ['x' * 70 + 'a', 'x' * 70 + 'b', 'x' * 300 + 'a', 'x' * 300 + 'b', 'ba', 'cba']
        def value(t, s, p):
            v = ev.Val(X.ip, X.types, 1, ev.constants([t]), X.roles)
            h, g = raw('sym', '#s'), raw('sym', '#p')
            t = rx.replace(t, lambda x: h if x is S else g if x is P else None)
            v.syms['#s'], v.syms['#p'] = tuple(s), tuple(p)
            return v.freeze(v.ev(t))
        for x in pushes:
            for k in keys:
                put = {}
                for p in pool:
                    for s in ['a', 'A', 'zz', 'a|b', p]:
                        put.setdefault(value(x[2], s, p), set()).add((s, p))
                for p in pool:
                    for s in ['a', 'A', 'zz', 'a|b', p]:
                        for s2, p2 in put.get(value(k, s, p), ()):
                            if p2 != p:
                                o.violate('cache', f'{where}: after a call with ({s2!r}, {p2!r}) a call with ({s!r}, {p!r}) finds the pattern compiled for {p2!r} in the cache', function=where)
                                return None
        raise Unk('keys of the cache: ' + show(k)[:100])
    def injective(k, p):
        f = rx.frame(k)
        return k is p or (f is not None and f[1] is p)
    o.run('match', run_of('match', 'full'))
    o.run('search', run_of('search', 'sub'))

def check(rep, tier):
    rep.rule('match(s, p) == p is an I-Regexp and (whole s matches p); search(s, p) == p is an I-Regexp and some substring of s matches p; false for other arguments')
    rep.rule('an entry of the pattern cache is always the pattern compiled from its own key, so a hit gives what a miss gives')
    sem.run(rep, __name__, sem.EVALS, tier)
