"""P20: evaluation never panics."""
import sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms; every panicking edge (failed unwrap, index, assertion, overflow, unreachable arm) becomes a path condition that must be unsatisfiable for well-typed queries'
NOTE = ('All documents and all well-typed queries, no bound; that accepted queries are well-typed, within the I-JSON range and use registered functions is P12 to P14. '
        'Integer overflow counts as a panic as in a debug build. Trusted: the library functions panic only as documented; a lock is not poisoned while nothing panics.')
MAXI = 2 ** 53 - 1

def crate(o):
    import roles, registry, loops, interp
    import term as TM
    from term import T, And, Not, Or, Int, fld, length, nth, isin, is_some, is_ok, le, ieq, raw, TRUE, FALSE, Unk, Str, show, subst, Sym
    from facts import Facts
    X = o.X
    def walk(ts):
        seen, st = set(), list(ts)
        while st:
            a = st.pop()
            if isinstance(a, T):
                if a in seen:
                    continue
                seen.add(a)
                yield a
                st += a.args
            elif isinstance(a, tuple):
                st += a
    names = {v['name'] for a in X.crate.adts.values() if a['path'].split('::')[-1] == 'FilterExpression' for v in a['variants']}
    def value_inv(t):
        """what holds for every filter result"""
        return [Or(Not(X.isF(t, 'Array')), isin(X.F(t, 'Array'), 'Value::Array')), Or(Not(X.isF(t, 'Object')), isin(X.F(t, 'Object'), 'Value::Object'))]
    clen = None
    for a in X.crate.adts.values():
        if a['path'].split('::')[-1] == 'ConsList':
            c = [i for i, fd in enumerate(a['variants'][0]['fields']) if (X.ip.ty(fd['ty']).get('n') if fd['ty'] is not None else None) == 'usize']
            clen = c[0] if len(c) == 1 else None
    def pre(terms, role):
        """what is known of the values in a condition because the query is well-typed"""
        out = []
        for t in walk(terms):
            if t.op == 'call' and t.args[0] == 'eval':
                e = t.args[1]
                r = fld(t, 'Ok', 0) if X.fallible else t
                out += value_inv(r)
                if e.op == 'fld' and e.args[1] == 'FilterExpression::Comparison':
                    # operands are literals, singular queries or functions of value type
                    out.append(Or(Not(X.isF(r, 'Nodes')), le(length(X.F(r, 'Nodes')), Int(1))))
            if t.op == 'el' and t in loops.SOURCES:
                src = loops.SOURCES[t]
                if src.op == 'enum':
                    out.append(ieq(fld(t, None, 0), raw('pos', t.args[0])))
                out += [le(Int(0), raw('pos', t.args[0])), TM.lt(raw('pos', t.args[0]), length(src))]
            if t.op == 'fld' and t.args[1] == 'ConsList':
                # a length is the number of cells in memory (P30)
                out += [le(t, Int(2 ** 62))] if TM.bounds(t) is not None or t.args[2] == clen else []
            if t.op == 'hget':
                out.append(is_some(t))
            if t.op == 'dyn' and t.args[0] == 'sig' and role == 'eval':
                s = Sym('eval0') if X.args('eval')[0] is None else X.ev_args()['self_']
                ps = fld(t, 'FunctionSignature', X.field('FunctionSignature', 'param_types', 0))
                n = t.args[1]
                # the function of this call: found under its name
                if n.op == 'fld' and n.args[0].op == 'hget' and n.args[0].args[1] is X.E(s, 'Function', 'name', 0):
                    out.append(ieq(length(X.E(s, 'Function', 'args', 1)), length(ps)))
            if t.op == 'fld' and t.args[1] in ('Selector::Index', 'Selector::Slice'):
                ty = t
                if t.args[1] == 'Selector::Index':
                    out += [le(Int(-MAXI), t), le(t, Int(MAXI))]
            if t.op == 'fld' and t.args[1] == 'Some' and t.args[0].op == 'fld' and t.args[0].args[1] == 'Selector::Slice':
                out += [le(Int(-MAXI), t), le(t, Int(MAXI))]
        return out
    def first(t):
        """the condition at the first elements of the sequences it runs over: (condition, assumptions)"""
        asm = []
        for _ in range(6):
            b = [x for x in walk([t]) if x.op in ('el', 'pos') and x in loops.SOURCES]
            if not b:
                break
            m = {}
            for x in b:
                src = loops.SOURCES[x]
                asm.append(le(Int(1), length(src)))
                m[x] = Int(0) if x.op == 'pos' else nth(src, Int(0))
            t = subst(t, m, {x.args[0] for x in b})
        out = []
        for a in asm:
            for _ in range(6):
                b = [x for x in walk([a]) if x.op in ('el', 'pos') and x in loops.SOURCES]
                if not b:
                    break
                a = subst(a, {x: Int(0) if x.op == 'pos' else nth(loops.SOURCES[x], Int(0)) for x in b}, {x.args[0] for x in b})
            out.append(a)
        return t, out
    def expand(t):
        """elements of a sequence that was made one by one from another, in terms of the elements of that"""
        for _ in range(4):
            m = {}
            for x in walk([t]):
                src = loops.SOURCES.get(x) if x.op == 'el' else None
                if src is not None and src.op == 'for':
                    p = raw('pos', x.args[0])
                    e = raw('el', TM.fresh())
                    loops.SOURCES[e] = src.args[1]
                    b = TM.open_(src, e, p)[0]
                    if b.op == 'one':
                        m[x] = subst(b.args[0], {e: nth(src.args[1], p)}, {e.args[0]})
            if not m:
                break
            t = subst(t, m, {x.args[0] for x in m})
        return t
    def judge(label, f, panics, assume=(), role=None):
        n = 0
        where = o.where(f)
        for k, (path, kind, detail, facts, cond) in enumerate(panics):
            o.count('panicking edges')
            what = f'{path}: {kind} {detail}'.strip()
            key = f'{label}: {what} #{sum(1 for q in panics[:k] if q[:3] == panics[k][:3])}'
            if cond is None:
                o.undec(key, 'condition not known')
                continue
            g = facts.assume(cond)
            if g.dead:
                o.ok(key, 'unreachable')
                continue
            t = TRUE
            for a, v in facts.trail:
                t = And(t, a if v else Not(a))
            t = expand(And(t, cond))
            asm = list(assume) + pre([t] + list(assume), role)
            g = Facts()
            for c in asm:
                g = g.assume(c)
            for a, v in facts.trail:
                g = g.assume(a, v)
            g = g.assume(cond)
            if g.dead or g.simp(t) is FALSE:
                o.ok(key, 'unreachable for well-typed queries')
                continue
            t1, more = first(t)
            if t1.unk:
                o.undec(key, 'condition not known')
                continue
            asm = asm + more
            asm += [x for x in pre([t1], role) if x not in asm]
            atoms = [a for a in asm if a.op != 'ite']
            c = TRUE
            for a in asm:
                if a.op == 'ite':
                    c = And(c, a)
            r = X.compare_terms(And(c, t1), FALSE, assume=atoms, strict=False)
            if r.status == 'same':
                if t1 is t:
                    o.ok(key, f'{r.cases} cases, all unreachable')
                else:
                    o.undec(key, 'unreachable for the first element')
            elif r.status == 'differ':
                o.violate(f'{label}: {what}', f'{where}: {what} panics when {r.row.split(" :: code")[0]}', function=where)
            else:
                o.undec(key, f'{r.row} {r.diff}'[:400])
            n += 1
        if not panics:
            o.ok(label, f'{where}: no panicking edge')
        o.count('functions summarised')
    def role(r):
        def run():
            args = X.args(r)
            X.summary(r, args)
            pans = list(X.last_panics)
            asm = []
            f = X.fn(r)
            for i, s in enumerate(args):
                ty = roles.plain_type(roles.ts(X.crate, f.locals[X.A.perm[r][i] + 1]))
                if ty == 'Segment':
                    # the end marker is skipped by the caller (P07)
                    asm.append(isin(s, ('Segment::Child', 'Segment::Recursive')))
            judge(f'{f.path}', r, pans, asm, r)
        return run
    def ext(name, params):
        def run():
            ty = registry.implementation(X, name)
            f = roles.trait_fn(X.crate, ty, 'FunctionExtension', 'call') if ty else None
            if f is None:
                raise Unk(f'no implementation of {name}')
            args = X.symbols(f)
            X.summary_of(f, args)
            a = args[1]
            asm = [ieq(length(a), Int(len(params)))]
            for i, p in enumerate(params):
                x = nth(a, Int(i))
                asm += value_inv(x)
                asm.append(X.isF(x, 'Nodes') if p == 'Nodes' else Not(X.isF(x, 'Nodes')))
            judge(f'{name}()', f, X.last_panics, asm)
        return run
    done = set()
    for r in roles.TABLE[o.short]:
        f = X.A.get(r)
        if f is None or r == 'standard' or r in ('jfind', 'efind', 'jfind_loop', 'efind_loop'):
            continue
        done.add(f.id)
        o.run(f.path, role(r))
    for name, (params, ret) in registry.SIGNATURES.items():
        o.run(name, ext(name, params))
    for f in X.crate.fns.values():
        tr = f.d.get('trait') or ''
        if f.id in done or not roles.plain(f) or '{closure' in f.path:
            continue
        if 'conslist' in f.path:
            continue
        if tr.endswith('Iterator') or roles.norm(f.path).endswith(('Node::path', 'is_singular', 'is_empty')) or tr.endswith('Display') and 'Node' in f.path:
            def run(f=f):
                a = X.symbols(f)
                if tr.endswith('Display'):
                    X.written(f, a)
                elif roles.norm(f.path).endswith('::next') and f.cfg.loops:
                    # each way through `next` to its end or back to the head of its loop
                    st = interp.State({}, Facts())
                    cell = X.ip.new_cell(st, a[0])
                    n0 = len(X.ip.panics)
                    X.ip.steps = 0
                    loops.gen_tree(X.ip, f, X.ip.ptr(cell), st)
                    X.last_panics = X.ip.panics[n0:]
                else:
                    X.summary_of(f, a)
                judge(f.path, f, X.last_panics)
            o.run(f.path, run)

def check(rep, tier):
    rep.rule('the path condition of every panicking edge in evaluation is unsatisfiable for well-typed queries')
    sem.run(rep, __name__, sem.EVALS, tier)
