"""P30: the shared location list is an immutable sequence."""
import os, re, time
import base, ev, interp, loops, mir, sem
import term as TM
from term import *
from facts import Facts

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms under the abstraction "linked list -> sequence", compared with a sequence specification, and an ownership rule (no interior mutability, no unsafe code, no raw pointers in the list) for persistence'
NOTE = 'All lists and arguments, no bound. Trusted: Rc, Option and slice iterators of the standard library.'

INTERIOR = {'Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'NonNull', 'Weak'}

def crate(o):
    X = o.X
    ip, C = X.ip, X.crate
    link = lambda ti: ip.ty(ti)['k'] == 'adt' and ip.ty(ti)['path'].endswith('option::Option')
    def target(ti):
        """N of Option<Rc<N>>"""
        t = ip.ty(ti)
        if not link(ti):
            return None
        t = ip.ty([x for x in t['args'] if isinstance(x, int)][0])
        if t['k'] != 'adt' or not t['path'].endswith('rc::Rc'):
            return None
        t = ip.ty([x for x in t['args'] if isinstance(x, int)][0])
        return t if t['k'] == 'adt' else None
    lists, nodes = [], {}
    for a in C.adts.values():
        if a['kind'] not in ('struct', 'Struct') or len(a['variants']) != 1 or not a.get('local'):
            continue
        fs = a['variants'][0]['fields']
        ls = [(i, target(f['ty'])) for i, f in enumerate(fs) if target(f['ty'])]
        if len(ls) == 1 and len(fs) == 2:
            i, t = ls[0]
            if t['id'] == a['id']:
                nodes[a['id']] = (i, 1 - i)
            elif ip.ty(fs[1 - i]['ty'])['k'] == 'uint':
                lists.append((a, i, t['id']))
    lists = [x for x in lists if x[2] in nodes]
    if len(lists) != 1:
        o.undec('list', 'no single struct of a length and a link to nodes')
        return
    A, fi, nid = lists[0]
    nx, el = nodes[nid]
    LN, NN = A['path'].split('::')[-1], C.adts[nid]['path'].split('::')[-1]
    lname = A['variants'][0]['name']
    nname = C.adts[nid]['variants'][0]['name']
    o.count('types examined', 2)

    # ---------------------------------------------------------------- ownership
    def ownership():
        bad = False
        import json
        raw_ = json.load(open(os.path.join(base.dump(), base.CRATES[o.short] + '.json')))
        mod = A['path'].rsplit('::', 1)[0]
        for u in raw_.get('unsafes', []):
            p = u.get('path') or ''
            if p.startswith(mod) or ('<' + mod) in p:
                bad = True
                o.violate('ownership', f'{p} has unsafe code next to the shared list: shared nodes may be changed through it', function=p)
        seen = set()
        def ty(ti, path):
            t = ip.ty(ti)
            if t['k'] == 'ptr':
                return f'{path} is a raw pointer'
            if t['k'] == 'ref' and t.get('mut'):
                return f'{path} is a mutable reference'
            if t['k'] == 'adt':
                n = t['path'].split('::')[-1]
                if n in INTERIOR or n.startswith('Atomic'):
                    return f'{path} is a {t["path"]}: shared nodes can be changed through it'
                for x in t['args']:
                    if isinstance(x, int):
                        r = ty(x, path)
                        if r:
                            return r
                d = C.adts.get(t['id'])
                if d is not None and d.get('local') and t['id'] not in seen:
                    seen.add(t['id'])
                    for v in d['variants']:
                        for f in v['fields']:
                            r = ty(f['ty'], f'{d["path"]}.{f["name"]}')
                            if r:
                                return r
            for k in ('t', 'ts'):
                x = t.get(k)
                for y in x if isinstance(x, list) else [x]:
                    if isinstance(y, int) and not isinstance(y, bool):
                        r = ty(y, path)
                        if r:
                            return r
            return None
        for a in (A, C.adts[nid]):
            for v in a['variants']:
                for f in v['fields']:
                    o.count('fields examined')
                    r = ty(f['ty'], f'{a["path"]}.{f["name"]}')
                    if r:
                        bad = True
                        o.violate('ownership', r, function=a['path'])
        if not bad:
            o.ok('ownership', f'{A["path"]}, {C.adts[nid]["path"]}: nodes behind Rc can only be read, or taken apart by their only owner')
    o.run('ownership', ownership)

    # ---------------------------------------------------------------- tables
    def rows_list(front):
        def g(v):
            n = v.rng.choice((0, 1, 1, 2, 3, 4))
            x = ev.A('None')
            for _ in range(n):
                f = [None, None]
                f[nx], f[el] = x, v.rng.choice((0, 1, 1, 2, 3))
                x = ev.A('Some', ev.A(nname, *f))
            return x
        X.types[front] = g
    def lst(n):
        """a list with link n: the length of a list is that of its chain"""
        F = Sym(n)
        rows_list(n)
        f = [None, None]
        f[fi], f[1 - fi] = F, length(TM.chain(F, nname, nx))
        return adt(A['path'], lname, *f), TM.chain(F, nname, nx)
    elems = lambda c: mk_for(c, lambda e, p: one(fld(e, nname, el)))
    def size(src):
        while src.op == 'rev':
            src = src.args[0]
        if src.op == 'range' and src.args[2] is Int(1):
            d = add(src.args[1], TM.mulc(src.args[0], -1))
            return ite(le(d, Int(0)), Int(0), d)
        return length(src)
    def nodes_of(h):
        """the nodes from link h on"""
        if h.op == 'ite':
            return ite(h.args[0], nodes_of(h.args[1]), nodes_of(h.args[2]))
        if h.op == 'adt' and h.args[1] == 'Some':
            n = h.args[2]
            return cat(one(n), nodes_of(fld(n, nname, nx)))
        if h.op == 'fold':
            e, p, a = raw('el', TM.fresh()), None, None
            u = e.args[0]
            p, a = raw('pos', u), raw('acc', u)
            b = TM.open_(h, e, p, a)[0]
            src, init = h.args[1], h.args[2]
            if b is fld(fld(a, 'Some', 0), nname, nx):
                return TM.drop(nodes_of(init), size(src))
            if b.op == 'adt' and b.args[1] == 'Some' and b.args[2].op == 'adt':
                n = b.args[2]
                if fld(n, nname, nx) is a and not occurs(fld(n, nname, el), a):
                    return cat(mk_for(TM.rev(src), lambda x, q: one(subst(n, {e: x}, {u}))), nodes_of(init)) if not occurs(fld(n, nname, el), p) else TM.chain(h, nname, nx)
        return TM.chain(h, nname, nx)
    def alpha(t):
        """a list as (its elements, its length)"""
        if t.op == 'ite':
            return ite(t.args[0], alpha(t.args[1]), alpha(t.args[2]))
        if t.op == 'panic':
            return t
        f, l = fld(t, lname, fi), fld(t, lname, 1 - fi)
        return Tup(elems(nodes_of(f)), l)
    def method(n):
        for f in C.fns.values():
            if re.fullmatch(r'(.*::)?' + LN + r'(::<[^>]*>)?::' + n, f.path):
                return f
        return None
    def tmethod(ty, trait, n):
        for it, items in C.impl_items(trait):
            if it['k'] == 'adt' and it['path'].split('::')[-1] == ty and items.get(n):
                return items[n]
            if it['k'] == 'ref' and ip.ty(it['t'])['k'] == 'adt' and ip.ty(it['t'])['path'].split('::')[-1] == ty and items.get(n):
                return items[n]
        return None
    def unreachable(label, f, pans):
        """no list makes a panicking edge reachable (looked for among concrete lists only)"""
        for path, kind, detail, facts, cond in pans:
            o.count('panicking edges')
            if cond is None or kind.startswith('overflow-add'):
                continue
            t = cond
            for a, v in facts.trail:
                t = And(t, a if v else Not(a))
            if t.fv or t.unk:
                continue
            r = X.compare_terms(t, FALSE, strict=False)
            if r.status == 'differ':
                o.violate(label, f'{o.where(f)}: {kind} {detail} panics when {r.row.split(" :: code")[0]}', function=f.path)
    def sub(ts):
        seen, w = set(), list(ts)
        while w:
            x = w.pop()
            if isinstance(x, T):
                if x in seen:
                    continue
                seen.add(x)
                yield x
                w += x.args
            elif isinstance(x, tuple):
                w += x
    def table(name, f, args, want, view=lambda t: t, post=None):
        def run():
            if f is None:
                raise Unk('not found')
            t = X.summary_of(f, args)
            if post is not None:
                t = post(t)
            pans = list(X.last_panics)
            o.decide(name, f, view(t), want)
            unreachable(name, f, pans)
        o.run(name, run)
    def unlink(t):
        """the first node of a link as the first element of its chain"""
        m = {}
        for x in sub([t]):
            if x.op == 'sym' and x.args[0] in ('self', 'other'):
                m[x] = ite(is_empty(TM.chain(x, nname, nx)), NONE, Some(nth(TM.chain(x, nname, nx), Int(0))))
        return replace(t, m)
    def replace(t, m):
        memo = {}
        def go(t):
            if t in m:
                return m[t]
            if t.op == 'chain' or t.op in TM.BINDERS:
                return t
            if t in memo:
                return memo[t]
            r = TM.rebuild(t, [TM._map(a, go) for a in t.args]) if t.args else t
            memo[t] = r
            return r
        return go(t)
    S, c = lst('self')
    S2, c2 = lst('other')
    L = length(c)
    E = Sym('elem')
    X.types['elem'] = lambda v: v.rng.choice((0, 1, 2))
    N = Sym('n')
    X.types['n'] = lambda v: v.rng.choice((0, 1, 2, 3, 4, 5))
    seq = lambda s: Tup(elems(s), length(s))
    keep = lambda n: seq(TM.drop(c, n))
    table('new', method('new'), [], Tup(EMPTY, Int(0)), alpha)
    f = tmethod(LN, 'Default', 'default')
    if f is not None:
        table('default', f, [], Tup(EMPTY, Int(0)), alpha)
    table('append', method('append'), [S, E], Tup(cat(one(E), elems(c)), add(L, Int(1))), alpha)
    table('len', method('len'), [S], L)
    table('is_empty', method('is_empty'), [S], is_empty(c))
    table('head', method('head'), [S], ite(is_empty(c), NONE, Some(fld(nth(c, Int(0)), nname, el))), post=lambda t: unlink(t))
    table('last', method('last'), [S], ite(is_empty(c), NONE, Some(fld(nth(c, add(L, Int(-1))), nname, el))))
    shorter = lambda n: ite(le(L, n), Tup(EMPTY, Int(0)), Tup(elems(TM.drop(c, n)), sub_(L, n)))
    sub_ = lambda a, b: add(a, TM.mulc(b, -1))
    def cutlist(name, n, args):
        table(name, method(name), args, shorter(n), alpha)
    cutlist('tail', Int(1), [S])
    cutlist('tailn', N, [S, N])
    table('lastn', method('lastn'), [S, N], ite(le(L, N), seq(c), Tup(elems(TM.drop(c, sub_(L, N))), N)), alpha)
    table('clone', tmethod(LN, 'Clone', 'clone'), [S], seq(c), alpha)
    table('eq', tmethod(LN, 'PartialEq', 'eq'), [S, S2],
          And(ieq(L, length(c2)), Not(TM.exists(c, lambda e, p: And(lt(p, length(c2)), Not(TM.beq(fld(e, nname, el), fld(nth(c2, p), nname, el))))))))
    g = Sym('items')
    X.types['items'] = lambda v: tuple(v.rng.choice((0, 1, 2)) for _ in range(v.rng.choice((0, 1, 2, 3))))
    f = tmethod(LN, 'FromIterator', 'from_iter')
    if f is not None:
        table('from_iter', f, [g], Tup(TM.rev(g), length(g)), alpha)
    # iteration: the iterator holds a link and a number; next() yields its node and moves to the next link
    def iteration():
        it = method('iter')
        if it is None:
            raise Unk('not found')
        rt = ip.ty(it.locals[0])
        if rt['k'] != 'adt' or not C.adts.get(rt['id']):
            raise Unk('iterator of another crate')
        I = C.adts[rt['id']]
        In = I['variants'][0]['name']
        fs = I['variants'][0]['fields']
        h = [i for i, x in enumerate(fs) if link(x['ty'])]
        k = [i for i, x in enumerate(fs) if ip.ty(x['ty'])['k'] == 'uint']
        if len(fs) != 2 or len(h) != 1 or len(k) != 1:
            raise Unk('the iterator is not a link and a number')
        h, k = h[0], k[0]
        def mk(a, b):
            f = [None, None]
            f[h], f[k] = a, b
            return adt(I['path'], In, *f)
        def view(t):
            if t.op == 'ite':
                return ite(t.args[0], view(t.args[1]), view(t.args[2]))
            if t.op == 'panic':
                return t
            return Tup(elems(nodes_of(fld(t, In, h))), fld(t, In, k))
        o.decide('iter', it, view(X.summary_of(it, [S])), seq(c))
        f = tmethod(LN, 'IntoIterator', 'into_iter')
        if f is not None:
            o.decide('into_iter', f, view(X.summary_of(f, [S])), seq(c))
        nxt = tmethod(I['path'].split('::')[-1], 'Iterator', 'next')
        sh = tmethod(I['path'].split('::')[-1], 'Iterator', 'size_hint')
        if nxt is None:
            raise Unk('next not found')
        # one step, from an empty and from a longer chain
        st = interp.State({}, Facts())
        for lab, link_, n, item, rest in (('at the end', NONE, Int(0), NONE, Tup(EMPTY, Int(0))), ('before the end', None, None, None, None)):
            if link_ is None:
                R = Sym('rest')
                rows_list('rest')
                rc = TM.chain(R, nname, nx)
                f = [None, None]
                f[nx], f[el] = R, E
                link_ = Some(adt(C.adts[nid]['path'], nname, *f))
                n, item, rest = add(length(rc), Int(1)), Some(E), Tup(elems(rc), length(rc))
            t = X.summary_of(nxt, [mk(link_, n)])
            after = ip.deep(X.last_state, ip.load_ptr(X.last_state, X.last_args[0]))
            pans = list(X.last_panics)
            o.decide(f'next {lab}', nxt, Tup(t, view(ip.deep(X.last_state, after))), Tup(item, rest))
            unreachable(f'next {lab}', nxt, pans)
            if sh is not None:
                o.decide(f'size_hint {lab}', sh, X.summary_of(sh, [mk(link_, n)]), Tup(n, Some(n)))
    o.run('iteration', iteration)

def check(rep, tier):
    rep.rule('a node reachable through a shared link is never changed: no interior mutability, raw pointer or unsafe code in the list')
    rep.rule('new, append, head, tail, tailn, last, lastn, len, is_empty, clone, iter, next, size_hint, ==, from_iter are those of the sequence of elements; the stored length is the length of the chain')
    sem.run(rep, __name__, ('locations', 'singular'), tier)
