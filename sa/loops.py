"""Loop summaries: a loop over a sequence (or an integer induction variable) becomes a comprehension, a fold, a
search for the first element with a property, or a fold with early exit.  No iteration is ever executed for
symbolic sources; the update functions of the loop body are computed once and turned into one term."""
import interp
from interp import Leaf, State, leaves, map_leaves, tree_term, get_path
from term import *
from facts import Facts, atoms_of
import term as TM

# ------------------------------------------------------------------ liveness of locals
def _uses(fn):
    """per block: (use before def, def) of locals"""
    def places(o, out):
        if isinstance(o, (list, tuple)):
            if o and o[0] in ('cp', 'mv'):
                place(o[1], out)
            elif o and o[0] == 'k':
                pass
            else:
                for x in o:
                    places(x, out)
    def place(p, out):
        out.add(p[0])
        for pr in p[1]:
            if isinstance(pr, (list, tuple)) and pr[0] == 'i':
                out.add(pr[1])
    res = []
    for b in fn.blocks:
        use, dfn = set(), set()
        def u(s):
            use.update(x for x in s if x not in dfn)
        for s in b['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            got = set()
            if rv[0] in ('ref',):
                place(rv[2], got)
            elif rv[0] == 'rawptr':
                place(rv[2] if len(rv) > 2 else rv[1], got)
            elif rv[0] == 'discr':
                place(rv[1], got)
            else:
                places(rv[1:], got)
            if s[1][1]:
                place(s[1], got)
            u(got)
            if not s[1][1]:
                dfn.add(s[1][0])
        t = b['t']
        got = set()
        if t[0] == 'call':
            places(t[1], got)
            places(t[2], got)
            if t[3][1]:
                place(t[3], got)
            u(got)
            if not t[3][1]:
                dfn.add(t[3][0])
        elif t[0] == 'switch':
            places(t[1], got)
            u(got)
        elif t[0] == 'assert':
            places(t[1], got)
            u(got)
        elif t[0] == 'ret':
            u({0})
        res.append((use, dfn))
    return res

def live_in(fn, b):
    lv = getattr(fn, '_live', None)
    if lv is None:
        ud = _uses(fn)
        cfg = fn.cfg
        lv = {x: set() for x in range(len(fn.blocks))}
        order = [x for x in reversed(cfg.rpo)]
        ch = True
        while ch:
            ch = False
            for x in order:
                out = set()
                for s in cfg.succ[x]:
                    out |= lv[s]
                n = ud[x][0] | (out - ud[x][1])
                if n != lv[x]:
                    lv[x] = n
                    ch = True
        fn._live = lv
    return lv[b]

def ptr_cells(ip, st, v, out):
    if not ip._contains_ptr(v):
        return
    if v.op == 'ptr':
        c = v.args[0]
        if c not in out:
            out.add(c)
            x = st.mem.get(c)
            if x is not None:
                ptr_cells(ip, st, x, out)
        return
    for a in v.args:
        if isinstance(a, T):
            ptr_cells(ip, st, a, out)
        elif isinstance(a, tuple):
            for y in a:
                if isinstance(y, T):
                    ptr_cells(ip, st, y, out)

def live_cells(ip, fn, fr, b, st):
    """cells whose value may be read after block b starts"""
    ls = live_in(fn, b)
    out = set()
    for (f, i), v in list(st.mem.items()):
        if f == fr:
            if i in ls:
                out.add((f, i))
                ptr_cells(ip, st, v, out)
        else:
            out.add((f, i))
    return out

def livef(ip, fn, fr):
    def f(l):
        if l[1] != 'at':
            return None
        return live_cells(ip, fn, fr, l[2], l[3])
    return f

# ------------------------------------------------------------------ what an iteration changes
def struct_diff(b, a, path, out):
    if a is b:
        return
    if a.op == b.op and len(a.args) == len(b.args):
        if a.op == 'adt' and a.args[1] == b.args[1] and len(a.args) > 2:
            for i, (x, y) in enumerate(zip(b.args[2:], a.args[2:])):
                struct_diff(x, y, path + ((a.args[1], i),), out)
            return
        if a.op == 'tuple' and a.args:
            for i, (x, y) in enumerate(zip(b.args, a.args)):
                struct_diff(x, y, path + ((None, i),), out)
            return
        if a.op == 'closure' and a.args[0] == b.args[0]:
            for i, (x, y) in enumerate(zip(b.args[1:], a.args[1:])):
                struct_diff(x, y, path + ((None, i),), out)
            return
    out.append(path)

def put(ip, st, key, v):
    cell, path = key
    st.mem[cell] = ip.set_path(st.mem.get(cell), path, v) if path else v
def get(st, key):
    return get_path(st.mem[key[0]], key[1])
def simp(f, v):
    return f.simp(v)

class Quiet:
    """panics met while the loop is only being explored do not count"""
    def __init__(self, ip): self.ip = ip
    def __enter__(self): self.n = len(self.ip.panics)
    def __exit__(self, *a): del self.ip.panics[self.n:]

def minimal(keys):
    out = set()
    for c, p in keys:
        if not any((c, p[:i]) in keys for i in range(len(p))):
            out.add((c, p))
    return out

def changed_cells(ip, st0, body, iscont, live):
    """fixpoint: {(cell, path): havoc term}, tree of one iteration from the havocked state"""
    ch = {}
    for _ in range(16):
        st = st0.copy()
        for k in sorted(ch, key=lambda k: (str(k[0]), len(k[1]))):
            put(ip, st, k, ch[k])
        before = dict(st.mem)
        with Quiet(ip):
            tree = body(st)
        new = set()
        for l in leaves(tree):
            if not iscont(l):
                continue
            for cell in live:
                b = before.get(cell)
                a = l[3].mem.get(cell)
                if b is None or a is None or a is b:
                    continue
                out = []
                struct_diff(b, l[3].facts.simp(a) if a.op != 'ptr' else a, (), out)
                new.update((cell, p) for p in out)
        cur = minimal(set(ch) | new)
        if cur == set(ch):
            return ch, tree
        ch = {k: ch.get(k) or raw('hav', fresh('h')) for k in cur}
    raise Unk('loop state does not stabilise')

def note_like(h, v):
    """a havocked value has the integer bounds of the value it replaces when those come from its type"""
    return h

SOURCES = {}       # element and position symbols -> sequence
def elem_facts(f, src, e, p):
    """what is known about element e at position p of src"""
    SOURCES[e] = SOURCES[p] = src
    f = f.assume(le(Int(0), p))
    if src.op == 'nat':
        return f
    if src.op == 'range':
        a, b, k = src.args
        pos = f.decide_c(lt(Int(0), k))
        neg = f.decide_c(lt(k, Int(0)))
        if pos:
            f = f.assume(le(a, e)).assume(lt(e, b))
        elif neg:
            f = f.assume(le(e, a)).assume(lt(b, e))
        return f
    if src.op == 'ite':
        return f
    return f.assume(lt(p, length(src)))

# ------------------------------------------------------------------ one loop over src
def vals(ip, tree, iscont, key):
    """decision term of the value of a cell after one iteration (continuing paths only)"""
    def go(t):
        if t is None:
            return None
        if t[0] == 'leaf':
            return t[3].facts.simp(get(t[3], key)) if iscont(t) else None
        a, b = go(t[2]), go(t[3])
        if a is None:
            return b
        if b is None:
            return a
        return ite(t[1], a, b)
    return go(tree)

def iterate(ip, st0, src, body, iscont, changed, uid, livef=None):
    """body(state, e, p) -> tree.  Returns (tree of early exits or None, state after the last element or None)"""
    e, p = raw('el', uid), raw('pos', uid)
    # closed forms of counters
    def start(s, ep):
        s = s.copy()
        s.facts = elem_facts(s.facts, src, e, p)
        return s
    st = start(st0, None)
    for k, h in changed.items():
        put(ip, st, k, h)
    with Quiet(ip):
        tree = body(st, e, p)
    havs = {h: k for k, h in changed.items()}
    counters, accs = {}, {}
    hu = {h.args[0] for h in havs}
    for k, h in changed.items():
        u = vals(ip, tree, iscont, k)
        if u is None:
            continue
        if u is h:
            continue
        d = None
        try:
            d = sub(u, h) if u.op in ('lin', 'ite', 'int') or u is h else None
        except Exception:
            d = None
        if d is not None and d.op == 'int' :
            counters[k] = d
        elif d is not None and d.op != 'ite' and not (d.fv & (hu | {uid})):
            counters[k] = d
        else:
            accs[k] = h
    def inv(s, P):
        """counters at iteration P, unchanged cells restored"""
        for k in changed:
            if k in counters:
                put(ip, s, k, add(get(st0, k), mul(P, counters[k])))
            elif k not in accs:
                put(ip, s, k, get(st0, k))
    s = start(st0, None)
    inv(s, p)
    for k, h in accs.items():
        put(ip, s, k, h)
    tree = body(s, e, p)
    ls = leaves(tree)
    exits = [l for l in ls if not iscont(l)]
    conts = [l for l in ls if iscont(l)]
    n = length(src)
    def finish(values):
        s = st0.copy()
        inv(s, n)
        for k, v in values.items():
            put(ip, s, k, v)
        return s
    if not conts:
        # the body never goes round: at most one iteration
        c = is_empty(src)
        ft, ff = st0.facts.assume(c, True), st0.facts.assume(c, False)
        done = finish({k: get(st0, k) for k in accs})
        done.facts = ft
        if ff.dead:
            return None, done
        s = st0.copy()
        s.facts = ff
        t = body(s, nth(src, Int(0)), Int(0))
        return (Not(c), t), (None if ft.dead else done)
    if not exits:
        return None, finish(fold_accs(ip, tree, iscont, accs, src, st0, uid))
    if not accs:
        cond = tree_term(tree, lambda l: FALSE if iscont(l) else TRUE)
        f = mk_first_open(src, uid, cond)
        some = is_some(f)
        es, ps = fld(fld(f, 'Some', 0), None, 1), fld(fld(f, 'Some', 0), None, 0)
        res = []
        s = st0.copy()
        s.facts = s.facts.assume(some, True)
        if not s.facts.dead:
            s.facts = elem_facts(s.facts, src, es, ps)
            inv(s, ps)
            with Quiet(ip):
                t = body(s, es, ps)
            t = map_leaves(t, lambda l: None if iscont(l) else l)
            res = t
        else:
            res = None
        done = finish({})
        done.facts = done.facts.assume(some, False)
        return ((some, res) if res is not None else None), (None if done.facts.dead else done)
    # accumulators and early exits
    keys = list(accs)
    acc = raw('acc', uid)
    sub_ = {accs[k]: (acc if len(keys) == 1 else fld(acc, None, i)) for i, k in enumerate(keys)}
    hset = {h.args[0] for h in accs.values()}
    lv = hset | {uid}
    # slots that matter at each exit
    payloads = {}
    expanded = {}
    for i, l in enumerate(exits):
        atoms = []
        exp = expanded[id(l)] = {}
        need = []
        if l[1] == 'ret':
            v = l[2]
            need.append(v)
            cells = [c for c in l[3].mem if not (isinstance(c[0], int))]
        else:
            lc = livef(l) if livef else None
            if lc is not None:
                for c in [c for c in l[3].mem if c not in lc]:
                    del l[3].mem[c]
            cells = list(l[3].mem)
        for c in cells:
            need.append(l[3].mem[c])
        for v in need:
            strip_atoms(l[3].facts.simp(v) if v.op != 'ptr' else v, lv, atoms, l[3].facts, exp)
        payloads[id(l)] = atoms
    def pay(i, l):
        a = payloads[id(l)]
        if len(exits) == 1:
            return UNIT if not a else a[0] if len(a) == 1 else Tup(*a)
        return Tup(Int(i), *a)
    idx = {id(l): i for i, l in enumerate(exits)}
    def lf(l):
        if iscont(l):
            vs = [l[3].facts.simp(get(l[3], k)) for k in keys]
            return Ok(vs[0] if len(vs) == 1 else Tup(*vs))
        return Err(pay(idx[id(l)], l))
    b = st0.facts.simp(subst(tree_term(tree, lf), sub_, hset))
    init = get(st0, keys[0]) if len(keys) == 1 else Tup(*[get(st0, k) for k in keys])
    r = mk_tryfold_open(src, init, uid, b)
    ok = is_ok(r)
    done = finish({k: (fld(r, 'Ok', 0) if len(keys) == 1 else fld(fld(r, 'Ok', 0), None, i)) for i, k in enumerate(keys)})
    done.facts = done.facts.assume(ok, True)
    err = fld(r, 'Err', 0)
    ef = st0.facts.assume(ok, False)
    et = None
    for i, l in reversed(list(enumerate(exits))):
        a = payloads[id(l)]
        if len(exits) == 1:
            ref = {x: (err if len(a) == 1 else fld(err, None, j)) for j, x in enumerate(a)}
        else:
            ref = {x: fld(err, None, j + 1) for j, x in enumerate(a)}
        def exp_of(v, V, ref=ref, exp=expanded[id(l)]):
            r = TM.REG[V]
            fs = []
            for k in range(r[2]):
                f = fld(v, V, k)
                fs.append(ref[f] if f in ref else exp_of(f, exp[f]) if f in exp else f)
            return adt(r[0], V, *fs)
        for v_, V in expanded[id(l)].items():
            ref[v_] = exp_of(v_, V)
        def rw(v):
            v2 = rewrite(v, lambda t: ref.get(t)) if v.fv & lv or ref else v
            if v2.fv & lv:
                return unk('value inside a loop used after an early exit')
            return v2
        mem = {}
        for c, v in l[3].mem.items():
            try:
                mem[c] = rw(l[3].facts.simp(v) if v.op != 'ptr' else v) if v.fv & lv else v
            except Unk:
                mem[c] = unk('value at early exit')
        ret = l[2]
        if l[1] == 'ret' and isinstance(ret, T):
            ret = rw(l[3].facts.simp(ret) if ret.op != 'ptr' else ret)
        tag = TRUE if len(exits) == 1 else ef.simp(ieq(fld(err, None, 0), Int(i)))
        lf_ = ef.assume(tag)
        if tag is FALSE or lf_.dead:
            continue
        leaf = Leaf(l[1], ret, State(mem, lf_))
        if et is None:
            et = leaf
        else:
            et = ('fork', tag, leaf, et)
    if et is None:
        return None, (None if done.facts.dead else done)
    return ((Not(ok), et) if not ef.dead else None), (None if done.facts.dead else done)

def strip_atoms(v, lv, out, facts=None, exp=None):
    if not (v.fv & lv):
        return
    if facts is not None and v.op not in ('adt', 'tuple', 'one', 'cat', 'closure'):
        al = facts.allowed.get(v)
        if al is not None and len(al) == 1:
            V, = al
            r = TM.REG.get(V)
            if r:
                exp[v] = V
                for k in range(r[2]):
                    strip_atoms(fld(v, V, k), lv, out, facts, exp)
                return
    if v.op in ('adt', 'tuple', 'one', 'cat', 'closure'):
        for a in v.args:
            if isinstance(a, T):
                strip_atoms(a, lv, out, facts, exp)
        return
    if v not in out:
        out.append(v)

def fold_accs(ip, tree, iscont, accs, src, st0, uid):
    body = {k: vals(ip, tree, iscont, k) for k in accs}
    dep = {}
    hs = {h: k for k, h in accs.items()}
    for k in accs:
        dep[k] = {hs[h] for h in hs if h.args[0] in body[k].fv}
    res = {}
    for k, h in accs.items():
        grp = {k}
        while True:
            g2 = grp | {x for y in grp for x in dep[y]}
            if g2 == grp:
                break
            grp = g2
        acc = raw('acc', uid)
        if grp == {k} :
            b = st0.facts.simp(subst(body[k], {h: acc}, {h.args[0]}))
            res[k] = mk_fold_open(src, get(st0, k), uid, b)
        else:
            ks = [x for x in accs if x in grp]
            m = {accs[x]: fld(acc, None, i) for i, x in enumerate(ks)}
            hu = {accs[x].args[0] for x in ks}
            b = Tup(*[st0.facts.simp(subst(body[x], m, hu)) for x in ks])
            f = mk_fold_open(src, Tup(*[get(st0, x) for x in ks]), uid, b)
            res[k] = fld(f, None, ks.index(k))
    return res

# ------------------------------------------------------------------ MIR loops
def solve(ip, fn, fr, h, st, stop):
    loop = fn.cfg.loops[h]
    exits = {s for b in loop for s in fn.cfg.succ[b] if s not in loop}
    stop2 = frozenset(stop) | {h} | exits
    key = (fr, h)
    ip.loops_solved += 1
    def body(s):
        ip.active_loops.add(key)
        try:
            return ip.run(fn, fr, h, s.copy(), stop2, True)
        finally:
            ip.active_loops.discard(key)
    def iscont(l):
        return l[1] == 'at' and l[2] == h
    # a loop that runs without any decision is simply followed
    t = unroll(ip, st, body, iscont)
    if t is None:
        t = general(ip, fn, fr, h, st, body, iscont)
    # continue after the loop
    if t is None:
        return None
    j = fn.cfg.ipdom(fn).get(h)
    if ip.paths:
        return map_leaves(t, lambda l: ip.run(fn, fr, l[2], l[3].copy(), stop, False) if l[1] == 'at' and l[2] not in stop else l)
    merge = j is not None and j != -1 and j not in stop and j not in loop
    if merge:
        for h2, b2 in fn.cfg.loops.items():
            if (fr, h2) in ip.active_loops and h in b2 and j not in b2:
                merge = False
    inner = frozenset(stop) | {j} if merge else stop
    targets = []
    for l in leaves(t):
        if l[1] == 'at' and l[2] not in stop and l[2] not in targets and not (merge and l[2] == j):
            targets.append(l[2])
    for b in targets:
        js = ip.merge_states(t, lambda l: l[1] == 'at' and l[2] == b, st, fn, fr, b)
        cont = ip.run(fn, fr, b, js, inner, False)
        sel = lambda l: cont if l[1] == 'at' and l[2] == b else l
        t = map_leaves(t, sel)
        if t is None:
            return None
    if merge:
        return ip.join(fn, fr, j, st, t, stop)
    return t

def unroll(ip, st, body, iscont):
    s = st
    n0 = len(ip.panics)
    seen = 0
    for _ in range(48):
        try:
            t = body(s)
        except Unk:
            del ip.panics[n0:]
            return None
        ls = leaves(t)
        if len(ls) != 1:
            del ip.panics[n0:]
            return None
        if not iscont(ls[0]):
            return t
        if all(ls[0][3].mem.get(k) is v for k, v in s.mem.items()):
            del ip.panics[n0:]
            raise Unk('loop without progress')
        s = ls[0][3]
    del ip.panics[n0:]
    return None

def general(ip, fn, fr, h, st, body, iscont):
    live = live_cells(ip, fn, fr, h, st)
    again = lambda s: general(ip, fn, fr, h, s, body, iscont)
    changed, tree = changed_cells(ip, st, body, iscont, live)
    conts = [l for l in leaves(tree) if iscont(l)]
    if not conts:
        return body(st)
    seqd, intd = [], []
    for k, hv in changed.items():
        us = {l[3].facts.simp(get(l[3], k)) for l in conts}
        d1 = drop(hv, Int(1))
        if all(u is d1 for u in us):
            seqd.append(k)
            continue
        ds = set()
        for u in us:
            ds.add(sub(u, hv) if u.op == 'lin' else None)
        if len(ds) == 1 and None not in ds:
            d = ds.pop()
            hu = {x.args[0] for x in changed.values()}
            if not (d.fv & hu):
                intd.append((k, d))
    uid = fresh()
    if len(seqd) == 1:
        drv = seqd[0]
        src = st.facts.simp(get(st, drv))
        if src.op == 'ite':
            return case_split(ip, st, src.args[0], lambda s: again(s))
        rest = Sym('rest-of-' + uid)
        others = {k: v for k, v in changed.items() if k != drv}
        def step(s, e, p):
            s = s.copy()
            put(ip, s, drv, cat(one(e), rest) if e.op != 'unk' else rest)
            t = body(s)
            for l in leaves(t):
                if iscont(l):
                    if l[3].facts.simp(get(l[3], drv)) is not rest:
                        raise Unk('irregular iteration')
                    l[3].mem[drv[0]] = ip.set_path(l[3].mem[drv[0]], drv[1], rest) if drv[1] else rest
            return t
        ex, done = iterate(ip, st, src, step, iscont, others, uid, livef(ip, fn, fr))
        end = None
        if done is not None:
            s = done.copy()
            put(ip, s, drv, EMPTY)
            end = body(s)
            if any(iscont(l) for l in leaves(end)):
                raise Unk('loop continues after its source is exhausted')
        return combine(ex, end)
    if seqd:
        raise Unk('loop over several sequences')
    if getattr(ip, 'offsets', False):
        for k, d in intd:
            if d is Int(1):
                r = char_run(ip, fn, fr, st, k, changed, tree, body, iscont)
                if r is not None:
                    return r
    for k, d in intd:
        r = int_loop(ip, st, k, d, changed, tree, body, iscont, uid, again, livef(ip, fn, fr))
        if r is not None:
            return r
    # integers with several possible values on entry: one case at a time
    for k in live:
        v = st.mem.get(k)
        if v is not None and k[0] == fr and v.op == 'ite' and intish(v):
            v = st.facts.simp(v)
            if v.op == 'ite':
                return case_split(ip, st, v.args[0], lambda s, k=k: (put(ip, s, (k, ()), s.facts.simp(s.mem[k])), again(s))[1])
    if not getattr(ip, 'scans', False):
        raise Unk('loop without a recognised driver in ' + fn.path)
    ex, _ = iterate(ip, st, NAT, lambda s, e, p: body(s.copy()), iscont, dict(changed), uid, livef(ip, fn, fr))
    if ex is None:
        raise Unk('loop without an exit in ' + fn.path)
    return ex[1] if isinstance(ex, tuple) else ex

NAT = raw('nat')       # as often as needed: a loop that only ends by an exit

def char_run(ip, fn, fr, st, k, changed, tree, body, iscont):
    """a loop that skips the characters of a class: closed form with the number of characters skipped"""
    h = changed[k]
    cond = tree_term(tree, lambda l: TRUE if iscont(l) else FALSE)
    texts, seen, todo = set(), set(), [cond]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, TM.T) and x not in seen:
            seen.add(x)
            if x.op == 'nth' and x.args[1] is h:
                texts.add(x.args[0])
            todo += x.args
    if len(texts) != 1:
        return None
    V, = texts
    end = le(length(V), h)
    if Facts().assume(end).simp(cond) is not FALSE:
        return None
    c = Facts().assume(end, False).simp(cond)
    x = TM.fresh('c')
    cls = TM.charset(rewrite(c, lambda t: raw('sym', x) if t is nth(V, h) else None), raw('sym', x))
    if cls is None:
        return None
    k0 = get(st, k)
    n = TM.run(V, k0, cls)
    ke = add(k0, n)
    s = st.copy()
    hu = {y.args[0] for y in changed.values()} - {h.args[0]}
    for key, hv in changed.items():
        if key == k:
            put(ip, s, key, ke)
            continue
        u = vals(ip, tree, iscont, key)
        if u is None:
            us = {l[3].facts.simp(get(l[3], key)) for l in leaves(tree) if iscont(l)}
            u = us.pop() if len(us) == 1 else None
        if u is hv:
            put(ip, s, key, get(st, key))
            continue
        if u is None or u.fv & hu:
            return None
        at = lambda i: rewrite(u, lambda t: i if t is h else None)
        i0 = get(st, key)
        v = at(sub(ke, Int(1)))
        if st.facts.simp(at(sub(k0, Int(1)))) is not st.facts.simp(i0):
            v = ite(ieq(n, Int(0)), i0, v)
        put(ip, s, key, v)
    stop = rewrite(cond, lambda t: ke if t is h else None)
    s.facts = s.facts.assume(le(Int(0), n)).assume(le(ke, length(V))).assume(stop, False)
    if s.facts.dead:
        return None
    def drop(t):
        # the loop has been left: its continuing leaves cannot be reached
        if t[0] == 'fork':
            a, b = drop(t[2]), drop(t[3])
            return fork(t[1], a, b) if a and b else a or b
        return None if iscont(t) else t
    return collapse(ip, fn, fr, drop(body(s)), s)

def collapse(ip, fn, fr, t, st):
    """leaves at one block that agree on everything that may still be read, as one leaf"""
    if t is None:
        return None
    ls = leaves(t)
    if len(ls) < 2 or any(l[1] != 'at' or l[2] != ls[0][2] for l in ls):
        return t
    mems = []
    for l in ls:
        live = live_cells(ip, fn, fr, l[2], l[3])
        mems.append({k: l[3].facts.simp(v) if v.op != 'ptr' else v for k, v in l[3].mem.items() if k in live})
    if any(m.keys() != mems[0].keys() or any(m[k] is not mems[0][k] for k in m) for m in mems):
        return t
    return Leaf('at', ls[0][2], State(mems[0], st.facts))

def intish(v):
    while v.op == 'ite':
        v = v.args[1]
    return v.op in ('int', 'lin') or v in TM.INTB
def case_split(ip, st, c, k):
    def arm(v, s):
        return k(s)
    return ip.split(st.copy(), atoms_of(c), arm)

def combine(ex, end):
    if ex is None:
        return end
    c, t = ex
    if end is None:
        return t
    if t is None:
        return end
    return fork(c, t, end)
def fork(c, a, b):
    """fork on a decision term"""
    if c.op == 'bool':
        return a if c.args[0] else b
    if c.op == 'not':
        return fork(c.args[0], b, a)
    if c.op == 'ite':
        return fork(c.args[0], fork(c.args[1], a, b), fork(c.args[2], a, b))
    return ('fork', c, a, b)

def int_loop(ip, st, k, d, changed, tree, body, iscont, uid, again, lf=None):
    hv = changed[k]
    if tree is None or tree[0] != 'fork' or tree[1].op != 'le0':
        return None
    hu = {x.args[0] for x in changed.values()} - {hv.args[0]}
    c, co = lin_of(tree[1].args[0])
    if hv not in co or abs(co[hv]) != 1 or any(x.fv & (hu | {hv.args[0]}) for x in co if x is not hv):
        return None
    ts, fs = leaves(tree[2]), leaves(tree[3])
    if all(not iscont(l) for l in ts):
        # loop while expr > 0
        expr, exit_true = tree[1].args[0], True
    elif all(not iscont(l) for l in fs):
        expr, exit_true = add(mulc(tree[1].args[0], -1), Int(1)), False     # loop while t <= 0, i.e. 1 - t > 0
    else:
        return None
    # loop while expr > 0 where expr = s*h + rest
    _, co = lin_of(expr)
    s = co[hv]
    rest = sub(expr, mulc(hv, s))
    if s < 0:
        B = rest          # rest - h > 0   ->  h < rest
    else:
        B = mulc(rest, -1)    # h + rest > 0   ->  h > -rest
    up = st.facts.decide_c(lt(Int(0), d))
    down = st.facts.decide_c(lt(d, Int(0)))
    if not (s < 0 and up or s > 0 and down):
        return None
    init = st.facts.simp(get(st, k))
    src = st.facts.simp(rng(init, B, d))
    if src.op == 'ite':
        return case_split(ip, st, src.args[0], again)
    others = {x: v for x, v in changed.items() if x != k}
    def step(s_, e, p):
        s_ = s_.copy()
        put(ip, s_, k, e)
        g = tree[1]
        t = body(s_)
        for l in leaves(t):
            if iscont(l):
                if sub(l[3].facts.simp(get(l[3], k)), e) is not d:
                    raise Unk('irregular induction')
                # the next value is handled by the range
                put(ip, l[3], k, e)
        return t
    if src is EMPTY:
        s_ = st.copy()
        return body(s_)
    ex, done = iterate(ip, st, src, step, iscont, others, uid, lf)
    end = None
    if done is not None:
        s_ = done.copy()
        if d is Int(1):
            fin = ite(lt(init, B), B, init)
        elif d is Int(-1):
            fin = ite(lt(B, init), B, init)
        else:
            fin = raw('rend', init, B, d)
            TM.INTB[fin] = (-(1 << 63), (1 << 64) - 1)
            s_.facts = s_.facts.assume(le(B, fin) if s < 0 else le(fin, B))
        put(ip, s_, k, fin)
        end = body(s_)
        if any(iscont(l) for l in leaves(end)):
            raise Unk('induction loop continues past its bound')
    return combine(ex, end)

# ------------------------------------------------------------------ loops of library adaptors (for_each ...)
def over(ip, st, s, step):
    if s.op == 'ptr':
        s = ip.deref(st, s)
    if s.op == 'cat' and all(x.op == 'one' for x in s.args) or s.op in ('empty', 'one'):
        # concrete: follow
        cur = st
        for i, x in enumerate(seq_parts(s)):
            t = step(cur, x.args[0], Int(i))
            ls = leaves(t)
            if len(ls) == 1 and ls[0][1] == 'cont':
                cur = ls[0][3]
                continue
            break
        else:
            return None, cur
    iscont = lambda l: l[1] == 'cont'
    uid = fresh()
    def body0(s2):
        return step(s2.copy(), raw('el', uid), raw('pos', uid))
    live = set(st.mem)
    s0 = st.copy()
    s0.facts = elem_facts(s0.facts, s, raw('el', uid), raw('pos', uid))
    changed, _ = changed_cells(ip, s0, body0, iscont, live)
    return iterate(ip, st, s, lambda s2, e, p: step(s2.copy(), e, p), iscont, changed, uid)

def over_seq(ip, st, s, step):
    ex, done = over(ip, st, s, step)
    if ex is not None:
        raise Unk('early exit from for_each')
    return done

def over_seq_tree(ip, st, s, step):
    ex, done = over(ip, st, s, step)
    end = Leaf('done', None, done) if done is not None else None
    return combine(ex, end)

# ------------------------------------------------------------------ iterators implemented in the crate
def gen_tree(ip, f, cellp, st):
    """decision tree of one `next`: leaves 'ret' and 'again' (the next element is asked for again)"""
    old = ip.gen
    ip.gen = (f.id, cellp)
    try:
        return ip.call_fn(f, [cellp], st)
    finally:
        ip.gen = old

def gen_loop(ip, fn, fr, h, st, stop):
    """loop inside `next`: its back edge asks for the next element again, if nothing but the iterator changed"""
    loop = fn.cfg.loops[h]
    key = (fr, h)
    exits = {s for b in loop for s in fn.cfg.succ[b] if s not in loop}
    ip.active_loops.add(key)
    try:
        t = ip.run(fn, fr, h, st.copy(), frozenset(stop) | {h}, True)
    finally:
        ip.active_loops.discard(key)
    ls = live_in(fn, h)
    def leaf(l):
        if l[1] == 'at' and l[2] == h:
            for i in ls:
                if l[3].mem.get((fr, i)) is not st.mem.get((fr, i)):
                    raise Unk('iterator loop with local state')
            return Leaf('again', None, l[3])
        return l
    return map_leaves(t, leaf)

def generator(ip, f, v, st, tyi):
    """the sequence of items of an iterator value whose `next` is f"""
    if v.op == 'ite':
        return ite(v.args[0], generator(ip, f, v.args[1], st, tyi), generator(ip, f, v.args[2], st, tyi))
    if v.op == 'unk' or v in ip.seqvals:
        return v
    if v.op not in ('adt',):
        ip.note_type(v, tyi)
    depth = getattr(ip, 'gendepth', 0)
    if depth > 6:
        raise Unk('nested iterators')
    ip.gendepth = depth + 1
    try:
        return _generator(ip, f, v, st, tyi)
    finally:
        ip.gendepth = depth

def _generator(ip, f, v, st0, tyi):
    st = st0.copy()
    if v.op != 'adt' and tyi is not None:
        a = ip.adt_of(tyi)
        if a and len(a['variants']) == 1:
            V = ip.vn(a, 0)
            v = raw('adt', a['path'], V, *[fld(v, V, k) for k in range(len(a['variants'][0]['fields']))])
    cell = ip.new_cell(st, v, 'it')
    out = ip.new_cell(st, EMPTY, 'out')
    p = ip.ptr(cell)
    def body(s):
        s = s.copy()
        t = gen_tree(ip, f, p, s)
        def leaf(l):
            if l[1] == 'again':
                return Leaf('cont', None, l[3])
            r = ip.deref(l[3], l[2]) if l[2].op == 'ptr' else l[2]
            def put_(r, s):
                def k(tv, s2):
                    if tv:
                        return Leaf('stop', None, s2)
                    x = fld(s2.facts.simp(r), 'Some', 0)
                    s2 = s2.copy()
                    s2.mem[out] = cat(s2.mem[out], one(ip.deep(s2, x)))
                    return Leaf('cont', None, s2)
                return ip.split(s, isin(r, 'None'), k)
            return put_(r, l[3])
        return map_leaves(t, leaf)
    iscont = lambda l: l[1] == 'cont'
    live = {cell}
    changed, tree = changed_cells(ip, st, body, iscont, live)
    conts = [l for l in leaves(tree) if iscont(l)]
    if not conts:
        return EMPTY
    keys = list(changed)
    def run_one(st, drv, src, others):
        uid = fresh()
        rest = Sym('rest-of-' + uid)
        def step(s, e, p_):
            s = s.copy()
            put(ip, s, drv, cat(one(e), rest))
            t = body(s)
            for l in leaves(t):
                if iscont(l):
                    if l[3].facts.simp(get(l[3], drv)) is not rest:
                        raise Unk('irregular iterator')
                    put(ip, l[3], drv, rest)
            return t
        ch = {k: v for k, v in others.items()}
        ch[(out, ())] = raw('hav', fresh('h'))
        ex, done = iterate(ip, st, src, step, iscont, ch, uid)
        end = None
        if done is not None:
            s = done.copy()
            put(ip, s, drv, EMPTY)
            end = body(s)
            if end is not None and any(iscont(l) for l in leaves(end)):
                raise Unk('iterator continues after its source is exhausted')
        t = combine(ex, end)
        return tree_term(t, lambda l: l[3].mem[out])
    if len(keys) == 1:
        return run_one(st, keys[0], st.facts.simp(get(st, keys[0])), {})
    # one driver and counters, or an inner and an outer sequence
    drv = []
    for k in keys:
        us = {l[3].facts.simp(get(l[3], k)) for l in conts}
        if us == {drop(changed[k], Int(1))}:
            drv.append(k)
    if len(drv) == 1:
        return run_one(st, drv[0], st.facts.simp(get(st, drv[0])), {k: h for k, h in changed.items() if k != drv[0]})
    if len(keys) == 2:
        for inner, outer in ((keys[0], keys[1]), (keys[1], keys[0])):
            r = flatten(ip, st, body, iscont, inner, outer, out)
            if r is not None:
                return r
    r = linked(ip, st, changed, tree, conts, iscont, out)
    if r is not None:
        return r
    raise Unk('iterator of an unknown shape: ' + f.path)

def linked(ip, st, changed, tree, conts, iscont, out):
    """an iterator that follows the links of a list until there is none"""
    for k, h in changed.items():
        us = {l[3].facts.simp(get(l[3], k)) for l in conts}
        if len(us) != 1:
            continue
        u, = us
        node = fld(h, 'Some', 0)
        if u.op != 'fld' or u.args[0] is not node:
            continue
        ends = tree_term(tree, lambda l: Bool(iscont(l)))
        if ends is not is_some(h):
            continue
        body = tree_term(tree, lambda l: l[3].mem[out] if iscont(l) else DEAD)
        body = st.facts.assume(is_some(h)).simp(body)
        uid = fresh()
        body = rewrite(body, lambda t: raw('el', uid) if t is node else None)
        if any(occurs(body, h2) for h2 in changed.values()):
            continue
        return mk_for_open(chain(get(st, k), u.args[1], u.args[2]), uid, body)
    return None


def flatten(ip, st, body, iscont, inner, outer, out):
    e, o = raw('el', fresh()), raw('el', fresh())
    r1, r2 = Sym('rest-of-' + fresh()), Sym('rest-of-' + fresh())
    hav = raw('hav', fresh('h'))
    try:
        s = st.copy()
        put(ip, s, inner, cat(one(e), r1)); put(ip, s, outer, hav)
        with Quiet(ip):
            t = body(s)
        for l in leaves(t):
            if not iscont(l) or get(l[3], inner) is not r1 or get(l[3], outer) is not hav:
                return None
        per = tree_term(t, lambda l: l[3].mem[out])
        s = st.copy()
        put(ip, s, inner, EMPTY); put(ip, s, outer, EMPTY)
        with Quiet(ip):
            t = body(s)
        if any(iscont(l) for l in leaves(t)):
            return None
        s = st.copy()
        put(ip, s, inner, EMPTY); put(ip, s, outer, cat(one(o), r2))
        t = body(s)
        for l in leaves(t):
            if not iscont(l) or l[3].facts.simp(get(l[3], outer)) is not r2 or l[3].mem[out] is not EMPTY:
                return None
        g = tree_term(t, lambda l: get(l[3], inner))
    except Unk:
        return None
    uid = e.args[0]
    def items(seq):
        return mk_for(seq, lambda x, p: sub1(per, uid, x, p))
    s = st
    u2 = o.args[0]
    return cat(items(get(s, inner)), mk_for(get(s, outer), lambda x, p: items(sub1(g, u2, x, p))))
