"""Progress of loops and recursion: measures, consumption of tokens, finite iterators.

Nothing here runs the code: a loop is taken as the term of one step (binder over `nat`), and a measure is a component of its state
that every step that goes on increases below a bound, or shortens."""
import re, time
import base, ev, interp, models
import term as TM
from term import *
from facts import Facts

# ---------------------------------------------------------------------------- iterators (on the MIR)
FINITE = ('core::slice::iter::', 'alloc::vec::into_iter::', 'alloc::vec::drain::', 'core::str::iter::', 'pest::iterators::', 'serde_json::map::', 'alloc::collections::', 'std::collections::hash::map::', 'hashbrown::',
          'indexmap::', 'core::option::', 'core::array::iter::', 'core::char::', 'std::vec::', 'core::result::')
ADAPTER = ('core::iter::adapters::',)
ENDLESS = ('repeat', 'successors', 'from_fn', 'cycle', 'Cycle', 'RangeFrom')

def finite_type(c, ti, depth=0):
    """does an iterator of this type end, whatever it was made of?"""
    t = c.types[ti]
    k = t['k']
    if depth > 8:
        return False
    if k in ('param', 'alias', 'proj'):
        return True             # the caller's iterator
    if k == 'adt' and t['path'] in own_iterators(c):
        return True
    if k == 'ref':
        return finite_type(c, t['t'], depth + 1)
    if k != 'adt':
        return False
    p = t['path']
    if any(e in p for e in ENDLESS):
        return False
    if re.search(r'core::ops::range::Range(Inclusive)?$', p):
        return True
    if p.startswith(ADAPTER) or p in ('core::iter::Peekable',):
        its = [x for x in t['args'] if isinstance(x, int) and c.types[x]['k'] in ('adt', 'ref')]
        return bool(its) and all(finite_type(c, x, depth + 1) for x in its[:2 if 'Chain' in p or 'Zip' in p else 1])
    return p.startswith(FINITE)

@models.model('alloc::rc::Rc::try_unwrap')
def m_try_unwrap(ip, st, args, ctx, fref):
    x = models.D(ip, st, args[0])
    return ite(raw('uniq', x), Ok(x), Err(x))

OWN = {}
def own_iterators(c):
    """the iterators of the crate that keep a smaller part of what they hold each time they give an element"""
    if id(c) in OWN:
        return OWN[id(c)]
    OWN[id(c)] = out = set()
    for f in c.fns.values():
        m = re.match(r'<(.*) as core::iter::traits::iterator::Iterator>::next$', f.path)
        if not m:
            continue
        t = c.types[f.locals[1]]
        a = c.types[t['t']] if t['k'] == 'ref' else t
        if a['k'] == 'adt' and shrinks(c, f):
            out.add(a['path'])
    return out

def shrinks(c, f):
    ip = IP.get(id(c))
    if ip is None:
        return False
    try:
        st0 = interp.State({}, Facts())
        s = Sym('it')
        cell = ip.new_cell(st0, s)
        if f.cfg.loops:
            # a step back to the head of a loop of `next` keeps less, too
            import loops as L
            steps = [(ip.deep(l[3], l[2]) if l[1] == 'ret' else Some(TRUE), ip.deep(l[3], l[3].mem[cell]), l[3].facts)
                     for l in interp.leaves(L.gen_tree(ip, f, ip.ptr(cell), st0))]
        else:
            t, st = interp.summarise(ip, f, [ip.ptr(cell)], st0.facts, st0.mem)
            steps = [(ip.deep(st, t), ip.deep(st, st.mem[cell]), Facts())]
    except Exception:
        return False
    keep = [None]
    def go(t, a, F):
        if F.dead:
            return True
        t, a = F.simp(t), F.simp(a)
        for x in (t, a):
            if x.op == 'ite':
                return go(t, a, F.assume(x.args[0])) and go(t, a, F.assume(x.args[0], False))
        if t.op == 'adt' and t.args[1] == 'None':
            return True
        if a.op != 'adt':
            return False
        less = set()
        for i, x in enumerate(a.args[2:]):
            if isinstance(x, T):
                known = {fld(s, a.args[1], i): [((i,), '=')]}
                if x.op == 'ite':
                    return go(t, a, F.assume(x.args[0])) and go(t, a, F.assume(x.args[0], False))
                if x.op == 'adt' and x.args[1] == 'None' or ((i,), '<') in origin(x, known, {}):
                    less.add(i)
        keep[0] = less if keep[0] is None else keep[0] & less
        return bool(keep[0])
    return all(go(t, after, F) for t, after, F in steps)
IP = {}

def roots(f, blocks=None):
    """unique definitions of locals: local -> rvalue"""
    out = {}
    for b in f.blocks:
        if b['cleanup']:
            continue
        for s in b['s']:
            if s[0] == '=' and not s[1][1]:
                out.setdefault(s[1][0], []).append(s[2])
        t = b['t']
        if t[0] == 'call' and t[3] is not None and not t[3][1]:
            out.setdefault(t[3][0], []).append(('call', t))
    return out

def resolve(f, defs, op, n=0):
    """the place an operand stands for, through reborrows and moves of temporaries"""
    if n > 12 or not isinstance(op, (list, tuple)):
        return None
    pl = op[1] if op[0] in ('mv', 'cp') else op
    if not isinstance(pl, (list, tuple)) or len(pl) != 2:
        return None
    l, proj = pl[0], list(pl[1])
    d = defs.get(l, [])
    if len(d) == 1 and isinstance(d[0], list):
        r = d[0]
        if r[0] == 'ref' and proj[:1] == ['*']:
            q = r[2]
            return resolve(f, defs, [q[0], list(q[1]) + proj[1:]], n + 1) or (q[0], list(q[1]) + proj[1:])
        if r[0] == 'ref' and not proj:
            q = resolve(f, defs, r[2], n + 1)
            return q
        if r[0] == 'use' and r[1][0] in ('mv', 'cp'):
            q = r[1][1]
            return resolve(f, defs, [q[0], list(q[1]) + proj], n + 1)
    return l, proj

def held(defs, place, dest):
    """is the place the local dest, or the part of a tuple dest was put in"""
    if place == [dest, []]:
        return True
    l, proj = place
    ds = defs.get(l, [])
    if len(ds) != 1 or not isinstance(ds[0], list) or ds[0][0] != 'agg' or ds[0][1] != ['tuple'] or len(proj) != 1 or proj[0][0] != 'f':
        return False
    x = ds[0][2][proj[0][1]]
    return x[0] in ('mv', 'cp') and x[1] == [dest, []]

def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]

def ends(defs, place, dest):
    """the value of the discriminant of the place that says that the iterator whose element is in dest has ended, or None"""
    if held(defs, place, dest):
        return '0'
    ds = defs.get(place[0], [])
    if place[1] == [] and len(ds) == 1 and isinstance(ds[0], tuple) and ds[0][0] == 'call':
        t = ds[0][1]
        if t[1][0] == 'k' and t[1][1].get('c') == 'fn' and t[1][1]['path'].endswith('Try::branch') and t[2][0][0] in ('mv', 'cp') and held(defs, t[2][0][1], dest):
            return '1'          # ControlFlow::Break
    return None

def by_iterator(f, h, body):
    """name of the finite iterator that every iteration of the loop advances, and whose end leaves it; None if not seen"""
    c, cfg = f.crate, f.cfg
    latches = [b for b in body if h in cfg.succ[b]]
    defs = roots(f)
    for b in sorted(body):
        t = f.blocks[b]['t']
        if t[0] != 'call' or t[1][0] != 'k' or t[1][1].get('c') != 'fn':
            continue
        k = t[1][1]
        if k['path'].split('::')[-1] not in ('next', 'next_back') or not str(k.get('trait', '')).split('<')[0].split('::')[-1] in ('Iterator', 'DoubleEndedIterator'):
            continue
        if not all(cfg.dominates(b, x) for x in latches):
            continue
        if not k['args'] or not isinstance(k['args'][0], int) or not finite_type(c, k['args'][0]):
            continue
        place = resolve(f, defs, t[2][0])
        if place is None or t[3] is None or t[3][1]:
            continue
        # the iterator is not replaced within the loop
        root, dest = place[0], t[3][0]
        touched = False
        for x in body:
            for s in f.blocks[x]['s']:
                if s[0] == '=' and s[1][0] == root and (not s[1][1] or s[1][1] == place[1] or s[1][1] == ['*']):
                    touched = True
                if s[0] == '=' and isinstance(s[2], list) and s[2][0] == 'ref' and s[2][1] == 'mut' and s[2][2][0] == root and x != b and overlap(s[2][2][1], place[1]):
                    touched = True          # handed out elsewhere: only `next` is known to go forward
            y = f.blocks[x]['t']
            if x != b and y[0] == 'call' and y[3] is not None and y[3][0] == root:
                touched = True
        if touched:
            continue
        # its end leaves the loop
        for x in body:
            y = f.blocks[x]['t']
            if y[0] != 'switch' or not cfg.dominates(b, x) or not all(cfg.dominates(x, z) for z in latches):
                continue
            sw = y[1][1][0] if y[1][0] in ('mv', 'cp') else None
            d = [e for e in (ends(defs, r[1], dest) for r in defs.get(sw, []) if isinstance(r, list) and r[0] == 'discr') if e is not None]
            none = [g for v, g in y[3] if d and str(v) == d[0]]
            if d and none and none[0] not in body:
                return c.show_ty(k['args'][0])
    return None

# ---------------------------------------------------------------------------- measures of loops over terms
def nat_binders(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ('tryfold', 'fold', 'first', 'exists', 'for', 'tryfor') and isinstance(x.args[1], T) and x.args[1].op == 'nat':
                out.append(x)
            st += x.args
    return out

def lengths(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'len':
                out.append(x)
            st += x.args
    return out

def goes_on(B, f, limit=4000):
    """every way a step of a loop goes on: [(state before, state after, facts, position)]"""
    h = B.args[0]
    uid = fresh()
    e = raw('el', uid)
    p = raw('pos', uid)
    TM.INTB[p] = TM.INTB[e] = (0, 2 ** 63 - 1)
    init = B.args[2] if B.op in ('tryfold', 'fold') else None
    acc = None
    if init is not None:
        parts = init.args if init.op == 'tuple' else [init]
        syms = [Sym(f'm{fresh()}') for _ in parts]
        for s, x in zip(syms, parts):
            if TM.bounds(x) is not None and x.op in ('int', 'lin', 'len', 'sym', 'boff'):
                TM.INTB[s] = (0, 2 ** 63 - 1) if (TM.bounds(x)[0] or 0) >= 0 else (-2 ** 63, 2 ** 63 - 1)
        # byte offsets kept next to character indices stay so
        if init.op == 'tuple' and len(parts) == 2:
            import hparse
            o = hparse.offsets(B, f)
            if o is not None:
                syms, f = o
        acc = Tup(*syms) if init.op == 'tuple' else syms[0]
    body = f.simp(open_(B, e, p, acc)[0])
    out = []
    n = [0]
    def go(t, f):
        n[0] += 1
        if n[0] > limit:
            raise Unk('too many ways through a step')
        if f.dead or t.op == 'panic':
            return
        if B.op in ('first', 'exists'):
            g = f.assume(t, False)
            if not g.dead:
                out.append((None, None, g, e))
            return
        if t.op == 'ite':
            go(t.args[1], f.assume(t.args[0])); go(t.args[2], f.assume(t.args[0], False))
            return
        if B.op == 'fold':
            out.append((acc, t, f, e))
        elif t.op == 'adt' and t.args[1] == 'Ok':
            out.append((acc, t.args[2], f, e))
        elif t.op == 'adt' and t.args[1] == 'Err':
            return
        else:
            g = f.assume(is_ok(t))
            if not g.dead:
                out.append((acc, fld(t, 'Ok', 0), g, e))
    go(body, f)
    return out

def comps(acc):
    return [] if acc is None else list(acc.args) if acc.op == 'tuple' else [acc]

def measure(B, f):
    """what every step of the loop that goes on increases below a bound, or shortens; None if not seen"""
    ways = []
    for a, n, F, e in goes_on(B, f):
        old = comps(a)
        new = [] if a is None else list(n.args) if a.op == 'tuple' and n.op == 'tuple' else [fld(n, None, i) for i in range(len(old))] if a.op == 'tuple' else [n]
        ways.append((old, new, F, e))
    return measured(ways, lengths(Tup(*[F.simp(open_(B, e, e, Tup(*a) if B.args[2].op == 'tuple' else a[0])[0]) for a, _, F, e in ways[:1] if a])))

def measured(ways, more=()):
    """ways: [(parts of the state before, after, facts, number of the step)]"""
    if not ways:
        return 'left by every step'
    bounds_ = list(dict.fromkeys(list(more) + [x for y in ways for c, _ in y[2].trail for x in lengths(c)]))
    def bounded(F, x):
        return any(F.decide_c(le(x, b)) is True for b in bounds_) or any(F.decide_c(lt(x, b)) is True for b in bounds_)
    # the number of the step itself
    if all(bounded(F, e) for _, _, F, e in ways):
        return 'the number of steps'
    for i, s in enumerate(ways[0][0]):
        good = True
        for a, b, F, e in ways:
            b = F.simp(b[i])
            if (('s',), '<') in origin(b, {s: [(('s',), '=')]}, {}):
                continue
            if b.op == 'drop' and b.args[0] is s and F.decide_c(le(Int(1), b.args[1])) is True and F.decide_c(le(Int(1), length(s))) is True:
                continue
            try:
                up = F.decide_c(le(add(s, Int(1)), b)) is True and bounded(F, s)
            except Exception:
                up = False
            if not up:
                good = False
                break
        if good:
            return 'a position in the text' if s in TM.INTB else 'what is left shrinks'
    return None

# ---------------------------------------------------------------------------- consumption of tokens
class Tokens:
    """the functions and loop heads of the hand written parser as a graph: how many tokens lie between a call and the next"""
    def __init__(self, X, S):
        import hparse
        self.X, self.S, self.hp = X, S, hparse
        self.nodes = {}            # (role, with precondition, loop or None) -> [(term, facts, stream symbol)]
        self.machines = {}
        self.eats = {}
        self.missing = set()
        for role in hparse.STREAM:
            if X.A.get(role) is None:
                continue
            self.add(role, role in hparse.PRE)
    def add(self, role, pre):
        hp, X, S = self.hp, self.X, self.S
        if pre or role not in hp.PRE:
            a, f, impl, _, tree = hp.table(X, S, role)
        else:
            a = X.syms_of(role)
            keep = hp.PRE.pop(role)
            try:
                a, f, impl, _, tree = hp.table(X, S, role)
            finally:
                hp.PRE[role] = keep
        M = hp.Machine()
        self.nodes[(role, pre, None)] = (M.cut(impl, f), f, a[0])
        i = 0
        while i < len(M.heads):
            if i > 12:
                raise Unk(f'loops of {role}')
            R, t, fh, k = M.heads[i]
            syms = [Sym(f'{role}.{int(pre)}.{i}.{j}') for j in range(k)]
            body = hp.step(R, t, fh, syms, f'#{i}')
            self.nodes[(role, pre, i)] = (M.cut(body, fh), fh, syms)
            i += 1
    # the stream a loop works on: the parts of its state that are streams in every call of its head
    def eaten(self, t, F, streams):
        """lower bound of the tokens between a stream the node was given and t; None if t is not such a stream"""
        if t in streams:
            return streams[t]
        if t.op == 'drop':
            n = self.eaten(t.args[0], F, streams)
            if n is None:
                return None
            return n + (1 if F.decide_c(le(Int(1), t.args[1])) is True and F.decide_c(le(Int(1), length(t.args[0]))) is True else 0)
        if t.op == 'fld' and t.args[0].op == 'call' and t.args[0].args[0] in self.hp.STREAM and t.args[2] == 1 if t.op == 'fld' else False:
            c = t.args[0]
            n = self.eaten(c.args[1], F, streams)
            if n is None:
                return None
            return n + self.eats.get(self.callee(c, F), 1)
        if t.op == 'ite':
            a, b = self.eaten(t.args[1], F.assume(t.args[0]), streams), self.eaten(t.args[2], F.assume(t.args[0], False), streams)
            return None if a is None or b is None else min(a, b)
        return None
    def callee(self, c, F):
        role = c.args[0]
        if role in self.hp.PRE and F.decide_c(self.S.isk(c.args[1], *self.hp.PRE[role])) is True:
            return (role, True, None)
        if (role, False, None) not in self.nodes:
            self.missing.add((role, False, None))
        return (role, False, None)
    def walk(self, key, visit, leaf):
        t, f, s = self.nodes[key]
        seen = set()
        def scan(x, F):
            st = [x]
            while st:
                y = st.pop()
                if isinstance(y, tuple):
                    st += y
                elif isinstance(y, T):
                    if y.op == 'call':
                        visit(y, F)
                    st += y.args
        def go(t, F):
            if F.dead or t.op == 'panic':
                return
            if t.op == 'ite':
                scan(t.args[0], F)
                go(t.args[1], F.assume(t.args[0])); go(t.args[2], F.assume(t.args[0], False))
                return
            if t.op == 'call' and t.args[0].startswith('#'):
                for x in t.args[1:]:
                    scan(x, F)
                visit(t, F)
                leaf(t, F)
                return
            scan(t, F)
            leaf(t, F)
        go(t, f)
    def streams(self, key):
        t, f, s = self.nodes[key]
        if key[2] is None:
            return {s: 0}
        return {s[j]: 0 for j in self.parts[key]}
    def solve(self):
        # parts of loop states that are streams: by what the heads are called with
        self.parts = {k: set(range(len(v[2]))) for k, v in self.nodes.items() if k[2] is not None}
        self.eats = {k: 1 for k in self.nodes}
        for _ in range(30):
            for role, pre, i in sorted(self.missing):
                self.add(role, pre)
                for k, v in self.nodes.items():
                    if k not in self.eats:
                        self.eats[k] = 1
                        if k[2] is not None:
                            self.parts[k] = set(range(len(v[2])))
            self.missing = set()
            before = (dict(self.eats), {k: set(v) for k, v in self.parts.items()})
            self.edges = {}
            for key in self.nodes:
                st = self.streams(key)
                low = [None]
                def put(n):
                    low[0] = n if low[0] is None else min(low[0], n)
                def visit(c, F, key=key, st=st):
                    r = c.args[0]
                    if r.startswith('#'):
                        to = (key[0], key[1], int(r[1:]))
                        ns = []
                        for j, x in enumerate(c.args[1:]):
                            n = self.eaten(F.simp(x), F, st)
                            if n is None:
                                self.parts[to].discard(j)
                            elif j in self.parts[to]:
                                ns.append(n)
                        if not ns:
                            raise Unk(f'{key[0]}: a loop without tokens')
                        self.edge(key, to, min(ns), c)
                    elif r in self.hp.STREAM:
                        n = self.eaten(F.simp(c.args[1]), F, st)
                        if n is None:
                            raise Unk(f'{key[0]}: the tokens {r} is called with: {show(c.args[1])[:80]}')
                        self.edge(key, self.callee(c, F), n, c)
                def leaf(t, F, key=key, st=st):
                    if t.op == 'call':
                        to = (key[0], key[1], int(t.args[0][1:]))
                        ns = [self.eaten(F.simp(x), F, st) for j, x in enumerate(t.args[1:]) if j in self.parts[to]]
                        if ns and None not in ns:
                            put(min(ns) + self.eats[to])
                        return
                    if t.op != 'tuple' or len(t.args) != 2:
                        raise Unk(f'{key[0]}: result {show(t)[:60]}')
                    v, r = F.simp(t.args[0]), F.simp(t.args[1])
                    if v.op == 'adt' and v.args[1] == 'Err' or r is self.hp.DONE or F.decide_c(is_ok(v)) is False:
                        return
                    n = self.eaten(r, F, st)
                    if n is None:
                        raise Unk(f'{key[0]}: the rest of the tokens {show(r)[:80]}')
                    put(n)
                self.walk(key, visit, leaf)
                self.eats[key] = min(1, low[0] if low[0] is not None else 1)
            if before == (self.eats, self.parts) and not self.missing:
                return
        raise Unk('no fixed point of the tokens consumed')
    def edge(self, a, b, n, c):
        k = (a, b)
        self.edges[k] = min(n, self.edges.get(k, n))
    def cycles(self):
        """cycles of calls and steps of loops that consume no token"""
        g = {}
        for (a, b), n in self.edges.items():
            if n < 1:
                g.setdefault(a, set()).add(b)
        return cycle(g)

def cycle(g):
    color, path = {}, []
    def go(v):
        color[v] = 1
        path.append(v)
        for w in sorted(g.get(v, ()), key=str):
            if color.get(w) == 1:
                return path[path.index(w):] + [w]
            if w not in color:
                r = go(w)
                if r:
                    return r
        color[v] = 2
        path.pop()
        return None
    for v in sorted(g, key=str):
        if v not in color:
            r = go(v)
            if r:
                return r
    return None

# ---------------------------------------------------------------------------- the loops of a crate
LOCAL = ('core::clone::Clone', 'core::cmp::PartialEq')
def wanted(f):
    """the loops of this function belong to parsing or evaluation"""
    return 'rules::' not in f.path and not f.d.get('expn') and '_::' not in f.path and not any(x in f.path for x in LOCAL)

class Watch:
    """what the loops met while a function is summarised run over"""
    def __init__(self):
        import loops
        self.loops, self.seen, self.cur = loops, {}, []
        self.solve, self.iterate = loops.solve, loops.iterate
    def __enter__(self):
        me = self
        def solve(ip, fn, fr, h, st, stop):
            me.cur.append((fn.path, h))
            me.seen.setdefault(me.cur[-1], set())
            try:
                return me.solve(ip, fn, fr, h, st, stop)
            except Unk:
                me.seen[me.cur[-1]].add(('unk', None))
                raise
            finally:
                me.cur.pop()
        def iterate(ip, st0, src, *a, **k):
            if me.cur:
                kind, detail = src.op, None
                if src.op == 'range':
                    k_ = src.args[2]
                    F = st0.facts
                    ok = any(F.decide_c(c) is True for c in (lt(Int(0), k_), lt(k_, Int(0))))
                    kind, detail = 'range', None if ok else show(F.simp(k_))[:80]
                elif src.op == 'ite' and any(x.op in ('range', 'nat') for x in parts(src)):
                    kind, detail = 'range', 'several'
                if kind == 'nat':
                    try:
                        detail = me.direct(ip, st0, src, *a, **k)
                    except Exception:
                        detail = None
                me.seen[me.cur[-1]].add((kind, detail))
            return me.iterate(ip, st0, src, *a, **k)
        self.loops.solve, self.loops.iterate = solve, iterate
        return self
    def direct(self, ip, st0, src, body, iscont, changed, uid, livef=None):
        """a measure seen on the step of the loop itself"""
        lp = self.loops
        e, p = raw('el', uid), raw('pos', uid)
        st = st0.copy()
        st.facts = lp.elem_facts(st.facts, src, e, p)
        for k, h in changed.items():
            lp.put(ip, st, k, h)
        with lp.Quiet(ip):
            tree = body(st, e, p)
        keys = list(changed)
        ways = [([changed[k] for k in keys], [l[3].facts.simp(lp.get(l[3], k)) for k in keys], l[3].facts, e) for l in lp.leaves(tree) if iscont(l) and not l[3].facts.dead]
        return measured(ways)
    def __exit__(self, *a):
        self.loops.solve, self.loops.iterate = self.solve, self.iterate

def parts(t):
    return parts(t.args[1]) + parts(t.args[2]) if t.op == 'ite' else [t]

def endless_sources(c):
    """calls that make iterators without an end"""
    out = []
    for f in c.fns.values():
        if not wanted(f):
            continue
        for b in f.blocks:
            t = b['t']
            if not b['cleanup'] and t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('c') == 'fn':
                p = t[1][1]['path']
                if re.search(r'core::iter::(sources::)?(repeat|successors|from_fn|repeat_with|cycle)|::cycle$|RangeFrom', p):
                    out.append((f, p))
    return out

def summaries(ip, f):
    """the loops met in f, and the term of f"""
    with Watch() as w:
        args = [Sym(f'a{i}') for i in range(f.args)]
        t, st = interp.summarise(ip, f, args, Facts())
    return w.seen, t

FUEL = 700
class Fuel:
    def __enter__(self):
        self.f, ev.FUEL = ev.FUEL, FUEL
    def __exit__(self, *a):
        ev.FUEL = self.f

def rows_of(ip, f, t, texts, seconds=15):
    """a row on which the table of a function is in a state it was in before; None if none was found"""
    types = {f'a{i}': f.locals[i + 1] for i in range(f.args)}
    pools = ev.constants([t])
    t0, n = time.time(), 0
    with Fuel():
        for x in list(texts) + [None] * 4000:
            if time.time() - t0 > seconds:
                break
            n += 1
            ty = dict(types)
            if x is not None:
                ty['a0'] = lambda val, x=x: tuple(x)
            v = ev.Val(ip, ty, n, pools, {})
            try:
                v.ev(t)
            except ev.Diverge as e:
                return f'{repr(x) if x is not None else ev.describe(v, types)}: {e}'
            except (ev.NoEval, ev.Undef, AttributeError, IndexError, TypeError, KeyError, ValueError, RecursionError, OverflowError):
                continue
    return None

def samples(f, t, hand):
    """texts for a function that reads one"""
    import pescape, pref
    ty = f.crate.types[f.locals[1]] if f.args else {}
    if ty.get('k') != 'ref' or f.crate.types[ty['t']]['k'] != 'str':
        return []
    xs = [s for s in pescape.samples(1) + pescape.texts_of(pescape.constants(t)) if hand or pref.unescape(s) is not None]
    return xs + (pescape.malformed() if hand else [])

def loops(o, ip, skip):
    """one obligation per loop of the crate"""
    IP[id(ip.crate)] = ip
    c, todo = ip.crate, []
    endless = endless_sources(c)
    for f in sorted(c.fns.values(), key=lambda f: f.path):
        if not wanted(f) or not f.cfg.loops:
            continue
        for h, body in sorted(f.cfg.loops.items()):
            how = by_iterator(f, h, body)
            if how is not None:
                o.count('loops')
                o.ok(f'{f.path} loop {h}', f'driven by {how}')
            elif not skip(f):
                o.count('loops')
                todo.append((f, h))
    for f in dict.fromkeys(f for f, _ in todo):
        hs = [h for g, h in todo if g is f]
        got, t, left = {}, None, []
        try:
            got, t = summaries(ip, f)
        except Unk as e:
            left = [(h, str(e)) for h in hs]
        except Exception as e:
            left = [(h, f'internal: {type(e).__name__} {e}') for h in hs]
        if t is not None:
            nats = nat_binders(t)
            for h in hs:
                k = got.get((f.path, h))
                if not k:
                    left.append((h, 'not met'))
                    continue
                bad = [y for x, y in k if x == 'range' and y] + [x for x, _ in k if x == 'unk']
                if bad:
                    left.append((h, f'runs over {bad}'))
                    continue
                how = [x for x, _ in k if x != 'nat']
                if any(x == 'nat' for x, _ in k) and all(y for x, y in k if x == 'nat'):
                    how += [y for x, y in k if x == 'nat']
                elif any(x == 'nat' for x, _ in k):
                    try:
                        ms = [measure(b, Facts()) for b in nats] or [None]
                    except Unk:
                        ms = [None]
                    if None in ms:
                        left.append((h, 'a loop without a measure'))
                        continue
                    how += ms
                elif endless and not all(x in ('range', 'nth', 'fld') for x in how):
                    left.append((h, f'what {endless[0][1]} is used for'))
                    continue
                o.ok(f'{f.path} loop {h}', ' / '.join(dict.fromkeys(how)))
        if not left:
            continue
        w = None
        if t is not None:
            try:
                w = rows_of(ip, f, t, samples(f, t, o.short == 'hand'))
            except Exception as e:
                left = [(h, f'{y}; rows: {type(e).__name__} {e}') for h, y in left]
        for h, why in left:
            if w is not None:
                o.violate(f'{f.path} loop {h}', f'the loop does not end on {w[:400]}', function=f.path)
            else:
                o.undec(f'{f.path} loop {h}', why)

def local_calls(c):
    """function -> local functions it calls or mentions; a function mentions the closures written in it"""
    name = lambda f: f.path if '::{closure' not in f.path else f'{f.path}#{f.id}'
    by = {}
    for f in c.fns.values():
        if wanted(f):
            by.setdefault(name(f), []).append(f)
    ids = {f.id: name(f) for fs in by.values() for f in fs}
    out = {}
    for h, fs in by.items():
        out[h] = set()
        for f in fs:
            st = [[b['s'], b['t']] for b in f.blocks if not b['cleanup']]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('c') == 'fn' and x.get('id') in ids:
                        out[h].add(ids[x['id']])
                    r = x.get('res')
                    if isinstance(r, dict) and r.get('id') in ids:
                        out[h].add(ids[r['id']])
                    st += list(x.values())
                elif isinstance(x, list):
                    st += x
    for h in list(out):
        if '::{closure' in h:
            out.setdefault(h.split('::{closure')[0], set()).add(h)
    return out

def by_own_iterator(f):
    """a method that calls itself only after an iterator it holds has given an element"""
    cfg, c = f.cfg, f.crate
    mine = [b for b in range(len(f.blocks)) if f.blocks[b]['t'][0] == 'call' and not f.blocks[b]['cleanup'] and f.blocks[b]['t'][1][0] == 'k'
            and f.id in (f.blocks[b]['t'][1][1].get('id'), (f.blocks[b]['t'][1][1].get('res') or {}).get('id') if isinstance(f.blocks[b]['t'][1][1].get('res'), dict) else None)]
    defs = roots(f)
    for b in range(len(f.blocks)):
        t = f.blocks[b]['t']
        if t[0] != 'call' or f.blocks[b]['cleanup'] or t[1][0] != 'k' or t[1][1].get('c') != 'fn' or t[1][1]['path'].split('::')[-1] not in ('next', 'next_back') or b in mine:
            continue
        k = t[1][1]
        if not k['args'] or not isinstance(k['args'][0], int) or not finite_type(c, k['args'][0]) or t[3] is None or not mine or not all(cfg.dominates(b, x) for x in mine):
            continue
        place = resolve(f, defs, t[2][0])
        if place is None or not 1 <= place[0] <= f.args:
            continue
        def handed(x):
            """the call is given the iterator, or what holds it"""
            ops = f.blocks[x]['t'][2]
            q = resolve(f, defs, ops[place[0] - 1]) if len(ops) >= place[0] else None
            if q is None or q[0] != place[0]:
                return False
            a, b = [y for y in q[1] if y != '*'], [y for y in place[1] if y != '*']
            return b[:len(a)] == a
        if not all(handed(x) for x in mine):
            continue
        for x in range(len(f.blocks)):
            y = f.blocks[x]['t']
            if y[0] != 'switch' or not cfg.dominates(b, x) or not all(cfg.dominates(x, z) for z in mine):
                continue
            sw = y[1][1][0] if y[1][0] in ('mv', 'cp') else None
            d = [r for r in defs.get(sw, []) if isinstance(r, list) and r[0] == 'discr' and held(defs, r[1], t[3][0])]
            none = [g for v, g in y[3] if str(v) == '0']
            if d and none:
                seen, st = set(), [none[0]]
                while st:
                    z = st.pop()
                    if z not in seen:
                        seen.add(z)
                        st += cfg.succ[z]
                if not seen & set(mine):
                    return c.show_ty(k['args'][0])
    return None

def covered(o, c, fns):
    """every cycle of calls of the crate goes through a function whose calls have been analysed"""
    g = local_calls(c)
    have = {f.path for f in fns if f is not None}
    for f in c.fns.values():
        if f.path not in have and f.path in g.get(f.path, ()) and '{closure' not in f.path and by_own_iterator(f):
            g[f.path] = g[f.path] - {f.path}
    w = cycle({k: v - have for k, v in g.items() if k not in have})
    n = sum(len(v) for v in g.values())
    if w is None:
        o.ok('recursion outside of these functions', f'{n} calls between {len(g)} functions')
    else:
        o.undec('recursion outside of these functions', ' -> '.join(w))

def rests(t, known, src, depth=0):
    """the parameters of which the list is a proper rest: what is left of the same sequence"""
    if depth > 40:
        return set()
    if t.op == 'ite':
        return rests(t.args[1], known, src, depth + 1) & rests(t.args[2], known, src, depth + 1)
    if t.op in ('drop', 'take') and len(t.args) > 1:
        # all but a constant number of elements: halves of a list would be another matter
        n = t.args[1] if t.op == 'drop' else sub(length(t.args[0]), t.args[1])
        if n.op == 'int' and n.args[0] >= 1:
            return {k for k, r in origin(t.args[0], known, src) if r == '='} | rests(t.args[0], known, src, depth + 1)
        return set()
    if t.op in ('rev', 'enum'):
        return rests(t.args[0], known, src, depth + 1)
    return set()

def depth(o):
    """recursion of the evaluation goes to nested parts only (P31)"""
    import pspec, panalysis
    X = o.X
    c, ip = X.crate, X.ip
    IP[id(c)] = ip
    ip.scans = True
    where = lambda f: f.path
    evals = [X.A.get(r) for r in EVALS(o)]
    g = local_calls(c)
    # the functions of the parser call each other as deep as the text of the query nests
    try:
        P = pspec.PCtx(o.short)
        parser = {P.A.get(r).path for r, _, _ in panalysis.obligations(P) if P.A.get(r) is not None}
    except Unk:
        parser = set()
    by = {}
    for f in c.fns.values():
        if wanted(f) and '{closure' not in f.path:
            by.setdefault(f.path, f)
    have = {f.path for f in evals if f is not None}
    bad = set()
    for p, f in sorted(by.items()):
        if p not in g.get(p, ()) or p in parser or p in have:
            continue
        o.count('functions that call themselves')
        how = by_own_iterator(f)
        if how is not None:
            bad.add(p)
            o.violate(f'{p} calls itself', f'{where(f)} calls itself once per element of {how}: its depth is the number of elements', function=p)
            g[p] = g[p] - {p}
            continue
        def one(f=f, p=p):
            g[p] = g[p] - {p}
            v = selfcalls(o, X, f)
            if v is not None:
                bad.add(p)
                o.violate(f'{p} calls itself', f'{where(f)} calls itself {v}: its depth is the number of elements', function=p)
            else:
                o.ok(f'{p} calls itself', 'for a part nested in an argument')
        o.run(f'{p} calls itself', one)
    for _ in range(20):
        w = cycle({k: v - have - parser for k, v in g.items() if k not in have and k not in parser})
        f = next((by[p] for p in w or () if p in by), None)
        if f is None:
            break
        have.add(f.path)
        def round_(f=f, w=w):
            v = selfcalls(o, X, f)
            if v is not None:
                o.violate(' -> '.join(w), f'{where(f)} calls itself {v}, through {" -> ".join(w)}: its depth is the number of elements', function=f.path)
            else:
                o.ok(' -> '.join(w), 'for a part nested in an argument')
        o.run(' -> '.join(w), round_)
    n = sum(len(v) for v in g.values())
    o.count('calls between functions', n)
    if w is None:
        o.ok('cycles of calls', f'{n} calls between {len(g)} functions, no other cycle')
    else:
        o.undec('cycles of calls', ' -> '.join(w))
    def roles_():
        tabs = []
        for role in EVALS(o):
            a = X.args(role)
            tabs.append((role, X.summary(role, a), {x: [((i,), '=')] for i, x in enumerate(a)}))
        edges, byrole = set(), {}
        for role, t, known in tabs:
            cs, src = calls_of(t)
            for x in cs:
                a = arcs(x, known, src)
                edges.add((role, x.args[0], a))
                if x.args[0] == role:
                    byrole.setdefault(role, []).append((x, a, known, src))
        w = sizechange(edges)
        o.count('calls of evaluation functions', len(edges))
        if w is None:
            o.ok('recursion of the evaluation', f'{len(edges)} calls, every cycle of them goes to a nested part of an argument')
            return
        for role, cs in byrole.items():
            for x, a, known, src in cs:
                if any(r == '<' and k == l for k, r, l in a):
                    continue
                how = along(Call(x, ()), list(known), known, src)
                if how is not None:
                    o.violate('recursion of the evaluation', f'{o.where(role)} calls itself {how}: its depth is the number of elements', function=o.where(role))
                    return
        o.undec('recursion of the evaluation', 'nothing nested in ' + ' -> '.join(w))
    o.run('recursion of the evaluation', roles_)

def advanced(y, p, kept):
    """is the integer the parameter and a constant, or something that stays the same?"""
    if y.op == 'ite':
        b = [z for z in y.args[1:] if z.op != 'int']
        return bool(b) and all(advanced(z, p, kept) for z in b)
    if y.op != 'lin':
        return False
    d = sub(y, p)
    return d.op == 'int' and d.args[0] != 0 or kept(d)

def along(x, args, known, src):
    """does the call go on with the same things and the rest of a list, or a counter that was advanced?"""
    how = None
    for j, y in enumerate(x.args[1:]):
        if not isinstance(y, T):
            return None
        if any(k == (j,) for k in rests(y, known, src)):
            how = 'for the rest of the list it is given'
        elif y is args[j] or y.op == 'sym' or y.op in ('int', 'bool', 'unit') or y.op == 'tuple' and not y.args:
            continue
        elif advanced(y, args[j], lambda d: d in args and x.args[1 + args.index(d)] is d):
            how = how or 'with a counter that was advanced'
        elif j in x.cells:
            continue            # what has been collected so far
        else:
            return None
    return how

class Call:
    def __init__(self, x, cells):
        self.args, self.cells = x.args, cells

def selfcalls(o, X, f):
    """None if every call of itself goes to a nested part; how it does not; Unk if that is not known"""
    import loops as L
    ip, met = X.ip, []
    def cb(ip_, st, args, ctx=None):
        a2 = [ip.deep(st, a) for a in args]
        for a in args:
            if a.op == 'ptr':
                ip.store_ptr(st, a, Sym('after' + fresh()))
        met.append(raw('call', 'self', *a2))
        return met[-1]
    old = ip.roles.get(f.id)
    ip.roles[f.id] = cb
    try:
        args = X.symbols(f)
        st0 = interp.State({}, Facts())
        a2 = []
        for i, x in enumerate(args):
            t = ip.ty(f.locals[i + 1])
            a2.append(ip.ptr(ip.new_cell(st0, x)) if t['k'] == 'ref' and t.get('mut') else x)
        ip.steps = 0
        tree = ip.call_fn(f, a2, st0)
        ts = []
        for l in interp.leaves(tree):
            ts.append(ip.deep(l[3], l[2]))
            ts += [ip.deep(l[3], l[3].mem[a.args[0]]) for a in a2 if a.op == 'ptr' and a.args[0] in l[3].mem]
    finally:
        if old is None:
            ip.roles.pop(f.id, None)
        else:
            ip.roles[f.id] = old
    cells = {i for i, a in enumerate(a2) if a.op == 'ptr'}
    known = {x: [((i,), '=')] for i, x in enumerate(args)}
    found = []
    for t in ts:
        cs, src = calls_of(t)
        found += [(x, src) for x in cs if x.args[0] == 'self']
    if not found:
        # its result is not used
        found = [(x, L.SOURCES) for x in dict.fromkeys(met)]
    n = len(found)
    for x, src in found:
        a = arcs(x, known, src)
        if any(r == '<' and k == l for k, r, l in a):
            continue
        how = along(Call(x, cells), args, known, src)
        if how is not None:
            return how
        raise Unk('a call of itself with arguments that are not seen to be nested')
    if not n:
        raise Unk('its calls of itself are not seen')
    return None

def run(o):
    import interp as I
    if o.short == 'hand':
        ip = I.Interp('hand')
        ip.scans = True
        loops(o, ip, lambda f: f.path.startswith(('lexer::', 'parser::Parser::')))
        good = lexer(o)
        good = tokens(o) and good
        o.run('recursion outside of these functions', lambda: outside_hand(o))
        if not good:
            hand_rows(o)
        return
    if o.short in ('pest', 'recursive'):
        ip = I.Interp(o.short)
    else:
        ip = o.X.ip
    ip.scans = True
    loops(o, ip, lambda f: False)
    if EVALS(o):
        o.run('recursion of the evaluation', lambda: evaluators(o))
    o.run('recursion of the parser', lambda: parsers(o))

def outside_hand(o):
    import hand, hparse
    X = hand.HCtx()
    covered(o, X.ip.crate, [X.A.get(r) for r in hparse.STREAM] + pure(o, X, hparse.PURE))

def pure(o, X, names):
    """functions of the parser that read no tokens: what they call themselves with"""
    tabs, fns = [], []
    for r in names:
        f = X.A.get(r)
        if f is None or r in ('tokens', 'parse'):
            continue
        a = X.syms_of(r)
        tabs.append((r, interp.tree_term(X.run(r, a), lambda l: Tup(*l[1:])) if o.short == 'hand' else X.run(r, a), {x: [((i,), '=')] for i, x in enumerate(a)}))
        fns.append(f)
    w = recursion(o, tabs, 'recursion of the rules of types')
    if w is not None:
        raise Unk('nothing gets smaller in ' + ' -> '.join(w))
    return fns

def tokens(o):
    ok = [False]
    def f():
        import hand, hparse
        X = hand.HCtx()
        K = Tokens(X, hparse.HSpec(X))
        K.solve()
        o.count('calls and steps of loops of the parser', len(K.edges))
        w = K.cycles()
        if w is not None:
            raise Unk('no token consumed in ' + ' -> '.join(f'{r}{"" if i is None else f" loop {i}"}' for r, _, i in w))
        o.ok('tokens consumed', f'{len(K.nodes)} functions and loops, {len(K.edges)} calls and steps, no cycle that consumes nothing')
        ok[0] = True
    o.run('tokens consumed', f)
    return ok[0]

def hand_rows(o):
    """texts on which the tables of the hand written parser come back to where they were"""
    import hrows, panalysis, pairs
    T = hrows.Tables()
    M = hrows.Model(T)
    M.stack = []
    T.H.peg = pairs.Peg(file=base.os.path.join(base.VERIF, 'sa', 'query.pest'))
    for q in ("$['a\\u0041','b',1:2]..b[?@.a==-1.5e2 && length(@.c)>0||!(count(@.*)==1)]", '$[0]', '$.*', '$[1]'):      # tables computed once
        try:
            M.parse(q)
        except Exception:
            pass
    confirm(o, M, list(dict.fromkeys(hrows.lexer_texts(M) + panalysis.queries(T.H) + hrows.NEST)), 'lexer and parser')

def confirm(o, M, qs, label, seconds=150):
    import panalysis
    limit = time.time() + seconds
    def run(qs):
        n = 0
        with Fuel():
            for q in qs:
                if time.time() > limit:
                    break
                M.stack = []
                try:
                    M.parse(q)
                except ev.Diverge as e:
                    return n, (q, str(e))
                except panalysis.Panicked:
                    pass
                except (ev.NoEval, ev.Undef, AttributeError, IndexError, RecursionError, TypeError, KeyError, ValueError):
                    continue
                n += 1
        return n, None
    got = [r for r in base.parallel(run, [q for q in qs if len(q) <= 120]) if r is not None]
    o.count('rows (texts) evaluated in the tables', sum(n for n, _ in got))
    for _, w in got:
        if w is not None:
            o.violate(label, f'parsing does not end on the text {w[0]!r}: {w[1]}')
            return True
    return False

# ---------------------------------------------------------------------------- the lexer of the hand written parser
def tree_parts(t):
    if t is None:
        return []
    return [t[1]] + tree_parts(t[2]) + tree_parts(t[3]) if t[0] == 'fork' else [x for x in t[1:] if isinstance(x, T)]

def inside_run(rs, cls):
    import facts
    return bool(rs) and not facts.without(rs, cls)

def idle_edges(L, S, n, tree, f):
    """[(state function, state, what the character at the position may be)]: steps that may leave the position where it is"""
    import facts
    k, out = Sym('k'), []
    get = lambda lx, x: lx.args[2 + L.names.index(x)] if lx.op == 'adt' else fld(lx, L.vn, L.names.index(x))
    def go(t, f):
        if t is None or f.dead:
            return
        if t[0] == 'fork':
            go(t[2], f.assume(t[1], True))
            go(t[3], f.assume(t[1], False))
            return
        st, lx = t[1], t[2]
        if st.op != 'adt':
            raise Unk(f'{n}: next state')
        name = st.args[1].split('::')[-1]
        if name in ('Error', 'EndOfQuery'):
            return
        k2 = f.simp(get(lx, 'chars').args[3])
        chars = facts.known_chars(f)[1]
        # a run that starts at a character of its class is not empty
        todo, st = [], [k2] + [c for c, _ in f.trail]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st += x
            elif isinstance(x, T):
                st += x.args
                if x.op == 'run' and x not in todo:
                    todo.append(x)
        for x in todo:
            q, i, cls = x.args[:3]
            if f.decide_c(lt(i, length(q))) is True and inside_run(chars.get(nth(q, i), ALL), cls):
                f = f.assume(le(Int(1), x))
                if f.dead:
                    return
        if f.decide_c(le(add(k, Int(1)), k2)) is True:
            return
        less = f.decide_c(lt(k2, length(S.q)))
        rs = [] if less is False else list(facts.known_chars(f)[1].get(nth(S.q, k2), ALL))
        out.append((n, name, rs + ([] if less is True else [(-1, -1)])))
    go(tree, f)
    return out
ALL = [(0, 0x10FFFF)]

def meet(a, b):
    return [(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b if max(x[0], y[0]) <= min(x[1], y[1])]

def idle_cycle(edges, entered):
    """a cycle of states that some character (or the end of the text) leads through without being consumed"""
    g = {}
    for a, b, rs in edges:
        g.setdefault(a, []).append((entered.get(b, 'lex_string'), rs))
    def go(path, rs):
        for b, r in g.get(path[-1], ()):
            m = meet(rs, r)
            if not m:
                continue
            if b == path[0]:
                return path + [b], m
            if b not in path:
                w = go(path + [b], m)
                if w:
                    return w
        return None
    for a in sorted(g):
        w = go([a], ALL + [(-1, -1)])
        if w:
            return w
    return None

def lexer(o):
    """every loop of a state of the lexer has a measure, and no cycle of states leaves the position where it is"""
    import hand, hcheck, hspec
    L = hand.LCtx()
    S = hspec.LSpec(L)
    idle, good = [], []
    for n in hand.STATES:
        def one():
            how = []
            for c in ("'\"" if n == 'lex_string' else ' '):
                lx, f = L.entry(n)
                more = [Char(ord(c)), Sym('next')] if n == 'lex_string' else []
                tree = L.run(n, L.lexer(**lx), f, *more)
                for b in dict.fromkeys(x for t in tree_parts(tree) for x in nat_binders(t)):
                    m = measure(b, f)
                    if m is None:
                        raise Unk(f'a loop of {L.fn(n).path} without a measure')
                    how.append(m)
                if n == 'lex_string':
                    ok, r, _, _ = hcheck.string_table(L, S, ord(c))
                    if not ok:
                        raise Unk('what the scan of a string consumes')
                    continue
                S.step(n, lx)                   # tells S what the lexer is before the step
                bad, _, k = hcheck.invariant(L, S, n, tree, f)
                if bad:
                    raise Unk(f'entry conditions {bad[0]}')
                o.count('transitions', k)
                idle.extend(idle_edges(L, S, n, tree, f))
            good.append(n)
            o.ok(f'state {n}', ' / '.join(dict.fromkeys(how)) or 'runs of characters only')
        o.run(f'state {n}', one)
    label = 'cycle of states'
    def whole():
        if len(good) != len(hand.STATES):
            raise Unk('not all states analysed')
        bad, _ = hcheck.dispatch_table(L, S)
        if bad:
            raise Unk(f'dispatch {bad[0]}')
        w = idle_cycle(idle, {v: k for k, v in hand.STATES.items() if v})
        if w is not None:
            raise Unk(f'nothing consumed in {" -> ".join(w[0])} at characters {w[1][:3]}')
        o.ok(label, f'{len(idle)} steps that may consume nothing, no cycle of them')
    o.run(label, whole)
    return not any(k == 'undec' and (': state ' in l or label in l) for k, l, _, _ in o.out)

# ---------------------------------------------------------------------------- recursion: size change
PARTS = ('drop', 'take', 'rev', 'enum', 'values', 'keys', 'entries', 'mvals', 'mkeys', 'ments', 'chain', 'mget', 'hget', 'nth', 'last', 'zip', 'sorted')
def calls_of(t):
    """[calls of cut functions], with the sequences the elements in them come from"""
    out, seen, src, st = [], set(), {}, [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'call':
            out.append(x)
        if x.op in TM.BINDERS:
            u = fresh()
            e = raw('el', u)
            src[e] = x.args[1]
            bodies = TM.binder_bodies(x)
            st += open_(x, e, raw('pos', u), Sym('A' + u) if x.op in ('tryfold', 'fold') else None)
            st += [a for a in x.args[1:] if isinstance(a, T) and a not in bodies]
            continue
        st += x.args
    return out, src

def origin(t, known, src, depth=0):
    """[(parameter, '=' or '<')]: what the value is, or is part of"""
    if t in known:
        return known[t]
    if depth > 40:
        return []
    less = lambda rs: [(k, '<') for k, _ in rs]
    o = t.op
    if o == 'ite':
        a, b = dict(origin(t.args[1], known, src, depth + 1)), dict(origin(t.args[2], known, src, depth + 1))
        return [(k, '<' if a[k] == b[k] == '<' else '=') for k in a if k in b]
    if o == 'fld':
        rs = origin(t.args[0], known, src, depth + 1)
        out = less(rs)
        return out + [(k + (t.args[2],), '=') for k, r in rs if r == '=' and len(k) == 1]
    if o == 'el':
        return less(origin(src[t], known, src, depth + 1)) if t in src else []
    if o in ('nth', 'mget', 'hget'):
        return less(origin(t.args[0], known, src, depth + 1))
    if o in ('drop', 'take', 'rev', 'enum', 'entries', 'values', 'keys') or o in PARTS:
        return origin(t.args[0], known, src, depth + 1)
    return []

def arcs(c, known, src):
    """how the arguments of a call lie in the parameters of the caller"""
    out = set()
    def put(key, t):
        for k, r in origin(t, known, src):
            out.add((k, r, key))
    for j, a in enumerate(c.args[1:]):
        if not isinstance(a, T):
            continue
        put((j,), a)
        if a.op == 'tuple' or a.op == 'adt' and '::' not in a.args[1]:
            for i, x in enumerate(a.args if a.op == 'tuple' else a.args[2:]):
                if isinstance(x, T):
                    put((j, i), x)
        else:
            for k, r in origin(a, known, src):
                if r == '=' and len(k) == 1:
                    out |= {(k + (i,), '=', (j, i)) for i in range(6)}
    return frozenset(out)

def compose(a, b):
    d = {}
    for x, r, y in a:
        for y2, s, z in b:
            if y == y2:
                d[(x, z)] = '<' if '<' in (r, s) or d.get((x, z)) == '<' else '='
    return frozenset((x, r, z) for (x, z), r in d.items())

def sizechange(edges, limit=20000):
    """edges: {(caller, callee, arcs)}; a function that may call itself for ever, with the calls, or None"""
    es = {e: [e] for e in edges}
    work = list(es)
    while work:
        a = work.pop()
        for b in list(es):
            for x, y in ((a, b), (b, a)):
                if x[1] != y[0]:
                    continue
                e = (x[0], y[1], compose(x[2], y[2]))
                if e not in es:
                    es[e] = es[x] + es[y]
                    work.append(e)
                    if len(es) > limit:
                        raise Unk('too many chains of calls')
    for e, path in sorted(es.items(), key=lambda z: len(z[1])):
        if e[0] == e[1] and compose(e[2], e[2]) == e[2] and not any(r == '<' and k == l for k, r, l in e[2]):
            return [p[0] for p in path] + [e[1]]
    return None

def call_edges(role, t, known):
    cs, src = calls_of(t)
    return {(role, c.args[0], arcs(c, known, src)) for c in cs}

def recursion(o, tables, label='recursion of the parser'):
    """tables: [(role, term, {term: [(parameter, relation)]})]"""
    edges, n = set(), 0
    for role, t, known in tables:
        e = call_edges(role, t, known)
        n += len(e)
        edges |= e
    o.count('calls between functions', n)
    w = sizechange(edges)
    if w is None:
        o.ok(label, f'{n} calls, every cycle of them goes to a part of an argument')
    return w

def known_pair(a):
    """the parts of the parse tree a function is given"""
    out = {}
    for i, x in enumerate(a):
        out[x] = [((i,), '=')]
        if x.op == 'adt' and x.args[1] == 'PestPair':
            st = [x.args[4]]
            while st:
                y = st.pop()
                if isinstance(y, tuple):
                    st += y
                elif isinstance(y, T):
                    if y.op == 'sym':
                        out[y] = [((i,), '<')]
                    st += y.args
    return out

def parsers(o):
    import pspec, panalysis
    X = pspec.PCtx(o.short)
    tabs = []
    for role, rule, sh in panalysis.obligations(X):
        a, f = panalysis.inputs(X, role, rule, sh)
        tabs.append((role, TM.fuse(X.run(role, a, f)), known_pair(a)))
    w = recursion(o, tabs)
    o.run('recursion outside of these functions', lambda: covered(o, X.ip.crate, [X.A.get(r) for r, _, _ in tabs] + [o.X.A.get(r) for r in EVALS(o)]))
    if w is not None:
        M = panalysis.Model(X)
        M.stack = []
        confirm(o, M, panalysis.queries(X), 'recursion of the parser', 100) or o.undec('recursion of the parser', 'nothing gets smaller in ' + ' -> '.join(w))

def EVALS(o):
    import roles
    return [r for r in roles.TABLE[o.short] if o.X.A.get(r) is not None and r != 'standard'] if o.short in roles.TABLE and o.short != 'hand' else []

def evaluators(o):
    X = o.X
    tabs = []
    for role in EVALS(o):
        a = X.args(role)
        tabs.append((role, X.summary(role, a), {x: [((i,), '=')] for i, x in enumerate(a)}))
    w = recursion(o, tabs, 'recursion of the evaluation')
    if w is None:
        return
    hit = deep(X, {r: (t, list(k)) for r, t, k in tabs}, w)
    if hit is not None:
        o.violate('recursion of the evaluation', f'{o.where(w[0])}: {hit[:400]}', function=o.where(w[0]))
    else:
        o.undec('recursion of the evaluation', 'nothing gets smaller in ' + ' -> '.join(w))

def deep(X, tabs, cyc, seconds=30):
    """arguments with which the functions of a cycle call each other for ever"""
    names = set(cyc)
    pools = ev.constants([tabs[r][0] for r in names])
    t0, n = time.time(), 0
    while time.time() - t0 < seconds and n < 3000:
        n += 1
        stack = []
        def called(role):
            def cb(val, args):
                for r, old in stack:
                    if r == role and all(same(x, y) for x, y in zip(old, args)):
                        raise ev.Diverge(f'{role} is called with what it was given')
                if len(stack) > 60:
                    raise ev.NoEval('depth')
                stack.append((role, args))
                try:
                    t, syms = tabs[role]
                    ty = {s.args[0]: (lambda v, x=x: x) for s, x in zip(syms, args)}
                    v = ev.Val(X.ip, ty, n, pools, {**X.roles, **{r: called(r) for r in names}})
                    return v.ev(t)
                finally:
                    stack.pop()
            return cb
        r = cyc[0]
        t, syms = tabs[r]
        v = ev.Val(X.ip, X.types, n, pools, {**X.roles, **{x: called(x) for x in names}})
        try:
            stack.append((r, [v.ev(s) for s in syms]))
            v.ev(t)
        except ev.Diverge as e:
            return f'{ev.describe(v, X.types)[:300]}: {e}'
        except (ev.NoEval, ev.Undef, AttributeError, IndexError, TypeError, KeyError, ValueError, RecursionError, OverflowError):
            continue
    return None

def same(x, y):
    """the same argument, or one that has grown at its end"""
    try:
        return ev.repeats(x, y)
    except Exception:
        return False
