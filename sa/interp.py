"""Value flow analysis of MIR: gated (decision tree) summaries of functions over the term domain.

Every function is summarised as a decision tree whose leaves are terms over its parameters.  Branches are
merged at post dominators, loops are summarised from their update functions (no unrolling of symbolic loops),
calls are inlined through summaries of crate functions, models of library functions, or named roles.
"""
import re
import mir, base
from term import *
import term as TM
from facts import Facts, atoms_of

INT_RANGE = {}
for b in (8, 16, 32, 64, 128):
    INT_RANGE[f'i{b}'] = (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    INT_RANGE[f'u{b}'] = (0, (1 << b) - 1)
INT_RANGE['isize'] = INT_RANGE['i64']
INT_RANGE['usize'] = INT_RANGE['u64']

PANIC = raw('panic')
TRANSPARENT = {'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::rcs::rc::Rc', 'alloc::rc::Rc',
               'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling'}

class State:
    __slots__ = ('mem', 'facts')
    def __init__(self, mem, facts):
        self.mem, self.facts = mem, facts
    def copy(self):
        return State(dict(self.mem), self.facts)
    def with_facts(self, f):
        return State(dict(self.mem), f)

# trees: ('leaf', kind, payload, state)  ('fork', cond, t, f)  None (dead)
def Leaf(kind, payload, st): return ('leaf', kind, payload, st)
def map_leaves(tree, f):
    if tree is None:
        return None
    if tree[0] == 'leaf':
        return f(tree)
    a, b = map_leaves(tree[2], f), map_leaves(tree[3], f)
    if a is None:
        return b
    if b is None:
        return a
    return ('fork', tree[1], a, b)
def leaves(tree):
    if tree is None:
        return []
    if tree[0] == 'leaf':
        return [tree]
    return leaves(tree[2]) + leaves(tree[3])
def tree_term(tree, f):
    """decision term of f(leaf); dead branches are ignored"""
    if tree[0] == 'leaf':
        return f(tree)
    return ite(tree[1], tree_term(tree[2], f), tree_term(tree[3], f))

class Closure:
    pass

def get_path(v, path):
    for variant, i in path:
        v = nth(v, i) if variant == '@' else fld(v, variant, i)
    return v

class Interp:
    MAXDEPTH = 40
    def __init__(self, short):
        self.crate = mir.load(short)
        self.short = short
        self.nframe = 0
        self.stack = []
        self.active_loops = set()
        self.roles = {}          # fn id -> callable(interp, state, args) -> term  (recursion cut points)
        self.panics = []         # (fn path, kind, detail, facts)
        self.lru = []            # accesses of an LRU cache: (get|push, cache, key, value, facts)
        self.inlined = set()
        self.calls = 0
        self.gen = None
        self.paths = False       # keep the paths through a function apart (no merging at joins and calls)
        self.offsets = False     # byte offsets of texts as boff(text, position)
        self.unknown = set()
        self.seqvals = set()     # opaque accumulators that stand for the sequence of an iterator
        self.hooks = {}          # callee path -> model override
        self.steps = 0
        self.limit = 400000
        self.events = []
        self.loops_solved = 0
        import models
        self.models = models
        self.bslice_check = None
        self.inline_display = False
        self.activate()
    def activate(self):
        """make the types of this crate the current ones"""
        for a in self.crate.adts.values():
            if a['path'] not in TRANSPARENT and a['path'] not in SHORT:
                register(a['path'], [(self.vn(a, i), len(v['fields'])) for i, v in enumerate(a['variants'])])

    # ------------------------------------------------------------ types
    def vn(self, a, i):
        return vname(a['path'], a['variants'][i]['name'], len(a['variants']))
    def ty(self, i):
        return self.crate.types[i]
    def adt_of(self, i):
        """adt record (variants) of a type index, looking through references and boxes"""
        t = self.ty(i)
        while True:
            if t['k'] == 'ref' or t['k'] == 'ptr':
                t = self.ty(t['t'])
            elif t['k'] == 'adt' and t['path'] in TRANSPARENT:
                t = self.ty([x for x in t['args'] if isinstance(x, int)][0])
            else:
                break
        if t['k'] == 'adt':
            return self.crate.adts.get(t['id'])
        return None
    def peel(self, i):
        t = self.ty(i)
        while t['k'] in ('ref', 'ptr') or t['k'] == 'adt' and t['path'] in TRANSPARENT:
            i = t['t'] if t['k'] != 'adt' else [x for x in t['args'] if isinstance(x, int)][0]
            t = self.ty(i)
        return i
    def note_type(self, v, i):
        """remember type information of an opaque term: integer bounds, variants"""
        if v.op in ('fld', 'sym', 'nth', 'el', 'hav', 'acc', 'spec', 'call', 'ext', 'rec', 'cval') or v.op not in ('adt', 'int', 'lin', 'bool', 'str', 'ite'):
            t = self.ty(i)
            if t['k'] in ('int', 'uint'):
                if v not in TM.INTB and v.op != 'lin':
                    TM.INTB[v] = INT_RANGE[t['n']]
            elif t['k'] == 'char':
                pass
            else:
                self.note_adt(v, self.peel(i))
        return v
    def note_adt(self, v, i):
        t = self.ty(i)
        if t['k'] == 'adt' and v.op not in ('adt', 'ite'):
            a = self.crate.adts.get(t['id'])
            if a and a['path'] in (OPTION, RESULT):
                UNIVERSE.setdefault(v, OPTU if a['path'] == OPTION else RESU)
                ts = [x for x in t['args'] if isinstance(x, int)]
                for n, x in zip(('Some',) if a['path'] == OPTION else ('Ok', 'Err'), ts):
                    self.note_payload(v, n, x)
            elif a and v.op in ('sym', 'el', 'nth', 'fld', 'call'):
                key = (self.short, v, i)
                if key not in self._noted:
                    self._noted.add(key)
                    for n, x in enumerate(a['variants']):
                        for k, f in enumerate(x['fields']):
                            ft = f.get('ty') if isinstance(f, dict) else f
                            if isinstance(ft, int):
                                self.note_payload(v, self.vn(a, n), ft, k)
    _noted = set()
    def note_payload(self, v, variant, ti, k=0):
        x = self.ty(ti)
        if x['k'] in ('int', 'uint'):
            TM.INTB.setdefault(raw('fld', v, variant, k), INT_RANGE[x['n']])
        elif x['k'] == 'adt' and x['path'] in SHORT:
            self.note_adt(raw('fld', v, variant, k), ti)

    # ------------------------------------------------------------ memory
    def new_cell(self, st, v, name='h'):
        c = (fresh(name), 0)
        st.mem[c] = v
        return c
    def ptr(self, cell, path=()):
        return raw('ptr', cell, tuple(path))
    def load_ptr(self, st, p):
        if p.op == 'ite':
            return ite(p.args[0], self.load_ptr(st, p.args[1]), self.load_ptr(st, p.args[2]))
        if p.op != 'ptr':
            return p
        v = st.mem.get(p.args[0])
        if v is None:
            raise Unk('read of an undefined cell')
        r = get_path(v, p.args[1])
        return r
    def deref(self, st, v):
        """value behind references"""
        while v.op == 'ptr' or v.op == 'ite' and self.has_ptr(v):
            v = self.load_ptr(st, v)
        return v
    def has_ptr(self, v):
        return v.op == 'ptr' or v.op == 'ite' and (self.has_ptr(v.args[1]) or self.has_ptr(v.args[2]))
    def deep(self, st, v, n=0):
        """value with all pointers inside replaced by what they point to (snapshot)"""
        if not self._contains_ptr(v):
            return v
        def f(t):
            if t.op == 'ptr':
                return self.deep(st, self.load_ptr(st, t), n + 1)
            return None
        if n > 20:
            raise Unk('pointer cycle')
        return rewrite(v, f)
    _cp = {}
    def _contains_ptr(self, v):
        r = self._cp.get(v)
        if r is None:
            r = v.op == 'ptr' or any(self._contains_ptr(a) for a in v.args if isinstance(a, T)) or any(
                any(isinstance(y, T) and self._contains_ptr(y) for y in a) for a in v.args if isinstance(a, tuple))
            self._cp[v] = r
        return r
    def store_ptr(self, st, p, v):
        if p.op == 'ite':
            c = p.args[0]
            a, b = p.args[1], p.args[2]
            st2 = st.copy()
            self.store_ptr(st2, a, v)
            st3 = st.copy()
            self.store_ptr(st3, b, v)
            for k in st.mem:
                x, y = st2.mem.get(k), st3.mem.get(k)
                if x is not None and y is not None:
                    st.mem[k] = ite(c, x, y)
            return
        if p.op != 'ptr':
            raise Unk('store through a reference that is not tracked: ' + show(p)[:80])
        cell, path = p.args
        if not path:
            st.mem[cell] = v
        else:
            st.mem[cell] = self.set_path(st.mem.get(cell), path, v)
    def set_path(self, base_, path, v):
        if not path:
            return v
        if base_ is None:
            raise Unk('field store into an undefined value')
        (variant, i), rest = path[0], path[1:]
        if variant == '@':                # an element of a sequence
            if base_.op == 'cat' and add(i, Int(1)) is length(base_) and base_.args[-1].op == 'one':
                return cat(*base_.args[:-1], one(self.set_path(base_.args[-1].args[0], rest, v)))
            return cat(TM.take(base_, i), one(self.set_path(nth(base_, i), rest, v)), drop(base_, add(i, Int(1))))
        if base_.op == 'ite':
            return ite(base_.args[0], self.set_path(base_.args[1], path, v), self.set_path(base_.args[2], path, v))
        if base_.op == 'adt':
            fs = list(base_.args[2:])
            fs[i] = self.set_path(fs[i], rest, v)
            return adt(base_.args[0], base_.args[1], *fs)
        if base_.op == 'tuple':
            fs = list(base_.args)
            fs[i] = self.set_path(fs[i], rest, v)
            return Tup(*fs)
        if base_.op == 'closure':
            fs = list(base_.args[1:])
            fs[i] = self.set_path(fs[i], rest, v)
            return raw('closure', base_.args[0], *fs)
        r = TM.REG.get(variant)
        if r:
            fs = [fld(base_, variant, k) for k in range(r[2])]
            fs[i] = self.set_path(fs[i], rest, v)
            return adt(r[0], variant, *fs)
        raise Unk('field store into an opaque value ' + show(base_)[:60])

    def place_type_step(self, t, proj):
        return None

    def resolve(self, fr, st, place):
        """('val', term) or ('ptr', cell, path) for a place"""
        local, projs = place
        cur = ('ptr', (fr, local), ())
        ty = self.cur_fn(fr).locals[local]
        variant = None
        def value(c):
            if c[0] == 'val':
                return c[1]
            v = st.mem.get(c[1])
            if v is None:
                raise Unk('use of undefined local')
            return get_path(v, c[2])
        for p in projs:
            if p == '*':
                t = self.ty(ty) if ty is not None else None
                v = value(cur)
                if v.op == 'ptr':
                    cur = ('ptr', v.args[0], v.args[1])
                elif v.op == 'ite' and self.has_ptr(v):
                    cur = ('ite', v)
                    # reading only: load now
                    cur = ('val', self.load_ptr(st, v)) if not self.storing else ('iteptr', v)
                # otherwise transparent: stay
                if t is not None:
                    if t['k'] in ('ref', 'ptr'):
                        ty = t['t']
                    elif t['k'] == 'adt':
                        ty = [x for x in t['args'] if isinstance(x, int)][0]
                    else:
                        ty = None
                variant = None
                continue
            k = p[0]
            if k == 'd':
                a = self.crate.adts.get(self.ty(ty)['id']) if ty is not None and self.ty(ty)['k'] == 'adt' else None
                variant = self.vn(a, p[1]) if a else p[1]
                continue
            if k == 'f':
                t = self.ty(ty) if ty is not None else None
                if t is not None and t['k'] == 'adt' and t['path'] in TRANSPARENT:
                    ty = p[2]
                    variant = None
                    continue
                if variant is None and t is not None and t['k'] == 'adt':
                    a = self.crate.adts.get(t['id'])
                    if a and len(a['variants']) == 1:
                        variant = self.vn(a, 0)
                step = (variant, p[1])
                cur = self.step(st, cur, step)
                ty = p[2]
                variant = None
                continue
            if k == 'i':
                v = value(cur)
                idx = st.mem[(fr, p[1])]
                v = self.deref(st, v)
                cur = ('val', nth(v, idx))
                ty = self.elem_ty(ty)
                continue
            if k == 'ci':
                v = self.deref(st, value(cur))
                off, mn, fromend = p[1], p[2], p[3]
                cur = ('val', nth(v, sub(length(v), Int(off)) if fromend else Int(off)))
                ty = self.elem_ty(ty)
                continue
            if k == 'sub':
                v = self.deref(st, value(cur))
                frm, to, fromend = p[1], p[2], p[3]
                w = drop(v, Int(frm))
                if to:
                    w = take(w, sub(length(w), Int(to))) if fromend else take(w, Int(to - frm))
                cur = ('val', w)
                continue
            raise Unk('projection ' + str(p))
        return cur, ty
    def elem_ty(self, ty):
        if ty is None:
            return None
        t = self.ty(ty)
        return t.get('t') if t['k'] in ('slice', 'array') else None
    def step(self, st, cur, step):
        if cur[0] == 'ptr':
            return ('ptr', cur[1], cur[2] + (step,))
        if cur[0] == 'iteptr':
            def f(v):
                if v.op == 'ite':
                    return ite(v.args[0], f(v.args[1]), f(v.args[2]))
                return raw('ptr', v.args[0], v.args[1] + (step,))
            return ('iteptr', f(cur[1]))
        return ('val', fld(cur[1], step[0], step[1]))
    storing = False

    def cur_fn(self, fr):
        return self.frames[fr]
    frames = {}

    def read(self, fr, st, place):
        self.storing = False
        cur, ty = self.resolve(fr, st, place)
        if cur[0] == 'val':
            v = cur[1]
        else:
            v = st.mem.get(cur[1])
            if v is None:
                raise Unk(f'use of undefined local _{place[0]} in {self.frames[fr].path}')
            v = get_path(v, cur[2])
        if ty is not None:
            self.note_type(v, ty)
        return v
    def write(self, fr, st, place, v):
        if not place[1]:
            st.mem[(fr, place[0])] = v
            return
        self.storing = True
        try:
            cur, ty = self.resolve(fr, st, place)
        finally:
            self.storing = False
        if cur[0] == 'ptr':
            if not cur[2]:
                st.mem[cur[1]] = v
                return
            base_ = st.mem.get(cur[1])
            if base_ is None:
                # struct built field by field
                raise Unk('field store into an undefined local')
            st.mem[cur[1]] = self.set_path(base_, cur[2], v)
        elif cur[0] == 'iteptr':
            self.store_ptr(st, cur[1], v)
        else:
            raise Unk('store into a value')

    # ------------------------------------------------------------ constants and operands
    def const(self, k):
        c = k['c']
        if c == 'int':
            return Int(int(k['v']))
        if c == 'bool':
            return Bool(k['v'])
        if c == 'char':
            return Char(k['v'])
        if c == 'str':
            return Str(k['v'])
        if c == 'float':
            return raw('float', k['v'] if isinstance(k['v'], str) else str(k['v']))
        if c == 'fn':
            return raw('fnref', FnRef.get(k))
        if c == 'zst':
            t = self.ty(k['ty'])
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                a = self.crate.adts.get(t['id'])
                if a and a['variants'] and not a['variants'][0]['fields']:
                    return adt(a['path'], self.vn(a, 0))
                return raw('zst', t['path'])
            if t['k'] == 'closure':
                return raw('closure', t['id'])
            if t['k'] == 'fndef':
                return raw('fnref', FnRef.get(t))
            return raw('zst', t['k'])
        if c == 'promoted':
            return self.const_fn(self.crate.promoted.get((k['id'], k['i'])))
        if c == 'constitem':
            f = self.crate.fns.get(k['id'])
            if f is not None:
                return self.const_fn(f)
            if 'max' in (k.get('name') or '').lower() or 'MAX' in k['id'] or 'MIN' in k['id']:
                t = self.ty(k['ty'])
                if t['k'] in ('int', 'uint'):
                    return Int(INT_RANGE[t['n']][1 if 'MAX' in k['id'] else 0])
            return raw('constitem', k['id'])
        if c == 'bytes':
            v = k['v']
            return raw('bytes', tuple(v) if isinstance(v, list) else v)
        if c == 'adtbits':
            t = self.ty(k['ty'])
            a = self.crate.adts.get(t.get('id'))
            if a:
                for n, x in enumerate(a['variants']):
                    if str(x['discr']) == str(k['v']) and not x['fields']:
                        return adt(a['path'], self.vn(a, n))
            return raw('adtbits', t.get('path', '?'), str(k['v']))
        return raw('opaque', str(k.get('name') or k.get('ty')))
    _const_memo = {}
    def const_fn(self, f):
        if f is None:
            raise Unk('missing constant body')
        key = (f.crate.name, f.id, f.d.get('promoted'))
        if key not in self._const_memo:
            st = State({}, Facts())
            tree = self.call_fn(f, [], st)
            ls = leaves(tree)
            if len(ls) != 1:
                raise Unk('branching constant')
            self._const_memo[key] = self.deep(ls[0][3], ls[0][2])
        return self._const_memo[key]
    def operand(self, fr, st, o):
        if o[0] in ('cp', 'mv'):
            return self.read(fr, st, o[1])
        if o[0] == 'k':
            return self.const(o[1])
        if o[0] == 'rt':
            return FALSE     # runtime checks (overflow/ub checks) flags
        raise Unk('operand ' + o[0])
    def op_ty(self, fr, o):
        if o[0] in ('cp', 'mv'):
            if not o[1][1]:
                return self.frames[fr].locals[o[1][0]]
            self.storing = False
            return None
        if o[0] == 'k':
            return o[1].get('ty')

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, fn, line):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref':
            kind, place = rv[1], rv[2]
            if kind == 'mut':
                self.storing = True
                try:
                    cur, ty = self.resolve(fr, st, place)
                finally:
                    self.storing = False
                if cur[0] == 'ptr':
                    return raw('ptr', cur[1], cur[2])
                if cur[0] == 'iteptr':
                    return cur[1]
                # mutable borrow of a temporary value (e.g. element): fresh cell
                raise Unk('mutable borrow of an untracked value')
            if kind == 'fake':
                return UNIT
            return self.read(fr, st, place)
        if k == 'rawptr':
            self.storing = True
            try:
                cur, ty = self.resolve(fr, st, rv[2] if len(rv) > 2 else rv[1])
            finally:
                self.storing = False
            if cur[0] == 'ptr':
                return raw('ptr', cur[1], cur[2])
            if cur[0] == 'iteptr':
                return cur[1]
            return cur[1]
        if k == 'cast':
            return self.cast(fr, st, rv, fn)
        if k == 'bin':
            return self.binop(rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), rv[4], st)
        if k == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                t = self.op_ty(fr, rv[2])
                if t is not None and self.ty(t)['k'] != 'bool':
                    return raw('bitnot', v)
                return Not(v)
            if rv[1] == 'Neg':
                t = self.op_ty(fr, rv[2])
                if v.op in ('float', 'fneg') or t is not None and self.ty(t)['k'] == 'float':
                    return raw('fneg', v)
                return mulc(v, -1)
            if rv[1] == 'PtrMetadata':
                return length(self.deref(st, v))
            raise Unk('unary ' + rv[1])
        if k == 'discr':
            v = self.read(fr, st, rv[1])
            v = self.deref(st, v)
            return self.discr(v, rv[2])
        if k == 'agg':
            return self.agg(fr, st, rv)
        if k == 'repeat':
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 64:
                return cat(*[one(v)] * n)
            return raw('repeat', v)
        raise Unk('rvalue ' + k)
    def discr(self, v, tyi):
        t = self.ty(tyi)
        while t['k'] in ('ref', 'ptr') or t['k'] == 'adt' and t['path'] in TRANSPARENT:
            tyi = t['t'] if t['k'] != 'adt' else [x for x in t['args'] if isinstance(x, int)][0]
            t = self.ty(tyi)
        if t['k'] != 'adt':
            raise Unk('discriminant of ' + t['k'])
        a = self.crate.adts.get(t['id'])
        if a is None:
            raise Unk('unknown enum ' + t['path'])
        self.note_adt(v, tyi)
        return raw('discr', v, tuple((int(x['discr']), self.vn(a, n)) for n, x in enumerate(a['variants'])))
    def agg(self, fr, st, rv):
        kind = rv[1]
        ops = [self.operand(fr, st, o) for o in rv[2]]
        if kind[0] == 'tuple':
            return Tup(*ops)
        if kind[0] == 'array':
            return cat(*[one(o) for o in ops])
        if kind[0] == 'adt':
            a = self.crate.adts.get(kind[1])
            if a is None:
                raise Unk('aggregate of unknown type')
            return self.build(a, kind[2], ops)
        if kind[0] == 'closure':
            return raw('closure', kind[1], *ops)
        if kind[0] == 'rawptr':
            return ops[0]
        raise Unk('aggregate ' + kind[0])
    def build(self, a, n, ops):
        if a['path'] in TRANSPARENT:
            return ops[0]
        if a['path'] == 'core::ops::range::Range':
            return rng(ops[0], ops[1], Int(1))
        if a['path'] == 'core::ops::range::RangeInclusive':
            return rng(ops[0], add(ops[1], Int(1)), Int(1)) if ops[0].op != 'char' else raw('adt', a['path'], 'RangeInclusive', *ops)
        return adt(a['path'], self.vn(a, n), *ops)
    def constructor(self, path, n):
        """(type, variant) that a constructor used as a function builds"""
        if not hasattr(self.crate, 'ctors'):
            t = {}
            for a in self.crate.adts.values():
                for i, v in enumerate(a['variants']):
                    t.setdefault(a['path'] + '::' + v['name'], (a, i))
                if len(a['variants']) == 1:
                    t.setdefault(a['path'], (a, 0))
            self.crate.ctors = t
        k = self.crate.ctors.get(path)
        return k if k is not None and len(k[0]['variants'][k[1]]['fields']) == n else None

    def ordv(self, v):
        """integer value of a character"""
        if v.op == 'char':
            return Int(v.args[0])
        if v.op == 'ite':
            return ite(v.args[0], self.ordv(v.args[1]), self.ordv(v.args[2]))
        if v.op == 'chr':
            return v.args[0]
        t = raw('ord', v)
        TM.INTB[t] = (0, 0x10FFFF)
        return t
    def binop(self, op, a, b, ty, st):
        t = self.ty(ty) if ty is not None else {'k': 'int', 'n': 'i64'}
        k = t['k']
        if a.op == 'panic' or b.op == 'panic':
            raise Unk('panic value used')
        if k in ('ref', 'ptr'):
            raise Unk('pointer comparison')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if k == 'bool':
                if op == 'Eq':
                    return beq(a, b)
                if op == 'Ne':
                    return Not(beq(a, b))
            if k == 'char':
                a, b = self.ordv(a), self.ordv(b)
                k = 'uint'
            if k == 'float':
                return self.fcmp(op, a, b)
            if a.op == 'discr' or b.op == 'discr':
                return self.discr_cmp(op, a, b)
            if k in ('int', 'uint') or k == 'bool':
                if op == 'Eq':
                    return ieq(a, b)
                if op == 'Ne':
                    return Not(ieq(a, b))
                if op == 'Lt':
                    return lt(a, b)
                if op == 'Le':
                    return le(a, b)
                if op == 'Gt':
                    return lt(b, a)
                return le(b, a)
            if op == 'Eq':
                return beq(a, b)
            raise Unk('comparison of ' + k)
        if k == 'float':
            return raw('f' + op.lower(), a, b)
        base_op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base_op in ('Add', 'Sub', 'Mul') and k in ('int', 'uint'):
            r = add(a, b) if base_op == 'Add' else sub(a, b) if base_op == 'Sub' else mul(a, b)
            if op.endswith('WithOverflow'):
                lo, hi = INT_RANGE[t['n']]
                ov = Or(lt(r, Int(lo)), lt(Int(hi), r))
                return Tup(r, ov)
            return r
        if base_op in ('BitAnd', 'BitOr', 'BitXor') and k == 'bool':
            if base_op == 'BitAnd':
                return And(a, b)
            if base_op == 'BitOr':
                return Or(a, b)
            return Not(beq(a, b))
        if a.op == 'int' and b.op == 'int':
            x, y = a.args[0], b.args[0]
            if base_op == 'BitAnd': return Int(x & y)
            if base_op == 'BitOr': return Int(x | y)
            if base_op == 'BitXor': return Int(x ^ y)
            if base_op == 'Shl': return Int(x << y)
            if base_op == 'Shr': return Int(x >> y)
            if base_op == 'Div' and y: return Int(int(x / y) if abs(x) < 2**50 else x // y)
            if base_op == 'Rem' and y: return Int(x - y * int(x / y))
        r = raw(base_op.lower(), a, b)
        if k in ('int', 'uint'):
            TM.INTB.setdefault(r, INT_RANGE[t['n']])
        return r
    def fcmp(self, op, a, b):
        if op == 'Eq' or op == 'Ne':
            x, y = sorted((a, b), key=lambda t: t.n)
            r = raw('feq', x, y)
            return r if op == 'Eq' else Not(r)
        if op == 'Lt':
            return raw('flt', a, b)
        if op == 'Gt':
            return raw('flt', b, a)
        if op == 'Le':
            return raw('fle', a, b)
        return raw('fle', b, a)
    def discr_cmp(self, op, a, b):
        if op not in ('Eq', 'Ne'):
            raise Unk('ordering of discriminants')
        if a.op != 'discr':
            a, b = b, a
        if b.op == 'int':
            r = isin(a.args[0], tuple(n for d, n in a.args[1] if d == b.args[0]))
        elif b.op == 'discr':
            r = FALSE
            for d, n in a.args[1]:
                r = Or(r, And(isin(a.args[0], n), isin(b.args[0], tuple(m for e, m in b.args[1] if e == d))))
        else:
            raise Unk('discriminant compared with ' + b.op)
        return r if op == 'Eq' else Not(r)
    def cast(self, fr, st, rv, fn):
        kind, op, frm, to, full = rv[1], rv[2], rv[3], rv[4], rv[5] if len(rv) > 5 else ''
        v = self.operand(fr, st, op)
        a, b = self.ty(frm), self.ty(to)
        if kind == 'IntToInt':
            if a['k'] == 'char':
                v = self.ordv(v)
                lo, hi = 0, 0x10FFFF
            elif a['k'] == 'bool':
                v = ite(v, Int(1), Int(0))
                lo, hi = 0, 1
            elif a['k'] in ('int', 'uint'):
                lo, hi = INT_RANGE[a['n']]
            elif v.op == 'discr':
                return v
            else:
                raise Unk('cast from ' + a['k'])
            if v.op == 'discr':
                return v
            if b['k'] == 'char':
                return self.chrv(v)
            return self.wrap(v, b['n'], lo, hi)
        if kind == 'IntToFloat':
            return self.map_ite(v, lambda x: raw('i2f', x))
        if kind == 'FloatToInt':
            return raw('f2i', b['n'], v)
        if kind == 'FloatToFloat':
            return v
        if 'Unsize' in str(full) or 'Unsize' in str(kind):
            # coercion to a trait object of an iterator: keep the sequence
            v2 = self.unsize(st, v, frm, to)
            return v2
        return v
    def unsize(self, st, v, frm, to):
        t = self.ty(self.peel(to))
        if t['k'] == 'dyn' and str(t.get('trait', '')).endswith('Iterator'):
            src = self.peel(frm)
            return self.toseq(st, v, src)
        return v
    def chrv(self, v):
        if v.op == 'int':
            return Char(v.args[0])
        if v.op == 'ite':
            return ite(v.args[0], self.chrv(v.args[1]), self.chrv(v.args[2]))
        if v.op == 'ord':
            return v.args[0]
        return raw('chr', v)
    def wrap(self, v, n, lo=None, hi=None):
        L, H = INT_RANGE[n]
        if lo is not None and L <= lo and hi <= H:
            return v
        if v.op == 'int':
            m = H - L + 1
            return Int((v.args[0] - L) % m + L)
        if v.op == 'ite':
            return ite(v.args[0], self.wrap(v.args[1], n, lo, hi), self.wrap(v.args[2], n, lo, hi))
        m = H - L + 1
        r = v
        # values out of range are shifted by the modulus (one wrap is enough between types of the same width)
        if lo is None or lo < L - m or hi > H + m:
            t = raw('wrap', n, v)
            TM.INTB[t] = (L, H)
            return ite(And(le(Int(L), v), le(v, Int(H))), v, t)
        if hi > H:
            r = ite(le(v, Int(H)), r, sub(v, Int(m)))
        if lo < L:
            r = ite(le(Int(L), v), r, add(v, Int(m)))
        return r
    def map_ite(self, v, f):
        if v.op == 'ite':
            return ite(v.args[0], self.map_ite(v.args[1], f), self.map_ite(v.args[2], f))
        return f(v)

    # ------------------------------------------------------------ execution
    def split(self, st, cond, k):
        """fork on the atoms of a boolean term; k(value, state) -> tree"""
        c = st.facts.simp(cond)
        if c.op == 'bool':
            return k(c.args[0], st)
        if c.op == 'not':
            return self.split(st, c.args[0], lambda v, s: k(not v, s))
        a = atoms_of(c)
        if a.unk:
            raise Unk('branch on an unknown value: ' + unk_reason(a))
        ft, ff = st.facts.assume(a, True), st.facts.assume(a, False)
        st1 = st.with_facts(ft)
        if self.paths and a.op == 'eq0' and a.args[0].op == 'run':
            st1 = norun(st, a.args[0])
            c1 = norun_term(c, a.args[0])
        else:
            c1 = c
        t = self.split(st1, c1, k) if not st1.facts.dead else None
        f = self.split(st.with_facts(ff), c, k) if not ff.dead else None
        if t is None:
            return f
        if f is None:
            return t
        return ('fork', a, t, f)

    def run(self, fn, fr, b, st, stop, first=True):
        cfg = fn.cfg
        while True:
            if b in stop and not first:
                return Leaf('at', b, st)
            if b in cfg.loops and (fr, b) not in self.active_loops:
                import loops
                if self.gen and fn.id == self.gen[0]:
                    return loops.gen_loop(self, fn, fr, b, st, stop)
                return loops.solve(self, fn, fr, b, st, stop)
            first = False
            self.steps += 1
            if self.steps > self.limit:
                raise Unk('analysis budget exhausted')
            blk = fn.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    v = self.rvalue(fr, st, s[2], fn, s[3])
                    self.write(fr, st, s[1], v)
                elif s[0] == 'sd':
                    raise Unk('set discriminant')
                elif s[0] == 'intr':
                    pass
            t = blk['t']
            k = t[0]
            if k == 'goto':
                b = t[1]
                continue
            if k == 'ret':
                return Leaf('ret', st.mem.get((fr, 0), UNIT), st)
            if k == 'drop':
                b = t[2]
                continue
            if k in ('unreachable', 'resume'):
                # an arm the compiler knows to be impossible
                return None
            if k == 'assert' and t[3] == 'other':
                # null / alignment checks of raw pointers made by the compiler
                b = t[5]
                continue
            if k == 'assert':
                c = self.operand(fr, st, t[1])
                want = c if t[2] else Not(c)
                w = st.facts.simp(want)
                if w is not TRUE:
                    bad = st.facts.assume(w, False)
                    if not bad.dead:
                        self.panic(fn, t[3], '', st, Not(w), blk)
                    f2 = st.facts.assume(w, True)
                    if f2.dead:
                        return None
                    st.facts = f2
                b = t[5]
                continue
            if k == 'switch':
                return self.switch(fn, fr, b, t, st, stop)
            if k == 'call':
                r = self.call_term(fn, fr, b, t, st)
                if r is None:
                    return None
                if r[0] == 'again':
                    return r[1]
                if r[0] == 'paths':
                    def cont(l, b=t[4]):
                        s2 = l[3].copy()
                        v = self.note_type(l[2], t[7]) if t[7] is not None and l[2].op != 'tuple' else l[2]
                        self.write(fr, s2, t[3], v)
                        return self.run(fn, fr, b, s2, stop, False)
                    return map_leaves(r[1], cont)
                st = r[1]
                if t[4] is None:
                    return None
                b = t[4]
                continue
            raise Unk('terminator ' + k)

    def panic(self, fn, kind, detail, st, cond, blk):
        self.panics.append((fn.path, kind, detail, st.facts, cond))

    def cases(self, st, v, arms, otherwise):
        """[(condition, target)] in order; last one unconditional"""
        out = []
        v = st.facts.simp(v)
        if v.op == 'ite' and any(True for _ in ()):
            pass
        return v

    def switch(self, fn, fr, b, t, st, stop):
        v = self.operand(fr, st, t[1])
        ty = self.ty(t[2])
        if self.has_ptr(v):
            v = self.deref(st, v)
        ip = fn.cfg.ipdom(fn)
        j = ip.get(b)
        inner_stop = stop
        merge = j is not None and j != -1 and j not in stop and not self.paths
        if merge:
            # do not merge across the boundary of a loop that contains this block
            for h, body in fn.cfg.loops.items():
                if (fr, h) in self.active_loops and b in body and j not in body:
                    merge = False
        if merge:
            inner_stop = stop | {j}
        def arm_cond(val):
            n = int(val)
            if ty['k'] == 'bool':
                return v if n else Not(v)
            if v.op == 'discr' or v.op == 'ite':
                return self.map_cond(v, n, ty)
            if ty['k'] == 'char':
                return ieq(self.ordv(v), Int(n))
            return ieq(v, Int(n))
        # targets grouped in order
        arms = list(t[3])
        def go(i, s):
            if i == len(arms):
                return self.run(fn, fr, t[4], s, inner_stop, False) if self.not_unreachable(fn, t[4]) else None
            val, tgt = arms[i]
            if ty['k'] in ('int', 'uint', 'char') and v.op not in ('discr', 'ite') and False:
                pass
            c = arm_cond(val)
            return self.split(s, c, lambda tv, s2: (self.run(fn, fr, tgt, s2, inner_stop, False) if tv else go(i + 1, s2)))
        # several values with the same target: one condition
        merged = []
        for val, tgt in arms:
            merged.append((val, tgt))
        tree = go(0, st.copy())
        if not merge or tree is None:
            return tree
        return self.join(fn, fr, j, st, tree, stop)
    def not_unreachable(self, fn, b):
        return not (fn.blocks[b]['t'][0] == 'unreachable' and not fn.blocks[b]['s'])
    def map_cond(self, v, n, ty):
        if v.op == 'ite':
            return ite(v.args[0], self.map_cond(v.args[1], n, ty), self.map_cond(v.args[2], n, ty))
        if v.op == 'discr':
            return isin(v.args[0], tuple(name for d, name in v.args[1] if d == n))
        if ty['k'] == 'bool':
            return v if n else Not(v)
        if ty['k'] == 'char':
            return ieq(self.ordv(v), Int(n))
        return ieq(v, Int(n))

    def join(self, fn, fr, j, st, tree, stop):
        """merge the leaves that reached block j and continue once"""
        ls = [l for l in leaves(tree) if l[1] == 'at' and l[2] == j]
        if not ls:
            return tree
        js = self.merge_states(tree, lambda l: l[1] == 'at' and l[2] == j, st, fn, fr, j)
        cont = self.run(fn, fr, j, js, stop, False)
        if len(ls) == len(leaves(tree)):
            return cont
        return map_leaves(tree, lambda l: cont if l[1] == 'at' and l[2] == j else l)

    def merge_states(self, tree, sel, st, fn, fr, j):
        ls = [l for l in leaves(tree) if sel(l)]
        if len(ls) == 1:
            return ls[0][3].copy()
        # common facts
        base_n = len(st.facts.trail)
        common = None
        for l in ls:
            s = set(l[3].facts.trail[base_n:])
            common = s if common is None else common & s
        f = st.facts
        order = {a: i for i, a in enumerate(ls[0][3].facts.trail)}
        for a, v in sorted(common, key=lambda x: order[x]):
            f = f.assume(a, v)
        mem = {}
        keys = set().union(*[set(l[3].mem) for l in ls])
        live = fn.live_in(j) if hasattr(fn, 'live_in') else None
        for k in keys:
            vals = [l[3].mem.get(k) for l in ls]
            if any(v is None for v in vals):
                present = [v for v in vals if v is not None]
                if k[0] == fr:
                    # defined on some paths only: not read before being assigned on the others
                    if len(set(present)) == 1:
                        mem[k] = present[0]
                    else:
                        mem[k] = self._merge_val(tree, sel, k, present[0])
                else:
                    mem[k] = present[0] if len(set(present)) == 1 else self._merge_val(tree, sel, k, present[0])
                continue
            if all(v is vals[0] for v in vals):
                mem[k] = vals[0]
            else:
                mem[k] = self._merge_val(tree, sel, k, vals[0])
        return State(mem, f)
    def _merge_val(self, tree, sel, k, default):
        def go(t):
            if t is None:
                return None
            if t[0] == 'leaf':
                return t[3].mem.get(k) if sel(t) else None
            a, b = go(t[2]), go(t[3])
            if a is None:
                return b
            if b is None:
                return a
            return ite(t[1], a, b)
        return go(tree)

    # ------------------------------------------------------------ calls
    def call_term(self, fn, fr, b, t, st):
        """('ok', state) after storing the result, ('again', tree) for a generator back edge, None when it diverges"""
        func, ops, dest, target = t[1], t[2], t[3], t[4]
        argtys, retty, macro = t[6], t[7], t[8] if len(t) > 8 else None
        self.calls += 1
        args = [self.operand(fr, st, o) for o in ops]
        if func[0] == 'k' and func[1].get('c') == 'fn':
            fref = FnRef.get(func[1])
        else:
            fv = self.operand(fr, st, func)
            if fv.op == 'fnref':
                fref = fv.args[0]
            else:
                raise Unk('call of an unknown function value')
        ctx = CallCtx(fn, fr, b, argtys, retty, macro)
        if self.gen and fref.rid == self.gen[0] and len(args) == 1 and args[0].op == 'ptr' and args[0] is self.gen[1]:
            return ('again', Leaf('again', None, st))
        if self.paths and target is not None and fref.rid not in self.roles and fref.id not in self.roles and not self.gen:
            f = self.local_fn(fref)
            if f is not None and not any(x.id == f.id for x in self.stack) and len(self.stack) <= self.MAXDEPTH:
                tree = self.call_fn(f, args, st)
                if tree is None:
                    return None
                tree = absorb(tree)
                ls = leaves(tree)
                if len(ls) > 1 and all(l[1] == 'ret' for l in ls):
                    return ('paths', tree)
                v, st2 = self.merge_ret(tree, st, f)
                v = self.note_type(v, retty) if retty is not None and v.op != 'tuple' else v
                self.write(fr, st2, dest, v)
                return ('ok', st2)
        r = self.call(fref, args, st, ctx)
        if r is None:
            return None
        v, st2 = r
        if st2 is not st:
            pass
        if target is None:
            return None
        v = self.note_type(v, retty) if retty is not None and v.op != 'tuple' else v
        self.write(fr, st2, dest, v)
        return ('ok', st2)

    def call(self, fref, args, st, ctx):
        """-> (value, state) or None if it never returns"""
        for i in (fref.rid, fref.id):
            if i in self.roles:
                return self.roles[i](self, st, args, ctx), st
        h = self.hooks.get(fref.path) or self.hooks.get(fref.rpath)
        if h is not None:
            return self.ret(h(self, st, args, ctx, fref), st)
        f = self.crate.fns.get(fref.rid) if fref.rlocal else None
        if f is None and fref.local:
            f = self.crate.fns.get(fref.id)
        m = None
        if f is None:
            m = self.models.lookup(fref)
        elif fref.path in ('core::clone::Clone::clone',) and f.d.get('expn'):
            return self.deref(st, args[0]), st
        elif fref.path in ('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne') and f.d.get('expn'):
            m = self.models.lookup(fref)
            f = None
        elif fref.path in self.models.FORCE or fref.path.startswith('core::ops::function::Fn'):
            m = self.models.lookup(fref)
            f = None
        if f is not None and m is None:
            return self.inline(f, args, st, ctx)
        if m is not None:
            r = m(self, st, args, ctx, fref)
            return self.ret(r, st)
        k = self.constructor(fref.path, len(args))
        if k is not None:
            return self.build(k[0], k[1], list(args)), st
        # unknown library function
        self.unknown.add(fref.rpath or fref.path)
        for a in args:
            if a.op == 'ptr':
                self.store_ptr(st, a, unk('modified by ' + (fref.rpath or fref.path)))
        return unk('call of ' + (fref.rpath or fref.path)), st
    def local_fn(self, fref):
        """the function of the crate that a call runs, unless it is modelled"""
        if self.hooks.get(fref.path) or self.hooks.get(fref.rpath) or fref.path in self.models.FORCE or fref.path.startswith('core::ops::function::Fn'):
            return None
        f = self.crate.fns.get(fref.rid) if fref.rlocal else None
        if f is None and fref.local:
            f = self.crate.fns.get(fref.id)
        if f is not None and f.d.get('expn') and fref.path in ('core::clone::Clone::clone', 'core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne'):
            return None
        return f
    def ret(self, r, st):
        if r is None:
            return None
        if isinstance(r, tuple):
            return r
        return r, st

    def inline(self, f, args, st, ctx=None):
        if any(x.id == f.id for x in self.stack):
            a2 = [self.deep(st, a) for a in args]
            for a in args:
                if a.op == 'ptr' :
                    self.store_ptr(st, a, unk('recursive call of ' + f.path))
            r = raw('rec', f.id, *a2)
            return r, st
        if len(self.stack) > self.MAXDEPTH:
            raise Unk('call depth')
        tree = self.call_fn(f, args, st)
        if tree is None:
            return None
        return self.merge_ret(tree, st, f)

    def merge_ret(self, tree, st, f):
        ls = leaves(tree)
        if not ls:
            return None
        if any(l[1] == 'again' for l in ls):
            raise Unk('tail call of next outside next')
        val = tree_term(tree, lambda l: l[2])
        if len(ls) == 1:
            return ls[0][2], ls[0][3]
        fr = None
        js = self.merge_states(tree, lambda l: l[1] == 'ret', st, f, fr, None)
        return val, js

    def call_fn(self, f, args, st):
        """decision tree of 'ret' leaves"""
        self.inlined.add(f.path)
        self.nframe += 1
        fr = self.nframe
        self.frames[fr] = f
        self.stack.append(f)
        try:
            s = st.copy()
            n = f.args
            if f.d.get('spread') is not None and len(args) != n:
                pass
            for i, a in enumerate(args):
                s.mem[(fr, i + 1)] = a
            for i in range(len(args)):
                self.note_type(args[i], f.locals[i + 1]) if i + 1 < len(f.locals) else None
            tree = self.run(f, fr, 0, s, frozenset())
        finally:
            self.stack.pop()
        def fin(l):
            s = l[3]
            v = l[2]
            if l[1] == 'ret':
                v = s.facts.simp(v) if not v.op == 'ptr' else v
            m = {k: x for k, x in s.mem.items() if k[0] != fr}
            # cells of this frame that are still referenced by the result or by outer cells are kept
            need = set()
            def scan(t):
                if not self._contains_ptr(t):
                    return
                if t.op == 'ptr':
                    need.add(t.args[0])
                    return
                for a in t.args:
                    if isinstance(a, T):
                        scan(a)
                    elif isinstance(a, tuple):
                        for y in a:
                            if isinstance(y, T):
                                scan(y)
            if isinstance(v, T):
                scan(v)
            for x in m.values():
                if isinstance(x, T):
                    scan(x)
            done = set()
            while need - done:
                c = (need - done).pop()
                done.add(c)
                if c not in m and c in s.mem:
                    m[c] = s.mem[c]
                    scan(s.mem[c])
            return Leaf(l[1], v, State(m, s.facts))
        return map_leaves(tree, fin)

    def call_closure(self, c, args, st, spread=True):
        """call a closure / function value with positional arguments -> (value, state) or None"""
        if c.op == 'ptr':
            c2 = self.load_ptr(st, c)
            if c2.op == 'closure':
                return self._closure(c2, args, st, c)
            c = c2
        if c.op == 'closure':
            return self._closure(c, args, st, None)
        if c.op == 'fnref':
            fref = c.args[0]
            return self.call(fref, args, st, CallCtx(None, None, None, fref.argtys(self), None, None))
        if c.op == 'ite':
            # decide under facts, else merge both
            s1 = st.with_facts(st.facts.assume(atoms_of(c.args[0])))
            raise Unk('choice between functions')
        raise Unk('call of ' + c.op)
    def _closure(self, c, args, st, ptr_):
        f = self.crate.fns.get(c.args[0])
        if f is None:
            raise Unk('closure body missing')
        # first parameter: the closure itself (by value or reference)
        t = self.ty(f.locals[1])
        me = c
        if t['k'] == 'ref' and t['mut']:
            if ptr_ is None:
                cell = self.new_cell(st, c, 'clo')
                ptr_ = raw('ptr', cell, ())
            me = ptr_
        if f.d.get('spread') is not None:
            a = [me, Tup(*args)]
        else:
            a = [me] + list(args)
        if len(a) != f.args:
            if f.args == 2 and len(args) != 1:
                a = [me, Tup(*args)]
        return self.inline_closure(f, a, st)
    def inline_closure(self, f, args, st):
        if len(self.stack) > self.MAXDEPTH:
            raise Unk('call depth')
        if sum(1 for x in self.stack if x.id == f.id) > 0:
            raise Unk('recursive closure')
        tree = self.call_fn(f, args, st)
        if tree is None:
            return None
        return self.merge_ret(tree, st, f)
    def pure(self, c, st, src=None):
        """python function for a closure without side effects on tracked cells"""
        def f(*args):
            s = st.copy()
            if src is not None and args and args[-1].op == 'el':
                import loops
                s.facts = loops.elem_facts(s.facts, src, args[-1], raw('pos', args[-1].args[0]))
            before = dict(s.mem)
            r = self.call_closure(c, list(args), s)
            if r is None:
                return raw('panic')
            v, s2 = r
            for k, x in before.items():
                if s2.mem.get(k) is not x and k[0] != 'clo' and not str(k[0]).startswith('clo'):
                    raise SideEffect(k)
            return self.deep(s2, v)
        return f
    # ------------------------------------------------------------ iterators
    def iter_impl(self, i):
        """`next` of a crate local Iterator impl for the type index, else None"""
        t = self.ty(i)
        if t['k'] != 'adt' or not t['id'].startswith(self.crate.name + '::'):
            return None
        for it, items in self.crate.impl_items('Iterator'):
            if it['k'] == 'adt' and it['id'] == t['id'] and items.get('next'):
                return items['next']
        return None
    def toseq(self, st, v, tyi=None):
        """sequence of the items an iterator value yields"""
        if tyi is not None:
            i = self.peel(tyi)
            f = self.iter_impl(i)
            if f is not None:
                import loops
                v = self.deref(st, v) if v.op == 'ptr' else v
                return loops.generator(self, f, v, st, i)
        if v.op == 'ptr':
            v = self.load_ptr(st, v)
        if v.op == 'adt' and v.args[0] == OPTION:
            return one(v.args[2]) if v.args[1] == 'Some' else EMPTY
        if v.op == 'adt' and len(v.args) > 2:
            # a crate local iterator value
            for it, items in self.crate.impl_items('Iterator'):
                if it['k'] == 'adt' and self.crate.adts.get(it['id'], {}).get('path') == v.args[0] and items.get('next'):
                    import loops
                    i = self.crate.types.index(it)
                    return loops.generator(self, items['next'], v, st, i)
        return v

class SideEffect(Unk):
    pass

class CallCtx:
    def __init__(self, fn, fr, b, argtys, retty, macro):
        self.fn, self.fr, self.b, self.argtys, self.retty, self.macro = fn, fr, b, argtys, retty, macro

class FnRef:
    """resolved callee (interned so that it can be part of a term)"""
    _t = {}
    def __init__(self, k):
        self.path, self.id, self.local = k['path'], k['id'], k['local']
        r = k.get('res') or {}
        self.rpath, self.rid, self.rlocal = r.get('path') or k['path'], r.get('id') or k['id'], r.get('local', k['local'])
        self.args = k.get('args') or []
        self.trait = k.get('trait')
        self.unresolved = k.get('res') is None
    def argtys(self, ip):
        f = ip.crate.fns.get(self.rid)
        if f is not None:
            return [f.locals[i + 1] for i in range(f.args)]
        return []
    @classmethod
    def get(cls, k):
        key = (k['path'], k['id'], (k.get('res') or {}).get('id'), str(k.get('args')))
        x = cls._t.get(key)
        if x is None:
            x = cls(k)
            cls._t[key] = x
        return x
    def __repr__(self):
        return self.rpath

def unk_reason(t):
    if t.op == 'unk':
        return str(t.args[0])
    for a in t.args:
        if isinstance(a, T) and a.unk:
            return unk_reason(a)
        if isinstance(a, tuple):
            for x in a:
                if isinstance(x, T) and x.unk:
                    return unk_reason(x)
    return '?'

def norun_term(t, n):
    return TM.rewrite(t, lambda x: TM.Int(0) if x is n else None) if t.op != 'ptr' else t
def norun(st, n):
    """the state in which a run is known to be empty"""
    f = Facts()
    for a, v in st.facts.trail:
        f = f.assume(norun_term(a, n), v)
        if f.dead:
            break
    if not f.dead:
        f = f.assume(TM.ieq(n, TM.Int(0)), True)
    return State({k: norun_term(v, n) for k, v in st.mem.items()}, f)
def absorb(t):
    """leaves for an empty and for a non-empty run that are instances of one leaf"""
    if t is None or t[0] == 'leaf':
        return t
    c, a, b = t[1], absorb(t[2]), absorb(t[3])
    if c.op == 'eq0' and c.args[0].op == 'run' and a and b and a[0] == b[0] == 'leaf' and a[1] == b[1]:
        n = c.args[0]
        ma, mb = a[3].mem, b[3].mem
        if ma.keys() == mb.keys() and a[1] == 'ret' and all(norun_term(mb[k], n) is norun_term(ma[k], n) for k in ma):
            base = Facts()
            both = set(a[3].facts.trail)
            for x in b[3].facts.trail:
                if x in both or (norun_term(x[0], n), x[1]) in both:
                    base = base.assume(*x)
            v = b[2] if norun_term(b[2], n) is norun_term(a[2], n) else ite(c, a[2], b[2])
            return Leaf('ret', v, State(dict(mb), base))
    return ('fork', c, a, b)

SEQ_TYPES = {'alloc::vec::Vec', 'alloc::string::String', 'alloc::vec::into_iter::IntoIter', 'core::slice::iter::Iter', 'core::str::iter::Chars'}

def summarise(ip, f, args, facts=None, mem=None):
    """(term, State) of function f applied to the argument terms"""
    st = State(dict(mem or {}), facts or Facts())
    tree = ip.call_fn(f, args, st)
    if tree is None:
        return PANIC, st
    r = ip.merge_ret(tree, st, f)
    return r

def paths(ip, f, args, st):
    """the decision tree of f with a state for each leaf"""
    return ip.call_fn(f, args, st)
