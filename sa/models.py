"""Models of library functions over the term domain (semantics taken from the documentation of std, itertools,
serde_json, regex, iregexp, lru and pest)."""
import re
from term import *
import term as TM, facts

FORCE = set()
TABLE = {}
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
LESS, EQUAL, GREATER = (raw('adt', ORD, n) for n in ('Less', 'Equal', 'Greater'))

def norm_path(p):
    p = re.sub(r"::<(?!impl)[^>]*>(?=::)", '', p)
    p = re.sub(r"^alloc::rcs::", 'alloc::', p)
    return p

def model(*paths):
    def d(f):
        for p in paths:
            TABLE[p] = f
        return f
    return d

def lookup(fref):
    for p in (fref.path, fref.rpath):
        m = TABLE.get(p) or TABLE.get(norm_path(p))
        if m is not None:
            return m
    p = fref.path
    if p.startswith('core::panicking') or p.startswith('std::rt::panic') or p.startswith('core::option::expect_failed') or p.startswith('core::result::unwrap_failed') or p.startswith('std::rt::begin_panic'):
        return m_panic
    if fref.local and fref.trait:
        return m_dyn
    return None

def m_panic(ip, st, args, ctx, fref):
    ip.panic(ctx.fn, 'panic', fref.path, st, TRUE, None)
    return None

def m_dyn(ip, st, args, ctx, fref):
    """method of a crate trait on a trait object: an uninterpreted pure function of its arguments"""
    return raw('dyn', fref.path.split('::')[-1], *[ip.deep(st, a) for a in args])

# ------------------------------------------------------------------ helpers
def branch(ip, st, cond, kt, kf):
    """value-and-state of a two way decision; kt/kf: state -> term | (term, state) | None"""
    def leaf(v, s):
        r = (kt if v else kf)(s)
        if r is None:
            return None
        if not isinstance(r, tuple):
            r = (r, s)
        return ('leaf', 'ret', r[0], r[1])
    tree = ip.split(st.copy(), cond, leaf)
    if tree is None:
        return None
    return ip.merge_ret(tree, st, None)

def D(ip, st, v):
    return ip.deref(st, v)
def DD(ip, st, v):
    return ip.deep(st, v)

def need(ip, st, ctx, cond, what):
    """continue only where cond holds; record the other side as a panic"""
    c = st.facts.simp(cond)
    if c is TRUE:
        return True
    if c.unk:
        # cannot tell: assume it holds, remember that the site was not decided
        ip.panics.append((ctx.fn.path if ctx.fn else '?', 'undecided', what, st.facts, None))
        return True
    bad = st.facts.assume(c, False)
    if not bad.dead:
        ip.panic(ctx.fn, what, '', st, Not(c), None) if ctx.fn is not None else ip.panics.append(('?', what, '', st.facts, Not(c)))
    f = st.facts.assume(c, True)
    if f.dead:
        return False
    st.facts = f
    return True

def ty_at(ip, ctx, i):
    try:
        return ip.ty(ip.peel(ctx.argtys[i]))
    except Exception:
        return None
def kind(ip, tyi):
    """coarse kind of a type index"""
    if tyi is None:
        return None
    t = ip.ty(ip.peel(tyi))
    k = t['k']
    if k == 'adt':
        p = t['path']
        if p in ('alloc::string::String', 'alloc::borrow::Cow'):
            return 'string'
        if p == OPTION: return 'option'
        if p == RESULT: return 'result'
        return 'adt'
    if k == 'str':
        return 'string'
    return k

def item_kind(ip, tyi, d=0):
    """kind of the items of an iterator type"""
    if tyi is None or d > 12:
        return None
    t = ip.ty(ip.peel(tyi))
    if t['k'] == 'closure':
        return None
    if t['k'] != 'adt':
        if t['k'] in ('slice', 'array'):
            return kind(ip, t['t'])
        return None
    p = t['path'].split('::')[-1]
    a = [x for x in t['args'] if isinstance(x, int)]
    if p == 'Chars': return 'char'
    if p == 'CharIndices': return 'tuple'
    if p in ('Map', 'FlatMap', 'FilterMap') and len(a) >= 2:
        f = ip.ty(a[-1])
        if f['k'] == 'closure' and f['id'] in ip.crate.fns:
            g = ip.crate.fns[f['id']]
            k = g.locals[0]
            if p == 'Map':
                return kind(ip, k)
            kt = ip.ty(ip.peel(k))
            if kt['k'] == 'adt' and kt['path'] == OPTION:
                return kind(ip, [x for x in kt['args'] if isinstance(x, int)][0])
            return item_kind(ip, k, d + 1)
        return None
    if p in ('Iter', 'IntoIter', 'Vec', 'VecDeque', 'Once', 'Cloned', 'Copied', 'Drain'):
        if p in ('Cloned', 'Copied'):
            return item_kind(ip, a[0], d + 1)
        if a and ip.ty(a[0])['k'] != 'adt' or p in ('Iter', 'IntoIter', 'Vec', 'Once', 'VecDeque'):
            return kind(ip, a[0]) if a else None
    if p in ('Rev', 'Chain', 'Filter', 'Skip', 'Take', 'Peekable', 'Fuse', 'StepBy', 'SkipWhile', 'TakeWhile'):
        return item_kind(ip, a[0], d + 1)
    return None

def seq(ip, st, args, ctx, i=0):
    """argument i as a sequence"""
    tyi = ctx.argtys[i] if ctx is not None and ctx.argtys and i < len(ctx.argtys) else None
    return as_seq(ip, st, args[i], tyi)
def as_seq(ip, st, v, tyi=None):
    if tyi is not None:
        t = ip.ty(ip.peel(tyi))
        if t['k'] == 'adt' and t['path'] in (OPTION, RESULT):
            return opt_seq(D(ip, st, v), t['path'])
    s = ip.toseq(st, v, tyi)
    s = D(ip, st, s)
    if s.op == 'adt' and s.args[0] in (OPTION, RESULT):
        return opt_seq(s, s.args[0])
    return s
def opt_seq(v, path):
    if path == OPTION:
        return ite(is_some(v), one(fld(v, 'Some', 0)), EMPTY)
    return ite(is_ok(v), one(fld(v, 'Ok', 0)), EMPTY)
def item_seq(v):
    """items of an element that is itself iterated (flatten)"""
    u = UNIVERSE.get(v)
    if v.op == 'adt' and v.args[0] in (OPTION, RESULT):
        return opt_seq(v, v.args[0])
    if v.op == 'ite':
        return ite(v.args[0], item_seq(v.args[1]), item_seq(v.args[2]))
    if u == OPTU:
        return opt_seq(v, OPTION)
    if u == RESU:
        return opt_seq(v, RESULT)
    return v
def clos_ret(ip, c):
    if c.op == 'closure' and c.args[0] in ip.crate.fns:
        return ip.crate.fns[c.args[0]].locals[0]
    if c.op == 'fnref':
        f = ip.crate.fns.get(c.args[0].rid)
        if f is not None:
            return f.locals[0]
    return None
def clo(ip, st, c):
    while c.op == 'ptr':
        c = ip.load_ptr(st, c)
    return c
def pure_seq(ip, st, c, src=None):
    """closure returning something iterable, as a python function giving a sequence"""
    c0 = clo(ip, st, c)
    rt = clos_ret(ip, c0)
    def f(*a):
        s = st.copy()
        if src is not None and a and a[-1].op == 'el':
            import loops
            s.facts = loops.elem_facts(s.facts, src, a[-1], raw('pos', a[-1].args[0]))
        before = dict(s.mem)
        r = ip.call_closure(c, list(a), s)
        if r is None:
            return EMPTY
        v, s2 = r
        check_effects(before, s2)
        return DD(ip, s2, as_seq(ip, s2, v, rt))
    return f
def check_effects(before, s2):
    from interp import SideEffect
    for k, x in before.items():
        if s2.mem.get(k) is not x and not str(k[0]).startswith('clo'):
            raise SideEffect(k)

def cell_seq(ip, st, p, ctx=None, i=0):
    """(sequence value, setter) of an iterator or collection behind a mutable reference"""
    v = ip.load_ptr(st, p) if p.op == 'ptr' or ip.has_ptr(p) else p
    q = p
    while v.op == 'ptr':
        q, v = v, ip.load_ptr(st, v)
    def put(s, x):
        ip.store_ptr(s, q, x)
    return v, put

# ------------------------------------------------------------------ identity like functions
IDENT = '''alloc::borrow::ToOwned::to_owned core::clone::Clone::clone alloc::boxed::Box::new alloc::rc::Rc::new core::hint::must_use
core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut core::convert::AsRef::as_ref core::borrow::Borrow::borrow
alloc::string::String::as_str alloc::string::String::into_boxed_str alloc::vec::Vec::as_slice core::option::Option::as_ref core::option::Option::as_deref
core::option::Option::cloned core::option::Option::copied core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied
core::iter::traits::iterator::Iterator::peekable core::iter::traits::iterator::Iterator::fuse core::slice::<impl [T]>::to_vec alloc::slice::<impl [T]>::to_vec
core::str::<impl str>::chars alloc::vec::Vec::into_boxed_slice alloc::slice::<impl [T]>::into_vec alloc::str::<impl str>::to_owned
core::result::Result::as_ref core::result::Result::as_deref serde_json::map::Map::iter serde_json::map::Map::into_iter core::slice::<impl [T]>::as_slice alloc::string::String::as_mut_str
core::str::<impl str>::as_str alloc::str::<impl str>::into_string alloc::string::String::into_string core::mem::manually_drop::ManuallyDrop::new
alloc::boxed::box_assume_init_into_vec_unsafe alloc::fmt::format core::convert::identity itertools::Itertools::collect_vec alloc::sync::Arc::new core::cell::Cell::new core::cell::RefCell::new
alloc::collections::vec_deque::VecDeque::iter core::slice::<impl [T]>::iter'''.split('\n')
IDENT = [p for p in re.findall(r'\S+(?: \[T\]>::\S+| str>::\S+)?', ' '.join(IDENT))]
def m_ident(ip, st, args, ctx, fref):
    v = args[0]
    if v.op == 'ptr' and fref.path.endswith(('deref_mut',)):
        return v
    return D(ip, st, v)
for _p in IDENT:
    TABLE[_p] = m_ident

@model('core::slice::<impl [T]>::iter', 'core::iter::traits::collect::IntoIterator::into_iter')
def m_iter(ip, st, args, ctx, fref):
    v = args[0]
    if fref.path.endswith('into_iter'):
        t = ty_at(ip, ctx, 0)
        raw_t = ip.ty(ctx.argtys[0])
        if t is not None and t['k'] == 'adt':
            if t['path'] in (OPTION, RESULT):
                return opt_seq(D(ip, st, v), t['path'])
            if ip.iter_impl(ip.peel(ctx.argtys[0])) is not None:
                return v       # an iterator of this crate: identity
        if v.op == 'ptr' and raw_t['k'] == 'ref' and raw_t.get('mut') and t is not None and t['k'] == 'adt' and t['path'].split('::')[-1] not in ('Vec', 'String', 'VecDeque'):
            return v       # `&mut I` is itself an iterator
        if v.op == 'ptr' and raw_t['k'] == 'ref' and raw_t.get('mut'):
            raise Unk('iteration by mutable reference')
    v = D(ip, st, v)
    return v

@model('alloc::boxed::Box::new_uninit')
def m_uninit(ip, st, args, ctx, fref):
    c = ip.new_cell(st, raw('uninit'), 'box')
    return raw('ptr', c, ())

@model('core::mem::take')
def m_take(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    t = ty_at(ip, ctx, 0)
    if t and t['k'] == 'adt' and t['path'] == OPTION:
        put(st, NONE)
    elif t and t['k'] == 'adt' and t['path'].split('::')[-1] in ('Vec', 'String'):
        put(st, EMPTY)
    else:
        raise Unk('mem::take')
    return v
@model('core::mem::replace')
def m_replace_mem(ip, st, args, ctx, fref):
    v = ip.load_ptr(st, args[0])
    ip.store_ptr(st, args[0], args[1])
    return v
@model('core::mem::swap')
def m_swap(ip, st, args, ctx, fref):
    a, b = ip.load_ptr(st, args[0]), ip.load_ptr(st, args[1])
    ip.store_ptr(st, args[0], b)
    ip.store_ptr(st, args[1], a)
    return UNIT
@model('core::mem::drop', '<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop')
def m_drop(ip, st, args, ctx, fref):
    return UNIT
@model('core::mem::size_of', 'core::mem::align_of')
def m_size(ip, st, args, ctx, fref):
    return raw('size')

# ------------------------------------------------------------------ conversions
@model('core::convert::From::from', 'core::convert::Into::into', 'core::iter::traits::collect::FromIterator::from_iter')
def m_from(ip, st, args, ctx, fref):
    if fref.path.endswith('from_iter'):
        return m_collect(ip, st, args, ctx, fref)
    v = D(ip, st, args[0])
    t = ip.ty(ip.peel(ctx.retty)) if ctx.retty is not None else None
    a = ty_at(ip, ctx, 0)
    if t and t['k'] == 'adt' and t['path'].split('::')[-1] in ('HashMap', 'BTreeMap') and not (a and a['k'] == 'adt' and a['path'] == t['path']):
        return hmap_of(DD(ip, st, args[0]))
    if t and a:
        if t['k'] == 'float' and a['k'] in ('int', 'uint'):
            return ip.map_ite(v, lambda x: raw('i2f', x))
        if t['k'] in ('int', 'uint') and a['k'] == 'char':
            return ip.ordv(v)
        if t['k'] == 'char' and a['k'] in ('uint',):
            return ip.chrv(v)
        if t['k'] in ('int', 'uint') and a['k'] == 'bool':
            return ite(v, Int(1), Int(0))
        if t['k'] == 'adt' and t['path'] == 'alloc::string::String' and a['k'] == 'char':
            return one(v)
        if t['k'] == 'adt' and t['path'] == OPTION and not (a['k'] == 'adt' and a['path'] == OPTION):
            return Some(v)
    return v
@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def m_tryfrom(ip, st, args, ctx, fref):
    from interp import INT_RANGE
    rt = ip.ty(ctx.retty)
    ok = ip.ty([x for x in rt['args'] if isinstance(x, int)][0])
    v = D(ip, st, args[0])
    a = ty_at(ip, ctx, 0)
    if ok['k'] in ('int', 'uint') and a and a['k'] in ('int', 'uint', 'char'):
        if a['k'] == 'char':
            v = ip.ordv(v)
        lo, hi = INT_RANGE[ok['n']]
        def f(x):
            return ite(And(le(Int(lo), x), le(x, Int(hi))), Ok(x), Err(raw('interr')))
        return st.facts.simp(ip.map_ite(v, f))
    if ok['k'] == 'char':
        return ite(valid_char(v), Ok(ip.chrv(v)), Err(raw('charerr')))
    return raw('tryfrom', v)
def valid_char(v):
    return And(le(Int(0), v), Or(lt(v, Int(0xD800)), And(le(Int(0xE000), v), le(v, Int(0x10FFFF)))))
@model('core::char::methods::<impl char>::from_u32', 'core::char::convert::from_u32', 'core::char::from_u32')
def m_from_u32(ip, st, args, ctx, fref):
    return ite(valid_char(args[0]), Some(ip.chrv(args[0])), NONE)
@model('core::char::methods::<impl char>::from_u32_unchecked')
def m_from_u32u(ip, st, args, ctx, fref):
    return ip.chrv(args[0])

# ------------------------------------------------------------------ Option / Result
def is_opt(ip, v, ctx, i=0):
    t = ty_at(ip, ctx, i) if ctx is not None else None
    if t is not None and t['k'] == 'adt':
        return t['path'] == OPTION
    return UNIVERSE.get(v) == OPTU or v.op == 'adt' and v.args[0] == OPTION
def good(v, o):
    return (is_some(v), lambda: fld(v, 'Some', 0)) if o else (is_ok(v), lambda: fld(v, 'Ok', 0))

@model('core::ops::try_trait::Try::branch')
def m_branch(ip, st, args, ctx, fref):
    v = args[0]
    if is_opt(ip, v, ctx):
        return ite(is_some(v), adt(CF, 'Continue', fld(v, 'Some', 0)), adt(CF, 'Break', NONE))
    return ite(is_ok(v), adt(CF, 'Continue', fld(v, 'Ok', 0)), adt(CF, 'Break', Err(fld(v, 'Err', 0))))
@model('core::ops::try_trait::FromResidual::from_residual')
def m_residual(ip, st, args, ctx, fref):
    v = args[0]
    rt = ip.ty(ctx.retty) if ctx.retty is not None else None
    if rt and rt['k'] == 'adt' and rt['path'] == RESULT and v.op == 'fld':
        return Err(fld(v, 'Err', 0)) if UNIVERSE.get(v) == RESU else v
    return v
@model('core::ops::try_trait::Try::from_output')
def m_output(ip, st, args, ctx, fref):
    rt = ip.ty(ctx.retty)
    return Some(args[0]) if rt['path'] == OPTION else Ok(args[0])

def _unwrap(o):
    def m(ip, st, args, ctx, fref):
        v = D(ip, st, args[0])
        c, g = good(v, o)
        if not need(ip, st, ctx, c, 'unwrap'):
            return None
        return st.facts.simp(g()) if not ip._contains_ptr(v) else g()
    return m
TABLE['core::option::Option::unwrap'] = TABLE['core::option::Option::expect'] = _unwrap(True)
TABLE['core::result::Result::unwrap'] = TABLE['core::result::Result::expect'] = _unwrap(False)
@model('core::result::Result::unwrap_err')
def m_unwrap_err(ip, st, args, ctx, fref):
    v = args[0]
    if not need(ip, st, ctx, Not(is_ok(v)), 'unwrap'):
        return None
    return fld(v, 'Err', 0)

def opt_model(o):
    P = 'core::option::Option::' if o else 'core::result::Result::'
    bad = (lambda v: NONE) if o else (lambda v: Err(fld(v, 'Err', 0)))
    wrap = Some if o else Ok
    def reg(name):
        def d(f):
            TABLE[P + name] = f
            return f
        return d
    def call(ip, s, c, args):
        return ip.call_closure(c, args, s)
    def mapr(r, g):
        return None if r is None else (g(r[0]), r[1])
    @reg('map')
    def m_map(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: mapr(call(ip, s, args[1], [g()]), wrap), lambda s: bad(v))
    @reg('and_then')
    def m_and_then(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: call(ip, s, args[1], [g()]), lambda s: bad(v))
    @reg('and')
    def m_and(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return ite(c, args[1], bad(v))
    @reg('or')
    def m_or(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return ite(c, v, args[1])
    @reg('or_else')
    def m_or_else(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: v, lambda s: call(ip, s, args[1], [] if o else [fld(v, 'Err', 0)]))
    @reg('unwrap_or')
    def m_unwrap_or(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        c = st.facts.simp(c)
        return g() if c is TRUE else args[1] if c is FALSE else ite(c, g(), args[1])
    @reg('unwrap_or_else')
    def m_unwrap_or_else(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: g(), lambda s: call(ip, s, args[1], [] if o else [fld(v, 'Err', 0)]))
    @reg('unwrap_or_default')
    def m_unwrap_or_default(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return ite(c, g(), default(ip, ctx.retty))
    @reg('map_or')
    def m_map_or(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: call(ip, s, args[2], [g()]), lambda s: args[1])
    @reg('map_or_else')
    def m_map_or_else(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: call(ip, s, args[2], [g()]), lambda s: call(ip, s, args[1], [] if o else [fld(v, 'Err', 0)]))
    def and_pred(name):
        @reg(name)
        def m_is_and(ip, st, args, ctx, fref):
            v = D(ip, st, args[0]); c, g = good(v, o)
            return branch(ip, st, c, lambda s: call(ip, s, args[1], [g()]), lambda s: FALSE)
    and_pred('is_some_and' if o else 'is_ok_and')
    @reg('is_none_or')
    def m_none_or(ip, st, args, ctx, fref):
        v = D(ip, st, args[0]); c, g = good(v, o)
        return branch(ip, st, c, lambda s: call(ip, s, args[1], [g()]), lambda s: TRUE)
    @reg('is_some' if o else 'is_ok')
    def m_is(ip, st, args, ctx, fref):
        return good(D(ip, st, args[0]), o)[0]
    @reg('is_none' if o else 'is_err')
    def m_isnt(ip, st, args, ctx, fref):
        return Not(good(D(ip, st, args[0]), o)[0])
    @reg('inspect')
    def m_inspect(ip, st, args, ctx, fref):
        return args[0]
opt_model(True)
opt_model(False)
@model('core::option::Option::as_mut', 'core::option::Option::as_deref_mut')
def m_as_mut(ip, st, args, ctx, fref):
    p = args[0]
    v = D(ip, st, p)
    if p.op != 'ptr':
        raise Unk('as_mut of an untracked option')
    q = p
    while True:
        w = ip.load_ptr(st, q)
        if w.op != 'ptr':
            break
        q = w
    return ite(is_some(v), Some(raw('ptr', q.args[0], q.args[1] + (('Some', 0),))), NONE)
@model('core::option::Option::filter')
def m_ofilter(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    def some(s):
        r = ip.call_closure(args[1], [fld(v, 'Some', 0)], s)
        return None if r is None else (ite(r[0], v, NONE), r[1])
    return branch(ip, st, is_some(v), some, lambda s: NONE)
@model('core::option::Option::ok_or')
def m_ok_or(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    return ite(is_some(v), Ok(fld(v, 'Some', 0)), Err(args[1]))
@model('core::option::Option::ok_or_else')
def m_ok_or_else(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    def e(s):
        r = ip.call_closure(args[1], [], s)
        return None if r is None else (Err(r[0]), r[1])
    return branch(ip, st, is_some(v), lambda s: Ok(fld(v, 'Some', 0)), e)
@model('core::result::Result::ok')
def m_ok(ip, st, args, ctx, fref):
    v = args[0]
    return ite(is_ok(v), Some(fld(v, 'Ok', 0)), NONE)
@model('core::result::Result::err')
def m_err(ip, st, args, ctx, fref):
    v = args[0]
    return ite(is_ok(v), NONE, Some(fld(v, 'Err', 0)))
@model('core::result::Result::map_err')
def m_map_err(ip, st, args, ctx, fref):
    v = args[0]
    def e(s):
        r = ip.call_closure(args[1], [fld(v, 'Err', 0)], s)
        return None if r is None else (Err(r[0]), r[1])
    return branch(ip, st, is_ok(v), lambda s: Ok(fld(v, 'Ok', 0)), e)
@model('core::option::Option::transpose')
def m_transpose(ip, st, args, ctx, fref):
    v = args[0]
    x = fld(v, 'Some', 0)
    return ite(is_some(v), ite(is_ok(x), Ok(Some(fld(x, 'Ok', 0))), Err(fld(x, 'Err', 0))), Ok(NONE))
@model('core::option::Option::take')
def m_otake(ip, st, args, ctx, fref):
    v = ip.load_ptr(st, args[0])
    ip.store_ptr(st, args[0], NONE)
    return v
@model('core::option::Option::replace')
def m_oreplace(ip, st, args, ctx, fref):
    v = ip.load_ptr(st, args[0])
    ip.store_ptr(st, args[0], Some(args[1]))
    return v
@model('core::option::Option::zip')
def m_ozip(ip, st, args, ctx, fref):
    a, b = args
    return ite(And(is_some(a), is_some(b)), Some(Tup(fld(a, 'Some', 0), fld(b, 'Some', 0))), NONE)
@model('core::option::Option::xor')
def m_oxor(ip, st, args, ctx, fref):
    a, b = args
    return ite(is_some(a), ite(is_some(b), NONE, a), b)
@model('core::option::Option::iter')
def m_oiter(ip, st, args, ctx, fref):
    return opt_seq(D(ip, st, args[0]), OPTION)
@model('core::option::Option::flatten')
def m_oflatten(ip, st, args, ctx, fref):
    v = args[0]
    return ite(is_some(v), fld(v, 'Some', 0), NONE)
def default(ip, tyi):
    t = ip.ty(ip.peel(tyi))
    if t['k'] == 'adt' and t['path'].split('::')[-1] in ('Vec', 'String', 'VecDeque'):
        return EMPTY
    if t['k'] == 'str':
        return EMPTY
    if t['k'] in ('int', 'uint'):
        return Int(0)
    if t['k'] == 'bool':
        return FALSE
    if t['k'] == 'adt' and t['path'] == OPTION:
        return NONE
    raise Unk('Default of ' + str(t.get('path')))
@model('core::default::Default::default')
def m_default(ip, st, args, ctx, fref):
    return default(ip, ctx.retty)

# ------------------------------------------------------------------ comparison
def eq_terms(ip, a, b, t):
    k = t['k'] if t else None
    if k == 'char':
        return ieq(ip.ordv(a), ip.ordv(b))
    if k in ('int', 'uint'):
        return ieq(a, b)
    if k == 'float':
        return ip.fcmp('Eq', a, b)
    if k == 'adt' and t['path'] == 'serde_json::value::Value':
        return value_eq(a, b)
    if a.op == 'char' or b.op == 'char':
        return ieq(ip.ordv(a), ip.ordv(b))
    return beq(a, b)
def value_eq(a, b):
    """PartialEq of serde_json::Value"""
    x, y = sorted((a, b), key=lambda t: t.n)
    r = raw('veq', x, y)
    r = ite(isin(a, 'Value::Number'), And(isin(b, 'Value::Number'), raw('numeq', *sorted((fld(a, 'Value::Number', 0), fld(b, 'Value::Number', 0)), key=lambda t: t.n))), r)
    r = ite(isin(a, 'Value::String'), And(isin(b, 'Value::String'), beq(fld(a, 'Value::String', 0), fld(b, 'Value::String', 0))), r)
    r = ite(isin(a, 'Value::Bool'), And(isin(b, 'Value::Bool'), beq(fld(a, 'Value::Bool', 0), fld(b, 'Value::Bool', 0))), r)
    r = ite(isin(a, 'Value::Null'), isin(b, 'Value::Null'), r)
    # two values of different kinds are different
    r = ite(isin(a, ('Value::Array', 'Value::Object')), ite(isin(a, 'Value::Array'), And(isin(b, 'Value::Array'), r), And(isin(b, 'Value::Object'), r)), r)
    return r
@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def m_eq(ip, st, args, ctx, fref):
    a, b = DD(ip, st, D(ip, st, args[0])), DD(ip, st, D(ip, st, args[1]))
    t = ty_at(ip, ctx, 0)
    r = eq_terms(ip, a, b, t)
    return Not(r) if fref.path.endswith('ne') else r
@model('core::str::<impl str>::eq_ignore_ascii_case')
def m_eqic(ip, st, args, ctx, fref):
    return raw('eqic', D(ip, st, args[0]), D(ip, st, args[1]))
def less(ip, a, b, t):
    k = t['k'] if t else None
    if k == 'char':
        return lt(ip.ordv(a), ip.ordv(b))
    if k in ('int', 'uint'):
        return lt(a, b)
    if k == 'float':
        return raw('flt', a, b)
    if k == 'str' or k == 'adt' and t['path'] == 'alloc::string::String':
        return raw('slt', a, b)
    raise Unk('ordering of ' + str(k))
@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::ge')
def m_lt(ip, st, args, ctx, fref):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    t = ty_at(ip, ctx, 0)
    op = fref.path[-2:]
    if t['k'] == 'float' and op in ('le', 'ge'):
        return raw('fle', a, b) if op == 'le' else raw('fle', b, a)
    if op == 'lt':
        return less(ip, a, b, t)
    if op == 'gt':
        return less(ip, b, a, t)
    if op == 'le':
        return Not(less(ip, b, a, t))
    return Not(less(ip, a, b, t))
@model('core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp', 'core::f64::<impl f64>::total_cmp')
def m_cmp(ip, st, args, ctx, fref):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    t = ty_at(ip, ctx, 0)
    if t['k'] == 'float':
        r = ite(raw('flt', a, b), Some(LESS), ite(ip.fcmp('Eq', a, b), Some(EQUAL), ite(raw('flt', b, a), Some(GREATER), NONE)))
        return r
    r = ite(less(ip, a, b, t), LESS, ite(eq_terms(ip, a, b, t), EQUAL, GREATER))
    return Some(r) if fref.path.endswith('partial_cmp') else r
def _ordpred(names):
    def m(ip, st, args, ctx, fref):
        v = D(ip, st, args[0])
        return isin(v, names, ('Less', 'Equal', 'Greater'))
    return m
for _n, _s in (('is_lt', ('Less',)), ('is_le', ('Less', 'Equal')), ('is_gt', ('Greater',)), ('is_ge', ('Greater', 'Equal')), ('is_eq', ('Equal',)), ('is_ne', ('Less', 'Greater'))):
    TABLE['core::cmp::Ordering::' + _n] = _ordpred(_s)
@model('core::cmp::Ordering::reverse')
def m_oreverse(ip, st, args, ctx, fref):
    v = args[0]
    return ite(isin(v, 'Less'), GREATER, ite(isin(v, 'Greater'), LESS, EQUAL))
@model('core::cmp::max', 'core::cmp::Ord::max')
def m_max(ip, st, args, ctx, fref):
    return ite(le(args[0], args[1]), args[1], args[0])
@model('core::cmp::min', 'core::cmp::Ord::min')
def m_min(ip, st, args, ctx, fref):
    return ite(le(args[0], args[1]), args[0], args[1])
@model('core::cmp::Ord::clamp')
def m_clamp(ip, st, args, ctx, fref):
    v, lo, hi = args
    if not need(ip, st, ctx, le(lo, hi), 'clamp bounds'):
        return None
    return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
@model('core::ops::range::RangeInclusive::new')
def m_rinc(ip, st, args, ctx, fref):
    return raw('adt', 'core::ops::range::RangeInclusive', 'RangeInclusive', args[0], args[1])
@model('core::ops::range::RangeInclusive::contains', 'core::ops::range::Range::contains', 'core::ops::range::RangeBounds::contains')
def m_contains_r(ip, st, args, ctx, fref):
    r, v = D(ip, st, args[0]), D(ip, st, args[1])
    if r.op == 'range':
        lo, hi, inc = r.args[0], r.args[1], False
    elif r.op == 'adt':
        lo, hi, inc = D(ip, st, r.args[2]), D(ip, st, r.args[3]), 'Inclusive' in r.args[0]
    else:
        raise Unk('contains of an unknown range')
    t = ty_at(ip, ctx, 1)
    if v.op == 'char' or lo.op == 'char' or t and t['k'] == 'char':
        lo, hi, v = ip.ordv(lo), ip.ordv(hi), ip.ordv(v)
    return And(le(lo, v), le(v, hi) if inc else lt(v, hi))

# ------------------------------------------------------------------ integers
def int_in(ip, ctx, r):
    from interp import INT_RANGE
    t = ip.ty(ip.peel(r))
    return INT_RANGE[t['n']]
def _reg_ints(name, f):
    for t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
        TABLE[f'core::num::<impl {t}>::{name}'] = (lambda t: lambda ip, st, args, ctx, fref: f(ip, st, args, ctx, t))(t)
def _abs(ip, st, args, ctx, t):
    from interp import INT_RANGE
    v = args[0]
    if not need(ip, st, ctx, lt(Int(INT_RANGE[t][0]), v), 'overflow in abs'):
        return None
    return st.facts.simp(ite(lt(v, Int(0)), mulc(v, -1), v))
_reg_ints('abs', _abs)
def _unsigned_abs(ip, st, args, ctx, t):
    v = args[0]
    return ite(lt(v, Int(0)), mulc(v, -1), v)
_reg_ints('unsigned_abs', _unsigned_abs)
def _checked(f):
    def m(ip, st, args, ctx, t):
        from interp import INT_RANGE
        lo, hi = INT_RANGE[t]
        r = f(*args)
        return st.facts.simp(ip.map_ite(r, lambda x: ite(And(le(Int(lo), x), le(x, Int(hi))), Some(x), NONE)))
    return m
_reg_ints('checked_abs', _checked(lambda v: ite(lt(v, Int(0)), mulc(v, -1), v)))
_reg_ints('checked_sub', _checked(lambda a, b: sub(a, b)))
_reg_ints('checked_add', _checked(lambda a, b: add(a, b)))
_reg_ints('checked_mul', _checked(lambda a, b: mul(a, b)))
_reg_ints('checked_neg', _checked(lambda a: mulc(a, -1)))
_reg_ints('checked_add_signed', _checked(lambda a, b: add(a, b)))
_reg_ints('checked_add_unsigned', _checked(lambda a, b: add(a, b)))
_reg_ints('checked_sub_unsigned', _checked(lambda a, b: sub(a, b)))
def _sat(f):
    def m(ip, st, args, ctx, t):
        from interp import INT_RANGE
        lo, hi = INT_RANGE[t]
        r = f(*args)
        return st.facts.simp(ip.map_ite(r, lambda x: ite(lt(x, Int(lo)), Int(lo), ite(lt(Int(hi), x), Int(hi), x))))
    return m
_reg_ints('saturating_sub', _sat(lambda a, b: sub(a, b)))
_reg_ints('saturating_add', _sat(lambda a, b: add(a, b)))
_reg_ints('saturating_mul', _sat(lambda a, b: mul(a, b)))
_reg_ints('saturating_neg', _sat(lambda a: mulc(a, -1)))
_reg_ints('saturating_abs', _sat(lambda v: ite(lt(v, Int(0)), mulc(v, -1), v)))
_reg_ints('saturating_add_signed', _sat(lambda a, b: add(a, b)))
_reg_ints('saturating_add_unsigned', _sat(lambda a, b: add(a, b)))
_reg_ints('saturating_sub_unsigned', _sat(lambda a, b: sub(a, b)))
_reg_ints('abs_diff', lambda ip, st, args, ctx, t: ite(lt(args[0], args[1]), sub(args[1], args[0]), sub(args[0], args[1])))
def _wrapping(f):
    def m(ip, st, args, ctx, t):
        return st.facts.simp(ip.wrap(f(*args), t))
    return m
_reg_ints('wrapping_sub', _wrapping(lambda a, b: sub(a, b)))
_reg_ints('wrapping_add', _wrapping(lambda a, b: add(a, b)))
_reg_ints('wrapping_mul', _wrapping(lambda a, b: mul(a, b)))
_reg_ints('wrapping_add_signed', _wrapping(lambda a, b: add(a, b)))
def _overflowing(f):
    def m(ip, st, args, ctx, t):
        from interp import INT_RANGE
        lo, hi = INT_RANGE[t]
        r = f(*args)
        return Tup(st.facts.simp(ip.wrap(r, t)), st.facts.simp(Or(lt(r, Int(lo)), lt(Int(hi), r))))
    return m
_reg_ints('overflowing_add', _overflowing(lambda a, b: add(a, b)))
_reg_ints('overflowing_sub', _overflowing(lambda a, b: sub(a, b)))
_reg_ints('overflowing_neg', _overflowing(lambda a: mulc(a, -1)))
_reg_ints('wrapping_neg', _wrapping(lambda a: mulc(a, -1)))
_reg_ints('wrapping_abs', _wrapping(lambda v: ite(lt(v, Int(0)), mulc(v, -1), v)))
_reg_ints('is_negative', lambda ip, st, args, ctx, t: lt(args[0], Int(0)))
_reg_ints('is_positive', lambda ip, st, args, ctx, t: lt(Int(0), args[0]))
_reg_ints('signum', lambda ip, st, args, ctx, t: ite(lt(args[0], Int(0)), Int(-1), ite(ieq(args[0], Int(0)), Int(0), Int(1))))
def _pow(ip, st, args, ctx, t):
    if args[0].op == 'int' and args[1].op == 'int':
        return Int(args[0].args[0] ** args[1].args[0])
    return raw('pow', *args)
_reg_ints('pow', _pow)
def _radix(ip, st, args, ctx, t):
    r = raw('radix', t, D(ip, st, args[0]), args[1])
    return r
_reg_ints('from_str_radix', _radix)
@model('core::num::nonzero::NonZero::new')
def m_nonzero(ip, st, args, ctx, fref):
    return ite(ieq(args[0], Int(0)), NONE, Some(args[0]))
for _n in ('fract', 'trunc', 'floor', 'ceil', 'round', 'abs'):
    for _q in ('std', 'core'):
        TABLE[f'{_q}::f64::<impl f64>::{_n}'] = TABLE[f'{_q}::num::f64::<impl f64>::{_n}'] = (lambda n: lambda ip, st, args, ctx, fref: raw('f' + n, args[0]))(_n)
for _n in ('is_nan', 'is_finite', 'is_infinite', 'is_sign_negative', 'is_sign_positive', 'min', 'max'):
    for _q in ('std', 'core'):
        TABLE[f'{_q}::f64::<impl f64>::{_n}'] = TABLE[f'{_q}::num::f64::<impl f64>::{_n}'] = (lambda n: lambda ip, st, args, ctx, fref: raw('f' + n, *args))(_n)

# ------------------------------------------------------------------ characters
def _chr(name, *ranges):
    def m(ip, st, args, ctx, fref):
        v = ip.ordv(D(ip, st, args[0])) if 'char' in fref.path else D(ip, st, args[0])
        r = FALSE
        for lo, hi in ranges:
            r = Or(r, And(le(Int(lo), v), le(v, Int(hi))))
        return r
    for p in ('core::char::methods::<impl char>::', 'core::num::<impl u8>::'):
        TABLE[p + name] = m
_chr('is_ascii_digit', (48, 57))
_chr('is_ascii_lowercase', (97, 122))
_chr('is_ascii_uppercase', (65, 90))
_chr('is_ascii_alphabetic', (65, 90), (97, 122))
_chr('is_ascii_alphanumeric', (48, 57), (65, 90), (97, 122))
_chr('is_ascii_hexdigit', (48, 57), (65, 70), (97, 102))
_chr('is_ascii_control', (0, 31), (127, 127))
_chr('is_ascii', (0, 127))
_chr('is_ascii_whitespace', (9, 10), (12, 13), (32, 32))
_chr('is_control', (0, 31), (127, 159))
for _n in ('is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_whitespace', 'is_uppercase', 'is_lowercase', 'to_ascii_lowercase', 'to_ascii_uppercase'):
    TABLE['core::char::methods::<impl char>::' + _n] = (lambda n: lambda ip, st, args, ctx, fref: raw('char_' + n, D(ip, st, args[0])))(_n)
@model('core::char::methods::<impl char>::is_digit')
def m_is_digit(ip, st, args, ctx, fref):
    v, r = ip.ordv(D(ip, st, args[0])), args[1]
    if r.op != 'int':
        return raw('char_is_digit', v, r)
    n = r.args[0]
    c = And(le(Int(48), v), le(v, Int(48 + min(n, 10) - 1)))
    if n > 10:
        c = Or(c, And(le(Int(65), v), le(v, Int(65 + n - 11))), And(le(Int(97), v), le(v, Int(97 + n - 11))))
    return c
@model('core::char::methods::<impl char>::to_digit')
def m_to_digit(ip, st, args, ctx, fref):
    v, r = ip.ordv(D(ip, st, args[0])), args[1]
    n = r.args[0] if r.op == 'int' else 10
    x = ite(And(le(Int(48), v), le(v, Int(48 + min(n, 10) - 1))), Some(sub(v, Int(48))), NONE)
    if n > 10:
        x = ite(And(le(Int(65), v), le(v, Int(65 + n - 11))), Some(sub(v, Int(55))), x)
        x = ite(And(le(Int(97), v), le(v, Int(97 + n - 11))), Some(sub(v, Int(87))), x)
    return x
@model('core::char::methods::<impl char>::len_utf8')
def m_len_utf8(ip, st, args, ctx, fref):
    if getattr(ip, 'offsets', False):
        c = D(ip, st, args[0])
        if c.op == 'nth':
            return sub(boff(c.args[0], add(c.args[1], Int(1))), boff(*c.args))
    v = ip.ordv(D(ip, st, args[0]))
    return ite(lt(v, Int(0x80)), Int(1), ite(lt(v, Int(0x800)), Int(2), ite(lt(v, Int(0x10000)), Int(3), Int(4))))
@model('core::char::methods::<impl char>::encode_utf8')
def m_encode(ip, st, args, ctx, fref):
    return one(args[0])

# ------------------------------------------------------------------ sequences: collections
@model('alloc::vec::Vec::new', 'alloc::string::String::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::with_capacity',
       'alloc::collections::vec_deque::VecDeque::new', 'alloc::collections::vec_deque::VecDeque::with_capacity',
       'core::iter::sources::empty::empty')
def m_new(ip, st, args, ctx, fref):
    return EMPTY
@model('core::iter::sources::once::once')
def m_once(ip, st, args, ctx, fref):
    return one(args[0])
@model('alloc::vec::from_elem')
def m_from_elem(ip, st, args, ctx, fref):
    if args[1].op == 'int' and args[1].args[0] <= 16:
        return cat(*[one(args[0])] * args[1].args[0])
    return raw('repeat', args[0], args[1])
@model('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', 'serde_json::map::Map::len', 'alloc::collections::vec_deque::VecDeque::len')
def m_len(ip, st, args, ctx, fref):
    return length(D(ip, st, args[0]))
def char_of(f, s, i):
    """the i-th character of a part of a text as a position (V, k) of the text, False if there is none, None if that is not known"""
    if s.op == 'empty':
        return False
    if s.op == 'sym':
        return s, Int(i)
    if s.op == 'drop' and s.args[0].op == 'sym':
        return s.args[0], add(s.args[1], Int(i))
    if s.op == 'take':
        d = f.decide_c(lt(Int(i), s.args[1]))
        return char_of(f, s.args[0], i) if d else False if d is False else None
    return None
def drop_text(s, i):
    if i and s.op == 'take' and s.args[0].op == 'drop':
        return take(drop(s.args[0], Int(i)), sub(s.args[1], Int(i)))
    return drop(s, Int(i))
def blen(s):
    if s.op == 'take' and s.args[0].op == 'drop' and s.args[1].op == 'run':
        r = s.args[1]
        if r.args[0] is s.args[0].args[0] and r.args[1] is s.args[0].args[1] and max(b for _, b in r.args[2]) < 128:
            return r
    if s.op == 'str':
        return Int(len(s.args[0].encode('utf-8', 'surrogatepass')))
    if s.op == 'empty':
        return Int(0)
    if s.op == 'cat':
        r = Int(0)
        for p in s.args:
            r = add(r, blen(p))
        return r
    if s.op == 'ite':
        return ite(s.args[0], blen(s.args[1]), blen(s.args[2]))
    if s.op == 'utf8':
        return blen(s.args[0])
    t = raw('blen', s)
    TM.INTB[t] = (0, 2**63 - 1)
    return t
SC['blen'] = blen
@model('core::str::<impl str>::len', 'alloc::string::String::len')
def m_blen(ip, st, args, ctx, fref):
    if getattr(ip, 'offsets', False):
        v = D(ip, st, args[0])
        if v.op == 'sym':
            return boff(v, length(v))
    return blen(D(ip, st, args[0]))
@model('core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes', 'core::str::<impl str>::bytes', 'alloc::string::String::into_bytes')
def m_bytes(ip, st, args, ctx, fref):
    return utf8(D(ip, st, args[0]))
def utf8(s):
    if s.op == 'ite':
        return ite(s.args[0], utf8(s.args[1]), utf8(s.args[2]))
    if s.op == 'bytesof':
        return s.args[0]
    return raw('utf8', s)
@model('alloc::string::String::from_utf8', 'core::str::converts::from_utf8', 'alloc::string::String::from_utf8_lossy')
def m_from_utf8(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    if v.op == 'utf8':
        return Ok(v.args[0])
    t = raw('fromutf8', v)
    UNIVERSE[t] = RESU
    return t
@model('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty',
       'serde_json::map::Map::is_empty', 'alloc::collections::vec_deque::VecDeque::is_empty', 'core::ops::range::Range::is_empty')
def m_is_empty(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    if v.op == 'range':
        return le(v.args[1], v.args[0])
    return is_empty(v)
@model('alloc::vec::Vec::push', 'alloc::string::String::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def m_push(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, cat(v, one(args[1])))
    return UNIT
@model('alloc::collections::vec_deque::VecDeque::push_front')
def m_push_front(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, cat(one(args[1]), v))
    return UNIT
@model('alloc::vec::Vec::insert', 'alloc::string::String::insert')
def m_insert(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    if args[1] is Int(0):
        put(st, cat(one(args[2]), v))
    elif 'String' in fref.path:
        raise Unk('insert in the middle of a text')
    else:
        put(st, cat(take(v, args[1]), one(args[2]), drop(v, args[1])))
    return UNIT
@model('alloc::string::String::push_str', 'alloc::string::String::extend_from_within')
def m_push_str(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, cat(v, D(ip, st, args[1])))
    return UNIT
@model('alloc::string::String::insert_str')
def m_insert_str(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    if args[1] is not Int(0):
        raise Unk('insert_str in the middle')
    put(st, cat(D(ip, st, args[2]), v))
    return UNIT
# operators called through their traits: texts, and numbers behind references
def _arith(op):
    def m(ip, st, args, ctx, fref):
        from interp import INT_RANGE
        t = ty_at(ip, ctx, 0)
        a, b = D(ip, st, args[0]), D(ip, st, args[1])
        if t and t['k'] == 'adt' and t['path'] == 'alloc::string::String' and op == 'Add':
            return cat(a, b)
        if t and t['k'] in ('int', 'uint'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b)
            lo, hi = INT_RANGE[t['n']]
            if not need(ip, st, ctx, And(le(Int(lo), r), le(r, Int(hi))), 'overflow'):
                return None
            return st.facts.simp(r)
        raise Unk(op + ' of ' + str(t and t['k']))
    def massign(ip, st, args, ctx, fref):
        v, put = cell_seq(ip, st, args[0])
        r = m(ip, st, [v, args[1]], ctx, fref)
        if r is None:
            return None
        put(st, r)
        return UNIT
    n = op.lower()
    TABLE[f'core::ops::arith::{op}::{n}'] = m
    TABLE[f'core::ops::arith::{op}Assign::{n}_assign'] = massign
for _n in ('Add', 'Sub', 'Mul'):
    _arith(_n)
@model('alloc::vec::Vec::append')
def m_append(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    w, put2 = cell_seq(ip, st, args[1])
    put(st, cat(v, w))
    if args[1].op == 'ptr':
        put2(st, EMPTY)
    return UNIT
@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::extend')
def m_extend(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    w = seq(ip, st, args, ctx, 1)
    t = ty_at(ip, ctx, 0)
    if t and t['k'] == 'adt' and t['path'] == 'alloc::string::String':
        w = str_items(ip, w, item_kind(ip, ctx.argtys[1]))
    put(st, cat(v, w))
    return UNIT
@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def m_clear(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, EMPTY)
    return UNIT
@model('alloc::vec::Vec::truncate')
def m_truncate(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, take(v, args[1]))
    return UNIT
def init_of(v):
    """all but the last element"""
    if v.op == 'cat':
        l = v.args[-1]
        if l.op == 'one':
            return cat(*v.args[:-1])
        if l.op == 'str':
            return cat(*v.args[:-1], Str(l.args[0][:-1]))
    if v.op == 'one':
        return EMPTY
    if v.op == 'str':
        return Str(v.args[0][:-1])
    return take(v, sub(length(v), Int(1)))
def last_of(v):
    if v.op == 'cat':
        l = v.args[-1]
        if l.op == 'one':
            return l.args[0]
        if l.op == 'str':
            return Char(l.args[0][-1])
    return nth(v, sub(length(v), Int(1)))
@model('alloc::collections::vec_deque::VecDeque::pop_front')
def m_pop_front(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    e = st.facts.simp(is_empty(v))
    put(st, v if e is TRUE else drop(v, Int(1)) if e is FALSE else ite(e, v, drop(v, Int(1))))
    return NONE if e is TRUE else Some(nth(v, Int(0))) if e is FALSE else ite(e, NONE, Some(nth(v, Int(0))))
@model('alloc::vec::Vec::pop', 'alloc::string::String::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def m_pop(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    e = st.facts.simp(is_empty(v))
    put(st, v if e is TRUE else init_of(v) if e is FALSE else ite(e, v, init_of(v)))
    return NONE if e is TRUE else Some(last_of(v)) if e is FALSE else ite(e, NONE, Some(last_of(v)))
@model('core::slice::<impl [T]>::first', 'alloc::collections::vec_deque::VecDeque::front')
def m_first(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    return ite(is_empty(v), NONE, Some(nth(v, Int(0))))
@model('core::slice::<impl [T]>::last', 'core::iter::traits::iterator::Iterator::last', 'alloc::collections::vec_deque::VecDeque::back')
def m_last(ip, st, args, ctx, fref):
    v = seq(ip, st, args, ctx)
    return ite(is_empty(v), NONE, Some(last_of(v)))
@model('core::slice::<impl [T]>::get', 'alloc::collections::vec_deque::VecDeque::get')
def m_get(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    i = args[1]
    t = ty_at(ip, ctx, 1)
    if t and t['k'] == 'uint':
        i = st.facts.simp(i)
        return ip.map_ite(i, lambda i: ite(And(le(Int(0), i), lt(i, length(v))), Some(nth(v, i)), NONE))
    a, b = range_bounds(ip, st, i, v)
    return ite(And(le(a, b), le(b, length(v))), Some(take(drop(v, a), sub(b, a))), NONE)
def range_bounds(ip, st, r, v, ln=length):
    r = D(ip, st, r)
    if r.op == 'range':
        return r.args[0], r.args[1]
    if r.op == 'adt':
        n = r.args[0].split('::')[-1]
        if n == 'RangeFrom': return r.args[2], ln(v)
        if n == 'RangeTo': return Int(0), r.args[2]
        if n == 'RangeInclusive': return r.args[2], add(r.args[3], Int(1))
        if n == 'RangeToInclusive': return Int(0), add(r.args[2], Int(1))
        if n == 'RangeFull': return Int(0), ln(v)
    if r.op == 'zst':
        return Int(0), ln(v)
    raise Unk('range index')
@model('core::ops::index::Index::index')
def m_index(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    t0, t = ty_at(ip, ctx, 0), ty_at(ip, ctx, 1)
    if t and t['k'] in ('uint', 'int'):
        i = args[1]
        if not need(ip, st, ctx, And(le(Int(0), i), lt(i, length(v))), 'index out of bounds'):
            return None
        return nth(v, i)
    if t0 and (t0['k'] == 'str' or t0['k'] == 'adt' and t0['path'] == 'alloc::string::String'):
        a, b = range_bounds(ip, st, args[1], v, blen)
        return bslice(ip, st, ctx, v, a, b)
    if t0 and t0['k'] == 'adt' and 'HashMap' in t0['path']:
        r = raw('hget', v, D(ip, st, args[1]))
        UNIVERSE[r] = OPTU
        if not need(ip, st, ctx, is_some(r), 'missing key'):
            return None
        return fld(r, 'Some', 0)
    a, b = range_bounds(ip, st, args[1], v)
    if not need(ip, st, ctx, And(le(a, b), le(b, length(v))), 'slice index out of bounds'):
        return None
    return take(drop(v, a), sub(b, a))
def bslice(ip, st, ctx, v, a, b):
    if ip.bslice_check is not None:
        ip.bslice_check(ip, st, ctx, v, a, b)
    if a is Int(0) and b is blen(v):
        return v
    return bslice_(v, a, b)
def bslice_(v, a, b):
    """part of a text between two byte offsets"""
    ka, kb = (Int(0) if x is Int(0) else x.args[1] if x.op == 'boff' and x.args[0] is v else None for x in (a, b))
    if ka is not None and kb is not None:
        return take(drop(v, ka), sub(kb, ka))
    return raw('bslice', v, a, b)
SC['bslice'] = bslice_
def char_index(v, a):
    """k with boff(v, k) == a"""
    if a is Int(0):
        return a
    if a.op == 'boff' and a.args[0] is v:
        return a.args[1]
    if a.op == 'ite':
        x, y = char_index(v, a.args[1]), char_index(v, a.args[2])
        return None if x is None or y is None else ite(a.args[0], x, y)
    return None
@model('core::slice::<impl [T]>::last_mut', 'alloc::collections::vec_deque::VecDeque::back_mut')
def m_last_mut(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    q = args[0]
    while True:
        if q.op != 'ptr':
            raise Unk('last_mut of an untracked sequence')
        x = ip.load_ptr(st, q)
        if x.op != 'ptr':
            break
        q = x
    p = raw('ptr', q.args[0], q.args[1] + (('@', sub(length(v), Int(1))),))
    e = st.facts.simp(is_empty(v))
    return NONE if e is TRUE else Some(p) if e is FALSE else ite(e, NONE, Some(p))
@model('core::str::<impl str>::get')
def m_strget(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    a, b = range_bounds(ip, st, args[1], v, blen)
    if getattr(ip, 'offsets', False):
        i, j = char_index(v, a), char_index(v, b)
        if i is not None and j is not None:
            return ite(And(le(i, j), le(j, length(v))), Some(take(drop(v, i), sub(j, i))), NONE)
    ok = raw('boundary', v, a, b)
    return ite(ok, Some(raw('bslice', v, a, b)), NONE)
@model('core::slice::<impl [T]>::contains')
def m_contains(ip, st, args, ctx, fref):
    v, x = D(ip, st, args[0]), D(ip, st, args[1])
    t = ty_at(ip, ctx, 1)
    return exists(v, lambda e, p: eq_terms(ip, e, x, t))
@model('alloc::slice::<impl [T]>::join', 'alloc::slice::Join::join')
def m_join(ip, st, args, ctx, fref):
    return join(D(ip, st, args[0]), D(ip, st, args[1]))
@model('alloc::slice::<impl [T]>::concat', 'alloc::slice::Concat::concat')
def m_concat(ip, st, args, ctx, fref):
    return mk_for(D(ip, st, args[0]), lambda e, p: e)
@model('core::slice::<impl [T]>::reverse')
def m_reverse(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, rev(v))
    return UNIT
@model('alloc::vec::Vec::retain')
def m_retain(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    f = ip.pure(args[1], st)
    put(st, mk_for(v, lambda e, p: ite(f(e), one(e), EMPTY)))
    return UNIT
# removing neighbours and sorting, as folds over the sequence
def _dedup(v, same):
    """the elements that are not the same as the last kept one"""
    uid = fresh()
    e, acc = raw('el', uid), raw('acc', uid)
    return TM.mk_fold_open(v, EMPTY, uid, ite(ite(is_empty(acc), FALSE, same(e, last_of(acc))), acc, cat(acc, one(e))))
def _unique(v, same):
    uid = fresh()
    e, acc = raw('el', uid), raw('acc', uid)
    return TM.mk_fold_open(v, EMPTY, uid, ite(exists(acc, lambda x, p: same(e, x)), acc, cat(acc, one(e))))
def _sorted(v, greater):
    """stable insertion: greater(x, e) says x sorts after e"""
    uid = fresh()
    e, acc = raw('el', uid), raw('acc', uid)
    return TM.mk_fold_open(v, EMPTY, uid, cat(mk_for(acc, lambda x, p: ite(greater(x, e), EMPTY, one(x))), one(e), mk_for(acc, lambda x, p: ite(greater(x, e), one(x), EMPTY))))
def elem_type(ip, ctx):
    i = ip.peel(ctx.argtys[0])
    t = ip.ty(i)
    if t['k'] in ('slice', 'array'):
        return ip.ty(ip.peel(t['t']))
    a = [x for x in t['args'] if isinstance(x, int)]
    return ip.ty(ip.peel(a[0]))
@model('alloc::vec::Vec::dedup', 'alloc::vec::Vec::dedup_by', 'alloc::vec::Vec::dedup_by_key')
def m_dedup(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    n = fref.path.split('::')[-1]
    if n == 'dedup_by':
        f = ip.pure(args[1], st)
        same = lambda a, b: f(a, b)
    elif n == 'dedup_by_key':
        f = ip.pure(args[1], st)
        same = lambda a, b: beq(f(a), f(b))
    else:
        t = elem_type(ip, ctx)
        same = lambda a, b: eq_terms(ip, a, b, t)
    put(st, _dedup(v, same))
    return UNIT
def _greater(ip, st, args, ctx, n):
    if n.endswith('by_key') or n.endswith('cached_key'):
        f = ip.pure(args[1], st)
        rt = closure_ret(ip, ctx)
        return lambda a, b: less(ip, f(b), f(a), rt)
    if n.endswith('_by'):
        f = ip.pure(args[1], st)
        return lambda a, b: isin(f(a, b), ('Greater',))
    t = elem_type(ip, ctx)
    return lambda a, b: less(ip, b, a, t)
def closure_ret(ip, ctx):
    t = ip.ty(ip.peel(ctx.argtys[1]))
    f = ip.crate.fns.get(t.get('id'))
    if f is None:
        raise Unk('key of a sort')
    return ip.ty(ip.peel(f.locals[0]))
@model(*['alloc::slice::<impl [T]>::' + n for n in ('sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key')], *['core::slice::<impl [T]>::' + n for n in ('sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key')])
def m_sort(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    put(st, _sorted(v, _greater(ip, st, args, ctx, fref.path.split('::')[-1])))
    return UNIT
@model(*['itertools::Itertools::' + n for n in ('sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable')])
def m_isorted(ip, st, args, ctx, fref):
    n = fref.path.split('::')[-1]
    if not n.endswith(('_by', '_by_key')):
        raise Unk('sorted')
    return _sorted(seq(ip, st, args, ctx), _greater(ip, st, args, ctx, n))
@model('itertools::Itertools::unique', 'itertools::Itertools::dedup', 'itertools::Itertools::unique_by', 'itertools::Itertools::dedup_by')
def m_iunique(ip, st, args, ctx, fref):
    n = fref.path.split('::')[-1]
    s = seq(ip, st, args, ctx)
    if n == 'unique_by':
        f = ip.pure(args[1], st, s)
        return _unique(s, lambda a, b: beq(f(a), f(b)))
    if n == 'dedup_by':
        f = ip.pure(args[1], st, s)
        return _dedup(s, lambda a, b: f(b, a))
    return (_unique if n == 'unique' else _dedup)(s, lambda a, b: raw('veq', a, b))
@model('core::slice::<impl [T]>::swap')
def m_slice_swap(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    i, j = args[1], args[2]
    if not need(ip, st, ctx, And(And(le(Int(0), i), lt(i, length(v))), And(le(Int(0), j), lt(j, length(v)))), 'swap out of bounds'):
        return None
    lo, hi = ite(lt(i, j), i, j), ite(lt(i, j), j, i)
    put(st, ite(ieq(i, j), v, cat(take(v, lo), one(nth(v, hi)), take(drop(v, add(lo, Int(1))), sub(sub(hi, lo), Int(1))), one(nth(v, lo)), drop(v, add(hi, Int(1))))))
    return UNIT
@model('core::slice::<impl [T]>::rotate_left', 'core::slice::<impl [T]>::rotate_right')
def m_rotate(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    k = args[1] if fref.path.endswith('left') else sub(length(v), args[1])
    if not need(ip, st, ctx, And(le(Int(0), k), le(k, length(v))), 'rotate out of bounds'):
        return None
    put(st, cat(drop(v, k), take(v, k)))
    return UNIT
@model('alloc::vec::Vec::split_off')
def m_split_off(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    if not need(ip, st, ctx, le(args[1], length(v)), 'split_off out of bounds'):
        return None
    put(st, take(v, args[1]))
    return drop(v, args[1])
@model('core::iter::traits::iterator::Iterator::partition')
def m_partition(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    f = ip.pure(args[1], st, s)
    return Tup(mk_for(s, lambda e, p: ite(f(e), one(e), EMPTY)), mk_for(s, lambda e, p: ite(f(e), EMPTY, one(e))))
@model('core::iter::traits::iterator::Iterator::map_while')
def m_map_while(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    f = ip.pure(args[1], st, s)
    r = first(s, lambda e, p: Not(is_some(f(e))))
    t = ite(is_some(r), take(s, fld(fld(r, 'Some', 0), None, 0)), s)
    return mk_for(t, lambda e, p: one(fld(f(e), 'Some', 0)))
@model('core::slice::<impl [T]>::split_first')
def m_split_first(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    return ite(is_empty(v), NONE, Some(Tup(nth(v, Int(0)), drop(v, Int(1)))))
@model('core::slice::<impl [T]>::split_last')
def m_split_last(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    return ite(is_empty(v), NONE, Some(Tup(last_of(v), init_of(v))))
@model('alloc::vec::Vec::swap_remove', 'alloc::vec::Vec::remove')
def m_remove(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    i = args[1]
    if not need(ip, st, ctx, And(le(Int(0), i), lt(i, length(v))), 'remove out of bounds'):
        return None
    x = nth(v, i)
    if i is Int(0) and fref.path.endswith('::remove'):
        put(st, drop(v, Int(1)))
    elif length(v) is Int(1):
        put(st, EMPTY)
    else:
        put(st, ite(ieq(i, sub(length(v), Int(1))), init_of(v), cat(take(v, i), one(last_of(v)), drop(init_of(v), add(i, Int(1))))) if fref.path.endswith('swap_remove') else cat(take(v, i), drop(v, add(i, Int(1)))))
    return x
@model('alloc::vec::Vec::drain')
def m_drain(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    a, b = range_bounds(ip, st, args[1], v)
    if a is Int(0) and b is length(v):
        put(st, EMPTY)
        return v
    raise Unk('drain')

# ------------------------------------------------------------------ strings
@model('alloc::str::<impl str>::replace')
def m_replace(ip, st, args, ctx, fref):
    return str_replace(ip, D(ip, st, args[0]), D(ip, st, args[1]), D(ip, st, args[2]))
def str_replace(ip, s, a, b):
    if a.op == 'char':
        a = one(a)
    return raw('replace', s, a, b)
@model('core::str::<impl str>::parse', 'core::str::traits::FromStr::from_str')
def m_parse(ip, st, args, ctx, fref):
    rt = ip.ty(ctx.retty)
    ok = ip.ty([x for x in rt['args'] if isinstance(x, int)][0])
    t = raw('parse', ok.get('n') or ok.get('path') or ok['k'], D(ip, st, args[0]))
    UNIVERSE[t] = RESU
    if ok['k'] in ('int', 'uint'):
        from interp import INT_RANGE
        TM.INTB[fld(t, 'Ok', 0)] = INT_RANGE[ok['n']]
    return t
for _n in ('starts_with', 'ends_with', 'contains', 'find', 'rfind', 'trim', 'trim_start', 'trim_end', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'strip_prefix',
           'strip_suffix', 'split', 'split_once', 'lines', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'is_char_boundary', 'matches', 'splitn', 'rsplit', 'split_at', 'repeat'):
    def _mk(n):
        def m(ip, st, args, ctx, fref):
            a = [DD(ip, st, D(ip, st, x)) for x in args]
            a = [one(x) if x.op == 'char' else x for x in a]
            s = a[0]
            if n == 'starts_with' and a[1].op == 'str':
                # known prefix
                if s.op == 'str':
                    return Bool(s.args[0].startswith(a[1].args[0]))
            if getattr(ip, 'offsets', False) and len(a) == 2 and a[1].op == 'str' and len(a[1].args[0]) == 1:
                c = ord(a[1].args[0])
                if n == 'trim_start_matches':
                    for i in range(3):
                        w = char_of(st.facts, s, i)
                        m_ = w if isinstance(w, bool) else w and facts.member(st.facts, *w, ((c, c),))
                        if m_ is False:
                            return st.facts.simp(drop_text(s, i))
                        if not m_:
                            break
                if n == 'starts_with':
                    w = char_of(st.facts, s, 0)
                    if w is False:
                        return FALSE
                    if w:
                        m_ = facts.member(st.facts, *w, ((c, c),))
                        return Bool(m_) if m_ is not None else And(lt(w[1], length(w[0])), ieq(ord_(nth(*w)), Int(c)))
            r = raw('str_' + n, *a)
            if n in ('find', 'rfind', 'strip_prefix', 'strip_suffix', 'split_once'):
                UNIVERSE[r] = OPTU
            return r
        return m
    TABLE['core::str::<impl str>::' + _n] = TABLE['alloc::str::<impl str>::' + _n] = _mk(_n)
@model('core::str::<impl str>::char_indices')
def m_char_indices(ip, st, args, ctx, fref):
    s = D(ip, st, args[0])
    if getattr(ip, 'offsets', False):
        return TM.raw('adt', 'CharIndices', 'CharIndices', s, Int(0))
    return raw('charidx', s)
def boff(v, k):
    """offset in bytes of the k-th character of a text (k at most its length)"""
    if k is Int(0):
        return Int(0)
    if v.op == 'str' and k.op == 'int':
        return Int(len(v.args[0][:k.args[0]].encode('utf-8', 'surrogatepass')))
    if k.op == 'ite':
        return ite(k.args[0], boff(v, k.args[1]), boff(v, k.args[2]))
    t = raw('boff', v, k)
    TM.INTB[t] = (0, 2**63 - 1)
    return t
SC['boff'] = boff

# ------------------------------------------------------------------ iterators
I = 'core::iter::traits::iterator::Iterator::'
def im(*names):
    def d(f):
        for n in names:
            TABLE[I + n] = f
        return f
    return d
TABLE['core::iter::traits::double_ended::DoubleEndedIterator::rev'] = None
del TABLE['core::iter::traits::double_ended::DoubleEndedIterator::rev']

def nextv(ip, st, v, put):
    """next() on a sequence: value, updated state"""
    v = st.facts.simp(v) if not ip._contains_ptr(v) else v
    if v.op == 'ite':
        a, b = v.args[1], v.args[2]
        def go(x):
            return lambda s: nextv(ip, s, x, put)
        return branch(ip, st, v.args[0], go(a), go(b))
    e = st.facts.simp(is_empty(v)) if v.op != 'range' else range_empty(v)
    e = st.facts.simp(e)
    if e is TRUE:
        return NONE, st
    h = nth(v, Int(0)) if v.op != 'charidx' else raw('nth', v, Int(0))
    if e is FALSE:
        put(st, drop(v, Int(1)))
        return Some(h), st
    if e.op == 'unk':
        raise Unk('emptiness')
    put(st, ite(e, v, drop(v, Int(1))))
    return ite(e, NONE, Some(h)), st
def range_empty(v):
    a, b, k = v.args
    if k.op == 'int' and k.args[0] > 0:
        return le(b, a)
    return raw('rempty', v)

def is_chars(v):
    return is_chars(v.args[1]) or is_chars(v.args[2]) if v.op == 'ite' else v.op == 'adt' and v.args[0] == 'CharIndices'
@im('next')
def m_next(ip, st, args, ctx, fref):
    p = args[0]
    v, put = cell_seq(ip, st, p, ctx)
    if v.op == 'ite' and is_chars(v):
        v = st.facts.simp(v)
    if v.op == 'ite' and is_chars(v):
        return branch(ip, st, v.args[0], lambda s: m_next(ip, s, args, ctx, fref), lambda s: m_next(ip, s, args, ctx, fref))
    if v.op == 'adt' and v.args[0] == 'CharIndices':
        q, k = v.args[2], v.args[3]
        e = st.facts.simp(le(length(q), k))
        x = Some(Tup(boff(q, k), nth(q, k)))
        put(st, v if e is TRUE else TM.raw('adt', 'CharIndices', 'CharIndices', q, add(k, Int(1)) if e is FALSE else ite(e, k, add(k, Int(1)))))
        return NONE if e is TRUE else x if e is FALSE else ite(e, NONE, x)
    if v.op == 'adt' and ctx.argtys:
        i = ip.peel(ctx.argtys[0])
        f = ip.iter_impl(i)
        if f is not None:
            return ip.inline(f, args, st, ctx)
    if v.unk and v.op == 'unk':
        raise Unk(unk_why(v))
    return nextv(ip, st, v, put)
def unk_why(v):
    from interp import unk_reason
    return unk_reason(v)
@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def m_next_back(ip, st, args, ctx, fref):
    return m_pop(ip, st, args, ctx, fref)
@model('core::iter::adapters::peekable::Peekable::peek')
def m_peek(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    return ite(is_empty(v), NONE, Some(nth(v, Int(0)) if v.op != 'charidx' else raw('nth', v, Int(0))))
@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def m_exact_len(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    return length(v)
@model('core::iter::adapters::peekable::Peekable::next_if')
def m_next_if(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    def some(s):
        r = ip.call_closure(args[1], [nth(v, Int(0))], s)
        if r is None:
            return None
        def yes(s2):
            put(s2, drop(v, Int(1)))
            return Some(nth(v, Int(0))), s2
        return branch(ip, r[1], r[0], yes, lambda s2: NONE)
    return branch(ip, st, is_empty(v), lambda s: NONE, some)
@model('core::iter::adapters::peekable::Peekable::next_if_eq')
def m_next_if_eq(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    x = D(ip, st, args[1])
    def yes(s2):
        put(s2, drop(v, Int(1)))
        return Some(nth(v, Int(0))), s2
    return branch(ip, st, And(Not(is_empty(v)), eq_terms(ip, nth(v, Int(0)), x, ty_at(ip, ctx, 1))), yes, lambda s: NONE)
@im('nth')
def m_nth(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    n = args[1]
    c = lt(n, length(v))
    put(st, ite(c, drop(v, add(n, Int(1))), EMPTY))
    return ite(c, Some(nth(v, n)), NONE)
def dist(ip, st, s, g):
    """g(state, sequence) for every case of the sequence"""
    s = st.facts.simp(s)
    if s.op == 'ite':
        c = s.args[0]
        ft, ff = st.facts.assume(c, True), st.facts.assume(c, False)
        if ft.dead:
            return dist(ip, st, s.args[2], g)
        if ff.dead:
            return dist(ip, st, s.args[1], g)
        return ite(c, dist(ip, st.with_facts(ft), s.args[1], g), dist(ip, st.with_facts(ff), s.args[2], g))
    return g(st, s)
@im('map')
def m_map(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        return mk_for(s, lambda e, p: one(f(e)))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('filter')
def m_filter(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        return mk_for(s, lambda e, p: ite(f(e), one(e), EMPTY))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('filter_map')
def m_filter_map(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        return mk_for(s, lambda e, p: opt_seq(f(e), OPTION))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('flat_map')
def m_flat_map(ip, st, args, ctx, fref):
    def g(st, s):
        f = pure_seq(ip, st, args[1], s)
        return mk_for(s, lambda e, p: f(e))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('flatten')
def m_flatten(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    k = item_kind(ip, ctx.argtys[0]) if ctx.argtys else None
    if k == 'option':
        return mk_for(s, lambda e, p: opt_seq(e, OPTION))
    if k == 'result':
        return mk_for(s, lambda e, p: opt_seq(e, RESULT))
    return mk_for(s, lambda e, p: item_seq(e))
@im('enumerate')
def m_enumerate(ip, st, args, ctx, fref):
    return enumerate_(seq(ip, st, args, ctx))
@im('zip')
def m_zip(ip, st, args, ctx, fref):
    a, b = seq(ip, st, args, ctx), seq(ip, st, args, ctx, 1)
    return zip_(a, b)
def zip_(a, b):
    if a.op == 'empty' or b.op == 'empty':
        return EMPTY
    # (0..).zip(xs) / xs.zip(0..)
    if a.op == 'adt' and a.args[0].endswith('RangeFrom') and a.args[2].op == 'int':
        k = a.args[2]
        return mk_for(b, lambda e, p: one(Tup(add(p, k), e)))
    if b.op == 'adt' and b.args[0].endswith('RangeFrom') and b.args[2].op == 'int':
        k = b.args[2]
        return mk_for(a, lambda e, p: one(Tup(e, add(p, k))))
    return raw('zip', a, b)
SC['zip'] = zip_
@im('chain')
def m_chain(ip, st, args, ctx, fref):
    return cat(seq(ip, st, args, ctx), seq(ip, st, args, ctx, 1))
@im('rev')
def m_rev(ip, st, args, ctx, fref):
    return rev(seq(ip, st, args, ctx))
@im('skip')
def m_skip(ip, st, args, ctx, fref):
    s, n = seq(ip, st, args, ctx), args[1]
    if n is Int(1):
        return ite(is_empty(s), EMPTY, drop(s, n))
    return ite(le(n, length(s)), drop(s, n), EMPTY)
@im('take')
def m_takei(ip, st, args, ctx, fref):
    return take(seq(ip, st, args, ctx), args[1])
@im('step_by')
def m_step_by(ip, st, args, ctx, fref):
    s, k = seq(ip, st, args, ctx), args[1]
    if not need(ip, st, ctx, Not(ieq(k, Int(0))), 'step_by(0)'):
        return None
    return stepby(s, k)
def stepby(s, k):
    if s.op == 'ite':
        return ite(s.args[0], stepby(s.args[1], k), stepby(s.args[2], k))
    if s.op == 'empty' or k is Int(1):
        return s
    if s.op == 'range' and s.args[2] is Int(1):
        return rng(s.args[0], s.args[1], k)
    return raw('stepby', s, k)
SC['stepby'] = stepby
@im('by_ref')
def m_by_ref(ip, st, args, ctx, fref):
    return args[0]
@im('take_while')
def m_take_while(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    f = ip.pure(args[1], st, s)
    if args[0].op == 'ptr':
        raise Unk('take_while on a borrowed iterator')
    r = first(s, lambda e, p: Not(f(e)))
    return ite(is_some(r), take(s, fld(fld(r, 'Some', 0), None, 0)), s)
@im('skip_while')
def m_skip_while(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    f = ip.pure(args[1], st, s)
    r = first(s, lambda e, p: Not(f(e)))
    return ite(is_some(r), drop(s, fld(fld(r, 'Some', 0), None, 0)), EMPTY)
@im('count')
def m_count(ip, st, args, ctx, fref):
    return length(seq(ip, st, args, ctx))
@im('all')
def m_all(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        return forall(s, lambda e, p: f(e))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('any')
def m_any(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        return exists(s, lambda e, p: f(e))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('find')
def m_find(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        r = first(s, lambda e, p: f(e))
        return ite(is_some(r), Some(fld(fld(r, 'Some', 0), None, 1)), NONE)
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('position')
def m_position(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        r = first(s, lambda e, p: f(e))
        return ite(is_some(r), Some(fld(fld(r, 'Some', 0), None, 0)), NONE)
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('find_map')
def m_find_map(ip, st, args, ctx, fref):
    def g(st, s):
        f = ip.pure(args[1], st, s)
        q = mk_for(s, lambda e, p: opt_seq(f(e), OPTION))
        return ite(is_empty(q), NONE, Some(nth(q, Int(0))))
    return dist(ip, st, seq(ip, st, args, ctx), g)
@im('max', 'min', 'sum', 'product')
def m_agg(ip, st, args, ctx, fref):
    return raw('iter_' + fref.path.split('::')[-1], seq(ip, st, args, ctx))
@im('for_each')
def m_for_each(ip, st, args, ctx, fref):
    import loops
    s = seq(ip, st, args, ctx)
    def step(s2, e, p):
        r = ip.call_closure(args[1], [e], s2)
        return None if r is None else ('leaf', 'cont', None, r[1])
    t = loops.over_seq(ip, st, s, step)
    return None if t is None else (UNIT, t)
def acc_iter(ip, c):
    """is the accumulator of a fold closure an iterator type of the crate?"""
    if c.op == 'closure' and c.args[0] in ip.crate.fns:
        f = ip.crate.fns[c.args[0]]
        return ip.iter_impl(ip.peel(f.locals[0])), f.locals[0]
    return None, None
@im('fold')
def m_fold(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    c = clo(ip, st, args[2])
    it, ti = acc_iter(ip, c)
    g = ip.pure(args[2], st)
    init = args[1]
    if it is not None:
        init = as_seq(ip, st, init, ti)
        def step(e, p, a):
            ip.seqvals.add(a)
            return as_seq(ip, st, g(a, e), ti)
        r = fold(s, init, step)
        ip.seqvals.add(r)
        return r
    return fold(s, DD(ip, st, init), lambda e, p, a: g(a, e))
@im('try_fold')
def m_try_fold(ip, st, args, ctx, fref):
    p0 = args[0]
    v, put = cell_seq(ip, st, p0)
    s = v if v.op != 'adt' else as_seq(ip, st, v, ctx.argtys[0])
    if p0.op == 'ptr':
        put(st, unk('iterator after try_fold'))
    g = ip.pure(args[2], st)
    rt = ip.ty(ctx.retty)
    if rt['path'] == OPTION:
        def b(e, p, a):
            r = g(a, e)
            return ite(is_some(r), Ok(fld(r, 'Some', 0)), Err(UNIT))
        r = tryfold(s, DD(ip, st, args[1]), b)
        return ite(is_ok(r), Some(fld(r, 'Ok', 0)), NONE)
    if rt['path'] == RESULT:
        def b(e, p, a):
            r = g(a, e)
            note_res(r)
            return r
        return tryfold(s, DD(ip, st, args[1]), b)
    raise Unk('try_fold to ' + rt['path'])
def note_res(r):
    if r.op not in ('adt', 'ite'):
        UNIVERSE.setdefault(r, RESU)
@im('try_for_each')
def m_try_for_each(ip, st, args, ctx, fref):
    import loops
    v, put = cell_seq(ip, st, args[0])
    s = v if v.op != 'adt' else as_seq(ip, st, v, ctx.argtys[0])
    def step(s2, e, p):
        r = ip.call_closure(args[1], [e], s2)
        if r is None:
            return None
        val, s3 = r
        return ip.split(s3, is_ok(val), lambda ok, s4: ('leaf', 'cont', None, s4) if ok else ('leaf', 'ret', s4.facts.simp(val), s4))
    tree = loops.over_seq_tree(ip, st, s, step)
    from interp import map_leaves
    tree = map_leaves(tree, lambda l: ('leaf', 'ret', Ok(UNIT), l[3]) if l[1] == 'done' else l)
    if tree is None:
        return None
    return ip.merge_ret(tree, st, None)

def str_items(ip, s, k):
    """sequence of characters from a sequence of chars or strings"""
    if k == 'char':
        return s
    if k == 'string':
        return mk_for(s, lambda e, p: e)
    if s.op in ('empty', 'str'):
        return s
    raise Unk('collecting a string from items of unknown type')
@im('collect')
def m_collect(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    return collect_as(ip, st, s, ctx.retty, item_kind(ip, ctx.argtys[0]))
def collect_as(ip, st, s, retty, ik):
    rt = ip.ty(retty)
    if rt['k'] == 'adt':
        p = rt['path']
        targs = [x for x in rt['args'] if isinstance(x, int)]
        if p == RESULT:
            def b(e, pos):
                note_res(e)
                return ite(is_ok(e), Ok(one(fld(e, 'Ok', 0))), Err(fld(e, 'Err', 0)))
            r = tryfor(s, b)
            ok = collect_as(ip, st, fld(r, 'Ok', 0), targs[0], 'char' if kind(ip, targs[0]) == 'string' else None)
            return ite(is_ok(r), Ok(ok), Err(fld(r, 'Err', 0)))
        if p == OPTION:
            def b(e, pos):
                return ite(is_some(e), Ok(one(fld(e, 'Some', 0))), Err(UNIT))
            r = tryfor(s, b)
            return ite(is_ok(r), Some(fld(r, 'Ok', 0)), NONE)
        n = p.split('::')[-1]
        if n in ('Vec', 'VecDeque', 'Box'):
            return s
        if n == 'String':
            return str_items(ip, s, ik)
        if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            if n in ('HashMap', 'BTreeMap'):
                try:
                    return hmap_of(s)
                except Unk:
                    pass
            return raw('mapof', n, s)
        # a FromIterator of the crate
        for it, items in ip.crate.impl_items('FromIterator'):
            if it['k'] == 'adt' and it['id'] == rt['id'] and items.get('from_iter'):
                r = ip.inline(items['from_iter'], [s], st, None)
                return r[0]
    if rt['k'] == 'tuple':
        return UNIT
    raise Unk('collect into ' + str(rt.get('path', rt['k'])))
@model('itertools::Itertools::filter_ok')
def m_filter_ok(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    f = ip.pure(args[1], st, s)
    return mk_for(s, lambda e, p: ite(is_ok(e), ite(f(fld(e, 'Ok', 0)), one(e), EMPTY), one(e)))
@model('itertools::Itertools::map_ok')
def m_map_ok(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    f = ip.pure(args[1], st, s)
    return mk_for(s, lambda e, p: one(ite(is_ok(e), Ok(f(fld(e, 'Ok', 0))), e)))
@model('itertools::Itertools::flatten_ok')
def m_flatten_ok(ip, st, args, ctx, fref):
    s = seq(ip, st, args, ctx)
    def b(e, p):
        note_res(e)
        return ite(is_ok(e), mk_for(item_seq(fld(e, 'Ok', 0)), lambda x, q: one(Ok(x))), one(Err(fld(e, 'Err', 0))))
    return mk_for(s, b)
@model('itertools::Itertools::join')
def m_ijoin(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    k = item_kind(ip, ctx.argtys[0]) if ctx.argtys else None
    if k != 'string':
        raise Unk('join of displayed items')
    return join(v, D(ip, st, args[1]))

# ------------------------------------------------------------------ formatting
def disp(ip, st, v, tyi):
    """Display text of a value"""
    v = D(ip, st, v)
    i = ip.peel(tyi)
    t = ip.ty(i)
    k = t['k']
    if k in ('int', 'uint'):
        return ip.map_ite(v, lambda x: Str(str(x.args[0])) if x.op == 'int' else raw('dec', x))
    if k == 'str' or k == 'adt' and t['path'] in ('alloc::string::String', 'alloc::borrow::Cow'):
        return v
    if k == 'char':
        return one(v)
    if k == 'bool':
        return ite(v, Str('true'), Str('false'))
    if k == 'float':
        return raw('fdec', v)
    if k == 'adt':
        if t['path'] == 'core::fmt::Arguments':
            return v
        for it, items in ip.crate.impl_items('Display'):
            if it['k'] == 'adt' and it['id'] == t['id'] and items.get('fmt'):
                return display_local(ip, st, v, items['fmt'])
    return raw('disp', DD(ip, st, v))
def display_local(ip, st, v, f):
    v = DD(ip, st, v)
    mode = ip.inline_display
    if mode is True or callable(mode) and mode(ip, f):
        if not any(x.id == f.id for x in ip.stack):
            s = st.copy()
            c = ip.new_cell(s, EMPTY, 'fmt')
            r = ip.inline(f, [v, raw('ptr', c, ())], s, None)
            if r is not None:
                return DD(ip, r[1], r[1].mem[c])
    return ip.map_ite(v, lambda x: raw('disp', x))
@model('alloc::string::ToString::to_string')
def m_to_string(ip, st, args, ctx, fref):
    return disp(ip, st, args[0], ctx.argtys[0])
@model('core::fmt::rt::Argument::new_display')
def m_adisp(ip, st, args, ctx, fref):
    return raw('fmtarg', 'd', disp(ip, st, args[0], ctx.argtys[0]), DD(ip, st, D(ip, st, args[0])))
@model('core::fmt::rt::Argument::new_debug')
def m_adebug(ip, st, args, ctx, fref):
    v = DD(ip, st, D(ip, st, args[0]))
    return raw('fmtarg', '?', raw('debug', v), v)
@model('core::fmt::rt::Argument::new_lower_hex')
def m_ahex(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    return raw('fmtarg', 'x', raw('hex', v), v)
@model('core::fmt::rt::Argument::new_upper_hex')
def m_ahexu(ip, st, args, ctx, fref):
    v = D(ip, st, args[0])
    return raw('fmtarg', 'X', raw('hexu', v), v)
@model('core::fmt::Arguments::from_str')
def m_afs(ip, st, args, ctx, fref):
    return D(ip, st, args[0])
@model('core::fmt::Arguments::new')
def m_args(ip, st, args, ctx, fref):
    tpl, av = D(ip, st, args[0]), D(ip, st, args[1])
    if tpl.op == 'bytes':
        b = list(tpl.args[0])
    elif tpl.op == 'str':
        b = list(tpl.args[0].encode('latin1'))
    elif tpl.op in ('cat', 'one', 'empty'):
        b = [p.args[0].args[0] for p in seq_parts(tpl)]
    else:
        raise Unk('format template ' + tpl.op)
    if isinstance(b[0], str):
        b = [int(x) for x in b]
    out = []
    i = 0
    nxt = 0
    def arg(n):
        x = nth(av, Int(n))
        if x.op != 'fmtarg':
            x = D(ip, st, x)
        if x.op != 'fmtarg':
            raise Unk('format argument')
        return x
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(Str(bytes(b[i:i + c]).decode('utf-8')))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(Str(bytes(b[i:i + n]).decode('utf-8')))
            i += n
        else:
            flags = width = prec = None
            if c & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), 'little'); i += 4
            if c & 2:
                width = int.from_bytes(bytes(b[i:i + 2]), 'little'); i += 2
            if c & 4:
                prec = int.from_bytes(bytes(b[i:i + 2]), 'little'); i += 2
            if c & 8:
                nxt = int.from_bytes(bytes(b[i:i + 2]), 'little'); i += 2
            x = arg(nxt)
            nxt += 1
            if flags is None and width is None and prec is None:
                out.append(x.args[1])
            else:
                out.append(TM.fmt(x.args[0], flags or 0, width or 0, -1 if prec is None else prec, x.args[2]))
    return cat(*out)
def fmt_append(ip, st, p, s):
    if p.op != 'ptr':
        raise Unk('write to an untracked formatter')
    v, put = cell_seq(ip, st, p)
    put(st, cat(v, s))
    return Ok(UNIT)
@model('core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_fmt')
def m_write_fmt(ip, st, args, ctx, fref):
    return fmt_append(ip, st, args[0], D(ip, st, args[1]))
@model('core::fmt::Formatter::write_str', 'core::fmt::Write::write_str')
def m_write_str(ip, st, args, ctx, fref):
    return fmt_append(ip, st, args[0], D(ip, st, args[1]))
@model('core::fmt::Write::write_char', 'core::fmt::Formatter::write_char')
def m_write_char(ip, st, args, ctx, fref):
    return fmt_append(ip, st, args[0], one(args[1]))
@model('core::fmt::Formatter::pad')
def m_pad(ip, st, args, ctx, fref):
    return fmt_append(ip, st, args[0], D(ip, st, args[1]))
@model('core::fmt::Display::fmt')
def m_dispfmt(ip, st, args, ctx, fref):
    return fmt_append(ip, st, args[1], disp(ip, st, args[0], ctx.argtys[0]))

# ------------------------------------------------------------------ maps
@model('std::collections::hash::map::HashMap::new', 'std::collections::hash::map::HashMap::with_capacity', 'alloc::collections::btree::map::BTreeMap::new')
def m_hnew(ip, st, args, ctx, fref):
    return raw('hmap')
@model('std::collections::hash::map::HashMap::insert', 'alloc::collections::btree::map::BTreeMap::insert')
def m_hinsert(ip, st, args, ctx, fref):
    v, put = cell_seq(ip, st, args[0])
    k, x = D(ip, st, args[1]), DD(ip, st, args[2])
    if v.op != 'hmap':
        put(st, raw('hput', v, k, x))
        return unk('previous entry')
    put(st, raw('hmap', *[a for a in v.args if a.args[0] is not k], Tup(k, x)))
    return unk('previous entry')
@model('std::collections::hash::map::HashMap::from', 'alloc::collections::btree::map::BTreeMap::from')
def m_hfrom(ip, st, args, ctx, fref):
    return hmap_of(DD(ip, st, args[0]))
def hmap_of(v, m=None):
    out = list(m.args) if m is not None else []
    for e in seq_parts(v):
        if e.op != 'one' or e.args[0].op != 'tuple':
            raise Unk('map of a sequence')
        k, x = e.args[0].args
        out = [a for a in out if a.args[0] is not k] + [Tup(k, x)]
    return raw('hmap', *out)
@model('std::collections::hash::map::HashMap::get', 'alloc::collections::btree::map::BTreeMap::get')
def m_hget(ip, st, args, ctx, fref):
    v, k = D(ip, st, args[0]), D(ip, st, args[1])
    if v.op == 'hmap':
        r = NONE
        for e in reversed(v.args):
            r = ite(beq(e.args[0], k), Some(e.args[1]), r)
        return r
    r = raw('hget', v, k)
    UNIVERSE[r] = OPTU
    return r
@model('std::collections::hash::map::HashMap::contains_key')
def m_hcontains(ip, st, args, ctx, fref):
    return is_some(m_hget(ip, st, args, ctx, fref))
def mget(m, k):
    if m.op == 'ite':
        return ite(m.args[0], mget(m.args[1], k), mget(m.args[2], k))
    r = raw('mget', m, k)
    UNIVERSE[r] = OPTU
    return r
SC['mget'] = mget
@model('serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::get', 'serde_json::map::Map::get')
def m_mget(ip, st, args, ctx, fref):
    return mget(D(ip, st, args[0]), D(ip, st, args[1]))
@model('serde_json::map::Map::get_key_value', 'serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::get_key_value')
def m_mgetkv(ip, st, args, ctx, fref):
    k = D(ip, st, args[1])
    r = mget(D(ip, st, args[0]), k)
    return ite(is_some(r), Some(Tup(k, fld(r, 'Some', 0))), NONE)
@model('serde_json::map::Map::contains_key', 'serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::contains_key')
def m_mcontains(ip, st, args, ctx, fref):
    return is_some(mget(D(ip, st, args[0]), D(ip, st, args[1])))
for _n, _f in (('iter', m_ident), ('len', m_len), ('is_empty', m_is_empty)):
    TABLE['serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::' + _n] = _f
@model('serde_json::map::Map::values', 'serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::values')
def m_mvalues(ip, st, args, ctx, fref):
    return mk_for(D(ip, st, args[0]), lambda e, p: one(fld(e, None, 1)))
@model('serde_json::map::Map::keys', 'serde_json::map::Map::<alloc::string::String, serde_json::value::Value>::keys')
def m_mkeys(ip, st, args, ctx, fref):
    return mk_for(D(ip, st, args[0]), lambda e, p: one(fld(e, None, 0)))
VKINDS = tuple('Value::' + k for k in ('Null', 'Bool', 'Number', 'String', 'Array', 'Object'))
@model('serde_json::value::Value::get')
def m_vget(ip, st, args, ctx, fref):
    v, k = D(ip, st, args[0]), D(ip, st, args[1])
    t = ty_at(ip, ctx, 1)
    if t and t['k'] in ('uint', 'int'):
        a = fld(v, 'Value::Array', 0)
        return ite(isin(v, 'Value::Array', VKINDS), ite(lt(k, length(a)), Some(nth(a, k)), NONE), NONE)
    return ite(isin(v, 'Value::Object', VKINDS), mget(fld(v, 'Value::Object', 0), k), NONE)
def _as(var):
    def m(ip, st, args, ctx, fref):
        v = D(ip, st, args[0])
        return ite(isin(v, var, VKINDS), Some(fld(v, var, 0)), NONE)
    return m
for _n, _v in (('as_array', 'Value::Array'), ('as_object', 'Value::Object'), ('as_str', 'Value::String'), ('as_bool', 'Value::Bool')):
    TABLE['serde_json::value::Value::' + _n] = _as(_v)
for _n, _v in (('is_array', 'Value::Array'), ('is_object', 'Value::Object'), ('is_string', 'Value::String'), ('is_null', 'Value::Null'), ('is_boolean', 'Value::Bool'), ('is_number', 'Value::Number')):
    TABLE['serde_json::value::Value::' + _n] = (lambda v: lambda ip, st, args, ctx, fref: isin(D(ip, st, args[0]), v, VKINDS))(_v)
def num(op, n, u):
    t = raw(op, n)
    UNIVERSE[t] = OPTU
    return t
def as_i64(n):
    t = num('num_i64', n, OPTU)
    TM.INTB[fld(t, 'Some', 0)] = (-(1 << 63), (1 << 63) - 1)
    return t
def as_f64(n):
    # always present for finite numbers (serde_json without arbitrary precision)
    return Some(ite(is_some(as_i64(n)), raw('i2f', fld(as_i64(n), 'Some', 0)), raw('num_f64', n)))
def is_f64(n):
    return ite(is_some(as_i64(n)), FALSE, raw('num_is_f64', n))
def is_u64(n):
    i = as_i64(n)
    return ite(is_some(i), le(Int(0), fld(i, 'Some', 0)), Not(raw('num_is_f64', n)))
@model('serde_json::number::Number::as_i64')
def m_as_i64(ip, st, args, ctx, fref):
    return as_i64(D(ip, st, args[0]))
@model('serde_json::number::Number::is_i64')
def m_is_i64(ip, st, args, ctx, fref):
    return is_some(as_i64(D(ip, st, args[0])))
@model('serde_json::number::Number::as_f64')
def m_as_f64(ip, st, args, ctx, fref):
    return as_f64(D(ip, st, args[0]))
@model('serde_json::number::Number::is_f64')
def m_is_f64(ip, st, args, ctx, fref):
    return is_f64(D(ip, st, args[0]))
@model('serde_json::number::Number::is_u64')
def m_is_u64(ip, st, args, ctx, fref):
    return is_u64(D(ip, st, args[0]))
@model('serde_json::number::Number::as_u64')
def m_as_u64(ip, st, args, ctx, fref):
    t = num('num_u64', D(ip, st, args[0]), OPTU)
    TM.INTB[fld(t, 'Some', 0)] = (0, (1 << 64) - 1)
    return t
def _vnum(f):
    def m(ip, st, args, ctx, fref):
        v = D(ip, st, args[0])
        return ite(isin(v, 'Value::Number', VKINDS), f(fld(v, 'Value::Number', 0)), NONE)
    return m
TABLE['serde_json::value::Value::as_i64'] = _vnum(as_i64)
TABLE['serde_json::value::Value::as_f64'] = _vnum(as_f64)
def _vis(f):
    def m(ip, st, args, ctx, fref):
        v = D(ip, st, args[0])
        return And(isin(v, 'Value::Number', VKINDS), f(fld(v, 'Value::Number', 0)))
    return m
TABLE['serde_json::value::Value::is_i64'] = _vis(lambda n: is_some(as_i64(n)))
TABLE['serde_json::value::Value::is_u64'] = _vis(is_u64)
TABLE['serde_json::value::Value::is_f64'] = _vis(is_f64)

# ------------------------------------------------------------------ statics, locks, regex
@model('lazy_static::lazy::Lazy::get')
def m_lazy(ip, st, args, ctx, fref):
    name = ctx.fn.path if ctx.fn is not None else '?'
    return raw('static', re.sub(r'.*<(?:.*::)?(\w+) as .*', r'\1', name))
@model('std::sync::poison::mutex::Mutex::new', 'std::sync::poison::rwlock::RwLock::new')
def m_mnew(ip, st, args, ctx, fref):
    return args[0]
@model('std::sync::poison::mutex::Mutex::lock', 'std::sync::poison::rwlock::RwLock::read', 'std::sync::poison::rwlock::RwLock::write')
def m_lock(ip, st, args, ctx, fref):
    # the lock is never poisoned: nothing that runs while it is held panics (P20)
    return Ok(args[0])
@model('regex::regex::string::Regex::new')
def m_regex(ip, st, args, ctx, fref):
    t = raw('regex', D(ip, st, args[0]))
    UNIVERSE[t] = RESU
    return t
@model('regex::regex::string::Regex::is_match')
def m_is_match(ip, st, args, ctx, fref):
    return raw('ismatch', D(ip, st, args[0]), D(ip, st, args[1]))
@model('iregexp::check')
def m_iregexp(ip, st, args, ctx, fref):
    return raw('iregexp', D(ip, st, args[0]))
@model('lru::LruCache::new')
def m_lru(ip, st, args, ctx, fref):
    return raw('lru', args[0])

def lru_op(ip, st, op, cache, key, val=None):
    ip.lru.append((op, D(ip, st, cache), key, val, st.facts))
@model('lru::LruCache::get', 'lru::LruCache::peek', 'lru::LruCache::get_mut')
def m_lruget(ip, st, args, ctx, fref):
    c, k = D(ip, st, args[0]), D(ip, st, args[1])
    lru_op(ip, st, 'get', args[0], k)
    return ite(raw('lruhit', c, k), Some(raw('cached', c, k)), NONE)
@model('lru::LruCache::contains')
def m_lrucontains(ip, st, args, ctx, fref):
    c, k = D(ip, st, args[0]), D(ip, st, args[1])
    return raw('lruhit', c, k)
@model('lru::LruCache::push', 'lru::LruCache::put')
def m_lrupush(ip, st, args, ctx, fref):
    lru_op(ip, st, 'push', args[0], D(ip, st, args[1]), D(ip, st, args[2]))
    return unk('previous cache entry')
@model('lru::LruCache::len', 'lru::LruCache::cap')
def m_lrulen(ip, st, args, ctx, fref):
    return unk('size of the cache')

# ------------------------------------------------------------------ calls through function values
@model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def m_fncall(ip, st, args, ctx, fref):
    a = args[1]
    if a.op != 'tuple':
        raise Unk('arguments of a function value')
    return ip.call_closure(args[0], list(a.args), st)
