"""Locating the functions the specifications speak about, and the cut points of summaries.

A role is one function of a crate, found by its (path suffix) name or, when it was renamed, by being the only
function with the same type signature.  In the summary of one role, calls of other roles stay calls."""
import interp
from term import *

def ts(c, i):
    """short textual type"""
    t = c.types[i]
    k = t['k']
    if k in ('ref', 'ptr'):
        return '&' + ('mut ' if t.get('mut') else '') + ts(c, t['t'])
    if k == 'adt':
        n = t['path'].split('::')[-1]
        a = [ts(c, x) for x in t['args'] if isinstance(x, int)]
        a = [x for x in a if x not in ('Global', 'RandomState')]
        return n + ('<' + ','.join(a) + '>' if a else '')
    if k == 'tuple':
        return '(' + ','.join(ts(c, x) for x in t.get('ts', t.get('args', []))) + ')'
    if k in ('slice', 'array'):
        return '[' + ts(c, t['t']) + ']'
    return t.get('n') or k

def sig(f):
    c = f.crate
    return '(' + ', '.join(ts(c, f.locals[i + 1]) for i in range(f.args)) + ') -> ' + ts(c, f.locals[0])

def plain(f):
    return '{closure' not in f.path and f.d.get('promoted') is None and not f.d.get('expn') and 'rules::' not in f.path

def find_fn(crate, suffix, signature=None):
    """the function whose path ends with suffix, else the only plain function with that signature"""
    c = [f for f in crate.fns.values() if plain(f) and norm(f.path).endswith(suffix) and (len(norm(f.path)) == len(suffix) or norm(f.path)[-len(suffix) - 1] in ':< ')]
    if len(c) == 1:
        return c[0]
    if len(c) > 1 and signature:
        c = [f for f in c if sig(f) == signature]
        if len(c) == 1:
            return c[0]
    if signature and not c:
        c = [f for f in crate.fns.values() if plain(f) and sig(f) == signature]
        if len(c) == 1:
            return c[0]
    return None

def norm(p):
    import re
    p = re.sub(r"::<[^<>]*>", '', p)
    return p

def trait_fn(crate, adt, trait, method):
    """method of `impl trait for adt`"""
    for it, items in crate.impl_items(trait):
        if it['k'] == 'adt' and it['path'].split('::')[-1] == adt and items.get(method):
            return items[method]
    return None

def cut(ip, role, f, perm):
    def r(ip_, st, args, ctx):
        return raw('call', role, *[ip_.deep(st, args[i]) for i in perm])
    ip.roles[f.id] = r

COMMON = {'jeq': ('json_eq', '(&Value, &Value) -> bool'), 'eval': ('FilterExpression::evaluate', None),
          'esc': ('escape_name', '(&str) -> String')}
TABLE = {
    'serde': dict(COMMON, visit=('visit', '(&Node) -> Vec<Node>'), sel=('Selector::resolve', None), seg=('Segment::resolve', None), qres=('Query::resolve', None),
                  find=('Query::find', None), sel_loop=('Selector::resolve_loop', None), seg_loop=('Segment::resolve_loop', None), find_loop=('Query::find_loop', None)),
    'iter': dict(COMMON, sel=('SelectorIter::new', None), seg=('SegmentIter::new', None), visit=('visit_iter', None), desc=('descendants', None), qres=('QueryIter::from_current', None), find=('QueryIter::new', None)),
    'locations': dict(COMMON, sel=('Selector::resolve', None), seg=('Segment::resolve', None), qres=('Query::resolve', None), find=('Query::find', None)),
}
TABLE['singular'] = TABLE['locations']
TABLE['locations'].update(path=('Node::path', None))

TABLE['locations'].update(visit=('Segment::visit', '(&Segment, &Environment, &Value, &Vec<Selector>, &Value, ConsList<PathElement>) -> Vec<Node>'))
for _s in ('serde', 'iter', 'locations'):
    TABLE[_s].update(standard=('Query::standard', None), jfind=('jsonpath::find', None), efind=('Environment::find', None))
TABLE['serde'].update(jfind_loop=('jsonpath::find_loop', None), efind_loop=('Environment::find_loop', None))
TABLE['recursive'] = dict(segsing=('Segment::is_singular', None))
# functions that are located but stay inlined (they are not part of a recursion)
INLINE = {'find', 'find_loop', 'jfind', 'efind', 'jfind_loop', 'efind_loop'}

def params(f):
    """[(type, name)] of the parameters"""
    nm = {}
    for n, pl in f.d.get('names') or []:
        if isinstance(pl, list) and pl and not pl[1] and pl[0] not in nm:
            nm[pl[0]] = n
    return [[ts(f.crate, f.locals[i + 1]), nm.get(i + 1, '')] for i in range(f.args)]

def plain_type(t):
    """type text without references, boxes and the difference of owned and borrowed sequences"""
    import re
    t = t.replace('&', '').replace('mut ', '').replace('String', 'str')
    o = None
    while o != t:
        o = t
        t = re.sub(r'\b(?:Rc|Box|Arc)<((?:[^<>]|<[^<>]*>)*)>', r'\1', t)
        t = re.sub(r'\bVec<((?:[^<>]|<[^<>]*>)*)>', r'[\1]', t)
    return t

def permutation(expected, actual):
    """actual position of each expected parameter, None when the function takes other things"""
    expected = [(plain_type(t), n) for t, n in expected]
    actual = [(plain_type(t), n) for t, n in actual]
    if sorted(t for t, _ in expected) != sorted(t for t, _ in actual):
        return None
    out, used = [], set()
    for t in {t for t, _ in expected}:
        e = [i for i, x in enumerate(expected) if x[0] == t]
        a = [i for i, x in enumerate(actual) if x[0] == t]
        byname = {actual[i][1]: i for i in a}
        if len(byname) == len(a) and {expected[i][1] for i in e} == set(byname):
            out += [(i, byname[expected[i][1]]) for i in e]
        else:
            out += list(zip(e, a))
    return [j for _, j in sorted(out)]

_rec = None
def recorded():
    global _rec
    if _rec is None:
        import json, os
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'anchors.json')
        _rec = json.load(open(p)) if os.path.exists(p) else {}
    return _rec

class Anchors:
    def __init__(self, ip, record=False):
        self.ip = ip
        self.fns, self.perm = {}, {}
        import models
        for it, items in ip.crate.impl_items('Display'):
            if it['k'] == 'adt' and items.get('fmt'):
                ip.roles[items['fmt'].id] = (lambda f: lambda ip_, st, args, ctx: models.fmt_append(ip_, st, args[1], models.display_local(ip_, st, args[0], f)))(items['fmt'])
        rec = {} if record else recorded().get(ip.short, {})
        for role, (suffix, s) in TABLE.get(ip.short, {}).items():
            f = find_fn(ip.crate, suffix, s)
            if f is None:
                continue
            perm = list(range(f.args))
            if role in rec:
                perm = permutation(rec[role]['params'], params(f))
                if perm is None or ts(f.crate, f.locals[0]) != rec[role]['ret']:
                    continue
            self.fns[role] = f
            self.perm[role] = perm
            if role not in INLINE:
                cut(ip, role, f, perm)
    def get(self, role):
        return self.fns.get(role)
