"""The function tables of the parsers and of the evaluators."""
from term import *
import roles

# RFC 9535 section 2.4.4 to 2.4.8
SIGNATURES = {'count': (('Nodes',), 'Value'), 'length': (('Value',), 'Value'), 'match': (('Value', 'Value'), 'Logical'),
              'search': (('Value', 'Value'), 'Logical'), 'value': (('Nodes',), 'Value')}

def maps(t):
    """hmap terms of a term"""
    seen, out = set(), []
    def go(a):
        if isinstance(a, T):
            if a not in seen:
                seen.add(a)
                if a.op == 'hmap':
                    out.append(a)
                for x in a.args:
                    go(x)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    go(t)
    return out

def text(t):
    if t.op == 'str':
        return t.args[0]
    if t.op == 'char':
        return t.args[0]
    return None

def entries(t):
    """{name: value} of the only map in a term"""
    m = maps(t)
    if len(m) != 1 or any(text(e.args[0]) is None for e in m[0].args):
        raise Unk('no single table of constant names')
    return {text(e.args[0]): e.args[1] for e in m[0].args}

def expr_type(t):
    if t.op == 'adt' and t.args[1].startswith('ExpressionType::'):
        return t.args[1].split('::')[-1]
    raise Unk('expression type ' + show(t)[:80])

def signature(X, t):
    """((parameter types), result type) of a FunctionSignature value"""
    if t.op != 'adt' or t.args[1] != 'FunctionSignature':
        raise Unk('signature ' + show(t)[:80])
    pi, ri = X.field('FunctionSignature', 'param_types', 0), X.field('FunctionSignature', 'return_type', 1)
    ps, r = t.args[2 + pi], t.args[2 + ri]
    out = []
    for e in seq_parts(ps):
        if e.op == 'empty':
            continue
        if e.op != 'one':
            raise Unk('parameter types ' + show(ps)[:80])
        out.append(expr_type(e.args[0]))
    return tuple(out), expr_type(r)

def makers(X, adt, initialisers=True):
    """functions without arguments that make a value of a type: new, default, initialisers of statics"""
    out = []
    for f in X.crate.fns.values():
        if f.args == 0 and '{closure' not in f.path and f.d.get('promoted') is None and roles.ts(X.crate, f.locals[0]) == adt:
            if f.d.get('expn') and not f.path.endswith('__static_ref_initialize'):
                continue
            out.append(f)
    return out

def implementation(X, name, env='Environment'):
    """name of the type whose `call` the evaluator runs for a function name (None: not registered)"""
    for f in makers(X, env):
        e = entries(X.summary_of(f, []))
        x = e.get(name)
        if x is None:
            return None
        return type_name(x)
    raise Unk('no constructor of ' + env)

def type_name(x):
    if x.op == 'adt':
        return x.args[0].split('::')[-1]
    raise Unk('registered value ' + show(x)[:80])
