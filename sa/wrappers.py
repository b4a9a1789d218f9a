"""Entry points that parse a query text and evaluate it."""
from term import *
import term as TM

def payload(X, t, role):
    """a Result whose Ok payload is an iterator of the crate: with the sequence it yields"""
    if X.short != 'iter':
        return t
    import spec
    def g(x):
        if x.op == 'adt' and x.args[1] == 'Ok':
            return Ok(X.toseq(x.args[2], X.ok_type(X.roles[role])))
        return x
    return spec.leaves(t, g)

def statics(t):
    seen, out = set(), []
    def go(a):
        if isinstance(a, T):
            if a not in seen:
                seen.add(a)
                if a.op == 'static':
                    out.append(a)
                for x in a.args:
                    go(x)
        elif isinstance(a, tuple):
            for x in a:
                go(x)
    go(t)
    return out

def query_run(X, q, v, env, loop=False):
    """what Query::find gives for a parsed query"""
    if loop:
        return X.fold(fld(q, 'Query', 0), one(X.start(v)), lambda e, acc: raw('call', 'seg', e, acc, X.context(env, v)))
    if X.short == 'serde':
        return raw('call', 'qres', q, v, X.context(env, v))
    if X.short == 'iter':
        return X.toseq(raw('call', 'qres', env, v, v, q), X.roles['qres'])
    return raw('call', 'qres', q, v, env, v)

def wrappers(o, loop=False):
    """parse, then find: nothing else"""
    X = o.X
    def one_of(role, loop=False):
        def run():
            a = X.args(role)
            env = a[0] if role.startswith('e') else None
            text, v = a[-2], a[-1]
            impl = payload(X, X.summary(role, a), role)
            if env is None:
                st = [s for s in statics(impl)]
                if len(st) != 1:
                    raise Unk(f'{len(st)} statics used as environment')
                env = st[0]
            r = raw('call', 'standard', text)
            UNIVERSE[r] = RESU
            q = fld(r, 'Ok', 0)
            res = query_run(X, q, v, env, loop)
            sp = ite(is_ok(r), res if X.fallible else Ok(res), Err(fld(r, 'Err', 0)))
            o.decide({'j': 'module function', 'e': 'Environment'}[role[0]] + ' find' + ('_loop' if loop else ''), role, impl, sp)
        return run
    o.run('module function find', one_of('jfind'))
    o.run('Environment find', one_of('efind'))
    if loop and X.short == 'serde':
        o.run('module function find_loop', one_of('jfind_loop', True))
        o.run('Environment find_loop', one_of('efind_loop', True))
