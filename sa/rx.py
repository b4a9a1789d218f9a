"""Patterns handed to the regex crate: a constant frame around an I-Regexp."""
import re
from term import *
import term as TM

def frame(t):
    """(prefix, pattern term, suffix) of constant ++ pattern ++ constant"""
    ps = [x for x in seq_parts(t) if x.op != 'empty']
    pre = suf = ''
    mid = None
    for x in ps:
        s = x.args[0] if x.op in ('str',) else x.args[0].args[0] if x.op == 'one' and x.args[0].op == 'char' else None
        if s is not None:
            s = s if isinstance(s, str) else chr(s)
            if mid is None:
                pre += s
            else:
                suf += s
        elif mid is None:
            mid = x
        else:
            return None
    return None if mid is None else (pre, mid, suf)

def meaning(pre, suf):
    """what `pre ++ p ++ suf` means for every regular expression p: 'full', 'sub', or why it is neither"""
    stack, flags = [], {'R': False, 'm': False, 's': False, 'i': False, 'U': False, 'x': False, 'u': True}
    start = None      # depth-independent: an anchor was seen before the pattern
    opened = 0
    i = 0
    def setf(spec):
        on = True
        for c in spec:
            if c == '-':
                on = False
            else:
                flags[c] = on
    while i < len(pre):
        m = re.match(r'\(\?([a-zA-Z-]*)\)', pre[i:])
        g = re.match(r'\((?:\?([a-zA-Z-]*):|\?P?<\w+>)?', pre[i:])
        if m:
            setf(m.group(1))
            i += m.end()
        elif g and pre[i] == '(':
            stack.append((dict(flags), start))
            if g.group(1):
                setf(g.group(1))
            i += g.end()
        elif pre[i] == '^' or pre.startswith('\\A', i):
            if pre[i] == '^' and flags['m']:
                return 'a multi-line start anchor'
            start = len(stack)
            i += 1 if pre[i] == '^' else 2
        else:
            return None
    inner = dict(flags)
    depth = len(stack)
    end = None
    i = 0
    while i < len(suf):
        if suf[i] == ')':
            if not stack:
                return None
            f, _ = stack.pop()
            flags.clear()
            flags.update(f)
            i += 1
        elif suf[i] == '$' or suf.startswith('\\z', i):
            if suf[i] == '$' and flags['m']:
                return 'a multi-line end anchor'
            end = len(stack)
            i += 1 if suf[i] == '$' else 2
        else:
            return None
    if stack:
        return None
    for f, why in (('i', 'case is ignored'), ('x', 'white space in the pattern is ignored'), ('m', 'anchors of the pattern match at lines')):
        if inner[f]:
            return why
    if inner['s'] or not inner['R']:
        return 'a dot matches \\r' + ('' if not inner['s'] else ' and \\n')
    if not inner['u']:
        return 'not in Unicode mode'
    if (start is not None and start >= depth) or (end is not None and end >= depth):
        return 'an anchor applies to one alternative of the pattern only'
    if start is not None and end is not None:
        return 'full'
    if start is None and end is None:
        return 'sub'
    return 'anchored at one end only'

def replace(t, g):
    """t with g applied to its subterms, bottom up (g returns None to keep)"""
    memo = {}
    def go(a):
        r = memo.get(a)
        if r is None:
            if a.op in TM.BINDERS:
                r = TM.map_binder(a, go)
            elif a.args:
                r = TM.rebuild(a, [TM._map(x, go) for x in a.args])
            else:
                r = a
            r2 = g(r)
            r = memo[a] = r if r2 is None else r2
        return r
    return go(t)

def rx(p, kind):
    t = raw('rx', p, kind)
    UNIVERSE[t] = RESU
    return t

def canonical(t):
    """regular expressions of a term by pattern and meaning"""
    def g(a):
        if a.op == 'regex':
            f = frame(a.args[0])
            k = meaning(f[0], f[2]) if f else None
            if k is not None:
                return rx(f[1], k)
        return None
    return replace(t, g)
