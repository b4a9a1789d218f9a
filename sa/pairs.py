"""Parse trees of the .pest grammars as abstract values.

What pest hands to the crate for a rule is read off the grammar: the sequence of inner pairs of a rule is a shape
(one pair of a set of rules, a repetition, an option or alternatives of these), which becomes a symbolic sequence in
the value-flow domain with the possible rules of each element as facts.  The same reading yields the pairs of a given
text, which rows of a table need."""
import os, random
from term import *
import term as TM, grammar, base, loops
from grammar import GrammarError

register('pest::Pair', [('PestPair', 3)])
ELEMS = {}         # sequence symbol -> rules of its elements
def prule(p): return fld(p, 'PestPair', 0)
def ptext(p): return fld(p, 'PestPair', 1)
def pinner(p): return fld(p, 'PestPair', 2)

_ef = loops.elem_facts
def elem_facts(f, src, e, p):
    f = _ef(f, src, e, p)
    s = src
    while s.op in ('drop', 'take', 'rev'):
        s = s.args[0]
    if s in ELEMS:
        f = f.assume(isin(prule(e), ELEMS[s]))
    return f
loops.elem_facts = elem_facts

# ------------------------------------------------------------------ models of the pest API
import models
@models.model('pest::iterators::pair::Pair::as_rule')
def m_as_rule(ip, st, args, ctx, fref): return prule(models.D(ip, st, args[0]))
@models.model('pest::iterators::pair::Pair::as_str')
def m_as_str(ip, st, args, ctx, fref): return ptext(models.D(ip, st, args[0]))
@models.model('pest::iterators::pair::Pair::into_inner')
def m_into_inner(ip, st, args, ctx, fref): return pinner(models.D(ip, st, args[0]))
@models.model('pest::iterators::pairs::Pairs::peek')
def m_pairs_peek(ip, st, args, ctx, fref): return models.m_peek(ip, st, args, ctx, fref)

class Peg:
    def __init__(self, short=None, file=None):
        if file is None:
            d = os.path.join(base.REPO, 'crates', base.DIRS[short], 'src')
            fs = [f for f in os.listdir(d) if f.endswith('.pest')]
            if len(fs) != 1:
                raise Unk('no single grammar file')
            file = os.path.join(d, fs[0])
        r = grammar.PestReader(open(file, encoding='utf8').read())
        if r.ws:
            raise Unk('implicit whitespace')
        self.rules, self.mods = r.rules, r.mods
        self.shapes = {}
        self._min()
    # ------------------------------------------------------------------ shapes
    def tokens(self, rule):
        """does a rule make a pair of its own"""
        return self.mods.get(rule) != '_'
    def shape(self, e, path, stack=()):
        k = e[0]
        if k in ('cs', 'eps', 'and', 'not', 'ws'):
            return None
        if k == 'eoi':
            return ('one', frozenset(['EOI']), path)
        if k == 'ref':
            n = e[1]
            if n not in self.rules:
                raise GrammarError(f'unknown rule {n}')
            if self.tokens(n):
                return ('one', frozenset([n]), path)
            if n in stack:
                raise GrammarError(f'recursive silent rule {n}')
            return self.shape(self.rules[n], path + '/' + n, stack + (n,))
        if k == 'seq':
            out = []
            for i, x in enumerate(e[1]):
                s = self.shape(x, f'{path}.{i}', stack)
                if s is not None:
                    out += s[1] if s[0] == 'cat' else [s]
            return None if not out else out[0] if len(out) == 1 else ('cat', out)
        if k == 'alt':
            xs = [self.shape(x, f'{path}|{i}', stack) for i, x in enumerate(e[1])]
            if all(x is None for x in xs):
                return None
            if all(x is not None and x[0] == 'one' for x in xs):
                return ('one', frozenset().union(*[x[1] for x in xs]), path)
            return ('alt', path, xs)
        if k in ('rep', 'star'):
            x = self.shape(e[1], path + '*', stack)
            if x is None:
                return None
            if x[0] == 'one':
                lo = e[2] if k == 'rep' else 0
                return ('many', x[1], path, lo)
            raise GrammarError('repetition of several pairs')
        raise GrammarError(k)
    def inner(self, rule):
        if rule == 'EOI' or self.mods.get(rule) == '@':
            return None
        if rule not in self.shapes:
            self.shapes[rule] = self.shape(self.rules[rule], '')
        return self.shapes[rule]
    # ------------------------------------------------------------------ the pairs of a text
    def parse(self, start, text):
        """(children, end) of start on text, with the alternatives taken in .choices[id(pair)]; None if it does not match"""
        import ev
        self.text, self.memo, self.choices, self.keep = text, {}, {}, []
        ch, out = {}, []
        i = self._m(('ref', start), 0, '', ch, out)
        return None if i < 0 else (tuple(out), i)
    def _m(self, e, i, path, ch, out):
        k = e[0]
        t = self.text
        if k == 'cs':
            if i < len(t):
                o = ord(t[i])
                for a, b in e[1]:
                    if a <= o <= b:
                        return i + 1
            return -1
        if k in ('eps', 'ws'):
            return i
        if k == 'eoi':
            if i != len(t):
                return -1
            n = self.node('EOI', '', ())
            out.append(n)
            ch[path] = n
            return i
        if k in ('and', 'not'):
            j = self._m(e[1], i, path + '!', {}, [])
            return i if (j >= 0) == (k == 'and') else -1
        if k == 'ref':
            n = e[1]
            if not self.tokens(n):
                return self._m(self.rules[n], i, path + '/' + n, ch, out)
            r = self.memo.get((n, i))
            if r is None:
                c2, o2 = {}, []
                j = self._m(self.rules[n], i, '', c2, o2)
                if j < 0:
                    r = (-1, None)
                else:
                    if self.mods.get(n) == '@':
                        o2 = []
                    x = self.node(n, t[i:j], o2)
                    self.choices[id(x)] = c2
                    r = (j, x)
                self.memo[(n, i)] = r
            if r[0] >= 0:
                out.append(r[1])
                ch[path] = r[1]
            return r[0]
        if k == 'seq':
            n = len(out)
            for a, x in enumerate(e[1]):
                i = self._m(x, i, f'{path}.{a}', ch, out)
                if i < 0:
                    del out[n:]
                    return -1
            return i
        if k == 'alt':
            n = len(out)
            for a, x in enumerate(e[1]):
                j = self._m(x, i, f'{path}|{a}', ch, out)
                if j >= 0:
                    for b in range(len(e[1])):
                        ch[f'{path}?{b}'] = a == b
                    if len(out) == n + 1:
                        ch[path] = out[-1]
                    return j
                del out[n:]
            return -1
        if k in ('rep', 'star'):
            lo, hi = (e[2], e[3]) if k == 'rep' else (0, None)
            c, n = 0, len(out)
            while hi is None or c < hi:
                j = self._m(e[1], i, path + '*', ch, out)
                if j < 0 or j == i:
                    break
                i, c = j, c + 1
            if c < lo:
                del out[n:]
                return -1
            ch[path] = tuple(out[n:])
            return i
        raise GrammarError(k)
    def node(self, rule, text, inner):
        import ev
        x = ev.A('PestPair', ev.A('Rule::' + rule), tuple(text), tuple(inner))
        self.keep.append(x)
        return x
    # ------------------------------------------------------------------ derivations
    def _min(self):
        self.mind = {r: 10 ** 6 for r in self.rules}
        ch = True
        while ch:
            ch = False
            for r, e in self.rules.items():
                d = 1 + self.md(e)
                if d < self.mind[r]:
                    self.mind[r] = d
                    ch = True
        self.reach = {}
        def refs(e, acc):
            if e[0] == 'ref':
                acc.add(e[1])
            elif e[0] in ('and', 'not'):
                pass
            elif e[0] in ('rep', 'star'):
                refs(e[1], acc)
            elif e[0] in ('seq', 'alt'):
                for x in e[1]:
                    refs(x, acc)
            return acc
        g = {r: refs(e, set()) for r, e in self.rules.items()}
        for r in g:
            seen, w = set(), [r]
            while w:
                x = w.pop()
                for y in g[x]:
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            self.reach[r] = seen
    def md(self, e):
        k = e[0]
        if k == 'ref':
            return self.mind[e[1]]
        if k == 'seq':
            return max([self.md(x) for x in e[1]] or [0])
        if k == 'alt':
            return min(self.md(x) for x in e[1])
        if k == 'rep':
            return self.md(e[1]) if e[2] else 0
        return 0
    def can(self, e, want):
        k = e[0]
        if k == 'ref':
            return e[1] == want or want in self.reach[e[1]]
        if k in ('seq', 'alt'):
            return any(self.can(x, want) for x in e[1])
        if k in ('rep', 'star'):
            return self.can(e[1], want)
        return False
    def derive(self, e, rng, d, want, pools):
        """a random text of e; want: [rule] to pass through"""
        k = e[0]
        if k == 'cs':
            c = []
            for a, b in e[1]:
                c += [a, b]
                if a <= 0x61 <= b:
                    c += [0x61, 0x62]
                if b > 0x7F:
                    c += [x for x in (0xE9, 0x1F600) if a <= x <= b]
            cs = [x for x in pools['chars'] if any(a <= x <= b for a, b in e[1])]
            return chr(rng.choice(cs if cs and rng.random() < .4 else c))
        if k in ('eps', 'ws', 'and', 'not', 'eoi'):
            return ''
        if k == 'ref':
            n = e[1]
            if n in ('S', 'B') and rng.random() < .8:
                return ''
            p = pools['texts'].get(n)
            if p and rng.random() < .8:
                return rng.choice(p)
            if want and want[0] == n:
                want.pop()
            return self.derive(self.rules[n], rng, d + 1, want, pools)
        if k == 'seq':
            i = None
            if want:
                c = [j for j, x in enumerate(e[1]) if self.can(x, want[0])]
                if c:
                    i = rng.choice(c)
            return ''.join(self.derive(x, rng, d, want if j == i else [], pools) for j, x in enumerate(e[1]))
        if k == 'alt':
            c = list(e[1])
            if want:
                y = [x for x in c if self.can(x, want[0])]
                c = y or c
            elif d > 14:
                m = min(self.md(x) for x in c)
                c = [x for x in c if self.md(x) == m]
            return self.derive(rng.choice(c), rng, d, want, pools)
        if k in ('rep', 'star'):
            lo, hi = (e[2], e[3]) if k == 'rep' else (0, None)
            n = lo if d > 14 else rng.choice((lo, lo, lo + 1, lo + 1, lo + 2)) if hi is None else rng.randint(lo, hi)
            w = want if want and self.can(e[1], want[0]) else []
            if w:
                n = max(n, 1)
            i = rng.randrange(n) if n else None
            return ''.join(self.derive(e[1], rng, d + 1, w if j == i else [], pools) for j in range(n))
        raise GrammarError(k)

def sym_inner(sh, prefix, syms, facts, peg=None):
    """(sequence term of a shape, facts); syms: name -> (path, kind)"""
    if sh is None:
        return EMPTY, facts
    k = sh[0]
    if k == 'one':
        s = Sym(prefix + sh[2])
        syms[prefix + sh[2]] = sh[2]
        facts = facts.assume(isin(prule(s), ['Rule::' + r for r in sh[1]]))
        if len(sh[1]) == 1 and peg is not None:
            r = next(iter(sh[1]))
            ts = literals(peg.rules[r], peg.rules) if r in peg.rules else None
            if ts:
                c = FALSE
                for x in dict.fromkeys(ts):
                    c = Or(c, TM.beq(ptext(s), Str(x)))
                facts = facts.assume(c)
        return one(s), facts
    if k == 'many':
        s = Sym(prefix + sh[2])
        syms[prefix + sh[2]] = sh[2]
        ELEMS[s] = tuple('Rule::' + r for r in sh[1])
        if sh[3]:
            facts = facts.assume(Not(is_empty(s)))
        return s, facts
    if k == 'cat':
        out = []
        for x in sh[1]:
            t, facts = sym_inner(x, prefix, syms, facts, peg)
            out.append(t)
        return cat(*out), facts
    if k == 'alt':
        r = None
        for i, x in reversed(list(enumerate(sh[2]))):
            t, facts = sym_inner(x, prefix, syms, facts, peg)
            if r is None:
                r = t
            else:
                n = f'{prefix}{sh[1]}?{i}'
                syms[n] = f'{sh[1]}?{i}'
                r = ite(Sym(n), t, r)
        return r, facts
    raise Unk(k)

def sym_pair(peg, rule, prefix, facts, shape=False):
    """(pair term, {symbol: path}, facts)"""
    syms = {prefix + '#': '#'}
    t, facts = sym_inner(peg.inner(rule) if shape is False else shape, prefix, syms, facts, peg)
    text = Sym(prefix + '#')
    return adt('pest::Pair', 'PestPair', raw('adt', 'Rule', 'Rule::' + rule), text, t), syms, facts

def variants(sh, limit=64):
    """alternative-free shapes of a shape: one for every combination of the alternatives taken"""
    if sh is None or sh[0] in ('one', 'many'):
        return [sh]
    if sh[0] == 'alt':
        out = []
        for x in sh[2]:
            out += variants(x, limit)
        return out
    out = [[]]
    for x in sh[1]:
        out = [o + ([] if v is None else v[1] if v[0] == 'cat' else [v]) for o in out for v in variants(x, limit)]
        if len(out) > limit:
            raise Unk('too many shapes')
    return [None if not o else o[0] if len(o) == 1 else ('cat', o) for o in out]

def literals(e, rules):
    """texts an expression may match, if they are finitely many strings; else None"""
    k = e[0]
    if k == 'eps':
        return ['']
    if k == 'cs':
        n = sum(b - a + 1 for a, b in e[1])
        return [chr(o) for a, b in e[1] for o in range(a, b + 1)] if n <= 4 else None
    if k == 'seq':
        out = ['']
        for x in e[1]:
            ys = literals(x, rules)
            if ys is None or len(out) * len(ys) > 32:
                return None
            out = [o + y for o in out for y in ys]
        return out
    if k == 'alt':
        out = []
        for x in e[1]:
            ys = literals(x, rules)
            if ys is None:
                return None
            out += ys
        return out
    if k == 'ref' and e[1] in rules:
        return literals(rules[e[1]], rules)
    return None

def bind(peg, pair, path):
    if path == '#':
        return pair.f[1]
    ch = peg.choices.get(id(pair), {})
    if path in ch:
        return ch[path]
    if '?' in path:
        return False
    import ev
    raise ev.Undef('no such pair ' + path)
