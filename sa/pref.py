"""What a query means, read off its parse tree: an independent reference for rows of the parser tables.

`Ref(X).read(tree)` gives the syntax tree the specification asks for and every reason to reject the text."""
import registry
from ev import A, Tp

LITS = ('True', 'False', 'Null', 'String', 'Int', 'Float')
OPS = {'==': 'Eq', '!=': 'Ne', '<=': 'Le', '>=': 'Ge', '<': 'Lt', '>': 'Gt'}
MAXI = (1 << 53) - 1

class Bad(Exception): pass

def unescape(s):
    """decoded text of the inside of a double quoted string, None if it is malformed"""
    out, i = [], 0
    simple = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', '/': '/', '\\': '\\', '"': '"'}
    def unit(i):
        h = s[i:i + 4]
        return int(h, 16) if len(h) == 4 and all(c in '0123456789abcdefABCDEF' for c in h) else None
    while i < len(s):
        c = s[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        if i + 1 >= len(s):
            return None
        d = s[i + 1]
        if d in simple:
            out.append(simple[d])
            i += 2
            continue
        u = unit(i + 2) if d == 'u' else None
        if u is None:
            return None
        i += 6
        if 0xDC00 <= u <= 0xDFFF:
            return None
        if 0xD800 <= u <= 0xDBFF:
            v = unit(i + 2) if s[i:i + 2] == '\\u' else None
            if v is None or not 0xDC00 <= v <= 0xDFFF:
                return None
            u = 0x10000 + (u - 0xD800) * 0x400 + (v - 0xDC00)
            i += 6
        out.append(chr(u))
    return ''.join(out)

class Ref:
    def __init__(self, X):
        self.X, self.rec = X, X.rec
        self.names = {}
    def mk(self, enum, v, **fs):
        k = (enum, v)
        if k not in self.names:
            self.names[k] = self.X.variant(enum, v)[1:]
        n, order = self.names[k]
        return A(n, *[fs[x] for x in order])
    def isv(self, x, enum, *vs):
        for v in vs:
            if (enum, v) not in self.names:
                self.names[(enum, v)] = self.X.variant(enum, v)[1:]
        return isinstance(x, A) and x.v in [self.names[(enum, v)][0] for v in vs]
    def get(self, x, enum, v, name):
        return x.f[self.names[(enum, v)][1].index(name)]
    # ------------------------------------------------------------------
    def read(self, nodes):
        """(tree, [(error kind, property it belongs to)])"""
        self.errs, self.ints = [], 0
        q = self.query(nodes)
        return q, list(self.errs)
    def err(self, kind, prop):
        self.errs.append((kind, prop))
    def rule(self, p): return p.f[0].v.split('::')[1]
    def text(self, p): return ''.join(p.f[1])
    def query(self, nodes):
        if self.rec:
            s = self.mk('Segment', 'Root')
            for p in nodes:
                if self.rule(p) != 'EOI':
                    s = self.segment(p, s)
            return self.mk('Query', 'Query', ast=s)
        return self.mk('Query', 'Query', segments=tuple(self.mk('Segment', 'Eoi') if self.rule(p) == 'EOI' else self.segment(p) for p in nodes))
    def segment(self, p, left=None):
        r, k = self.rule(p), p.f[2]
        kw = {'left': left} if self.rec else {}
        x = k[0]
        sels = [self.selector(c) for c in x.f[2]] if self.rule(x) == 'bracketed_selection' else [self.selector(x)]
        return self.mk('Segment', 'Recursive' if r == 'descendant_segment' else 'Child', selectors=tuple(sels), **kw)
    def string(self, p):
        t = self.text(p)
        if self.rule(p) == 'single_quoted':
            t = t.replace("\\'", "'")
        s = unescape(t)
        if s is None:
            self.err('SyntaxError', 'P15')
            s = ''
        return tuple(s)
    def int_(self, p):
        n = int(self.text(p))
        self.ints += 1
        if abs(n) > MAXI:
            self.err('SyntaxError', 'P14')
        return n
    def selector(self, p):
        r = self.rule(p)
        if r in ('double_quoted', 'single_quoted'):
            return self.mk('Selector', 'Name', name=self.string(p))
        if r in ('member_name_shorthand',):
            return self.mk('Selector', 'Name', name=tuple(self.text(p)))
        if r == 'wildcard_selector':
            return self.mk('Selector', 'Wild')
        if r == 'index_selector':
            return self.mk('Selector', 'Index', index=self.int_(p))
        if r == 'slice_selector':
            d = {'start': A('None'), 'stop': A('None'), 'step': A('None')}
            for c in p.f[2]:
                d[self.rule(c)] = A('Some', self.int_(c))
            return self.mk('Selector', 'Slice', **d)
        if r == 'filter_selector':
            return self.mk('Selector', 'Filter', expression=self.tested(self.logical(p.f[2][0])))
        if r == 'singular_query_selector':
            return self.mk('Selector', 'SingularQuery', query=self.query(p.f[2]))
        raise Bad(r)
    # ------------------------------------------------------------------ expressions
    def ret(self, e):
        """type of an expression as an argument"""
        F = 'FilterExpression'
        if self.isv(e, F, *LITS):
            return 'Literal'
        if self.isv(e, F, 'RelativeQuery', 'RootQuery'):
            return 'Query'
        if self.isv(e, F, 'Function'):
            s = registry.SIGNATURES.get(''.join(self.get(e, F, 'Function', 'name')))
            return s[1] if s else 'Unknown'
        return 'Logical'
    def tested(self, e):
        if self.ret(e) in ('Literal', 'Value'):
            self.err('TypeError', 'P13')
        return e
    def logical(self, p):
        """expression of an or-chain, not yet tested"""
        r = self.rule(p)
        if r in ('logical_or_expr', 'logical_and_expr'):
            xs = [self.logical(c) for c in p.f[2]]
            e = xs[0]
            if len(xs) > 1:
                self.tested(e)
            for x in xs[1:]:
                self.tested(x)
                e = self.mk('FilterExpression', 'Logical', left=e, operator=self.mk('LogicalOperator', 'Or' if r == 'logical_or_expr' else 'And'), right=x)
            return e
        k = p.f[2]
        neg = self.rule(k[0]) == 'logical_not_op' if k else False
        x = k[1] if neg else k[0]
        if r == 'paren_expr':
            e = self.tested(self.logical(x))
        elif r == 'test_expr':
            e = self.operand(x)
            if neg:
                self.tested(e)
        elif r == 'comparison_expr':
            l, rt = self.operand(k[0]), self.operand(k[2])
            for y in (l, rt):
                t = self.ret(y)
                if t in ('Logical', 'Nodes') or t == 'Query' and not self.singular(y):
                    self.err('TypeError', 'P13')
            return self.mk('FilterExpression', 'Comparison', left=l, operator=self.mk('ComparisonOperator', OPS[self.text(k[1])]), right=rt)
        else:
            raise Bad(r)
        return self.mk('FilterExpression', 'Not', expression=e) if neg else e
    def singular(self, y):
        F = 'FilterExpression'
        v = 'RelativeQuery' if self.isv(y, F, 'RelativeQuery') else 'RootQuery'
        return self.singular_query(self.get(y, F, v, 'query'))
    def singular_query(self, q):
        segs = q.f[0]
        if self.rec:
            xs = []
            while not self.isv(segs, 'Segment', 'Root'):
                self.isv(segs, 'Segment', 'Child', 'Recursive')
                xs.append(segs)
                segs = self.get(segs, 'Segment', 'Child' if self.isv(segs, 'Segment', 'Child') else 'Recursive', 'left')
            segs = tuple(xs)
        for s in segs:
            if self.isv(s, 'Segment', 'Child'):
                sel = self.get(s, 'Segment', 'Child', 'selectors')
                if len(sel) == 1 and self.isv(sel[0], 'Selector', 'Name', 'Index'):
                    continue
            elif not self.rec and self.isv(s, 'Segment', 'Eoi'):
                continue
            return False
        return True
    def operand(self, p):
        r = self.rule(p)
        if r == 'number':
            t = self.text(p)
            if not any(c in t for c in '.eE') and -(1 << 63) <= int(t) < 1 << 63:
                return self.mk('FilterExpression', 'Int', value=int(t))
            return self.mk('FilterExpression', 'Float', value=float(t))
        if r in ('double_quoted', 'single_quoted'):
            return self.mk('FilterExpression', 'String', value=self.string(p))
        if r in ('true_literal', 'false_literal', 'null'):
            return self.mk('FilterExpression', {'true_literal': 'True', 'false_literal': 'False', 'null': 'Null'}[r])
        if r in ('rel_query', 'rel_singular_query'):
            return self.mk('FilterExpression', 'RelativeQuery', query=self.query(p.f[2]))
        if r in ('root_query', 'abs_singular_query'):
            return self.mk('FilterExpression', 'RootQuery', query=self.query(p.f[2]))
        if r == 'function_expr':
            n = self.text(p.f[2][0])
            args = tuple(self.logical(c) if self.rule(c) == 'logical_or_expr' else self.operand(c) for c in p.f[2][1:])
            s = registry.SIGNATURES.get(n)
            if s is None:
                self.err('NameError', 'P13')
            elif len(s[0]) != len(args):
                self.err('TypeError', 'P13')
            else:
                for want, a in zip(s[0], args):
                    t = self.ret(a)
                    ok = {'Value': t in ('Literal', 'Value', 'Unknown') or t == 'Query' and self.singular(a),
                          'Logical': t in ('Logical', 'Nodes', 'Query', 'Unknown'),
                          'Nodes': t in ('Nodes', 'Query', 'Unknown')}[want]
                    if not ok:
                        self.err('TypeError', 'P13')
            return self.mk('FilterExpression', 'Function', name=tuple(n), args=args)
        raise Bad(r)
