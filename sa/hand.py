"""The hand written parser: how its functions are called, and what they must do, over token sequences."""
import base, ev, interp, roles, models, registry
import term as TM
from term import *
from facts import Facts
from spec import Ctx, ANY
from pspec import PCtx, MAXI, OPS

TABLE = {
    'segments': 'Parser::parse_segments', 'selectors': 'Parser::parse_selectors', 'bracketed': 'Parser::parse_bracketed', 'slice': 'Parser::parse_slice_or_index',
    'filter': 'Parser::parse_filter', 'not': 'Parser::parse_not_expression', 'infix': 'Parser::parse_infix_expression', 'grouped': 'Parser::parse_grouped_expression',
    'basic': 'Parser::parse_basic_expression', 'call': 'Parser::parse_function_call', 'fexpr': 'Parser::parse_filter_expression', 'prec': 'Parser::precedence',
    'okcompared': 'Parser::assert_compared', 'okcomparable': 'Parser::assert_comparable', 'typed': 'Parser::assert_well_typed', 'isval': 'Parser::is_value_type',
    'islog': 'Parser::is_logical_type', 'isnodes': 'Parser::is_nodes_type', 'int': 'Parser::parse_i_json_int', 'tokens': 'Parser::parse_tokens', 'parse': 'Parser::parse', 'new': 'Parser::new',
    'span': 'FilterExpression::span', 'unescape': 'unescape_string', 'lex': 'lexer::lex', 'qsing': 'Query::is_singular',
}
INLINE = {'prec', 'tokens', 'parse', 'new'}

class HAnchors:
    def __init__(self, ip):
        self.ip = ip
        self.fns, self.perm, self.muts = {}, {}, {}
        rec = roles.recorded().get('parser:hand', {})
        for r, suffix in TABLE.items():
            f = roles.find_fn(ip.crate, suffix, None)
            if f is None:
                continue
            own = lambda t: roles.plain_type(t) != 'Parser'
            perm = [i for i in range(f.args) if own(roles.ts(f.crate, f.locals[i + 1]))]
            if r in rec:
                ps = [(i, x) for i, x in enumerate(roles.params(f)) if own(x[0])]
                p = roles.permutation([x for x in rec[r]['params'] if own(x[0])], [x for _, x in ps])
                if p is None or roles.ts(f.crate, f.locals[0]) != rec[r]['ret']:
                    continue
                perm = [ps[j][0] for j in p]
            self.fns[r], self.perm[r] = f, perm
            self.muts[r] = [k for k, i in enumerate(perm) if ip.ty(f.locals[i + 1])['k'] == 'ref' and ip.ty(f.locals[i + 1]).get('mut')]
        for r, f in self.fns.items():
            if r not in INLINE:
                self.cut(r, f)
    def cut(self, role, f):
        perm, muts, ip = self.perm[role], self.muts[role], self.ip
        def r(ip_, st, args, ctx):
            vals = [ip_.deep(st, args[i]) for i in perm]
            vals = [fld(v, 'TokenStream', 0) if k in muts else v for k, v in enumerate(vals)]
            c = raw('call', role, *vals)
            if not muts:
                return c
            ip_.store_ptr(st, args[perm[muts[0]]], stream(fld(c, None, 1)))
            v = fld(c, None, 0)
            ip_.note_type(v, f.locals[0])
            return v
        ip.roles[f.id] = r
    def get(self, r): return self.fns.get(r)

def stream(s):
    return adt('parser::TokenStream', 'TokenStream', s)

class Paths(PCtx):
    def paths_of(self, f, args, facts, out):
        st0 = interp.State({}, facts or Facts())
        a2 = []
        for i, x in enumerate(args):
            t = self.ip.ty(f.locals[i + 1])
            if t['k'] == 'ref' and t.get('mut'):
                x = self.ip.ptr(self.ip.new_cell(st0, x))
            a2.append(x)
        n0 = len(self.ip.panics)
        self.ip.steps = 0
        tree = interp.paths(self.ip, f, a2, st0)
        self.last_panics = self.ip.panics[n0:]
        return interp.map_leaves(tree, lambda l: ('leaf',) + tuple(l[3].facts.simp(x) for x in out(self.ip.deep(l[3], l[2]), l[3], a2)))

class HCtx(Paths):
    def __init__(self):
        self.short = 'hand'
        self.ip = interp.Interp('hand')
        self.ip.scans = self.ip.offsets = True
        self.ip.paths = False
        self.crate = self.ip.crate
        self.types, self.roles, self.adtpaths = {}, {}, {}
        self.A = HAnchors(self.ip)
        for r, f in self.A.fns.items():
            self.roles[r] = f.locals[0]
        self.rec = False
        self.P = self.summary_of(self.fn('new'), [])
        self.ip.paths = True
        self.generic = {}
    def run(self, role, args, facts=None):
        """the decision tree of a role applied to arguments: (result, rest of the tokens)"""
        f = self.fn(role)
        a = [self.P] * f.args
        muts = self.A.muts[role]
        for k, (i, x) in enumerate(zip(self.A.perm[role], args)):
            a[i] = stream(x) if k in muts else x
        def out(v, st, a2):
            if not muts:
                return (v,)
            return v, fld(self.ip.deep(st, self.ip.load_ptr(st, a2[self.A.perm[role][muts[0]]])), 'TokenStream', 0)
        return self.paths_of(f, a, facts, out)
    def syms_of(self, role):
        f = self.fn(role)
        a = []
        for k, i in enumerate(self.A.perm[role]):
            s = Sym('ts' if k in self.A.muts[role] else f'{role}.{k}')
            if k not in self.A.muts[role]:
                self.types[s.args[0]] = f.locals[i + 1]
                self.ip.note_type(s, f.locals[i + 1])
            a.append(s)
        if role == 'unescape':
            for i in (0, 1):          # positions of a token in the text
                TM.INTB[fld(a[1], None, i)] = (0, 2 ** 63 - 1)
        return a

# ---------------------------------------------------------------------------- the lexer
STATES = {'lex_root': 'LexRoot', 'lex_segment': 'LexSegment', 'lex_descendant_segment': 'LexDescendantSegment', 'lex_shorthand_selector': 'LexShorthandSegment',
          'lex_inside_bracketed_segment': 'LexInsideBracketedSegment', 'lex_inside_filter': 'LexInsideFilter', 'lex_string': None}
# states entered with the delimiter that led to them not yet dropped; states inside a filter
DELIM = ('lex_shorthand_selector', 'lex_string')
FILTER = ('lex_inside_filter',)
FIELDS = ('query', 'tokens', 'chars', 'start', 'pos', 'filter_depth', 'paren_stack')
class LCtx(Paths):
    def __init__(self):
        self.short = 'hand'
        self.ip = interp.Interp('hand')
        self.ip.scans = self.ip.offsets = self.ip.paths = True
        self.crate = self.ip.crate
        self.types, self.roles, self.adtpaths = {}, {}, {}
        self.path, self.vn, self.names = self.variant('Lexer', 'Lexer')
        if sorted(self.names) != sorted(FIELDS):
            raise Unk('fields of the lexer')
        self.fns = {}
        for n in list(STATES) + ['Lexer::run', 'tokenize', 'lexer::lex', 'Lexer::new']:
            f = roles.find_fn(self.crate, n, None)
            if f is not None:
                self.fns[n] = f
        for n in STATES:
            if n in self.fns:
                self.cut(n, self.fns[n])
    def states(self):
        for a in self.crate.adts.values():
            if a['path'].split('::')[-1] == 'State' and a.get('local'):
                return [v['name'] for v in a['variants']]
        raise Unk('states of the lexer')
    def lexer(self, **fs):
        return adt(self.path, self.vn, *[fs[n] for n in self.names])
    def cut(self, role, f):
        def r(ip_, st, args, ctx):
            vals = [ip_.deep(st, a) for a in args]
            c = raw('call', role, *vals)
            ip_.store_ptr(st, args[0], fld(c, None, 1))
            v = fld(c, None, 0)
            ip_.note_type(v, f.locals[0])
            return v
        self.ip.roles[f.id] = r
    def fn(self, n):
        if n not in self.fns:
            raise Unk(f'{n} not found')
        return self.fns[n]
    def entry(self, state=None):
        """the lexer before a step, and what holds then: anything (state None), or what every step establishes"""
        from models import boff
        q, k = Sym('q'), Sym('k')
        TM.INTB[k] = (0, 2 ** 63 - 1)
        f = Facts().assume(le(k, length(q)))
        st, toks = Sym('stack'), Sym('toks')
        if state is None:
            s, d = Sym('s'), Sym('depth')
            TM.INTB[s] = (0, 2 ** 63 - 1)
            TM.INTB[d] = (0, 2 ** 32 - 1)
            f = f.assume(le(s, k))
        else:
            s, d = sub(k, Int(1)) if state in DELIM else k, Sym('depth')
            TM.INTB[d] = (0, 2 ** 32 - 1)
            if state in DELIM:
                f = f.assume(le(Int(1), k))
            if state in FILTER:
                f = f.assume(le(Int(1), d)).assume(le(Int(1), length(st)))
        return dict(query=q, tokens=toks, chars=adt('CharIndices', 'CharIndices', q, k), start=boff(q, s), pos=boff(q, k), filter_depth=d, paren_stack=st), f
    def run(self, n, lx, facts, *more):
        """a decision tree: ('fork', condition, yes, no) / ('leaf', next state, lexer after)"""
        return self.paths_of(self.fn(n), [lx] + list(more), facts, lambda t, st, a: (t, self.ip.deep(st, self.ip.load_ptr(st, a[0]))))
