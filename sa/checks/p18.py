"""P18: the canonical text of a query."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of every Display implementation to a gated value-flow term of the text written, compared case by case with the canonical form'
NOTE = 'All syntax trees, no bound, by structural induction: the text of a node is compared given the texts of its parts. Decimal printing of integers and floats is that of the standard library. Quotes inside names and strings are printed as they are (a listed deviation pinned by the tests).'

LOGICAL = {'And': '&&', 'Or': '||'}
COMPARISON = {'Eq': '==', 'Ne': '!=', 'Ge': '>=', 'Gt': '>', 'Le': '<=', 'Lt': '<'}

def crate(o):
    import roles
    import term as TM
    from term import cat, Str, EMPTY, raw, fld, mk_for, ite, isin, is_some, Unk, one, show
    from spec import field_ix
    X = o.X
    def variants(enum):
        return {v['name']: v for a in X.crate.adts.values() if a['path'].split('::')[-1] == enum and not a['path'].startswith(('core', 'alloc', 'std')) and 'conslist' not in a['path'] for v in a['variants']}
    def part(x, enum, v, name, i=0):
        return fld(x, f'{enum}::{v}', field_ix(X.crate, enum, v, name, i))
    D = lambda x: raw('disp', x)
    def alts(enum, others=None):
        """one specification per variant"""
        def run():
            f = roles.trait_fn(X.crate, enum, 'Display', 'fmt')
            if f is None:
                raise Unk(f'no Display of {enum}')
            known = SPEC[enum]
            vs = variants(enum)
            for v in vs:
                if v not in known:
                    o.undec(f'{enum}::{v}', 'a variant the specification does not know')
                    continue
                def case(v=v):
                    args = X.symbols(f)
                    s = args[0]
                    cond = isin(s, (f'{enum}::{v}',), [f'{enum}::{x}' for x in vs])
                    fx = X.facts().assume(cond)
                    impl = X.written(f, args, fx)
                    o.decide(f'{enum}::{v}', f, impl, known[v](s), facts=fx, assume=[cond])
                o.run(f'{enum}::{v}', case)
        o.run(enum, run)
    def query():
        f = roles.trait_fn(X.crate, 'Query', 'Display', 'fmt')
        if f is None:
            raise Unk('no Display of Query')
        args = X.symbols(f)
        o.decide('Query', f, X.written(f, args), segments('$', args[0]))
    linked = 'left' in [f.get('name') for v in variants('Segment').values() for f in v['fields']]     # segments linked from last to first
    def before(s, v):
        return D(part(s, 'Segment', v, 'left')) if linked else EMPTY
    def segments(lead, q):
        if linked:
            return cat(Str(lead), D(fld(q, 'Query', field_ix(X.crate, 'Query', 'Query', 'ast', 0))))
        return cat(Str(lead), mk_for(fld(q, 'Query', field_ix(X.crate, 'Query', 'Query', 'segments', 0)), lambda e, p: D(e)))
    def commas(s):
        return TM.join(mk_for(s, lambda e, p: one(D(e))), Str(', ')) if hasattr(TM, 'join') else raw('join', mk_for(s, lambda e, p: one(D(e))), Str(', '))
    def opt(x, default):
        return ite(is_some(x), raw('dec', fld(x, 'Some', 0)), Str(default) if default else EMPTY)
    FE = variants('FilterExpression')
    F = lambda s, v, n, i=0: part(s, 'FilterExpression', v, n, i)
    def neg(s):
        x = F(s, 'Not', 'expression')
        p = cat(Str('!('), D(x), Str(')'))
        return ite(isin(x, ('FilterExpression::Not', 'FilterExpression::Comparison'), ['FilterExpression::' + v for v in FE]), p, cat(Str('!'), D(x)))
    S = lambda s, v, n, i=0: part(s, 'Selector', v, n, i)
    SPEC = {
        'Segment': {'Child': lambda s: cat(before(s, 'Child'), Str('['), commas(part(s, 'Segment', 'Child', 'selectors')), Str(']')),
                    'Recursive': lambda s: cat(before(s, 'Recursive'), Str('..['), commas(part(s, 'Segment', 'Recursive', 'selectors')), Str(']')),
                    'Eoi': lambda s: EMPTY, 'Root': lambda s: EMPTY},
        'Selector': {'Name': lambda s: cat(Str("'"), S(s, 'Name', 'name'), Str("'")),
                     'Index': lambda s: raw('dec', S(s, 'Index', 'index')),
                     'Slice': lambda s: cat(opt(S(s, 'Slice', 'start', 0), ''), Str(':'), opt(S(s, 'Slice', 'stop', 1), ''), Str(':'), opt(S(s, 'Slice', 'step', 2), '1')),
                     'Wild': lambda s: Str('*'),
                     'Filter': lambda s: cat(Str('?'), D(S(s, 'Filter', 'expression'))),
                     'SingularQuery': lambda s: D(S(s, 'SingularQuery', 'query'))},
        'FilterExpression': {
            'True': lambda s: Str('true'), 'False': lambda s: Str('false'), 'Null': lambda s: Str('null'),
            'Int': lambda s: raw('dec', F(s, 'Int', 'value')), 'Float': lambda s: raw('fdec', F(s, 'Float', 'value')),
            'Not': neg,
            'Logical': lambda s: cat(Str('('), D(F(s, 'Logical', 'left', 0)), Str(' '), D(F(s, 'Logical', 'operator', 1)), Str(' '), D(F(s, 'Logical', 'right', 2)), Str(')')),
            'Comparison': lambda s: cat(D(F(s, 'Comparison', 'left', 0)), Str(' '), D(F(s, 'Comparison', 'operator', 1)), Str(' '), D(F(s, 'Comparison', 'right', 2))),
            'RelativeQuery': lambda s: segments('@', F(s, 'RelativeQuery', 'query')),
            'RootQuery': lambda s: segments('$', F(s, 'RootQuery', 'query')),
            'Function': lambda s: cat(F(s, 'Function', 'name', 0), Str('('), commas(F(s, 'Function', 'args', 1)), Str(')'))},
        'LogicalOperator': {k: (lambda s, v=v: Str(v)) for k, v in LOGICAL.items()},
        'ComparisonOperator': {k: (lambda s, v=v: Str(v)) for k, v in COMPARISON.items()},
    }
    q = '"' if X.short == 'hand' else "'"
    SPEC['FilterExpression']['String'] = lambda s: cat(Str(q), F(s, 'String', 'value'), Str(q))
    for a, b in (('True_', 'True'), ('False_', 'False')):
        SPEC['FilterExpression'][a] = SPEC['FilterExpression'][b]
    SPEC['FilterExpression']['StringLiteral'] = lambda s: cat(Str(q), F(s, 'StringLiteral', 'value'), Str(q))
    o.run('Query', query)
    for e in SPEC:
        alts(e)

def check(rep, tier):
    rep.rule('the text written for every kind of segment, selector, expression and operator == its canonical form')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
