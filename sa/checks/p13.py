"""P13: ill-typed filter expressions are rejected."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of the parsers over the shapes of the parse trees of the grammar, to gated value-flow terms compared case by case with the typing rules of RFC 9535 2.4.3'
NOTE = 'All parse trees of the grammar, no bound. Trusted: pest builds the parse trees its grammar defines. The hand written parser: all token sequences (see P28).'
ROLES = ('lor', 'land', 'basic', 'comparable', 'testinner', 'fun', 'arg', 'sel', 'okcomparable', 'okcompared', 'isval', 'islog', 'isnodes', 'typed')

HAND = ('okcomparable', 'okcompared', 'isval', 'islog', 'isnodes', 'typed', 'filter', 'not', 'infix', 'grouped', 'call', 'basic')

def crate(o):
    import panalysis, importlib, hcheck
    if o.short == 'hand':
        return hcheck.parser_run(o, 'P13', HAND, rowcheck=True)
    importlib.import_module(__name__.replace('p13', 'p25')).singular(o)
    o._x = None
    panalysis.run(o, 'P13', ROLES, rowcheck=True, rules=SKIP)

SKIP = ('logical_or_expr', 'logical_and_expr', 'paren_expr', 'comparison_expr', 'test_expr', 'function_expr', 'filter_selector', 'number', 'double_quoted', 'single_quoted', 'true_literal',
        'false_literal', 'null', 'rel_singular_query', 'abs_singular_query', 'rel_query', 'root_query')

def check(rep, tier):
    rep.rule('a function is known, has the declared number of arguments, and every argument is of the declared type')
    rep.rule('the operands of a comparison are literals, singular queries or functions of value type')
    rep.rule('no function of value type is a test, alone or under !, && or ||, in parentheses, filters and logical arguments')
    rep.rule('nothing else is rejected')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
