"""P28: the hand written parser maps tokens to the right syntax tree."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of every function of the parser over a symbolic sequence of tokens to decision tables, compared case by case with the specification of that function; loops are compared as state machines, one step at a time'
NOTE = 'All token sequences, no bound: by induction over the tokens. Trusted: Peekable, IntoIter, HashMap and str::parse of the standard library as modelled. That tokens are those of the text is P27; types of expressions are P13, ranges P14, escapes P15.'
ROLES = ('segments', 'selectors', 'bracketed', 'slice', 'filter', 'not', 'infix', 'grouped', 'basic', 'call', 'fexpr', 'tokens', 'parse')

def crate(o):
    import hcheck
    hcheck.parser_run(o, 'P28', ROLES, rowcheck=True)

def check(rep, tier):
    rep.rule('every function of the parser, from every state of the tokens, gives the syntax tree and the remaining tokens of its specification, and a syntax error where that gives one')
    rep.rule('every loop takes the step of the specified state machine from every state')
    sem.run(rep, __name__, ('hand',), tier)
