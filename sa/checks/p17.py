"""P17: the syntax tree says what the query says."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of the parsers over the shapes of the parse trees of the grammar, to gated value-flow terms compared case by case with the meaning of each grammar rule'
NOTE = 'All parse trees of the grammar, no bound. Trusted: pest builds the parse trees its grammar defines (P16 compares the grammars with RFC 9535).'
ROLES = ('seg', 'seginner', 'sel', 'lor', 'land', 'basic', 'comparable', 'number', 'testinner', 'fun', 'arg', 'parse')

def crate(o):
    import panalysis
    panalysis.run(o, 'P17', ROLES, rowcheck=True)

def check(rep, tier):
    rep.rule('one segment per segment, one selector per selector, in order, of the written kind, with the written value')
    rep.rule('start, stop and step in their own fields; operators, operands and arguments in written order; literals with type and value')
    sem.run(rep, __name__, PEST, tier)

PEST = tuple(s for s in base.ALL_CRATES if s != 'hand')
