"""P14: indices and slice bounds outside the I-JSON range are rejected."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of the parsers over the shapes of the parse trees of the grammar; the interval of accepted integers is read off the value-flow terms and compared with the I-JSON range'
NOTE = 'All parse trees of the grammar, all integers, no bound. Trusted: pest builds the parse trees its grammar defines, and str::parse::<i64>. The hand written parser: all token sequences (see P28).'

def crate(o):
    import panalysis, hcheck
    if o.short == 'hand':
        return hcheck.parser_run(o, 'P14', ('int', 'slice', 'bracketed'), rowcheck=True)
    panalysis.run(o, 'P14', ('seg', 'sel'), rules=('index_segment', 'child_segment', 'index_selector', 'slice_selector'), rowcheck=True)

def check(rep, tier):
    rep.rule('an index, start, stop or step is the integer of its text if that is in [-(2^53)+1, (2^53)-1], and a syntax error otherwise')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
