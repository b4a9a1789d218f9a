"""P27: the hand written lexer recognises the tokens of RFC 9535."""
import time
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of every lexer state to a decision table over symbolic text, position and nesting, compared case by case with the transition table of the specification; loops over characters are summarised as runs of a class'
NOTE = 'All texts, positions, nesting depths and characters; no bound. By induction over the states: the entry conditions of a state are obligations on every transition to it. Trusted: CharIndices, Vec and String of the standard library as modelled.'

def crate(o):
    import hcheck
    L, S, bad, _ = hcheck.run(o)
    if bad or o.tier != 'quick':
        hcheck.lexer_rows(o, L, bad)

def check(rep, tier):
    rep.rule('in every lexer state and for every character, the tokens emitted (kind, text, span), the characters consumed, the nesting and the next state are those of the transition table')
    rep.rule('every transition establishes the entry conditions of the next state; tokenize runs the function of each state from the start state; lex gives the tokens, or an error if they end in an error token')
    sem.run(rep, __name__, ('hand',), tier)
