"""P31: recursion of the evaluation follows nesting, not length."""
import sem

TECHNIQUE = 'size-change analysis of every cycle of the call graph of evaluation: each cycle has to go to a part nested in an argument (value-flow terms); a call of itself for the next element of an iterator or for the rest of a list is the violation (dominators on the MIR, value-flow terms)'
NOTE = 'All queries and documents, no bound. Assumed: the library functions called, and what the compiler generates for dropping, comparing and cloning, recurse over the nesting of their arguments only. Recursion of the parsers (bounded by the nesting of the query text) is not part of this property; that it ends is P29.'

def crate(o):
    import progress
    progress.depth(o)

def check(rep, tier):
    rep.rule('every cycle of calls in evaluation goes to a part nested in an argument, never to the next element or the rest of the same sequence')
    sem.run(rep, __name__, sem.EVALS, tier)
