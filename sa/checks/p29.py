"""P29: parsing and evaluation end."""
import base, sem

TECHNIQUE = 'termination analysis of the MIR: loops driven by finite iterators (dominator rule), measures on the step function of every other loop (abstract interpretation), a graph of the tokens and characters consumed between states, and size-change termination for the cycles of calls'
NOTE = 'All inputs, no bound. What is not proved to end is reported only with a text or arguments on which the tables extracted from the code come back to a state they were in; otherwise it is undecided. Assumed: iterators of the standard library, serde_json and pest over finite data end, and so do boxed iterators in a crate without endless sources; the pest engine ends (its derive macro rejects left recursion and repetitions of what may be empty), and so does the regex crate. Recursion depth is not bounded: that is not about progress.'

def crate(o):
    import progress
    progress.run(o)

def check(rep, tier):
    rep.rule('every loop in the code of a crate is driven by a finite iterator or has a measure every step of it changes; every cycle of calls consumes input')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
