"""P23: errors are reported, with the right kind."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of the parsers and their callers to gated value-flow terms; the error flow and the error kinds are compared with the specification tables'
NOTE = 'All parse trees of the grammar, no bound. Trusted: pest reports a text that does not match. The hand written parser: all token sequences (see P28).'
ROLES = ('seg', 'seginner', 'sel', 'lor', 'land', 'basic', 'comparable', 'number', 'testinner', 'fun', 'arg', 'okcomparable', 'okcompared', 'isval', 'islog', 'isnodes', 'typed', 'parse')

def crate(o):
    import panalysis, roles
    if o.short == 'hand':
        import hcheck, hparse
        hcheck.parser_run(o, 'P23', hparse.STREAM + hparse.PURE, rowcheck=True)
        return hcheck.lex_errors(o)
    panalysis.run(o, 'P23', ROLES, rowcheck=True)
    X = o.X
    def standard():
        from term import Unk
        f = roles.find_fn(X.crate, 'Query::standard')
        if f is None:
            raise Unk('no Query::standard')
        a = X.symbols(f)
        o.decide('Query::standard', f, X.summary_of(f, a), X.table('parse', a[0]), rows=0)
    o.run('Query::standard', standard)
    if o.short in sem.EVALS:
        import wrappers
        o._x = None
        wrappers.wrappers(o)

def check(rep, tier):
    rep.rule('every failure of a nested step is the failure of the whole; its kind is that of the failing check')
    rep.rule('what does not match the grammar is a syntax error; every entry point passes errors on')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
