"""P19: parsing never panics."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR of the parsers over the shapes of the parse trees of the grammar; every panicking edge (failed unwrap, unreachable arm, index, overflow) must have an unsatisfiable path condition'
NOTE = 'All parse trees of the grammar, no bound. Trusted: pest builds the parse trees its grammar defines and does not panic itself. The hand written parser and lexer: all token sequences and texts, under the entry conditions that P27 and P28 show, except that counters of nesting do not reach 2^32. The decoder of escapes is covered by its step function (P15): no panicking edge for any class of items.'
ROLES = ('seg', 'seginner', 'sel', 'lor', 'land', 'basic', 'comparable', 'number', 'testinner', 'fun', 'arg', 'okcomparable', 'okcompared', 'isval', 'islog', 'isnodes', 'typed', 'parse')

def crate(o):
    import panalysis, pspec
    if o.short == 'hand':
        import hcheck, hparse
        hcheck.parser_run(o, 'P19', hparse.STREAM + hparse.PURE + ('span',), panics=True)
        decoder(o, hcheck.decoder_ctx(), True)
        return hcheck.lexer_panics(o)
    panalysis.run(o, 'P19', ROLES, panics=True)
    decoder(o, pspec.PCtx(o.short), False)

def decoder(o, X, hand):
    """the panicking edges of the decoder of escapes, for every class of items the text can go on with"""
    import pescape, pref
    from term import Unk
    X.ip.scans = True
    f = X.fn('unescape')
    a = X.syms_of('unescape')
    t = X.run('unescape', a)
    edges = list(X.last_panics)
    try:
        S = pescape.Step(t, a[0])
        live = pescape.panics(S, X, f, hand, edges)
        if hand:
            import hparse
            from facts import Facts
            from term import fld, le, add, length, Int
            inside = Facts().assume(le(add(fld(a[1], None, 0), length(a[0])), Int(2 ** 63 - 1)))       # a token lies within the text
            live = [x for x in live if not hparse.unreachable(x[0], inside)]
    except Unk as e:
        o.undec(f.path, str(e))
        return
    o.count('panicking edges', len(edges))
    if not live:
        o.ok(f.path, f'{len(edges)} panicking edges, none reached by any class of items')
    texts = [s for s in pescape.samples(1) + pescape.texts_of(pescape.constants(t)) if hand or pref.unescape(s) is not None]
    texts += pescape.malformed() if hand else []
    for p, cls in live:
        where = f'{p[1]} {p[2]}'.strip()
        w = pescape.first_panic(S, X, a, p, texts) if p[4] is not None else None
        if w is not None:
            o.violate(f.path, f'the text {w!r} between quotes reaches a panic: {where}', function=f.path)
        else:
            o.undec(f.path, f'{where}: not shown to be unreachable ({cls})')

def check(rep, tier):
    rep.rule('for every function of a parser and every shape of parse tree it is given, no panicking edge is reachable')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
