"""P12: the function tables of parsers and evaluators."""
import base, sem

TECHNIQUE = 'constant propagation through the constructors of parsers and environments (abstract interpretation of the MIR); the tables they build are compared entry by entry with RFC 9535 2.4.4 to 2.4.8'
NOTE = 'Complete: the tables are finite. Which function of the crate stands behind a name is decided by type; what it computes is P10 and P11.'

PARSER = {'hand': 'Parser'}
IMPL = {'count': 'Count', 'length': 'Length', 'match': 'Match', 'search': 'Search', 'value': 'Value'}

def crate(o):
    import registry as R, roles
    from term import Unk
    X = o.X
    want = R.SIGNATURES
    def table(f):
        def run():
            t = X.summary_of(f, [])
            e = R.entries(t)
            o.count('function tables')
            for n in sorted(set(e) | set(want)):
                if n not in want:
                    o.violate(f'{f.path}: {n}', f'{f.path} declares a function "{n}" that RFC 9535 does not define', function=f.path)
                elif n not in e:
                    o.violate(f'{f.path}: {n}', f'{f.path} does not declare the function "{n}"', function=f.path)
                else:
                    s = R.signature(X, e[n])
                    o.count('signatures')
                    if s != want[n]:
                        o.violate(f'{f.path}: {n}', f'{f.path} declares {n}{s[0]} -> {s[1]}, must be {n}{want[n][0]} -> {want[n][1]}', function=f.path)
                    else:
                        o.ok(f'{f.path}: {n}', f'{s[0]} -> {s[1]}')
        return run
    def register(f):
        def run():
            e = R.entries(X.summary_of(f, []))
            o.count('function registers')
            for n in sorted(set(e) | set(want)):
                if n not in want:
                    o.violate(f'{f.path}: {n}', f'{f.path} registers a function "{n}" that RFC 9535 does not define', function=f.path)
                    continue
                if n not in e:
                    o.violate(f'{f.path}: {n}', f'{f.path} does not register the function "{n}" that the parser accepts', function=f.path)
                    continue
                ty = R.type_name(e[n])
                g = roles.trait_fn(X.crate, ty, 'FunctionExtension', 'sig')
                if g is None:
                    raise Unk(f'no sig of {ty}')
                s = R.signature(X, X.summary_of(g, X.symbols(g)))
                o.count('signatures')
                other = next((k for k, v in IMPL.items() if v == ty and k != n), None)
                if s != want[n]:
                    o.violate(f'{g.path}: {n}', f'{g.path} gives {s[0]} -> {s[1]} for "{n}", must be {want[n][0]} -> {want[n][1]}', function=g.path)
                elif other is not None:
                    o.violate(f'{f.path}: {n}', f'{f.path} registers the implementation of "{other}" under "{n}"', function=f.path)
                else:
                    o.ok(f'{f.path}: {n}', f'{ty}: {s[0]} -> {s[1]}')
        return run
    ms = R.makers(X, PARSER.get(X.short, 'JSONPathParser'))
    if not ms:
        o.undec('parser', 'no constructor of the parser found')
    for f in ms:
        o.run(f'parser {f.path}', table(f))
    if X.short in sem.EVALS:
        ms = R.makers(X, 'Environment')
        if not ms:
            o.undec('environment', 'no constructor of the environment found')
        for f in ms:
            o.run(f'environment {f.path}', register(f))

def check(rep, tier):
    rep.rule('every constructed parser holds exactly the five functions of RFC 9535 with their parameter and result types')
    rep.rule('every constructed environment registers exactly these names, each with its own implementation, whose sig() is the same')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
