"""P16: each pest grammar = the RFC 9535 ABNF (decided on automata derived from both grammars)."""
import os, re, hashlib
from concurrent.futures import ProcessPoolExecutor
import base, grammar

TECHNIQUE = 'automata equivalence of the PEG grammar source with the RFC 9535 ABNF'
NOTE = 'Exact for every string of every length whose brackets nest at most N deep (N=2 quick, 3 thorough, 4 on a reduced alphabet); trusts the transcription of the RFC grammar in sa/rfc9535.abnf and the PEG semantics of pest 2.7 as modelled.'

EXT = '''
jsonpath-query-ext    = jsonpath-query / (implicit-root-segment segments)
implicit-root-segment = bracketed-selection / member-name-shorthand
singular-query-selector = abs-singular-query / ((("[" name-selector "]") / member-name-shorthand / index-segment) singular-query-segments)
'''

def grammar_file(short):
    """the grammar named by the #[grammar = ..] attribute of the parser"""
    d = os.path.join(base.REPO, 'crates', base.DIRS[short], 'src')
    found = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith('.rs'):
                t = open(os.path.join(root, f)).read()
                t = re.sub(r'//[^\n]*', '', t)
                for m in re.finditer(r'#\[\s*grammar(_inline)?\s*=\s*r?#?"([^"]*)"', t):
                    if m.group(1):
                        raise grammar.GrammarError('inline grammar')
                    found.append(os.path.join(d, m.group(2)))
    return found

def reference(singular):
    text = open(os.path.join(base.VERIF, 'sa', 'rfc9535.abnf')).read()
    if singular:
        text = text.replace('index-selector / filter-selector\n', 'index-selector / filter-selector / singular-query-selector\n') + EXT
    return grammar.read_abnf(text)

def job(args):
    path, singular, bound, reduced = args
    g = grammar.read_pest(open(path).read())
    a = reference(singular)
    L = grammar.Lang([g, a])
    start = 'jsonpath'
    A = L.M(g, ('ref', start), L.EPS)
    B = L.M(a, ('ref', 'jsonpath-query-ext' if singular else 'jsonpath-query'), L.EPS)
    letters = None
    if reduced:
        want = '$@.[]()?*:,!&|=<"\'0-1aeft_ \\u'
        letters = [i for i, c in enumerate(L.reps) if any(any(x <= ord(w) <= y for x, y in L.classes[i]) for w in want)]
    try:
        w, states, trans = grammar.equivalent(L, A, B, bound, letters)
    except grammar.GrammarError as e:
        return ('error', str(e), len(L.classes), 0, 0, len(g.rules), 0)
    return ('ok', w, len(L.classes), states, trans, len(g.rules), len(letters) if letters else len(L.classes))

def check(rep, tier):
    rep.rule('for every pest crate, the language of the start rule of the grammar file named in the source, under exact PEG semantics (ordered choice, possessive repetition), is compared with the RFC 9535 ABNF by automata equivalence over the full Unicode alphabet, for all strings with at most N nested brackets')
    bounds = [(2, False)] if tier == 'quick' else [(2, False), (3, False), (4, True)]
    jobs = {}
    for c in base.PEST_CRATES:
        fs = grammar_file(c)
        if len(fs) != 1:
            rep.violate(f'{c}:grammar-attribute', f'expected one #[grammar] attribute in crate {c}, found {len(fs)}')
            continue
        rep.count('grammar files')
        text = open(fs[0]).read()
        for b in bounds:
            key = (hashlib.sha256(text.encode()).hexdigest(), c == 'singular', b)
            jobs.setdefault(key, (fs[0], c == 'singular', b[0], b[1]))
        rep.count('grammar rules', 0)
    with ProcessPoolExecutor(max_workers=min(8, max(1, len(jobs)))) as ex:
        keys = list(jobs)
        try:
            res = dict(zip(keys, ex.map(job, [jobs[k] for k in keys])))
        except grammar.GrammarError as e:
            rep.undec('grammar', e)
            return
    for c in base.PEST_CRATES:
        fs = grammar_file(c)
        if len(fs) != 1:
            continue
        h = hashlib.sha256(open(fs[0]).read().encode()).hexdigest()
        for b in bounds:
            st, w, ncls, states, trans, nrules, nl = res[(h, c == 'singular', b)]
            key = f'{c}:language:depth{b[0]}'
            rep.count('grammar rules', nrules)
            rep.count('automaton state pairs', states)
            rep.count('transitions', trans)
            if st == 'error':
                rep.undec(key, w)
            elif w is None:
                rep.ok(key, f'{states} state pairs, {trans} transitions over {nl} character classes, nesting <= {b[0]}')
            else:
                s, in_g, in_r = w
                rep.violate(f'{c}:language', f'the grammar of crate {c} {"accepts" if in_g else "rejects"} {s!r}, which RFC 9535 {"derives" if in_r else "does not derive"}',
                            file=fs[0], string=s, grammar_accepts=in_g, rfc_derives=in_r)
    rep.floor('grammar files', 6)
    rep.assume = ['strings nested more deeply than the bound behave as those within it', 'the pest runtime implements the documented PEG semantics']
