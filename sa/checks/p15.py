"""P15: string literals and quoted names are decoded exactly."""
import base, sem, time

TECHNIQUE = 'abstract interpretation of the MIR of the decoders to a step function on the rest of the text (loop invariant: output so far, position); every class of items (character, escape, code unit, surrogate pair) against the specification, the pair arithmetic over its finite domain'
NOTE = 'All well formed strings, by induction over their items; malformed escapes are excluded by the grammar (P16) except in the hand written parser, where each class of them is decided. Trusted: models of char, str and integer parsing of the standard library.'

def crate(o):
    import pescape, panalysis, pspec, ev, pref
    from term import Unk, raw, Err, isin
    if o.short == 'hand':
        import hcheck
        hcheck.parser_run(o, 'P15', ('selectors', 'bracketed', 'basic'))
        return decoder(o, hcheck.decoder_ctx(), True)
    panalysis.run(o, 'P15', ('sel', 'comparable', 'arg'), rules=('double_quoted', 'single_quoted', 'member_name_shorthand'))
    decoder(o, pspec.PCtx(o.short), False)

def decoder(o, X, hand):
    import pescape, ev, pref
    from facts import Facts
    from term import Unk
    X.ip.scans = True
    f = X.fn('unescape')
    a = X.syms_of('unescape')
    t = X.run('unescape', a)
    bad = []
    n = 0
    extra = pescape.texts_of(pescape.constants(t))
    try:
        S = pescape.Step(t, a[0])
        fallible = X.fallible_unescape()
        e = pescape.check_end(S, fallible)
        if e:
            bad.append(e)
        else:
            o.ok(f'{f.path}: end of the text')
        for name, el, fa, want in pescape.items(S, hand):
            n += 1
            if fa.dead:
                continue
            e = pescape.check_item(S, name, el, fa, want)
            if e:
                bad.append(e)
            else:
                o.ok(f'{f.path}: {name}' + (f' #{n}' if hand else ''))
    except Unk as e:
        bad.append(str(e))
    o.count('classes of items', n)
    if bad or o.tier != 'quick':
        k, w = rows(o, X, t, a, hand, extra)
        o.count('rows (texts) evaluated in the table', k)
        if w:
            o.violate(f'{f.path}', w + '; step function: ' + '; '.join(bad)[:400], function=f.path)
        else:
            for e in bad:
                o.undec(f.path, f'{e} (no text among {k} is decoded differently)')

def rows(o, X, t, a, hand, extra=()):
    import pescape, ev, pref, os
    n = 0
    texts = [(s, pref.unescape(s)) for s in pescape.samples(int(os.environ.get('VERIF_SEED', '1'))) + list(extra)]
    if not hand:
        texts = [x for x in texts if x[1] is not None]       # the grammar accepts no other
    if hand:
        texts += [(s, None) for s in pescape.malformed() + ['\x1f', 'a\nb', '\\u0000', '\\u001f', '\\u000a']]
        texts = [(s, None if u is not None and any(ord(c) < 0x20 for c in decoded_units(s)) else u) for s, u in texts]
    fallible = X.fallible_unescape()
    for s, want in texts:
        types = {a[0].args[0]: (lambda val, s=s: tuple(s))}
        for x in a[1:]:
            types[x.args[0]] = lambda val: ev.Tp((0, 1))
        v = ev.Val(X.ip, types, 1, ([0], ['a'], [97]), {}, {})
        try:
            r = v.ev(t)
            if fallible:
                r = None if r.v == 'Err' else r.f[0] if r.v == 'Ok' else 0
            r = ''.join(r) if r is not None else None
        except (ev.NoEval, ev.Undef, AttributeError, TypeError, IndexError):
            continue
        n += 1
        if r != want:
            return n, f'the text {s!r} between quotes ' + (f'stands for {want!r}' if want is not None else 'is an error') + f' but the table of the code gives {r!r}'
    return n, None

def decoded_units(s):
    """characters of s that are written plainly or by \\u"""
    import re
    out = [c for c in s if ord(c) < 0x20]
    out += [chr(int(h, 16)) for h in re.findall(r'\\u([0-9a-fA-F]{4})', s)]
    return out

def check(rep, tier):
    rep.rule('a character other than \\ stands for itself; \\b \\f \\n \\r \\t \\/ \\\\ \\" for one character; \\uXXXX for the code unit; a surrogate pair for one character')
    rep.rule('the decoder appends exactly that and goes on behind the item; at the end it returns what it has appended')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
