"""P25: is_singular and is_empty."""
import base, sem

TECHNIQUE = 'abstract interpretation of the MIR to gated value-flow terms, compared case by case with the definition of a singular query (RFC 9535 2.3.5.1)'
NOTE = 'All queries, no bound.'

def crate(o, parts=('singular', 'empty')):
    import roles
    from spec import field_ix
    from term import fld, isin, And, Or, Not, TRUE, FALSE, ite, length, ieq, Int, nth, raw, is_empty, Unk, exists as mk_exists
    X = o.X
    names = [v['name'] for a in X.crate.adts.values() if a['path'].split('::')[-1] == 'Segment' for v in a['variants']]
    U = ['Segment::' + n for n in names]
    sels = ['Selector::' + v['name'] for a in X.crate.adts.values() if a['path'].split('::')[-1] == 'Selector' for v in a['variants']]
    def child_ok(s):
        l = fld(s, 'Segment::Child', field_ix(X.crate, 'Segment', 'Child', 'selectors', 0))
        return And(ieq(length(l), Int(1)), isin(nth(l, Int(0)), ('Selector::Name', 'Selector::Index'), sels))
    def one(s):
        r = ite(isin(s, ('Segment::Child',), U), child_ok(s), FALSE)
        return ite(isin(s, ('Segment::Eoi',), U), TRUE, r) if 'Eoi' in names else r
    def segs(q): return fld(q, 'Query', field_ix(X.crate, 'Query', 'Query', 'segments', 0))
    def method(name):
        f = roles.find_fn(X.crate, name)
        if f is None:
            raise Unk(f'no {name}')
        return f
    def singular():
        f = method('Query::is_singular')
        a = X.symbols(f)
        impl = X.summary_of(f, a)
        if 'Root' in names:
            o.decide('Query::is_singular', f, impl, raw('call', 'segsing', fld(a[0], 'Query', field_ix(X.crate, 'Query', 'Query', 'ast', 0))))
            b = X.args('segsing')
            s = b[0]
            left = fld(s, 'Segment::Child', field_ix(X.crate, 'Segment', 'Child', 'left', 0))
            o.decide('Segment::is_singular', 'segsing', X.summary('segsing', b),
                     ite(isin(s, ('Segment::Root',), U), TRUE, ite(isin(s, ('Segment::Child',), U), And(child_ok(s), raw('call', 'segsing', left)), FALSE)))
        else:
            o.decide('Query::is_singular', f, impl, Not(mk_exists(segs(a[0]), lambda e, p: Not(one(e)))))
    def empty():
        f = method('Query::is_empty')
        a = X.symbols(f)
        impl = X.summary_of(f, a)
        sp = is_empty(segs(a[0])) if 'Eoi' not in names else Not(mk_exists(segs(a[0]), lambda e, p: Not(isin(e, ('Segment::Eoi',), U))))
        o.decide('Query::is_empty', f, impl, sp)
    if 'singular' in parts:
        o.run('is_singular', singular)
    if 'Root' not in names and 'empty' in parts:
        o.run('is_empty', empty)

def singular(o):
    crate(o, ('singular',))

def check(rep, tier):
    rep.rule('is_singular == every segment is a child segment with one selector that is a name or an index')
    rep.rule('is_empty == there is no segment; the end marker counts for neither')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
