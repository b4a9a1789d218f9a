"""Record the parameters of the anchored functions (run once on the analysed version; sa/anchors.json is committed)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
import interp, roles, base
out = {}
for s in base.ALL_CRATES:
    try:
        A = roles.Anchors(interp.Interp(s), record=True)
    except Exception as e:
        print(s, e)
        continue
    out[s] = {r: {'params': roles.params(f), 'ret': roles.ts(f.crate, f.locals[0])} for r, f in A.fns.items()}
import pspec
for s in pspec.SHORTS:
    A = pspec.PAnchors(interp.Interp(s))
    out['parser:' + s] = {r: {'params': roles.params(f), 'ret': roles.ts(f.crate, f.locals[0])} for r, f in A.fns.items()}
json.dump(out, open(os.path.join(os.path.dirname(roles.__file__), 'anchors.json'), 'w'), indent=1, sort_keys=True)
