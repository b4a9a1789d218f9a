"""P22: what results borrow, what can be shared between threads: witness programs judged by the compiler."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile
import base, mir, sem
from checks.p21 import strip, walk

TECHNIQUE = 'type-level encodings: witness programs that the type and borrow checker must accept, each refused twin with the error code it must get; plus a scan of the MIR for leaked values'
NOTE = 'The signatures of the entry points as instantiated by the witnesses; the borrow checker makes each verdict hold for every document and query. No witness is run.'

USE = {'serde': 'use jsonpath_rfc9535_serde as c; use c::{env::Environment, ast::{Node, NodeList}, parser::JSONPathParser, errors::JSONPathError, Query};',
       'iter': 'use jsonpath_rfc9535_iter as c; use c::{env::Environment, node::{Node, NodeList}, parser::JSONPathParser, errors::JSONPathError, iter::QueryIter, Query};',
       'locations': 'use jsonpath_rfc9535_locations as c; use c::{env::Environment, node::{Node, NodeList}, parser::JSONPathParser, errors::JSONPathError, Query};',
       'singular': 'use jsonpath_rfc9535_singular as c; use c::{env::Environment, node::{Node, NodeList}, parser::JSONPathParser, errors::JSONPathError, Query};',
       'hand': 'use jsonpath_rfc9535 as c; use c::{parser::Parser, query::Query};',
       'pest': 'use jsonpath_rfc9535_pest as c; use c::{parser::JSONPathParser, ast::Query};',
       'recursive': 'use jsonpath_rfc9535_pest_recursive as c; use c::{parser::JSONPathParser, ast::Query};'}

def witnesses(short):
    """(name, what it shows, program, None | error codes, twin of)"""
    S = 'fn shared<T: Sync>() {} fn moved<T: Send>() {}'
    W = []
    parser = 'Parser' if short == 'hand' else 'JSONPathParser'
    W.append(('parser-sync', f'{parser} can be shared between threads', f'{S} pub fn w() {{ shared::<{parser}>(); moved::<{parser}>(); }}', None))
    W.append(('query-sync', 'Query can be shared between threads and moved to another', f'{S} pub fn w() {{ shared::<Query>(); moved::<Query>(); }}', None))
    W.append(('query-owned', 'a query outlives the text it was parsed from',
              'pub fn w() -> Query { let t = String::from("$.a"); let q = Query::standard(&t); match q { Ok(q) => q, Err(_) => panic!() } }', None))
    if short not in sem.EVALS:
        return W
    W.append(('environment-sync', 'Environment can be shared between threads', f'{S} pub fn w() {{ shared::<Environment>(); }}', None))
    it = short == 'iter'
    val = 'nodes.next().unwrap().value' if it else 'nodes[0].value'
    mut = 'mut ' if it else ''
    entries = [('find', 'c::find(&t, v).unwrap()', 'c::find("$.a", {d}).unwrap()')]
    entries.append(('Environment::find', 'e.find(&t, v).unwrap()', 'e.find("$.a", {d}).unwrap()'))
    if short == 'serde':
        entries.append(('find_loop', 'c::find_loop(&t, v).unwrap()', 'c::find_loop("$.a", {d}).unwrap()'))
        entries.append(('Environment::find_loop', 'e.find_loop(&t, v).unwrap()', 'e.find_loop("$.a", {d}).unwrap()'))
        for n in ('find', 'find_loop'):
            entries.append((f'Query::{n}', f'{{ let e2 = Environment::new(); let q = Query::standard(&t).unwrap(); let r = q.{n}(v, &e2); r.unwrap() }}',
                            f'Query::standard("$.a").unwrap().{n}({{d}}, &Environment::new()).unwrap()'))
    elif not it:
        entries.append(('Query::find', 'Query::standard(&t).unwrap().find(v, e)', 'Query::standard("$.a").unwrap().find({d}, e)'))
    for name, call, callneg in entries:
        env = ", e: &'static Environment" if ' e.' in ' ' + call or call.endswith(', e)') else ''
        W.append((f'{name}: borrows', f'{name}: the value of a node lives as long as the document and outlives expression text, query and node list',
                  f"pub fn w<'v>(v: &'v Value{env}) -> &'v Value {{ let t = String::from(\"$.a\"); let {mut}nodes = {call}; let r: &'v Value = {val}; drop(t); r }}", None))
        if it:
            W.append((f'{name}: list', f'{name}: the iterator depends on the document only',
                      f"pub fn w<'v>(v: &'v Value{env}) -> QueryIter<'v> {{ let t = String::from(\"$.a\"); {call} }}", None))
        else:
            W.append((f'{name}: list', f'{name}: the node list depends on the document only',
                      f"pub fn w<'v>(v: &'v Value{env}) -> NodeList<'v> {{ let t = String::from(\"$.a\"); {call} }}", None))
        env2 = "e: &'static Environment" if env else ''
        W.append((f'{name}: dangling', f'{name}: nodes cannot outlive the document',
                  f"pub fn w({env2}) {{ let nodes; {{ let d = Value::Null; nodes = {callneg.format(d='&d')}; }} let _ = nodes; drop(nodes); }}", {'E0597'}))
        W.append((f'{name}: modified', f'{name}: the document cannot change while nodes refer to it',
                  f"pub fn w(d: &mut Value{env}) {{ let nodes = {callneg.format(d='d')}; *d = Value::Null; drop(nodes); }}", {'E0506', 'E0502', 'E0505'}))
        W.append((f'{name}: released', f'{name}: (twin) with the nodes gone the document can change and go',
                  f"pub fn w({env2}) {{ let mut d = Value::Null; {{ let nodes = {callneg.format(d='&d')}; drop(nodes); }} d = Value::Bool(true); drop(d); }}", None))
    if not it:
        W.append(('Node: copyless', 'a node holds a reference to the document', "pub fn w<'v>(n: &Node<'v>) -> &'v Value { n.value }", None))
    else:
        W.append(('Node: copyless', 'a node holds a reference to the document', "pub fn w<'v>(n: &Node<'v>) -> &'v Value { n.value }", None))
    return W

BORROW = {'E0277', 'E0597', 'E0515', 'E0716', 'E0505', 'E0521', 'E0621', 'E0310', 'E0309', 'E0502', 'E0506', 'E0373', 'E0623', 'E0312', 'E0495', 'E0759'}    # types or lifetimes do not allow it; other errors mean that the witness does not fit

def artifacts():
    """check-build of the crates; names of their metadata files"""
    tgt = os.path.join(base.WORK, 'wtarget')
    e = base.env()
    e['CARGO_TARGET_DIR'] = tgt
    e['CARGO_INCREMENTAL'] = '0'
    r = subprocess.run(['cargo', 'check', '--workspace', '--lib', '--offline', '--locked', '--message-format=json'], cwd=base.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise base.Infra('/repo does not compile:\n' + r.stderr[-2000:])
    out, libs = {}, set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            for f in m['filenames']:
                if f.endswith(('.rmeta', '.so', '.rlib')):
                    libs.add(os.path.dirname(f))
                if f.endswith('.rmeta'):
                    out[m['target']['name'].replace('-', '_')] = f
    return out, sorted(libs), e

def compile_one(w, short, arts, deps, e, d):
    name, what, prog, codes = w[:4]
    src = os.path.join(d, re.sub(r'\W+', '_', f'{short}_{name}') + '.rs')
    with open(src, 'w') as f:
        f.write('#![allow(unused)]\n' + ('use serde_json::Value;\n' if short in sem.EVALS else '') + USE[short] + '\n' + prog + '\n')
    lib = base.CRATES[short]
    cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--error-format', 'json', *[y for x in deps for y in ('-L', f'dependency={x}')], '--extern', f'{lib}={arts[lib]}', '-o', src[:-3] + '.rmeta', src]
    if 'serde_json' in arts:
        cmd[-1:-1] = ['--extern', f'serde_json={arts["serde_json"]}']
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting'):
            errs.append(((m.get('code') or {}).get('code') or '', m['message']))
    return w, r.returncode, errs

def check(rep, tier):
    rep.rule('a program that lets results outlive text and query, or shares parsers, queries and environments between threads, must compile')
    rep.rule('a program that lets results outlive their document, or changes the document under them, must be refused with the borrow error it provokes; its twin without that compiles')
    rep.rule('no function of the evaluating crates leaks memory to make a reference')
    with base.Lock('wtarget'):
        arts, deps, e = artifacts()
    os.makedirs(base.WORK, exist_ok=True)
    d = tempfile.mkdtemp(dir=base.WORK, prefix='witness-')
    try:
        jobs = [(s, w) for s in base.ALL_CRATES for w in witnesses(s)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: (x[0],) + compile_one(x[1], x[0], arts, deps, e, d), jobs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for short, w, rc, errs in res:
        name, what, prog, codes = w[:4]
        key = f'{short}: {name}'
        rep.count('witness programs compiled')
        if any(c not in BORROW and 'lifetime' not in m for c, m in errs):
            rep.undec(key, f'the witness no longer fits the interface: {errs[0]}')
        elif codes is None:
            if rc == 0:
                rep.ok(key, what + ': accepted')
            elif errs:
                rep.violate(key.replace(' ', '_'), f'{short}: not so: {what}; the compiler says {errs[0][0]} {errs[0][1]}', witness=prog)
            else:
                rep.undec(key, 'compiler failed')
        else:
            if rc == 0:
                rep.violate(key.replace(' ', '_'), f'{short}: not so: {what}; the compiler accepts a program that breaks this', witness=prog)
            elif {c for c, m in errs} <= codes:
                rep.ok(key, f'{what}: refused with {errs[0][0]}')
            else:
                rep.undec(key, f'refused for another reason: {errs[0]}')
    dd = base.dump()
    for short in base.ALL_CRATES:
        C = mir.Crate(short, os.path.join(dd, base.CRATES[short] + '.json'))
        bad = []
        for f in C.all:
            for b in f.blocks:
                for x in walk([b['s'], b['t']]):
                    if re.search(r'::(leak|into_raw|from_raw|forget)$', strip(x.get('path') or '')):
                        bad.append((f.path, strip(x['path'])))
        rep.count('functions searched for leaks', len(C.all))
        if bad:
            rep.violate(f'{short}:_leak', f'{bad[0][0]} calls {bad[0][1]}: a reference made this way is to no part of the document', function=bad[0][0])
        else:
            rep.ok(f'{short}: leaks', 'none')
