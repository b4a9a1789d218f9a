"""P21: results depend on the arguments only."""
import json, os, re
import base, mir, sem

TECHNIQUE = 'effect analysis over the type-checked MIR: every static, every field with interior mutability, every call that leaves the crate and every unsafe block of the seven crates; cache entries by value-flow terms'
NOTE = ('All functions of the seven crates. The effects of standard library and dependency functions are taken from a table; the exclusive borrows that make queries, '
        'environments and documents immutable are enforced by the compiler and not checked again. Trusted: iregexp, regex, pest, lru, serde_json are deterministic.')

# a call whose path starts with one of these reads or changes something outside its arguments
IMPURE = [(r'std::(fs|net|os|path::Path::(exists|is_file|is_dir|metadata|canonicalize|read))\b', 'file or network access'),
          (r'std::env::', 'reads the process environment'),
          (r'std::process::', 'process control'),
          (r'std::time::|chrono::|time::', 'reads the clock'),
          (r'std::thread::', 'depends on threads'),
          (r'std::io::', 'input or output'),
          (r'(rand|fastrand|getrandom|rand_core)\b', 'random numbers'),
          (r'std::backtrace::|std::panic::(set_hook|take_hook|catch_unwind|Location)', 'depends on the call stack'),
          (r'std::hash::random::|std::collections::hash::map::RandomState|std::hash::RandomState', 'randomly seeded hash'),
          (r'core::fmt::rt::Argument::<.*>::new_pointer|core::fmt::Pointer|core::ptr::.*::addr|core::ptr::.*::expose_provenance', 'depends on addresses'),
          (r'(std::sync|lock_api|parking_lot|spin|once_cell|tokio|crossbeam\w*)::.*::(try_lock\w*|try_read\w*|try_write\w*|is_locked\w*|is_poisoned|try_upgradable_read\w*|is_completed|wait\w*|recv\w*|try_recv)$', 'depends on what other threads do'),
          (r'std::sync::(mpsc|mpmc|poison::barrier|Barrier|Condvar)\b', 'depends on other threads'),
          (r'(alloc|std)::(rc|sync)::(Rc|Arc|Weak)(::<.*>)?::(strong_count|weak_count)$|core::cell::RefCell(::<.*>)?::try_borrow\w*$', 'depends on who else holds a value'),
          (r'pest::(parser_state::)?set_call_limit', 'changes the state of the process'),
          (r'std::alloc::|alloc::alloc::', 'allocator')]
HASHES = r'(std::collections::(hash::)?(map|set|hash_map|hash_set)|hashbrown)'
ORDERED = r'::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$'
CELLS = {'Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'ReentrantLock', 'Condvar', 'Barrier'}
ONCE = {'OnceCell', 'LazyCell', 'OnceLock', 'LazyLock', 'Lazy'}     # filled once

def strip(p):
    """path without generic arguments"""
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<' and i >= 2 and p[i-2:i] == '::':
            d0 = d
            d += 1
            out = out[:-2]
        elif c == '<' and d:
            d += 1
        elif c == '>' and d and p[i-1] != '-':
            d -= 1
        elif not d:
            out.append(c)
        i += 1
    return ''.join(out)

def walk(x):
    if isinstance(x, dict):
        if x.get('c') == 'fn':
            yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)

def crate(o):
    d = base.dump()
    path = os.path.join(d, base.CRATES[o.short] + '.json')
    raw = json.load(open(path))
    C = mir.Crate(o.short, path)
    T = C.types
    o.run('unsafe code', lambda: unsafe_code(o, C, raw))
    o.run('calls', lambda: calls(o, C, T))
    o.run('state', lambda: state(o, C, T, raw))
    if o.short in sem.EVALS:
        o.run('cache', lambda: caches(o))

def unsafe_code(o, C, raw):
    bad = [f'{p} (line {l})' for p, l in raw['unsafes']]
    bad += [f'{f.path} is an unsafe fn' for f in C.fns.values() if f.d.get('unsafe') and not f.d.get('expn')]
    bad += [f"unsafe impl {im['trait']} for {C.show_ty(im['self'])}" for im in C.impls if im.get('unsafe') and not (im['trait'] or '').endswith('TrivialClone')]
    bad += [f"static mut {s['path']}" for s in raw['statics'] if s['mut']]
    o.count('functions searched for unsafe code', len(C.fns))
    if bad:
        o.violate('unsafe code', 'unsafe code: ' + '; '.join(bad), construct=bad)
    else:
        o.ok('no unsafe code', f'{len(C.fns)} functions, {len(C.impls)} impls')

def calls(o, C, T):
    n = bad = 0
    seen = set()
    for f in C.all:
        # the text of a panic message and derived Debug output are not results
        for b in f.blocks:
            for x in walk([b['s'], b['t']]):
                n += 1
                cands = [x.get('path') or '', x.get('id') or '']
                r = x.get('res') or {}
                cands += [r.get('path') or '', r.get('id') or '']
                for p in cands:
                    q = strip(p)
                    for rx, why in IMPURE:
                        if re.match(rx, p) or re.match(rx, q) or re.match('<' + rx, p):
                            if (f.path, q) in seen:
                                break
                            seen.add((f.path, q))
                            o.violate(f'effect {f.path} {q}', f'{f.path} calls {q}: {why}', function=f.path, callee=p)
                            bad += 1
                            break
                # order of a randomly seeded collection
                name = strip(x.get('path') or '')
                hashy = any(re.search(HASHES, p) and re.search(ORDERED, strip(p)) for p in cands)
                if not hashy and re.search(r'IntoIterator::into_iter$|FromIterator|Extend::extend', name) and x.get('args'):
                    hashy = name.endswith('into_iter') and is_hash(T, x['args'][0])
                if hashy and (f.path, 'hash') not in seen:
                    seen.add((f.path, 'hash'))
                    o.violate(f'order {f.path}', f'{f.path} iterates over a hash map or set, whose order differs from run to run ({name})', function=f.path, callee=x.get('path'))
                    bad += 1
            for st in b['s']:
                if 'PointerExpose' in json.dumps(st):
                    o.violate(f'address {f.path}', f'{f.path} turns an address into a number', function=f.path)
                    bad += 1
    o.count('calls and function references', n)
    o.count('functions', len(C.all))
    if not bad:
        o.ok('no effects', f'{n} calls and function references in {len(C.all)} functions: no clock, environment, file, thread, random source, address or hash order')

def is_hash(T, i, depth=0):
    if not isinstance(i, int):
        return False
    t = T[i]
    if t['k'] == 'ref':
        return is_hash(T, t['t'], depth + 1)
    return t['k'] == 'adt' and t['path'].split('::')[-1] in ('HashMap', 'HashSet') and re.match(r'std|hashbrown', t['path']) is not None

def state(o, C, T, raw):
    """statics, thread locals and interior mutability reachable from what is shared"""
    roots = []
    for s in raw['statics']:
        roots.append((f"static {s['path']}", s['ty']))
        if s['thread_local']:
            o.violate(f"state {s['path']}", f"{s['path']} is thread local state", construct=s['path'])
    ext = [im for im in C.impls if im['trait'] and strip(im['trait']).split('::')[-1] == 'FunctionExtension']
    for im in ext:
        roots.append((f"function {C.show_ty(im['self'])}", im['self']))
    for i, t in enumerate(T):
        if t['k'] == 'adt' and t['path'].split('::')[-1] in ('Query', 'Environment', 'JSONPathParser', 'Parser', 'Node', 'NodeList', 'FilterExpression', 'Selector', 'Segment', 'JSONPath') and (t['id'] or '').startswith(base.CRATES[o.short]):
            roots.append((t['path'], i))
    done, fields, cells, bad = set(), 0, 0, 0
    for what, ty in roots:
        st = [(ty, what)]
        while st:
            i, via = st.pop()
            if not isinstance(i, int) or i in done:
                continue
            done.add(i)
            t = T[i]
            k = t['k']
            if k in ('ref', 'ptr', 'slice', 'array'):
                st.append((t.get('t'), via))
                continue
            if k == 'tuple':
                st += [(x, via) for x in t['ts']]
                continue
            if k != 'adt':
                continue
            name = t['path'].split('::')[-1]
            if name in CELLS or name.startswith('Atomic') or name == 'Lazy':
                cells += 1
                if not (name in ONCE and (name in ('Lazy', 'LazyLock') or once_ok(o, C, T, t))) and not regex_cache(C, T, t):
                    bad += 1
                    o.violate(f'state {via}', f'{via} holds mutable state shared between calls: {C.show_ty(i)}', construct=via)
                    continue
            st += [(x, via) for x in t['args']]
            a = C.adts.get(t['id'])
            if a and a['local']:
                for v in a['variants']:
                    for fd in v['fields']:
                        fields += 1
                        st.append((fd['ty'], f"{t['path']}.{fd['name']}"))
    for s in raw['statics']:
        n = C.show_ty(s['ty'])
        o.count('statics')
    # thread_local! makes a const with a LocalKey
    for i, t in enumerate(T):
        if t['k'] == 'adt' and t['path'].endswith('thread::local::LocalKey'):
            bad += 1
            o.violate('state thread_local', f'thread local state: {C.show_ty(i)}', construct=C.show_ty(i))
    o.count('fields of shared types', fields)
    o.count('cells in shared types', cells)
    if not bad:
        o.ok('no shared mutable state', f"{len(raw['statics'])} statics, {len(ext)} function extensions, {fields} fields, {cells} cells: filled once or a cache of compiled patterns")

def once_ok(o, C, T, t):
    """a cell that is filled once: never with something that depends on arguments"""
    from term import Unk
    for f in C.all:
        for b in f.blocks:
            for x in walk([b['t']]):
                q = strip(x.get('path') or '')
                if re.search(r'(OnceLock|OnceCell|LazyCell)::(set|get_mut|take|try_insert)$', q):
                    raise Unk(f'{f.path} fills a cell by {q}')
                if re.search(r'(OnceLock|OnceCell)::get_or_(try_)?init$', q):
                    for a in x.get('args') or []:
                        if isinstance(a, int) and T[a]['k'] == 'closure' and T[a].get('up'):
                            o.violate(f'state {f.path}', f'{f.path} fills a shared cell with a value that depends on the arguments of the first call', function=f.path)
    return True

def regex_cache(C, T, t):
    names = set()
    def go(i, d=0):
        if not isinstance(i, int) or d > 8:
            return
        u = T[i]
        if u['k'] == 'adt':
            if not u['path'].endswith('Hasher'):
                names.add(u['path'].split('::')[-1])
            for x in u['args']:
                go(x, d + 1)
        elif u['k'] in ('ref', 'slice', 'array'):
            go(u.get('t'), d + 1)
        elif u['k'] == 'tuple':
            for x in u['ts']:
                go(x, d + 1)
        else:
            names.add(u['k'])
    for x in t['args']:
        go(x)
    return 'Regex' in names and names <= {'Regex', 'LruCache', 'HashMap', 'BTreeMap', 'String', 'str', 'Option', 'Arc', 'Rc', 'Result', 'Error', 'RandomState', 'BuildHasherDefault', 'DefaultHashBuilder', 'Box', 'Global'}

def caches(o):
    """entries of the pattern caches are functions of their keys (the analysis of P11)"""
    from checks import p11
    sub = sem.Obl(o.short, [], o.tier)
    sub._x = o._x
    p11.crate(sub)
    for kind, label, msg, kw in sub.out:
        if kind == 'count':
            if 'cache' in label:
                o.count(label, msg)
        elif 'cache' in label or kind == 'violate':
            if 'cache' in label or 'cache' in str(msg):
                o.out.append((kind, label, msg, kw))

def check(rep, tier):
    rep.rule('no function of the crates reaches a clock, environment, file, thread, random, address or hash order source')
    rep.rule('shared types have no interior mutability and statics no mutable state, except cells filled once and caches of compiled patterns whose entries depend on their keys only')
    rep.rule('no unsafe block, unsafe fn, unsafe impl or static mut')
    sem.run(rep, __name__, base.ALL_CRATES, tier)
