"""Loading and indexing the exported MIR."""
import json, os, re, sys
import base

class Fn:
    def __init__(self, crate, d):
        self.crate = crate
        self.d = d
        self.id, self.path, self.kind = d['id'], d['path'], d['kind']
        self.args, self.locals, self.blocks = d['args'], d['locals'], d['blocks']
        self.line, self.file = d.get('line'), d.get('file')
        self._cfg = None
    def __repr__(self):
        return f'<fn {self.path}>'
    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[3]] + [t[4]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]] if not isinstance(t[5], list) else []
    return []

class Cfg:
    """normal (non unwinding) control flow graph: dominators, natural loops, post dominators"""
    def __init__(self, fn):
        n = len(fn.blocks)
        self.succ = [succs(b['t']) for b in fn.blocks]
        # reachability
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.reach = seen
        self.pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.idx = idx
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}      # header -> set of blocks
        for b in seen:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        # post dominators (virtual exit = -1)
        exits = [b for b in seen if not self.succ[b]]
        self.pdom = self._pdom(exits)
    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]
    def _pdom(self, exits):
        # only 'return' exits count: panicking ends are ignored
        seen = self.seen_ret = None
        rsucc = {b: list(self.pred[b]) for b in self.reach}
        order, vis = [], set()
        rets = [b for b in exits]
        self.rets = rets
        st = []
        def dfs(start):
            st = [(start, iter(rsucc[start]))]
            vis.add(start)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in vis:
                        vis.add(s)
                        st.append((s, iter(rsucc[s])))
                        break
                else:
                    order.append(b)
                    st.pop()
        return rets

    def ipdom(self, fn):
        """immediate post dominator of each block, ignoring paths that end in a panic"""
        if hasattr(self, '_ip'):
            return self._ip
        rets = [b for b in self.reach if fn.blocks[b]['t'][0] == 'ret']
        # blocks that can reach a return
        can = set(rets)
        st = list(rets)
        while st:
            x = st.pop()
            for p in self.pred[x]:
                if p not in can:
                    can.add(p)
                    st.append(p)
        EX = -1
        nodes = [b for b in self.rpo if b in can]
        succ = {b: [s for s in self.succ[b] if s in can] for b in nodes}
        for r in rets:
            succ[r] = [EX]
        # iterative set based (functions are small)
        order = nodes[::-1]
        ip = {EX: EX}
        pos = {b: i for i, b in enumerate(order)}
        # compute reverse postorder on the reversed graph
        rp = {b: [] for b in nodes}
        rp[EX] = []
        for b in nodes:
            for s in succ[b]:
                rp[s].append(b)
        post, vis = [], {EX}
        st = [(EX, iter(rp[EX]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in vis:
                    vis.add(s)
                    st.append((s, iter(rp[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        ri = {b: i for i, b in enumerate(rpo)}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [s for s in succ[b] if s in ip]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while ri[x] > ri[y]:
                            x = ip[x]
                        while ri[y] > ri[x]:
                            y = ip[y]
                if ip.get(b) != x:
                    ip[b] = x
                    ch = True
        self._ip = ip
        return ip

class Crate:
    def __init__(self, short, path):
        d = json.load(open(path))
        self.short, self.name = short, d['crate']
        self.types = d['types']
        self.fns = {}
        self.promoted = {}
        self.all = []
        for f in d['fns']:
            fn = Fn(self, f)
            self.all.append(fn)
            if f.get('promoted') is not None:
                self.promoted[(fn.id, f['promoted'])] = fn
            else:
                self.fns[fn.id] = fn
        self.adts = {a['id']: a for a in d['adts']}
        self.impls = d['impls']
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)
    def ty(self, i):
        return self.types[i]
    def impl_items(self, trait, selfpath=None):
        """functions of the impls of a trait: [(self type, {name: fn})]"""
        out = []
        for im in self.impls:
            if im['trait'] and re.sub(r'<.*', '', im['trait']).endswith(trait):
                t = self.types[im['self']]
                out.append((t, {n: self.fns.get(i) for n, i in im['items']}))
        return out
    def show_ty(self, i, d=0):
        t = self.types[i]
        k = t['k']
        if d > 6:
            return '..'
        s = lambda j: self.show_ty(j, d + 1)
        if k == 'adt':
            a = [s(x) for x in t['args'] if isinstance(x, int)]
            return t['path'].split('::')[-1] + (f"<{', '.join(a)}>" if a else '')
        if k == 'ref':
            return '&' + ('mut ' if t['mut'] else '') + s(t['t'])
        if k == 'tuple':
            return '(' + ', '.join(map(s, t['ts'])) + ')'
        if k == 'slice':
            return f"[{s(t['t'])}]"
        if k in ('int', 'uint', 'float'):
            return t['n']
        if k == 'dyn':
            return 'dyn ' + str(t.get('trait'))
        if k in ('array', 'ptr'):
            return f"{k} {s(t['t'])}"
        return k

_loaded = {}
def load(short):
    if short not in _loaded:
        _loaded[short] = Crate(short, os.path.join(base.dump(), base.CRATES[short] + '.json'))
    return _loaded[short]

def show(fn):
    """debug listing"""
    names = {json.dumps(p): n for n, p in fn.d.get('names', [])}
    out = [f'fn {fn.path} args={fn.args} id={fn.id}']
    for i, t in enumerate(fn.locals):
        nm = [n for n, p in fn.d.get('names', []) if isinstance(p, list) and p[0] == i and not p[1]]
        out.append(f'  _{i}: {fn.crate.show_ty(t)} {nm or ""}')
    for i, b in enumerate(fn.blocks):
        if b['cleanup']:
            continue
        out.append(f' bb{i}:')
        for s in b['s']:
            out.append('    ' + json.dumps(s)[:300])
        out.append('    -> ' + json.dumps(b['t'])[:700])
    return '\n'.join(out)

if __name__ == '__main__':
    c = load(sys.argv[1])
    for f in c.all:
        if re.search(sys.argv[2], f.path):
            print(show(f))
