"""The SSA program dumped from /repo, with its control-flow analyses."""
import json

class Func:
    def __init__(self, j, prog):
        self.j = j
        self.prog = prog
        self.name = j['name']
        self.params = [p['n'] for p in j['params']]
        self.ptypes = [p['t'] for p in j['params']]
        self.free = [p['n'] for p in j['free']]
        self.blocks = j['blocks']
        self.pos = j['pos']
        self.pkg = j.get('pkg', '')
        self._an = False
    def results(self):
        return self.prog.types[self.j['sig']]['results']
    def analyse(self):
        if self._an: return
        self._an = True
        B = self.blocks
        n = len(B)
        succ = [b['s'] for b in B]
        pred = [b['p'] for b in B]
        # reachable blocks from entry
        reach, stack = set(), [0]
        while stack:
            b = stack.pop()
            if b in reach: continue
            reach.add(b)
            stack += succ[b]
        # dominators
        dom = {b: set(reach) for b in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in reach:
                if b == 0: continue
                ps = [p for p in pred[b] if p in reach]
                s = set.intersection(*[dom[p] for p in ps]) | {b}
                if s != dom[b]: dom[b] = s; ch = True
        loops = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st += [p for p in pred[x] if p in reach]
        self.loops = loops
        # nesting: loops containing a block, outermost first
        self.nest = {}
        for b in reach:
            ls = [h for h in loops if b in loops[h]]
            ls.sort(key=lambda h: -len(loops[h]))
            self.nest[b] = ls
        # topological positions with loops collapsed, per level
        self.posn = {}     # (loop header or None, item) -> index; item = ('b', block) or ('l', header)
        def item(b, level):
            ls = self.nest[b]
            d = 0 if level is None else ls.index(level) + 1
            if len(ls) > d: return ('l', ls[d])
            return ('b', b)
        for level in [None] + list(loops):
            mem = reach if level is None else loops[level]
            items, edges = [], {}
            for b in sorted(mem):
                it = item(b, level)
                if it not in edges: edges[it] = set(); items.append(it)
            for b in mem:
                for s in succ[b]:
                    if s in mem and not (level is not None and s == level):
                        x, y = item(b, level), item(s, level)
                        if x != y: edges[x].add(y)
            indeg = {i: 0 for i in items}
            for x in edges:
                for y in edges[x]: indeg[y] += 1
            order = []
            ready = [i for i in items if indeg[i] == 0]
            while ready:
                x = ready.pop(0)
                order.append(x)
                for y in sorted(edges[x], key=str):
                    indeg[y] -= 1
                    if indeg[y] == 0: ready.append(y)
            for i, x in enumerate(order): self.posn[(level, x)] = i
        # liveness
        use, dfn = {}, {}
        phiuse = {}
        for b in reach:
            u, d = set(), set()
            for ins in B[b]['i']:
                if ins['op'] == 'phi':
                    d.add(ins['r'])
                    for p, e in zip(pred[b], ins['edges']):
                        if isinstance(e, str): phiuse.setdefault(p, set()).add(e)
                    continue
                for o in ins_ops(ins):
                    if isinstance(o, str) and o not in d: u.add(o)
                if 'r' in ins: d.add(ins['r'])
            use[b], dfn[b] = u, d
        live_in = {b: set() for b in reach}
        live_out = {b: set() for b in reach}
        ch = True
        while ch:
            ch = False
            for b in reach:
                o = set(phiuse.get(b, ()))
                for s in succ[b]:
                    phis = {i['r'] for i in B[s]['i'] if i['op'] == 'phi'}
                    o |= live_in[s] - phis
                i = use[b] | (o - dfn[b])
                if o != live_out[b] or i != live_in[b]:
                    live_out[b], live_in[b] = o, i; ch = True
        for b in reach:
            live_in[b] = live_in[b] | {i['r'] for i in B[b]['i'] if i['op'] == 'phi'}
        self.live_in = live_in
        self.deferred = any(i['op'] == 'defer' for b in B for i in b['i'])
    def key(self, b, iters):
        self.analyse()
        k = []
        lvl = None
        for h in self.nest[b]:
            k += [self.posn[(lvl, ('l', h))], iters.get(h, 0)]
            lvl = h
        k.append(self.posn[(lvl, ('b', b))])
        return tuple(k)

def ins_ops(ins):
    out = []
    for f in ('x', 'y', 'z', 'lo', 'hi', 'max', 'fn'):
        if f in ins: out.append(ins[f])
    for f in ('xs', 'bind', 'edges'):
        if f in ins: out += ins[f]
    c = ins.get('call')
    if c:
        out += c['args']
        if 'fn' in c: out.append(c['fn'])
        if 'recv' in c: out.append(c['recv'])
    return out

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.module = d['module']
        self.pkgs = d['pkgs']
        self.funcs = {f['name']: Func(f, self) for f in d['funcs']}
        self.methods = {int(k): v for k, v in d['methods'].items()}
        self.globals = d['globals']
        self.inits = d['inits']
        self.tid = {t['s']: i for i, t in enumerate(self.types)}
        for t in self.types:
            t['U'] = t
        for t in self.types:
            u = t
            while u['k'] == 'named': u = self.types[u['u']]
            t['U'] = u
    def mutable(self):
        "package variables of the module that code other than the initialisers may change: what they hold depends on the calls made before"
        if hasattr(self, '_mut'): return self._mut
        self._mut = set()
        for f in self.funcs.values():
            if f.name.rsplit('.', 1)[-1].split('#')[0] in ('init',) or f.name.rsplit('.', 1)[-1].startswith('init$'): continue
            where = {}          # register -> package variable whose address, or what is reached from it, it holds
            def of(o): return o['name'] if isinstance(o, dict) and o.get('k') == 'global' and self.module in o['name'] else None
            def root(o): return of(o) or (where.get(o) if isinstance(o, str) else None)
            for _ in range(2):
                for b in f.blocks:
                    for i in b['i']:
                        op = i['op']
                        if op in ('un', 'fieldaddr', 'indexaddr', 'slice', 'extract', 'phi', 'chtype', 'field', 'index', 'lookup'):
                            xs = i['edges'] if op == 'phi' else [i['x']]
                            if op == 'un' and i['o'] != '*': continue
                            for x in xs:
                                if root(x): where[i['r']] = root(x)
                        if op in ('store', 'mapupdate') and root(i['x']): self._mut.add(root(i['x']))
                        if op in ('store', 'mapupdate', 'un', 'fieldaddr', 'indexaddr', 'slice'): vals = [i.get('y'), i.get('z')] if op in ('store', 'mapupdate') else []
                        elif op in ('call', 'defer', 'go'): vals = list(i['call'].get('args', [])) + [i['call'].get('recv')]
                        else: vals = [v for k, v in i.items() if isinstance(v, (dict, list))]
                        for v in vals:
                            for w in v if isinstance(v, list) else [v]:
                                if of(w): self._mut.add(of(w))          # its address goes elsewhere
        return self._mut
    def find(self, short):
        "function by a short name such as bulletproofs.Setup or (*bulletproofs.BulletProof).Verify"
        for n in (short, self.expand(short)):
            if n in self.funcs: return self.funcs[n]
        return None
    def expand(self, short):
        m = self.module
        for p in sorted(self.pkgs, key=len, reverse=True):
            s = p.rsplit('/', 1)[-1]
            if p == m: s = 'main'
            for pre in ('', '(', '(*'):
                if short.startswith(pre + s + '.'):
                    return pre + p + short[len(pre + s):]
        return short
    def type_id(self, short):
        n = self.expand(short)
        if short.startswith('*'): n = '*' + self.expand(short[1:])
        return self.tid.get(n)
