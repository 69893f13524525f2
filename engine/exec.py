"""Symbolic execution of the SSA of /repo, function by function.

A call is answered by a contract if the callee has one in force, by a model of
the library, or by executing the callee's own SSA body.  Paths are merged where
they join; loops whose trip count is a concrete number are executed to their
end, loops with a symbolic trip count are replaced by an inductively checked
closed form (loops.py).
"""
import heapq, itertools
import terms as tm
from terms import *
from values import *
import smt
from prog import Prog

INT = {'int': (64, True), 'int64': (64, True), 'int32': (32, True), 'int16': (16, True), 'int8': (8, True),
       'uint': (64, False), 'uint64': (64, False), 'uint32': (32, False), 'uint16': (16, False), 'uint8': (8, False),
       'byte': (8, False), 'uintptr': (64, False), 'rune': (32, True), 'untyped int': (64, True), 'untyped rune': (32, True)}

class SymLoop(Exception):
    def __init__(self, header): self.header = header

class State:
    __slots__ = ('heap', 'pc')
    def __init__(self, heap, pc): self.heap, self.pc = heap, pc
    def fork(self, f=TRUE):
        return State(dict(self.heap), self.pc if f is TRUE else self.pc + flat(f))

def flat(f):
    if f is TRUE: return ()
    return f.a if f.op == 'and' else (f,)

_oid = itertools.count(1)

class Ex:
    def __init__(self, prog):
        self.prog = prog
        self.types = prog.types
        self.panics = []          # (pc, message, position)
        self.frame = []           # writes to objects the caller owns
        self.meta = {}            # oid -> (owner, name)
        self.contracts = {}
        self.loophook = None       # function name -> spec(ex, st, args) -> [(st, result)]
        self.used = set()         # contracts applied
        self.inlined = set()
        self.assumed = set()      # trusted library contracts used
        self.globs = {}           # global name -> oid
        self.pos = ''
        self.stack = []
        self.depth = 0
        self.loopstack = []
        self.allow_write = set()
        self.grown = {}           # array made by append -> its mark (appended to already)
        self.hashes = []          # transcript of hash inputs
        self.nloops = 0
        self.base = State({}, ())
        self.quiet_panics = 0
        import lib
        self.lib = lib.TABLE
        self.libmod = lib

    # ---- heap -----------------------------------------------------------
    def new(self, st, content, owner='fresh', name=''):
        o = next(_oid)
        st.heap[o] = content
        if owner != 'fresh': self.meta[o] = (owner, name)
        return o
    def newp(self, st, content, owner='fresh', name=''):
        return Ptr(self.new(st, content, owner, name))
    def owner(self, oid):
        m = self.meta.get(oid)
        return m[0] if m else 'fresh'
    def note_write(self, st, oid):
        m = self.meta.get(oid)
        if m and oid not in self.allow_write:
            self.frame.append((st.pc, m[1], self.pos))
    def load(self, st, p):
        if isinstance(p, Opt):
            self.require(st, Not(p.isnil), 'nil pointer dereference')
            return self.load(st, p.val)
        if p is NIL: self.panic(st, 'nil pointer dereference')
        if isinstance(p, BigTm): return p.val
        if not isinstance(p, Ptr): raise Unsupported(f'load through {p!r}')
        v = st.heap[p.oid]
        for k in p.path: v = self.sub_get(st, v, k)
        if isinstance(v, Poison): raise Unsupported(getattr(v, 'why', None) or 'read of what an abandoned loop wrote')
        return v
    def sub_get(self, st, v, k):
        if isinstance(k, int):
            if isinstance(v, (St, Ar)): return v[k]
            k = C(k)
        if isinstance(v, (Ar,)):
            if is_c(k): return v[k.a[0]]
            r = None
            for i in range(len(v) - 1, -1, -1):
                r = v[i] if r is None else self.ite_val(Eq(k, C(i)), v[i], r)
                if r is None: raise Unsupported('symbolic index')
            return r
        if isinstance(v, Fam):
            return subst_val(v.tmpl, {v.bv.id: k})
        if isinstance(v, ArrW):
            for i, x in reversed(v.ws):
                e = Eq(i, k)
                if e is TRUE: return x
                if not smt.implied(st.pc, Not(e)): raise Unsupported('read of an array being written')
            return self.sub_get(st, v.base, k)
        if isinstance(v, Bytes):
            return self.libmod.byte_at(self, st, v, k)
        raise Unsupported(f'field of {type(v).__name__}')
    def ite_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if isinstance(a, F) and isinstance(b, F): return IteF(c, a, b)
        if isinstance(a, BigTm) and isinstance(b, BigTm): return BigTm(ite(c, a.val, b.val), a.own)
        if isinstance(a, ElTm) and isinstance(b, ElTm) and a.grp is b.grp: return ElTm(a.grp, ite(c, a.val, b.val), a.own)
        if isinstance(a, (Ptr, Iface)) and same_val(a, b): return a
        return None
    def store(self, st, p, v):
        if isinstance(p, Opt):
            self.require(st, Not(p.isnil), 'nil pointer dereference')
            p = p.val
        if p is NIL: self.panic(st, 'nil pointer dereference')
        if isinstance(p, (BigTm, ElTm)): return self.tm_write(st, p)
        if not isinstance(p, Ptr): raise Unsupported(f'store through {p!r}')
        self.note_write(st, p.oid)
        st.heap[p.oid] = self.sub_set(st, st.heap[p.oid], p.path, v)
    def tm_write(self, st, p):
        if p.own == 'in':
            self.frame.append((st.pc, 'element of an input vector', self.pos))
        raise Unsupported('write through a vector element')
    def sub_set(self, st, c, path, v):
        if not path: return v
        k, rest = path[0], path[1:]
        if isinstance(k, T) and is_c(k): k = k.a[0]
        if isinstance(k, int) and isinstance(c, (St, Ar)):
            l = list(c)
            l[k] = self.sub_set(st, c[k], rest, v)
            return type(c)(l)
        if isinstance(c, Ar) and not rest:
            l = []
            for i, x in enumerate(c):
                y = self.ite_val(Eq(k, C(i)), v, x)
                if y is None: raise Unsupported('symbolic index store')
                l.append(y)
            return Ar(l)
        if isinstance(k, int): k = C(k)
        if isinstance(c, Fam) and not rest: return ArrW(c, [(k, v)])
        if isinstance(c, ArrW) and not rest:
            ws = [w for w in c.ws if Eq(w[0], k) is not TRUE]
            return ArrW(c.base, ws + [(k, v)])
        if isinstance(c, Bytes) and not rest:
            return self.libmod.byte_set(self, st, c, k, v)
        raise Unsupported(f'store into {type(c).__name__}')

    # ---- obligations ------------------------------------------------------
    def panic(self, st, msg):
        if smt.feasible(st.pc) and not self.quiet_panics:
            self.panics.append((st.pc, msg, self.pos))
        raise GoPanic(msg)
    def require(self, st, cond, msg):
        if cond is TRUE or smt.implied(st.pc, cond): return
        if cond is FALSE: self.panic(st, msg)
        if not self.quiet_panics: self.panics.append((st.pc + (Not(cond),), msg, self.pos))
        st.pc = st.pc + flat(cond)
        if not smt.feasible(st.pc): raise GoPanic(msg)
    def assume(self, st, cond):
        if cond is TRUE: return
        st.pc = st.pc + flat(cond)
    def decide(self, st, f):
        "True, False or None"
        if f is TRUE: return True
        if f is FALSE: return False
        if smt.implied(st.pc, f): return True
        if smt.implied(st.pc, Not(f)): return False
        return None

    # ---- types --------------------------------------------------------------
    def tname(self, t): return self.types[t]['s']
    def U(self, t): return self.types[t]['U']
    def int_type(self, t):
        u = self.U(t)
        return INT.get(u.get('name')) if u['k'] == 'basic' else None
    def zero(self, t):
        ty = self.types[t]
        s = ty['s']
        if s == 'math/big.Int': return C(0)
        if s in ('bytes.Buffer', 'strings.Builder'): return Bytes(())
        if s == 'error': return ErrV(TRUE)
        if s.startswith('time.') and s != 'time.Duration': return Opq('time')
        u = ty['U']
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in INT: return C(0)
            if n in ('bool', 'untyped bool'): return FALSE
            if n in ('string', 'untyped string'): return lit('')
            if n.startswith('float') or n == 'untyped float': return Flt('c', 0.0)
            return NIL
        if k == 'struct': return St(self.zero(f['t']) for f in u['fields'])
        if k == 'array': return Ar([self.zero(u['e'])] * u['n'])
        if k == 'slice': return NILSLICE
        return NIL

    def const(self, o):
        t = o['t']
        if o.get('nil'): return self.zero(t)
        if 'i' in o:
            u = self.U(t)
            if u['k'] == 'basic' and (u['name'].startswith('float') or u['name'] == 'untyped float'): return Flt('c', float(o['i']))
            return C(int(o['i']))
        if 'str' in o: return lit(o['str'])
        if 'b' in o: return TRUE if o['b'] else FALSE
        if 'f' in o: return Flt('c', float(o['f']))
        raise Unsupported(f'constant {o}')

    # ---- calls ------------------------------------------------------------
    def call_fn(self, st, name, args, binds=()):
        "outcomes [(state, result)] of calling the function"
        sp = self.contracts.get(name)
        if sp is not None:
            r = sp(self, st, args)
            if r is not None:
                self.used.add(name)
                return r
        m = self.lib.get(name)
        if m is not None:
            if not self.prog_is_repo(name): self.assumed.add(name)
            return self.outs(st, m(self, st, *args))
        f = self.prog.funcs.get(name)
        if f is not None and f.blocks:
            self.inlined.add(name)
            return self.run(f, st, list(args), binds)
        return self.outs(st, self.libmod.unknown(self, st, name, args))
    def prog_is_repo(self, name):
        return self.prog.module in name
    def outs(self, st, r):
        if isinstance(r, list): return r
        return [(st, r)]
    def invoke(self, st, recv, meth, args, iface):
        if isinstance(recv, Opt):
            self.require(st, Not(recv.isnil), 'nil interface')
            recv = recv.val
        if recv is NIL: self.panic(st, f'method {meth} on nil interface')
        if isinstance(recv, ErrV):
            self.require(st, Not(recv.isnil), 'nil error')
            return [(st, Str((('opq', 'errtext'),)))]
        if isinstance(recv, ElTm): return self.outs(st, self.libmod.abs_elem(self, st, meth, recv, args))
        if isinstance(recv, Opq): return self.outs(st, self.libmod.opq_invoke(self, st, recv, meth, args, iface))
        if not isinstance(recv, Iface): raise Unsupported(f'invoke {meth} on {recv!r}')
        if recv.typ == 'absgrp': return self.outs(st, self.libmod.abs_group(self, st, meth, recv, args))
        if recv.typ == 'abselem': return self.outs(st, self.libmod.abs_elem(self, st, meth, recv, args))
        if isinstance(recv.typ, str): return self.outs(st, self.libmod.lib_invoke(self, st, recv, meth, args, iface))
        fn = self.prog.methods.get(recv.typ, {}).get(meth)
        if fn is None: raise Unsupported(f'no method {meth} on {self.tname(recv.typ)}')
        return self.call_fn(st, fn, [recv.val] + list(args))

    # ---- running a body ------------------------------------------------------
    def run(self, f, st, args, binds=()):
        if self.depth > 60: raise Unsupported('recursion too deep')
        f.analyse()
        self.depth += 1
        self.stack.append(f.name)
        try:
            fr = Frame(self, f)
            if f.deferred and not any(i['op'] == 'defer' and f.nest.get(b) for b, bl in enumerate(f.blocks) for i in bl['i']): fr.dobj = self.new(st, Ar([]))
            regs = dict(zip(f.params, args))
            regs.update(zip(f.free, binds))
            fr.push(0, None, {}, regs, st)
            fr.loop()
            return self.merge_returns(f, fr.rets)
        finally:
            self.depth -= 1
            self.stack.pop()

    def merge_returns(self, f, rets):
        if len(rets) <= 1: return rets
        items = [(s, {'$': v}) for s, v in rets]
        items = merge_all(self, items, {'$'})
        return [(s, r['$']) for s, r in items]


class Frame:
    def __init__(self, ex, f):
        self.ex, self.f = ex, f
        self.q = []
        self.cnt = itertools.count()
        self.rets = []
        self.dobj, self.dcalls = None, []
        self.entry = {}        # (header, outer iters) -> (merged state, regs, saved queue...)
        self.nosum = set()
        self.undecided = {}    # header -> number of undecided exits on current entry

    def push(self, b, prev, iters, regs, st):
        heapq.heappush(self.q, (self.f.key(b, iters), next(self.cnt), b, prev, iters, regs, st))

    def loop(self):
        f, ex = self.f, self.ex
        while self.q:
            key = self.q[0][0]
            b = self.q[0][2]
            grp = []
            while self.q and self.q[0][0] == key and self.q[0][2] == b:
                grp.append(heapq.heappop(self.q))
            live = f.live_in[b]
            items = []
            iters = grp[0][4]
            for (_, _, _, prev, _, regs, st) in grp:
                regs = self.phis(b, prev, regs)
                regs = {r: v for r, v in regs.items() if r in live}
                items.append((st, regs))
            if len(items) > 1: items = merge_all(ex, items, live)
            if b in f.loops:
                ok = iters.get(b, 0)
                ek = (b, tuple(iters.get(h, 0) for h in f.nest[b] if h != b))
                if ok == 0 and ex.loophook and ex.loophook(self, b, items, iters): continue     # an invariant given by the job
                if ok == 0:
                    self.entry[ek] = ([(s_.fork(), dict(r_)) for s_, r_ in items], list(self.q), list(self.rets), len(ex.panics), len(ex.frame), dict(iters))
                    self.undecided[b] = 0
                else:
                    items = [it for it in items if not self.subsumed(it, self.entry[ek][0], live)]
                    if self.undecided.get(b) and items and b not in self.nosum:
                        if self.summarise(b, ek): continue
                    if items and self.undecided.get(b, 0) > 80: raise Unsupported('loop with an undecided exit: ' + getattr(self, 'why', ''))
            for st, regs in items:
                self.block(b, iters, dict(regs), st)

    def subsumed(self, it, entries, live):
        st, regs = it
        for st0, regs0 in entries:
            if all(r in regs and same_val(regs[r], regs0[r]) for r in regs0 if r in live) and \
               all(st.heap.get(o) is c or same_val(st.heap.get(o), c) for o, c in st0.heap.items()):
                # every path condition fact of the entry still holds
                if st.pc[:len(st0.pc)] == st0.pc: return True
        return False

    def summarise(self, b, ek):
        ex = self.ex
        items, q, rets, np, nf_, iters = self.entry[ek]
        import loops
        saved = (self.q, self.rets, ex.panics[:], ex.frame[:])
        self.q, self.rets = list(q), list(rets)
        del ex.panics[np:]; del ex.frame[nf_:]
        try:
            for st, regs in items:
                for (nb, prev, nregs, nst) in loops.summarise(ex, self.f, b, regs, st):
                    it = {h: n for h, n in iters.items() if h in self.f.nest[nb]}
                    self.push(nb, prev, it, nregs, nst)
            ex.nloops += 1
            return True
        except Unsupported as e:
            self.nosum.add(b)
            self.why = str(e)
            self.q, self.rets = saved[0], saved[1]
            ex.panics[:] = saved[2]; ex.frame[:] = saved[3]
            return False

    def phis(self, b, prev, regs):
        blk = self.f.blocks[b]
        out = None
        for ins in blk['i']:
            if ins['op'] != 'phi': break
            if out is None:
                out = dict(regs)
                k = blk['p'].index(prev)
            out[ins['r']] = self.opval(regs, ins['edges'][k])
        return regs if out is None else out

    def opval(self, regs, o):
        if isinstance(o, str): return regs[o]
        if o is None: return None
        k = o['k']
        if k == 'const': return self.ex.const(o)
        if k == 'func': return Clo(o['name'])
        if k == 'global': return self.ex.libmod.global_ptr(self.ex, o['name'], o.get('t'))
        if k == 'builtin': return ('builtin', o['name'])
        raise Unsupported(f'operand {o}')

    def block(self, b, iters, regs, st):
        "execute a block, pushing successors; calls may fork"
        self.run_from(b, 0, iters, regs, st)

    def goto(self, b, s, iters, regs, st):
        f = self.f
        it = {}
        for h in f.nest.get(s, ()):
            it[h] = iters.get(h, 0)
        if s in f.loops:
            if b in f.loops[s]: it[s] = iters.get(s, 0) + 1
            else: it[s] = 0
        self.push(s, b, it, regs, st)

    def run_from(self, b, k, iters, regs, st):
        ex, f = self.ex, self.f
        ins_list = f.blocks[b]['i']
        n = len(ins_list)
        try:
            while k < n:
                ins = ins_list[k]
                op = ins['op']
                if ins.get('pos'): ex.pos = ins['pos']
                if op == 'phi': k += 1; continue
                if op == 'jump':
                    self.goto(b, f.blocks[b]['s'][0], iters, regs, st)
                    return
                if op == 'if':
                    c = self.opval(regs, ins['x'])
                    t, e = f.blocks[b]['s']
                    d = ex.decide(st, c)
                    if d is True: self.goto(b, t, iters, regs, st)
                    elif d is False: self.goto(b, e, iters, regs, st)
                    else:
                        for h in f.nest[b]:
                            if (t in f.loops[h]) != (e in f.loops[h]) :
                                self.undecided[h] = self.undecided.get(h, 0) + 1
                        s2 = st.fork(Not(c))
                        st.pc = st.pc + flat(c)
                        self.goto(b, t, iters, dict(regs), st)
                        self.goto(b, e, iters, regs, s2)
                    return
                if op == 'return':
                    xs = [self.opval(regs, x) for x in ins['xs']]
                    v = xs[0] if len(xs) == 1 else Tup(xs)
                    self.rets.append((st, v))
                    return
                if op == 'panic':
                    ex.panic(st, 'explicit panic')
                if op == 'call' or op == 'rundefers':
                    outs = self.call(ins['call'], regs, st) if op == 'call' else self.rundefers(st)
                    if len(outs) == 1:
                        st, v = outs[0]
                        if 'r' in ins: regs[ins['r']] = v
                        k += 1
                        continue
                    for s2, v in outs:
                        r2 = dict(regs)
                        if 'r' in ins: r2[ins['r']] = v
                        self.run_from(b, k + 1, iters, r2, s2)
                    return
                self.simple(ins, op, regs, st)
                k += 1
        except (GoPanic, Dead):
            return

    def defer(self, ins, regs, st):
        ex, c = self.ex, ins['call']
        if self.dobj is None: raise Unsupported('defer in a loop')
        args = [self.opval(regs, a) for a in c['args']]
        fn = self.opval(regs, c['recv' if 'invoke' in c else 'fn'])
        if isinstance(fn, Clo):
            g = ex.prog.funcs.get(fn.fn)
            if g is not None and g.blocks and any('recover' in str(i.get('call', {}).get('fn')) for b in g.blocks for i in b['i']): raise Unsupported('deferred recover')
        k = next((i for i, x in enumerate(self.dcalls) if x is ins), None)
        if k is None: k = len(self.dcalls); self.dcalls.append(ins)
        if isinstance(fn, tuple) and not isinstance(fn, (Ptr, Slc, St, Ar, Tup)): fn = NIL        # a builtin, by its instruction
        st.heap[self.dobj] = Ar(list(st.heap[self.dobj]) + [Tup([C(k), fn] + args)])

    def rundefers(self, st):
        "deferred calls, last first"
        if self.dobj is None: return [(st, None)]
        done, todo = [], [st]
        while todo:
            s = todo.pop()
            l = s.heap[self.dobj]
            if not l:
                done.append((s, None)); continue
            e = l[-1]
            s.heap[self.dobj] = Ar(l[:-1])
            todo += [s2 for s2, _ in self.call(self.dcalls[e[0].a[0]]['call'], None, s, (e[1], list(e[2:])))]
        return done

    def call(self, c, regs, st, given=None):
        ex = self.ex
        args = [self.opval(regs, a) for a in c['args']] if given is None else given[1]
        pos = ex.pos
        try:
            if 'invoke' in c:
                return ex.invoke(st, self.opval(regs, c['recv']) if given is None else given[0], c['invoke'], args, c.get('iface'))
            fn = self.opval(regs, c['fn']) if given is None or given[0] is NIL else given[0]
            if isinstance(fn, tuple): return ex.outs(st, ex.libmod.builtin(ex, st, fn[1], args, c))
            if isinstance(fn, Clo): return ex.call_fn(st, fn.fn, args, fn.binds)
            raise Unsupported(f'call of {fn!r}')
        finally:
            ex.pos = pos

    def simple(self, ins, op, regs, st):
        ex = self.ex
        val = lambda k: self.opval(regs, ins[k])
        if op == 'alloc':
            r = ex.newp(st, ex.zero(ins['e']))
        elif op == 'store':
            ex.store(st, val('x'), val('y')); return
        elif op == 'un':
            r = self.unop(ins, val('x'), st)
        elif op == 'bin':
            r = binop(ex, st, ins['o'], val('x'), val('y'), ins['xt'], ins['t'])
        elif op == 'fieldaddr':
            p = val('x')
            if isinstance(p, Opt):
                ex.require(st, Not(p.isnil), 'nil pointer dereference'); p = p.val
            if p is NIL: ex.panic(st, 'nil pointer dereference')
            if not isinstance(p, Ptr): raise Unsupported(f'field of {p!r}')
            r = Ptr(p.oid, p.path + (ins['i'],))
        elif op == 'field':
            v = val('x')
            if not isinstance(v, St): raise Unsupported('field of a non-struct')
            r = v[ins['i']]
            if isinstance(r, Poison): raise Unsupported(r.why or 'field of unknown contents')
        elif op == 'extract':
            v = val('x')
            r = v[ins['i']]
        elif op == 'indexaddr':
            r = self.indexaddr(ins, val('x'), val('y'), st)
        elif op == 'index':
            x, i = val('x'), val('y')
            if isinstance(x, Str): r = ex.libmod.byte_at(ex, st, Bytes(x.segs), i)
            else:
                ex.require(st, And(Le(C(0), i), Lt(i, C(len(x)))), 'index out of range')
                r = ex.sub_get(st, x, i)
        elif op == 'slice':
            r = self.slice(ins, regs, st)
        elif op == 'makeslice':
            r = make_slice(ex, st, ins['t'], val('x'), val('y'))
        elif op == 'mkiface':
            x = val('x')
            r = mkiface(ex, ins['t'], x, ins['xt'])
        elif op == 'chiface': r = val('x')
        elif op == 'chtype': r = val('x')
        elif op == 'convert': r = convert(ex, st, val('x'), ins['xt'], ins['t'])
        elif op == 'typeassert': r = typeassert(ex, st, val('x'), ins)
        elif op == 'closure':
            r = Clo(ins['fn']['name'] if isinstance(ins['fn'], dict) else ins['fn'], tuple(self.opval(regs, x) for x in ins['bind']))
        elif op == 'makemap': r = ex.newp(st, MapV())
        elif op == 'mapupdate':
            map_set(ex, st, val('x'), val('y'), val('z')); return
        elif op == 'lookup':
            x = val('x')
            if isinstance(x, Str): r = ex.libmod.byte_at(ex, st, Bytes(x.segs), val('y'))
            else:
                u = ex.U(ins['xt'])
                v, ok = map_get(ex, st, x, val('y'), ex.zero(u['e']))
                r = Tup([v, ok]) if ins['ok'] else v
        elif op == 'defer': self.defer(ins, regs, st); return
        else: raise Unsupported(f'instruction {op}')
        regs[ins['r']] = r

    def unop(self, ins, x, st):
        ex = self.ex
        o = ins['o']
        if o == '*': return ex.load(st, x)
        if o == '!': return Not(x)
        if o == '-':
            if isinstance(x, Flt): return Flt('c', -x.v) if x.k == 'c' else Flt('neg', x)
            return wrap(ex, st, neg(x), ex.int_type(ins['t']))
        if o == '^':
            it = ex.int_type(ins['t'])
            return wrap(ex, st, sub(C(-1), x), it)
        raise Unsupported(f'unary {o}')

    def indexaddr(self, ins, x, i, st):
        ex = self.ex
        if isinstance(x, Slc):
            ex.require(st, And(Le(C(0), i), Lt(i, x.ln)), 'index out of range')
            return Ptr(x.oid, (simp_idx(add(x.off, i)),))
        if isinstance(x, Ptr):
            n = ex.U(ex.U(ins['xt'])['e'])['n']
            ex.require(st, And(Le(C(0), i), Lt(i, C(n))), 'index out of range')
            return Ptr(x.oid, x.path + (simp_idx(i),))
        if isinstance(x, Opt):
            ex.require(st, Not(x.isnil), 'index out of range')
            return self.indexaddr(ins, x.val, i, st)
        raise Unsupported(f'index of {x!r}')

    def slice(self, ins, regs, st):
        ex = self.ex
        x = self.opval(regs, ins['x'])
        lo, hi, mx = (self.opval(regs, ins[k]) for k in ('lo', 'hi', 'max'))
        if isinstance(x, Str):
            return ex.libmod.str_slice(ex, st, x, lo, hi)
        if isinstance(x, Opt):
            if lo is None and hi is None: return x
            x = ex.ite_slice(st, x) if hasattr(ex, 'ite_slice') else x.val
        if isinstance(x, Ptr):
            n = C(ex.U(ex.U(ins['xt'])['e'])['n'])
            if x.path: raise Unsupported('slice of an inner array')
            x = Slc(x.oid, C(0), n, n)
        if not isinstance(x, Slc): raise Unsupported(f'slice of {x!r}')
        l = lo if lo is not None else C(0)
        h = hi if hi is not None else x.ln
        m = mx if mx is not None else x.cp
        ex.require(st, And(Le(C(0), l), Le(l, h), Le(h, m), Le(m, x.cp)), 'slice bounds out of range')
        return Slc(x.oid, simp(add(x.off, l)), simp(sub(h, l)), simp(sub(m, l)))

# --------------------------------------------------------------------------
# values

def simp(t):
    if is_c(t): return t
    try:
        c = pconst(nf(t))
        return C(c) if c is not None else t
    except Blowup: return t

simp_idx = simp

def subst_val(v, s):
    if isinstance(v, T): return subst(v, s)
    if isinstance(v, F): return substf(v, s)
    if isinstance(v, BigTm): return BigTm(subst(v.val, s), v.own)
    if isinstance(v, ElTm): return ElTm(v.grp, subst(v.val, s), v.own)
    if isinstance(v, (St, Ar, Tup)): return type(v)(subst_val(x, s) for x in v)
    if isinstance(v, El): return El(v.grp, subst(v.val, s) if v.val is not None else None)
    if isinstance(v, Str): return Str(tuple(tm._subst_arg(x, s, {}) for x in v.segs))
    if isinstance(v, Bytes): return Bytes(tuple(tm._subst_arg(x, s, {}) for x in v.segs))
    if isinstance(v, ErrV): return ErrV(substf(v.isnil, s))
    if isinstance(v, Opt): return Opt(substf(v.isnil, s), subst_val(v.val, s))
    if isinstance(v, Opq): return Opq(v.tag, tuple(tm._subst_arg(x, s, {}) for x in v.args))
    if isinstance(v, Fam): return Fam(subst(v.n, s), v.bv, subst_val(v.tmpl, s))
    if isinstance(v, ArrW): return ArrW(subst_val(v.base, s), tuple((subst(i, s), subst_val(x, s)) for i, x in v.ws))
    if isinstance(v, Slc): return Slc(v.oid, subst(v.off, s), subst(v.ln, s), subst(v.cp, s))
    if type(v).__name__ == 'ByTm': return type(v)(tuple(tm._subst_arg(x, s, {}) for x in v.segs))
    return v

def same_val(a, b):
    "cheap syntactic equality"
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, T):
        try: return nf(a) == nf(b)
        except Blowup: return False
    if isinstance(a, F): return False
    if isinstance(a, Ptr): return a == b
    if isinstance(a, Iface): return a.typ == b.typ and same_val(a.val, b.val)
    if isinstance(a, (St, Ar, Tup)): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Slc): return a.oid == b.oid and same_val(a.off, b.off) and same_val(a.ln, b.ln) and same_val(a.cp, b.cp)
    if isinstance(a, El): return a.grp is b.grp and (a.val is b.val or (a.val is not None and b.val is not None and same_val(a.val, b.val)))
    if isinstance(a, (Str, Bytes)): return a.segs == b.segs
    if isinstance(a, ErrV): return a.isnil is b.isnil
    if isinstance(a, Opt): return a.isnil is b.isnil and same_val(a.val, b.val)
    if isinstance(a, Clo): return a.fn == b.fn and same_val(Tup(a.binds), Tup(b.binds))
    if isinstance(a, Opq): return a.tag == b.tag and a.args == b.args
    if isinstance(a, Flt): return a.k == b.k and a.v == b.v
    if isinstance(a, MapV): return len(a.items) == len(b.items) and all(same_val(x[0], y[0]) and same_val(x[1], y[1]) for x, y in zip(a.items, b.items))
    if isinstance(a, BigTm): return same_val(a.val, b.val)
    if isinstance(a, ElTm): return a.grp is b.grp and same_val(a.val, b.val)
    return a == b if isinstance(a, (int, str, Grp)) else False

class NoMerge(Exception): pass

class Merger:
    "merges two states; fresh objects of the two sides are identified as they are met"
    def __init__(self, ex, s1, s2):
        self.ex, self.s1, self.s2 = ex, s1, s2
        p1, p2 = s1.pc, s2.pc
        k = 0
        while k < len(p1) and k < len(p2) and p1[k] is p2[k]: k += 1
        self.prefix = p1[:k]
        self.c1 = And(*p1[k:])
        self.c2 = And(*p2[k:])
        self.m12, self.m21 = {}, {}
        self.out = {}
        self.todo = []
    def oid(self, a, b):
        if a == b and a in self.s1.heap and b in self.s2.heap:
            if self.m12.get(a, b) != b or self.m21.get(b, a) != a: raise NoMerge()
            self.m12[a] = b; self.m21[b] = a
            if a not in self.out:
                self.out[a] = None; self.todo.append((a, a, b))
            return a
        if a in self.m12 or b in self.m21:
            if self.m12.get(a) == b and self.m21.get(b) == a: return self.names[(a, b)]
            raise NoMerge()
        if self.ex.owner(a) != 'fresh' or self.ex.owner(b) != 'fresh': raise NoMerge()
        if a in self.s2.heap or b in self.s1.heap: raise NoMerge()
        o = next(_oid)
        self.m12[a] = b; self.m21[b] = a
        self.names[(a, b)] = o
        self.todo.append((o, a, b))
        return o
    names = None
    def val(self, a, b):
        if a is b and not refs(a): return a
        if isinstance(a, T) and isinstance(b, T):
            if same_val(a, b): return a
            return ite(self.c1, a, b)
        if isinstance(a, F) and isinstance(b, F): return IteF(self.c1, a, b)
        if isinstance(a, ErrV) and isinstance(b, ErrV): return ErrV(IteF(self.c1, a.isnil, b.isnil))
        if a is NIL and b is NIL: return NIL
        if isinstance(a, (Opt, Nil, Ptr)) and isinstance(b, (Opt, Nil, Ptr)) and (type(a) is not type(b) or isinstance(a, Opt)):
            na, va = (a.isnil, a.val) if isinstance(a, Opt) else (TRUE, None) if a is NIL else (FALSE, a)
            nb, vb = (b.isnil, b.val) if isinstance(b, Opt) else (TRUE, None) if b is NIL else (FALSE, b)
            v = va if vb is None else vb if va is None else self.val(va, vb)
            if va is None: v = self.keep(self.s2, vb)
            elif vb is None: v = self.keep(self.s1, va)
            return Opt(IteF(self.c1, na, nb), v)
        if type(a) is not type(b): raise NoMerge()
        if isinstance(a, Ptr):
            if len(a.path) != len(b.path) or any(not same_val(x, y) if isinstance(x, T) else x != y for x, y in zip(a.path, b.path)): raise NoMerge()
            return Ptr(self.oid(a.oid, b.oid), a.path)
        if isinstance(a, Iface):
            if a.typ != b.typ: raise NoMerge()
            return Iface(a.typ, self.val(a.val, b.val))
        if isinstance(a, Slc):
            if a.oid is None or b.oid is None:
                if a.oid is b.oid: return a
                raise NoMerge()
            return Slc(self.oid(a.oid, b.oid), self.val(a.off, b.off), self.val(a.ln, b.ln), self.val(a.cp, b.cp))
        if isinstance(a, (St, Ar, Tup)):
            if len(a) != len(b): raise NoMerge()
            return type(a)(self.val(x, y) for x, y in zip(a, b))
        if isinstance(a, El):
            if a.grp is not b.grp: raise NoMerge()
            if a.val is b.val: return a
            if a.val is None or b.val is None: raise NoMerge()
            return El(a.grp, self.val(a.val, b.val))
        if isinstance(a, MapV):
            if len(a.items) != len(b.items) or any(not same_val(x[0], y[0]) for x, y in zip(a.items, b.items)): raise NoMerge()
            return MapV([(x[0], self.val(x[1], y[1])) for x, y in zip(a.items, b.items)])
        if isinstance(a, BigTm): return BigTm(self.val(a.val, b.val), a.own)
        if isinstance(a, ElTm):
            if a.grp is not b.grp: raise NoMerge()
            return ElTm(a.grp, self.val(a.val, b.val), a.own)
        if isinstance(a, ArrW):
            if len(a.ws) == len(b.ws) and all(same_val(x[0], y[0]) for x, y in zip(a.ws, b.ws)) and a.base is b.base:
                return ArrW(a.base, tuple((x[0], self.val(x[1], y[1])) for x, y in zip(a.ws, b.ws)))
            raise NoMerge()
        if isinstance(a, AppArr):
            if a.key is not b.key or len(a.ws) != len(b.ws): raise NoMerge()
            return AppArr(a.key, tuple(self.val(x, y) for x, y in zip(a.ws, b.ws)))
        if isinstance(a, Clo) and a.fn == b.fn and len(a.binds) == len(b.binds):
            return Clo(a.fn, tuple(self.val(x, y) for x, y in zip(a.binds, b.binds)))
        if same_val(a, b): return a
        raise NoMerge()
    def keep(self, s, v):
        "a reference that exists on one side only"
        if isinstance(v, Ptr):
            o = v.oid
            if o in self.m12 or o in self.m21 or (o in self.s1.heap and o in self.s2.heap):
                if o in self.s1.heap and o in self.s2.heap: self.oid(o, o)
                else: raise NoMerge()
            elif o not in self.out: self.keep_obj(s, o)
            return v
        raise NoMerge()
    def keep_obj(self, s, o):
        c = s.heap[o]
        for r in refs(c):
            if r in self.m12 or r in self.m21: raise NoMerge()
            if not (r in self.s1.heap and r in self.s2.heap) and r not in self.out and r != o:
                self.out[r] = None
                self.keep_obj(s, r)
        self.out[o] = c
    def run(self, regs1, regs2, live):
        self.names = {}
        for o in self.s1.heap:
            if o in self.s2.heap:
                self.m12[o] = o; self.m21[o] = o
        regs = {}
        for r in live:
            if r in regs1 and r in regs2: regs[r] = self.val(regs1[r], regs2[r])
        h1, h2 = self.s1.heap, self.s2.heap
        for o in h1:
            if o in h2:
                c1, c2 = h1[o], h2[o]
                if c1 is c2: self.out[o] = c1
                else: self.out[o] = self.val(c1, c2)
        while self.todo:
            o, a, b = self.todo.pop()
            if o in self.out and self.out[o] is not None: continue
            self.out[o] = self.val(h1[a], h2[b])
        st = State(self.out, self.prefix + flat(Or(self.c1, self.c2)))
        return st, regs

def refs(v):
    "object ids referenced by a value"
    if isinstance(v, Ptr): return {v.oid}
    if isinstance(v, Slc): return {v.oid} if v.oid is not None else set()
    if isinstance(v, Iface): return refs(v.val)
    if isinstance(v, (St, Ar, Tup)):
        s = set()
        for x in v: s |= refs(x)
        return s
    if isinstance(v, Opt): return refs(v.val)
    if isinstance(v, Clo): return refs(Tup(v.binds))
    if isinstance(v, MapV): return {r for k, x in v.items for r in refs(x)}
    return set()

def common(p, q):
    k = 0
    while k < len(p) and k < len(q) and p[k] is q[k]: k += 1
    return k

def merge_all(ex, items, live):
    items = list(items)
    bad = set()
    while len(items) > 1:
        best = None
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                if (id(items[i][0]), id(items[j][0])) in bad: continue
                k = common(items[i][0].pc, items[j][0].pc)
                if best is None or k > best[0]: best = (k, i, j)
        if best is None: break
        _, i, j = best
        try:
            m = Merger(ex, items[i][0], items[j][0]).run(items[i][1], items[j][1], live)
        except NoMerge:
            bad.add((id(items[i][0]), id(items[j][0])))
            continue
        rest = [x for k, x in enumerate(items) if k not in (i, j)]
        items = rest + [m]
    return items

# --------------------------------------------------------------------------
# operators

def tbounds(t, d=0):
    "cheap interval of a term (None = unbounded)"
    o = t.op
    if o == 'c': return t.a[0], t.a[0]
    if o == 'v':
        vi = VARS[t.a[0]]
        if vi.kind == 'bit': return 0, 1
        return vi.lo, vi.hi if isinstance(vi.hi, int) else None
    if d > 8: return None, None
    if o == '+':
        lo = hi = 0
        for x in t.a:
            l, h = tbounds(x, d + 1)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi
    if o == '*':
        lo, hi = 1, 1
        for x in t.a:
            l, h = tbounds(x, d + 1)
            if None in (l, h, lo, hi): return None, None
            ps = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(ps), max(ps)
        return lo, hi
    if o == 'mod':
        return 0, (t.a[1].a[0] - 1 if is_c(t.a[1]) else None)
    if o == 'ite':
        l1, h1 = tbounds(t.a[1], d + 1); l2, h2 = tbounds(t.a[2], d + 1)
        return (None if l1 is None or l2 is None else min(l1, l2)), (None if h1 is None or h2 is None else max(h1, h2))
    if o == 'app' and t.a[0] == 'cmp': return -1, 1
    if o == 'app' and isinstance(RANGEFN.get(t.a[0]), int): return 0, RANGEFN[t.a[0]] - 1
    if o == 'div' and is_c(t.a[1]):
        l, h = tbounds(t.a[0], d + 1)
        k = t.a[1].a[0]
        return (None if l is None else l // k), (None if h is None else h // k)
    return None, None

def wrap(ex, st, t, it):
    bits, signed = it
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if is_c(t):
        v = t.a[0]
        v = (v - lo) % (1 << bits) + lo
        return C(v)
    l, h = tbounds(t)
    if l is not None and h is not None and l >= lo and h <= hi: return t
    if smt.implied(st.pc, And(Le(C(lo), t), Le(t, C(hi)))): return t
    if signed: return add(mod(add(t, C(1 << bits - 1)), C(1 << bits)), C(-(1 << bits - 1)))
    return mod(t, C(1 << bits))

SETS = {(-1,): Lt, (0,): Eq, (1,): Gt, (-1, 0): Le, (0, 1): Ge, (-1, 1): Ne}
OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
FOPS = {'<': Lt, '<=': Le, '>': Gt, '>=': Ge, '==': Eq, '!=': Ne}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}

def compare(op, x, y):
    if is_c(x) and not is_c(y): return compare(FLIP[op], y, x)
    if is_c(y):
        if x.op == 'app' and x.a[0] == 'cmp':
            s = tuple(v for v in (-1, 0, 1) if OPS[op](v, y.a[0]))
            if len(s) == 3: return TRUE
            if not s: return FALSE
            return SETS[s](x.a[1], x.a[2])
        if x.op == 'app' and x.a[0] == 'bitlen' and op in ('>', '<=', '<', '>='):
            k = y.a[0]
            a = x.a[1]
            # bitlen(a) <= k  iff  |a| < 2^k
            small = lambda k: And(Lt(a, C(1 << k)), Gt(a, C(-(1 << k)))) if k >= 0 else FALSE
            return {'<=': lambda: small(k), '>': lambda: Not(small(k)), '<': lambda: small(k - 1), '>=': lambda: Not(small(k - 1))}[op]()
        if x.op == 'ite': return IteF(x.a[0], compare(op, x.a[1], y), compare(op, x.a[2], y))
    return FOPS[op](x, y)

def is_nil(v):
    if v is NIL: return TRUE
    if isinstance(v, ErrV): return v.isnil
    if isinstance(v, Opt): return v.isnil
    if isinstance(v, Slc): return TRUE if v.oid is None else FALSE
    return FALSE

def val_eq(ex, st, x, y):
    "Go == on values"
    if isinstance(x, T) and isinstance(y, T): return compare('==', x, y)
    if isinstance(x, F) and isinstance(y, F): return Iff(x, y)
    if isinstance(x, Str) and isinstance(y, Str):
        if x.segs == y.segs: return TRUE
        if x.lit() is not None and y.lit() is not None: return FALSE
        return ex.libmod.seq_eq(x.segs, y.segs)
    if isinstance(x, Flt) and isinstance(y, Flt):
        if x.k == 'c' and y.k == 'c': return TRUE if x.v == y.v else FALSE
        raise Unsupported('float comparison')
    nx, ny = is_nil(x), is_nil(y)
    if isinstance(x, ErrV) or isinstance(y, ErrV):
        if ny is TRUE: return nx
        if nx is TRUE: return ny
        raise Unsupported('error comparison')
    if nx is TRUE: return ny
    if ny is TRUE: return nx
    if isinstance(x, Opt) or isinstance(y, Opt):
        vx = x.val if isinstance(x, Opt) else x
        vy = y.val if isinstance(y, Opt) else y
        return Or(And(nx, ny), And(Not(nx), Not(ny), val_eq(ex, st, vx, vy)))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if len(x.path) == len(y.path) and x.oid == y.oid:
            return And(*[Eq(C(a) if isinstance(a, int) else a, C(b) if isinstance(b, int) else b) for a, b in zip(x.path, y.path)])
        return FALSE
    if isinstance(x, Iface) and isinstance(y, Iface):
        if x.typ != y.typ: return FALSE
        return val_eq(ex, st, x.val, y.val)
    if isinstance(x, Grp) and isinstance(y, Grp): return TRUE if x is y else FALSE
    if isinstance(x, (St, Ar)) and isinstance(y, (St, Ar)): return And(*[val_eq(ex, st, a, b) for a, b in zip(x, y)])
    raise Unsupported(f'comparison of {x!r} and {y!r}')

def masked(x, m, it):
    "x & m for a constant m, by its runs of ones"
    if m < 0:
        r = masked(x, ~m, it)           # x & m = x - (x & ~m)
        return None if r is None else sub(x, r)
    runs, i = [], 0
    while m >> i:
        if m >> i & 1:
            j = i
            while m >> j & 1: j += 1
            runs.append((i, j - i))
            i = j
        else: i += 1
    if len(runs) > 4: return None
    return add(C(0), *[mul(C(1 << i), mod(div(x, C(1 << i)), C(1 << w))) for i, w in runs])

def binop(ex, st, o, x, y, xt, rt):
    if o in ('==', '!='):
        r = val_eq(ex, st, x, y)
        return r if o == '==' else Not(r)
    if isinstance(x, T) and isinstance(y, T):
        if o in OPS: return compare(o, x, y)
        it = ex.int_type(rt)
        if it is None: raise Unsupported(f'arithmetic on {ex.tname(rt)}')
        if o == '+': return wrap(ex, st, add(x, y), it)
        if o == '-': return wrap(ex, st, sub(x, y), it)
        if o == '*': return wrap(ex, st, mul(x, y), it)
        if o in ('/', '%'):
            ex.require(st, Ne(y, C(0)), 'division by zero')
            if is_c(x) and is_c(y):
                a, b = x.a[0], y.a[0]
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return wrap(ex, st, C(q if o == '/' else a - b * q), it)
            if is_c(x) and 0 <= x.a[0] <= 64 and smt.implied(st.pc, Lt(C(0), y)):
                a = x.a[0]
                r = C(0) if o == '/' else x          # y > a
                for d in range(a, 0, -1): r = ite(Eq(y, C(d)), C(a // d if o == '/' else a % d), r)
                return r
            if not it[1] or smt.implied(st.pc, And(Le(C(0), x), Lt(C(0), y))):
                return ex.libmod.ediv(ex, st, x, y) if o == '/' else ex.libmod.emod(ex, st, x, y)
            # truncated division by absolute values and signs
            ab = ex.libmod.babs
            ax, ay = ab(ex, st, x), ab(ex, st, y)
            try: q, r = ex.libmod.ediv(ex, st, ax, ay), ex.libmod.emod(ex, st, ax, ay)
            except Unsupported: raise Unsupported('signed division')
            if o == '%': return ite(Ge(x, C(0)), r, neg(r))
            return wrap(ex, st, ite(Ge(x, C(0)), ite(Gt(y, C(0)), q, neg(q)), ite(Gt(y, C(0)), neg(q), q)), it)
        if o == '<<':
            if ex.int_type(rt)[1] or True: ex.require(st, Ge(y, C(0)), 'negative shift')
            if is_c(x) and not is_c(y) and x.a[0] > 0 and smt.implied(st.pc, Le(y, C(it[0] - it[1] - x.a[0].bit_length()))):
                return mul(x, power(C(2), y))
            if is_c(x) and not is_c(y) and x.a[0]:
                r = C(0)
                for k in range(it[0] - 1, -1, -1):
                    e = Eq(y, C(k))
                    if e is FALSE: continue
                    r = ite(e, wrap(ex, st, C(x.a[0] << k), it), r)
                return r
            return wrap(ex, st, mul(x, power(C(2), y)), it)
        if o == '>>':
            ex.require(st, Ge(y, C(0)), 'negative shift')
            if is_c(x) and is_c(y): return C(x.a[0] >> min(y.a[0], 10000))
            if is_c(x) and x.a[0] >= 0:
                r = C(0)
                for k in range(x.a[0].bit_length() - 1, -1, -1): r = ite(Eq(y, C(k)), C(x.a[0] >> k), r)
                return r
            return div(x, power(C(2), y))
        if o in ('&', '|', '^', '&^'):
            if is_c(x) and is_c(y):
                a, b = x.a[0], y.a[0]
                return C({'&': a & b, '|': a | b, '^': a ^ b, '&^': a & ~b}[o])
            if o == '&' and is_c(y) and y.a[0] >= 0 and (y.a[0] & (y.a[0] + 1)) == 0: return mod(x, C(y.a[0] + 1))
            if is_c(x) and o != '&^': x, y = y, x
            if is_c(y):
                a = masked(x, y.a[0], it)
                if a is not None: return {'&': lambda: a, '&^': lambda: sub(x, a), '|': lambda: add(x, y, neg(a)), '^': lambda: add(x, y, mul(C(-2), a))}[o]()
            return app('bit' + o, x, y, C(it[0]))
    if isinstance(x, Str) and isinstance(y, Str):
        if o == '+': return Str(x.segs + y.segs)
        if o in OPS and x.lit() is not None and y.lit() is not None: return TRUE if OPS[o](x.lit(), y.lit()) else FALSE
    if isinstance(x, Flt) and isinstance(y, Flt):
        if x.k == 'c' and y.k == 'c':
            if o in OPS: return TRUE if OPS[o](x.v, y.v) else FALSE
            return Flt('c', {'+': lambda: x.v + y.v, '-': lambda: x.v - y.v, '*': lambda: x.v * y.v, '/': lambda: x.v / y.v}[o]())
        if o in OPS: return Bool('fltcmp' + o, repr((x.k, x.v)), repr((y.k, y.v)))
        return Flt('op', (o, x.k, x.v, y.k, y.v))
    if isinstance(x, F) and isinstance(y, F):
        if o == '&': return And(x, y)
        if o == '|': return Or(x, y)
        if o in ('^',): return Not(Iff(x, y))
    raise Unsupported(f'{o} on {type(x).__name__}')

def map_get(ex, st, m, k, zero):
    "(value, present)"
    m = ex.libmod.deopt(ex, st, m) if m is not NIL else m
    if m is NIL: return zero, FALSE
    r, ok = zero, FALSE
    for k2, v in ex.load(st, m).items:
        e = val_eq(ex, st, k, k2)
        d = ex.decide(st, e)
        if d is True: return v, TRUE
        if d is False: continue
        if isinstance(k, Str): raise Unsupported('look-up of a symbolic string')
        r, ok = ex.ite_val(e, v, r), Or(e, ok)
        if r is None: raise Unsupported('look-up with a symbolic key')
    return r, ok

def map_set(ex, st, m, k, v, delete=False):
    m = ex.libmod.deopt(ex, st, m) if m is not NIL else m
    if m is NIL:
        if delete: return
        ex.panic(st, 'assignment to entry in nil map')
    out, hit = [], False
    for k2, v2 in ex.load(st, m).items:
        d = ex.decide(st, val_eq(ex, st, k, k2))
        if d is None: raise Unsupported('map with a symbolic key')
        if d is False: out.append((k2, v2))
    if not delete: out.append((k, v))
    ex.note_write(st, m.oid)
    st.heap[m.oid] = MapV(out)

def make_slice(ex, st, t, n, c):
    e = ex.U(t)['e']
    ex.require(st, And(Le(C(0), n), Le(n, c), Le(c, C(1 << 47))), 'makeslice: length out of range')
    z = ex.zero(e)
    if is_c(n) and is_c(c):
        o = ex.new(st, Ar([z] * c.a[0]))
    else:
        o = ex.new(st, Fam(c, bvar(), z))
    return Slc(o, C(0), n, c)

def mkiface(ex, t, x, xt):
    s = ex.tname(t)
    if s == 'error':
        return ErrV(FALSE)
    return Iface(xt, x)

def convert(ex, st, x, xt, t):
    a, b = ex.U(xt), ex.U(t)
    if isinstance(x, T):
        it = ex.int_type(t)
        if it: return wrap(ex, st, x, it)
        if b['k'] == 'basic' and b['name'].startswith('float'):
            if is_c(x): return Flt('c', float(x.a[0]))
            return Flt('int', x)
        if b['k'] == 'basic' and b['name'] == 'string': raise Unsupported('int to string')
    if isinstance(x, Flt):
        it = ex.int_type(t)
        if it:
            if x.k == 'c': return wrap(ex, st, C(int(x.v)), it)
            if x.k == 'log2': 
                r = app('flog2', x.v)
                return r
            raise Unsupported('float to int')
        return x
    if isinstance(x, Str) and b['k'] == 'slice':
        o = ex.new(st, Bytes(x.segs))
        n = ex.libmod.seglen(x.segs)
        return Slc(o, C(0), n, n)
    if isinstance(x, (Slc, Opt)) and b['k'] == 'basic':
        return Str(ex.libmod.slice_segs(ex, st, x))
    if a['k'] == b['k']: return x
    raise Unsupported(f'conversion to {ex.tname(t)}')

def typeassert(ex, st, x, ins):
    at = ins['at']
    ok = None
    if x is NIL: ok = False
    elif isinstance(x, Iface):
        if ex.U(at)['k'] == 'iface':
            if isinstance(x.typ, int):
                ms = ex.prog.methods.get(x.typ, {})
                ok = all(m in ms for m in ex.U(at)['methods'])
            else: ok = True
        else: ok = x.typ == at
    elif isinstance(x, ElTm): ok = ex.U(at)['k'] == 'iface'
    else: raise Unsupported('type assertion')
    v = x if ex.U(at)['k'] == 'iface' else (x.val if ok else None)
    if ins.get('ok'):
        return Tup([v if ok else ex.zero(at), TRUE if ok else FALSE])
    if not ok: ex.panic(st, 'failed type assertion')
    return v
