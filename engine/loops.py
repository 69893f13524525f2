"""Loops with a symbolic trip count.

The state that the body changes (header phis and heap cells) is replaced by
placeholders, the body is executed once, and the updates are solved to closed
forms in the iteration number K: these are the loop invariants.  The body is
then executed again from the invariant at an arbitrary K below the trip count,
which raises the obligations of the body, and the state it produces has to be
the invariant at K + 1 (the induction step).  The invariant at 0 has to be the
entry state.  Anything that does not fit raises Unsupported.
"""
import terms as tm
from terms import *
from values import *
import smt
import exec as X
from exec import State, Frame, flat, subst_val, same_val, refs, simp

class BodyFrame(Frame):
    def __init__(self, ex, f, h):
        super().__init__(ex, f)
        self.h = h
        self.body = f.loops[h]
        self.back, self.exits = [], []
    def goto(self, b, s, iters, regs, st):
        if s == self.h:
            self.back.append((b, regs, st)); return
        if s not in self.body:
            self.exits.append((b, s, regs, st)); return
        super().goto(b, s, iters, regs, st)

def run_body(ex, f, h, regs, st):
    fr = BodyFrame(ex, f, h)
    it = {x: 0 for x in f.nest[h]}
    fr.block(h, it, dict(regs), st)
    fr.loop()
    # phi values on the back edges
    outs = []
    live = f.live_in[h]
    for b, r, s in fr.back:
        r = fr.phis(h, b, r)
        outs.append((s, {k: v for k, v in r.items() if k in live}))
    if len(outs) > 1: outs = X.merge_all(ex, outs, live)
    if len(outs) > 1: raise Unsupported('loop body with unmergeable paths')
    return outs, fr.exits, fr.rets

# ---- the shape of a carried value: terms, formulas, elements, ... ----------

class Item:
    "one carried scalar: where it lives, its entry value, its placeholder, its closed form"
    def __init__(self, kind, init, grp=None):
        self.kind, self.init, self.grp = kind, init, grp
        self.closed = None          # function of K
        self.small = False

def mk_item(v):
    if isinstance(v, T): return Item('t', v)
    if isinstance(v, F): return Item('f', v)
    if isinstance(v, El): return Item('el', v.val, v.grp)
    if isinstance(v, ErrV): return Item('err', v.isnil)
    if isinstance(v, Bytes): return Item('bytes', v.segs)
    raise Unsupported(f'loop-carried {type(v).__name__}')

_n = [0]
def placeholder(it):
    _n[0] += 1
    i = _n[0]
    if it.kind in ('t', 'el'):
        it.ph = fresh('ph', -(1 << 62), 1 << 62) if it.small else fresh('ph')
        return it.ph if it.kind == 't' else El(it.grp, it.ph)
    if it.kind in ('f', 'err'):
        it.ph = Bool('ph', i)
        return it.ph if it.kind == 'f' else ErrV(it.ph)
    it.ph = ('ph', i)
    return Bytes((it.ph,))

def at(it, K):
    "the value at iteration K"
    c = it.closed(K)
    return wrapv(it, c)
def wrapv(it, c):
    if it.kind in ('t', 'f'): return c
    if it.kind == 'el': return El(it.grp, c)
    if it.kind == 'err': return ErrV(c)
    return Bytes(c)

def raw(it, v):
    if it.kind in ('t', 'f'): return v
    if it.kind == 'el':
        if not isinstance(v, El): raise Unsupported('loop-carried element')
        return v.val
    if it.kind == 'err':
        if not isinstance(v, ErrV): raise Unsupported('loop-carried error')
        return v.isnil
    if not isinstance(v, Bytes): raise Unsupported('loop-carried bytes')
    return v.segs

def occurs(v, phs, memo=None):
    "ids of placeholders occurring in a term, formula or tuple"
    memo = {} if memo is None else memo
    out = set()
    if isinstance(v, (T, F)):
        k = (isinstance(v, F), v.id)
        if k in memo: return memo[k]
        if k in phs: out.add(k)
        else:
            for x in v.a:
                if isinstance(x, (T, F, tuple)): out |= occurs(x, phs, memo)
        memo[k] = out
    elif isinstance(v, tuple):
        if v in phs_tuple(phs): out.add(v)
        for x in v:
            if isinstance(x, (T, F, tuple)): out |= occurs(x, phs, memo)
    return out
def phs_tuple(phs): return {p for p in phs if isinstance(p, tuple) and p and p[0] == 'ph'}

def phkey(it):
    if it.kind in ('t', 'el'): return (False, it.ph.id)
    if it.kind in ('f', 'err'): return (True, it.ph.id)
    return it.ph

def substK(v, s):
    if isinstance(v, T): return tm._subst(v, s, {})
    if isinstance(v, F): return substF(v, s, {})
    if isinstance(v, tuple):
        out = []
        for x in v: out.append(substK(x, s) if isinstance(x, (T, F, tuple)) else x)
        return tuple(out)
    return v

FKEY = {}
def substF(f, s, memo):
    r = s.get(('f', f.id))
    if r is not None: return r
    # Boolean placeholders are keyed ('f', id)
    if f.op in ('not', 'and'):
        a = [substF(x, s, memo) for x in f.a]
        return Not(a[0]) if f.op == 'not' else And(*a)
    return tm._substf(f, s, {})

def split_linear(u, ph, m=None):
    "(a, b) with u = a*ph + b as polynomials over Z or mod m, or None; a, b free of ph"
    if u.op == '+' and sum(1 for x in u.a if x is ph) == 1:
        rest = [x for x in u.a if x is not ph]
        if not any(occurs(x, {(False, ph.id)}) for x in rest): return C(1), add(*rest)
    if u.op == '*' and sum(1 for x in u.a if x is ph) == 1:
        rest = [x for x in u.a if x is not ph]
        if not any(occurs(x, {(False, ph.id)}) for x in rest): return mul(*rest), C(0)
    pid = tm.nf(ph)
    (mo, _), = pid.items()
    aid = mo[0][0]
    try: p = nf(u, m)
    except Blowup: return None
    A, B = {}, {}
    for mm, c in p.items():
        d = dict(mm)
        e = d.get(aid, 0)
        if e == 0: B[mm] = c
        elif e == 1:
            del d[aid]
            A[tuple(sorted(d.items(), key=lambda x: x[0]))] = c
        else: return None
    import lib
    a, b = lib.poly_term(A), lib.poly_term(B)
    if a is None or b is None: return None
    phs = {(False, ph.id)}
    if occurs(a, phs) or occurs(b, phs): return None
    return a, b

def solve(ex, st, it, u, K):
    """closed form of x_{k+1} = u(x_k, k) where the other carried values in u
    are already functions of K"""
    k = phkey(it)
    dep = occurs(u, {k})
    if it.kind in ('t', 'el'):
        if u is it.ph:
            return lambda j: it.init
        if it.init is None and dep: raise Unsupported('element read before it is set')
        sub_ = lambda t, j: substK(t, {K.id: j})
        if not dep:
            def f(j):
                c = Eq(j, C(0))
                prev = sub_(u, sub(j, C(1)))
                if c is FALSE or smt.implied(st.pc, Ge(j, C(1))): return prev
                if c is TRUE: return it.init
                if it.init is None: raise Unsupported('element not set before the loop')
                return ite(Eq(j, C(0)), it.init, prev)
            f.last = True
            return f
        ab = split_linear(u, it.ph)
        if ab:
            a, b = ab
            if is_c(a) and a.a[0] == 1:
                if K.id not in tids(b): return lambda j: add(it.init, mul(b, j))
                return lambda j: add(it.init, summ(j, lambda i: sub_(b, i)))
            if is_c(b) and b.a[0] == 0 and K.id not in tids(a):
                return lambda j: mul(it.init, power(a, j))
        if u.op == 'mod':
            q = u.a[1]
            if occurs(q, {k}): raise Unsupported('recurrence')
            if not smt.implied(st.pc, And(Le(C(0), it.init), Lt(it.init, q))): raise Unsupported('unreduced accumulator')
            ab = split_linear(u.a[0], it.ph, q)
            if ab:
                a, b = ab
                if is_c(a) and a.a[0] == 1: return lambda j: mod(add(it.init, summ(j, lambda i: sub_(b, i))), q)
                if is_c(b) and b.a[0] == 0 and K.id not in tids(a): return lambda j: mod(mul(it.init, power(a, j)), q)
        if u.op == 'div' and u.a[0] is it.ph and K.id not in tids(u.a[1]) and not occurs(u.a[1], {k}):
            return lambda j: div(it.init, power(u.a[1], j))
        raise Unsupported('recurrence ' + show(u)[:120])
    if it.kind in ('f', 'err'):
        if u is it.ph: return lambda j: it.init
        parts = u.a if u.op == 'and' else (u,)
        if it.ph in parts:
            g = And(*[p for p in parts if p is not it.ph])
            if occurs(g, {k}): raise Unsupported('boolean recurrence')
            return lambda j: And(it.init, Forall(j, lambda i: substK(g, {K.id: i})))
        # or-accumulator: not(and(not ph, g))
        if u.op == 'not' and u.a[0].op == 'and' and Not(it.ph) in u.a[0].a:
            g = And(*[p for p in u.a[0].a if p is not Not(it.ph)])
            if occurs(g, {k}): raise Unsupported('boolean recurrence')
            return lambda j: Not(And(Not(it.init), Forall(j, lambda i: substK(g, {K.id: i}))))
        raise Unsupported('boolean recurrence')
    if it.kind == 'bytes':
        if u == (it.ph,): return lambda j: it.init
        if u and u[0] == it.ph and not occurs(u[1:], {k}):
            def f(j):
                b = BV(10 ** 6)
                if K.id not in tids(u[1:]) and is_c(j): return it.init + u[1:] * j.a[0]
                if is_c(j): return it.init + tuple(x for i in range(j.a[0]) for x in substK(u[1:], {K.id: C(i)}))
                return it.init + (('rep', j, substK(u[1:], {K.id: b})),)
            return f
        raise Unsupported('byte recurrence')

def tids(v):
    s = set()
    seen = set()
    def go(x):
        if isinstance(x, (T, F)):
            k = (isinstance(x, F), x.id)
            if k in seen: return
            seen.add(k)
            if isinstance(x, T): s.add(x.id)
            for y in x.a: go(y)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(v)
    return s

def vids(v):
    s, seen = set(), set()
    def go(x):
        if isinstance(x, (T, F)):
            k = (isinstance(x, F), x.id)
            if k in seen: return
            seen.add(k)
            if isinstance(x, T) and x.op == 'v': s.add(x.id)
            for y in x.a: go(y)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(v)
    return s

# ---- carried pointers ------------------------------------------------------

def ptr_of(v):
    if isinstance(v, Ptr) and not v.path: return v
    if isinstance(v, Iface) and isinstance(v.val, Ptr) and not v.val.path: return v.val
    return None

def with_ptr(v, p):
    return p if isinstance(v, Ptr) else Iface(v.typ, p)

def content_of(ex, st, v):
    "(kind, value) of a carried pointer: what it points at"
    if isinstance(v, BigTm): return v.val
    if isinstance(v, ElTm): return El(v.grp, v.val)
    p = ptr_of(v)
    return st.heap[p.oid]

def ranged(ids, *vals):
    "does one of the terms occur where its range matters: under a division, a remainder or a condition"
    seen = set()
    def go(x, in_):
        if isinstance(x, (T, F)):
            if isinstance(x, T) and x.id in ids: return in_
            k = (isinstance(x, F), x.id, in_)
            if k in seen: return False
            seen.add(k)
            in2 = in_ or (isinstance(x, T) and x.op in ('mod', 'div', 'ite'))
            return any(go(y, in2) for y in x.a)
        if isinstance(x, (tuple, list, St, Ar)): return any(go(y, in_) for y in x)
        if isinstance(x, El): return go(x.val, in_)
        if isinstance(x, (BigTm, ElTm)): return go(x.val, in_)
        if isinstance(x, (ErrV,)): return go(x.isnil, in_)
        if isinstance(x, Bytes): return go(x.segs, in_)
        if isinstance(x, ArrW): return any(go(i, in_) or go(v, in_) for i, v in x.ws)
        p = ptr_of(x)
        if p is not None and p.oid in st_.heap and ('o', p.oid, in_) not in seen:
            seen.add(('o', p.oid, in_))
            return go(st_.heap[p.oid], in_)
        return False
    st_ = vals[-1]
    return any(go(v, False) for v in vals[:-1])

def summarise(ex, f, h, regs, st):
    live = f.live_in[h]
    regs = {k: v for k, v in regs.items() if k in live}
    phis = [i['r'] for i in f.blocks[h]['i'] if i['op'] == 'phi']
    phis = [p for p in phis if p in regs]
    cells = set()
    grown = set()           # phis that are slices the body appends to
    freshp = set()          # phis that are pointers to a new object in each iteration
    for p in phis:
        v = regs[p]
        if isinstance(v, Slc):
            if v.oid is not None and not (Eq(v.cp, v.ln) is TRUE or (Eq(v.ln, C(0)) is TRUE and ex.owner(v.oid) == 'fresh')): raise Unsupported('append in place')
            grown.add(p)
    save = (len(ex.panics), len(ex.frame))
    def rollback():
        del ex.panics[save[0]:]; del ex.frame[save[1]:]
    K = fresh('K', 0, 1 << 47, 'len')
    known, bound = None, ()     # counters with their closed form, and the range of K
    for attempt in range(14):
        items, r0, s0 = {}, dict(regs), st.fork()
        s0.pc = s0.pc + bound
        const = set()
        app = {}
        for p in phis:
            v = regs[p]
            if p in grown:
                it = items[('g', p)] = Item('t', v.ln)
                it.small = True
                ln = placeholder(it)
                app[p] = AppArr(object(), ())
                r0[p] = Slc(ex.new(s0, app[p]), C(0), ln, ln)
            elif isinstance(v, (Ptr, Iface, BigTm, ElTm)) :
                if p in freshp:
                    c = content_of(ex, st, v)
                    it = items[('p', p)] = mk_item(c)
                    pp = ex.newp(s0, placeholder(it))
                    r0[p] = pp if isinstance(v, (Ptr, BigTm)) else Iface('abselem', pp)
                    it.wrap = r0[p]
            elif isinstance(v, (T, F, ErrV, Bytes)):
                it = items[('p', p)] = mk_item(v)
                it.small = True
                r0[p] = placeholder(it)
                if known and p in known:
                    it.closed = known[p]
                    r0[p] = simp(it.closed(K))
            elif v is NIL or isinstance(v, (Slc, Str, Clo, Grp, Opq, Opt)): pass
            else: raise Unsupported(f'loop-carried {type(v).__name__}')
        arrays = {}
        for o in cells:
            c = st.heap[o]
            if isinstance(c, (Fam, ArrW, Ar)):
                arrays[o] = c
                if isinstance(c, Ar): raise Unsupported('array of fixed length in a symbolic loop')
                s0.heap[o] = ArrW(c, ())
                continue
            it = items[('c', o)] = mk_item(c)
            s0.heap[o] = placeholder(it)
        q0 = ex.quiet_panics
        ex.quiet_panics += 1
        fl = len(ex.frame)
        try: backs, exits, rets = run_body(ex, f, h, dict(r0), s0.fork())
        finally:
            ex.quiet_panics = q0
            del ex.frame[fl:]
        if not backs: raise Unsupported('loop without a back edge')
        s1, r1 = backs[0]
        more = False
        for o, c in st.heap.items():
            if o in cells: continue
            if s1.heap.get(o) is not s0.heap.get(o) and not same_val(s1.heap.get(o), s0.heap.get(o)):
                cells.add(o); more = True
        for p in phis:
            v = regs[p]
            if ('p', p) in items or p in grown: continue
            if isinstance(v, (Ptr, Iface, BigTm, ElTm)) and not same_val(r1[p], r0[p]):
                if ptr_of(r1[p]) is None and not isinstance(r1[p], (BigTm, ElTm)): raise Unsupported('loop-carried pointer')
                freshp.add(p); more = True
            elif not same_val(r1[p], v): raise Unsupported(f'loop-carried {type(v).__name__}')
        if more: continue
        if known is not None: break
        # counters: run the body once more with their range known
        known = {}
        for p in phis:
            it = items.get(('p', p))
            if it is None or it.kind != 't' or p in freshp: continue
            ab = split_linear(r1[p], it.ph) if isinstance(r1[p], T) else None
            if ab and is_c(ab[0]) and ab[0].a[0] == 1 and is_c(ab[1]):
                known[p] = (lambda i0, c: lambda j: add(i0, mul(c, j)))(it.init, ab[1])
        ids = {items[('p', p)].ph.id for p in known}
        if not known or not ranged(ids, [r1.get(p) for p in phis], [s1.heap.get(o) for o in cells], s1): break
        def guess(j, base):
            r = dict(r0)
            for p in known: r[p] = simp(known[p](j))
            return base.fork(), r
        q0 = ex.quiet_panics
        ex.quiet_panics += 1
        fl = len(ex.frame)
        try:
            n = trip(ex, f, h, s0, guess, K)
            if occurs(n, {phkey(it) for it in items.values()}): n = None
        except Unsupported: n = None
        finally:
            ex.quiet_panics = q0
            del ex.frame[fl:]
        bound = tuple(flat(Ge(K, C(0)))) + (tuple(flat(Lt(K, n))) if n is not None else ())
    else: raise Unsupported('loop-carried state')
    # updates
    upd = {}
    carried_out = set()
    for k, it in items.items():
        if it.closed: continue
        if k[0] == 'g': v = grown_by(s1, r1[k[1]], app[k[1]])[0]
        elif k[0] == 'p':
            v = r1[k[1]]
            if k[1] in freshp:
                pt = ptr_of(v)
                if pt is not None: carried_out.add(pt.oid)
                v = content_of(ex, s1, v)
        else: v = s1.heap[k[1]]
        upd[k] = raw(it, v)
    # solve in dependency order
    todo = dict(upd)
    keys = {phkey(items[k]): k for k in items if not items[k].closed}
    sub_ = {}
    def put_sub(k):
        it = items[k]
        c = it.closed(K)
        if it.kind in ('t', 'el'): sub_[it.ph.id] = c
        elif it.kind in ('f', 'err'): sub_[('f', it.ph.id)] = c
        else: sub_[it.ph] = c
    progress = True
    s_in = st.fork(Ge(K, C(0)))
    pending_last = []
    while todo and progress:
        progress = False
        for k in list(todo):
            u = substK(todo[k], sub_)
            if items[k].kind == 'bytes': u = sub_bytes(u, sub_)
            todo[k] = u
            others = occurs(u, {x for x in keys if keys[x] in todo and keys[x] != k})
            if others: continue
            fn = solve(ex, s_in, items[k], u, K)
            items[k].closed = fn
            if getattr(fn, 'last', False) and items[k].init is None:
                # no value at entry: nothing may read it
                del todo[k]; progress = True
                continue
            put_sub(k)
            del todo[k]
            progress = True
    if todo: raise Unsupported('mutually dependent loop state')
    # slices grown by append
    added = {}
    for p in grown:
        ln, ws = grown_by(s1, r1[p], app[p])
        if len(ws) != 1: raise Unsupported('several appends to a slice in a loop')
        added[p] = elem_template(ex, s1, ws[0], st, s0, carried_out, sub_)
    # array writes
    writes = {}
    for o, c in arrays.items():
        d = s1.heap[o]
        if not isinstance(d, ArrW) or d.base is not c: raise Unsupported('array rewritten in a loop')
        ws = []
        for i, v in d.ws:
            idx = substK(i, sub_)
            lin = split_linear(idx, K)
            if lin is None or not (is_c(lin[0]) and lin[0].a[0] == 1): raise Unsupported('array index in a loop')
            ws.append((lin[1], elem_template(ex, s1, v, st, s0, carried_out, sub_)))
        if len(ws) != 1: raise Unsupported('several writes to an array in a loop')
        writes[o] = (c, ws[0][0], ws[0][1])
    seen = set()
    for o in writes:
        for i, v in s1.heap[o].ws:
            p = ptr_of(v)
            if p is not None:
                if p.oid in seen: raise Unsupported('object stored twice in a loop')
                if p.oid not in st.heap: seen.add(p.oid)
    for g in grown:
        for v in grown_by(s1, r1[g], app[g])[1]:
            p = ptr_of(v)
            if p is not None:
                if p.oid in seen: raise Unsupported('object stored twice in a loop')
                if p.oid not in st.heap: seen.add(p.oid)
    # trip count from the exit condition
    def state_at(j, base):
        s = base.fork()
        r = dict(regs)
        for k, it in items.items():
            if k[0] == 'g':
                ln = simp(at(it, j))
                r[k[1]] = Slc(ex.new(s, app[k[1]]), C(0), ln, ln)
            elif k[0] == 'p':
                if k[1] in freshp:
                    v = regs[k[1]]
                    pt = ptr_of(v)
                    own = ex.owner(pt.oid) if pt is not None else v.own
                    c = at(it, j)
                    np = ex.newp(s, c, 'fresh' if own == 'fresh' else 'in', 'value carried into a loop')
                    r[k[1]] = np if isinstance(v, (Ptr, BigTm)) else Iface('abselem', np)
                else: r[k[1]] = at(it, j)
            else: s.heap[k[1]] = at(it, j)
        return s, r
    n = trip(ex, f, h, st, state_at, K)
    # induction step: obligations of the body and the next state
    sK, rK = state_at(K, st)
    sK.pc = sK.pc + flat(And(Ge(K, C(0)), Lt(K, n)))
    for o in arrays: sK.heap[o] = ArrW(arrays[o], ())
    last = []
    if smt.feasible(sK.pc):
        backs, exits, rets = run_body(ex, f, h, rK, sK.fork())
        if len(backs) != 1: raise Unsupported('loop body')
        s2, r2 = backs[0]
        ok = sK.fork()
        # what the body needs in order not to panic held in the last iteration
        for g in s2.pc[len(sK.pc):]:
            if g.op == 'le' or (g.op == 'not' and g.a[0].op == 'le'):
                ids = tids(g)
                if K.id in ids and all(i <= K.id for i in vids(g)): last.append(Or(Le(n, C(0)), substK(g, {K.id: sub(n, C(1))})))
        for k, it in items.items():
            if k[0] == 'g':
                ln, ws = grown_by(s2, r2[k[1]], app[k[1]])
                if len(ws) != 1: raise Unsupported('several appends to a slice in a loop')
                v = ln
            else: v = r2[k[1]] if k[0] == 'p' else s2.heap[k[1]]
            if k[0] == 'p' and k[1] in freshp: v = content_of(ex, s2, v)
            want = it.closed(add(K, C(1)))
            if not eq_raw(ok, it, raw(it, v), want): raise Unsupported('loop invariant is not inductive')
    else: exits, rets = [], []
    for k, it in items.items():
        if it.init is None: continue
        if not eq_raw(st, it, it.closed(C(0)), it.init): raise Unsupported('loop invariant does not hold initially')
    # early exits
    outs = []
    early = []
    for b, s, r, s3 in exits:
        if b == h: continue
        early.append((b, s, r, s3))
    stay = TRUE
    early_out = []
    for b, s, r, s3 in early:
        g = And(*s3.pc[len(sK.pc):])
        rr = {k: v for k, v in r.items() if k in f.live_in.get(s, ())}
        need = {k for k in f.live_in.get(s, ()) if k in r}
        fr = Frame(ex, f)
        # values needed after the exit must not depend on the iteration
        vals = dict(r)
        for ins in f.blocks[s]['i']:
            if ins['op'] != 'phi': break
            e = ins['edges'][f.blocks[s]['p'].index(b)]
            if isinstance(e, str): need.add(e)
        for k in need:
            if isinstance(r.get(k), ErrV) and K.id in tids(r[k].isnil):
                if not smt.implied(s3.pc, Not(r[k].isnil)): raise Unsupported('early exit depends on the iteration')
                r[k] = ErrV(FALSE)
            if isinstance(r.get(k), (T, F)) and K.id in tids(r[k]): raise Unsupported('early exit depends on the iteration')
            if ptr_of(r.get(k)) is not None and ptr_of(r[k]).oid not in st.heap:
                c = s3.heap[ptr_of(r[k]).oid]
                if isinstance(c, El): c = c.val
                if isinstance(c, (T, F)) and K.id in tids(c): raise Unsupported('early exit depends on the iteration')
                if isinstance(c, (St, Ar)): raise Unsupported('early exit depends on the iteration')
        never = Forall(n, lambda i: substK(Not(g), {K.id: i}))
        stay = And(stay, never)
        s4 = s3.fork()
        s4.pc = st.pc + flat(Not(never)) + flat(Gt(n, C(0)))
        for o in [k[1] for k in items if k[0] == 'c'] + list(arrays): s4.heap[o] = Poison()
        for p in grown: s4.heap[rK[p].oid] = Poison()
        for o, c in s4.heap.items():
            if isinstance(c, AppArr): s4.heap[o] = Poison()
        early_out.append((s, b, r, s4))
    for s3, v in rets:
        if any(k[0] in 'cg' for k in items) or arrays: raise Unsupported('early return of a loop that writes')
        raise Unsupported('return inside a symbolic loop')
    # exit at K = n
    st = st.fork()
    for g in last: st.pc = st.pc + flat(g)
    sN, rN = state_at(n, st)
    for o, (base, off, tmpl) in writes.items():
        sN.heap[o] = final_array(ex, st, base, off, n, tmpl, K)
    for p, tmpl in added.items():
        v = regs[p]
        b = bvar()
        t = subst_val(tmpl, {K.id: sub(b, v.ln)})
        if Eq(v.ln, C(0)) is not TRUE:
            fam = ex.libmod.family(ex, st, v)
            if fam is None: raise Unsupported('append of symbolic length')
            t = ex.ite_val(Lt(b, v.ln), fam(b), t)
            if t is None: raise Unsupported('append of symbolic length')
        else: t = subst_val(tmpl, {K.id: b})
        sN.heap[rN[p].oid] = Fam(rN[p].ln, b, t)
    sN.pc = sN.pc + flat(stay)
    fr = BodyFrame(ex, f, h)
    q0 = ex.quiet_panics
    fr.block(h, {x: 0 for x in f.nest[h]}, dict(rN), sN)
    if fr.back or len(fr.exits) != 1:
        # the header block must leave the loop
        if fr.q or not fr.exits: raise Unsupported('loop exit')
    for b, s, r, s3 in fr.exits: outs.append((s, b, r, s3))
    return outs + early_out

def grown_by(s, v, app):
    "(length, elements appended in one iteration) of a slice that the body grows"
    if not isinstance(v, Slc) or v.oid is None: raise Unsupported('loop-carried Slc')
    c = s.heap[v.oid]
    if not isinstance(c, AppArr) or c.key is not app.key or Eq(v.off, C(0)) is not TRUE: raise Unsupported('loop-carried Slc')
    return v.ln, c.ws

def sub_bytes(u, s):
    out = []
    for x in u:
        if x in s: out += list(s[x])
        else: out.append(x)
    return tuple(out)

def eq_raw(st, it, a, b):
    if a is b: return True
    if it.kind in ('t', 'el'):
        if a is None or b is None: return False
        e = Eq(a, b) if it.kind == 't' else EqM(a, b, it.grp.q)
        return e is TRUE or smt.implied(st.pc, e)
    if it.kind in ('f', 'err'):
        if fkey(expand(a)) == fkey(expand(b)): return True
        return smt.implied(st.pc, Iff(expand(a), expand(b)))
    return norm_rep(a) == norm_rep(b)

def norm_rep(segs):
    "unfold the last step of ('rep', K+1, body)"
    out = []
    for s in segs:
        if s[0] == 'rep':
            p = nf(s[1])
            c = p.get((), 0)
            if c > 0:
                base = simp(add(s[1], C(-c)))
                if not is_c(base): out.append(('rep', base, s[2]))
                for i in range(c): out += list(substK(s[2], {BV(10 ** 6).id: add(base, C(i))}))
                continue
        out.append(s)
    return [repr_seg(x) for x in out]
def repr_seg(s):
    return tm._argkey(s)[0]

def expand(f):
    "unfold Forall(K+1, g) to Forall(K, g) and g(K)"
    if f.op == 'and': return And(*[expand(x) for x in f.a])
    if f.op == 'not': return Not(expand(f.a[0]))
    if f.op == 'forall':
        n, b, g = f.a
        p = nf(n)
        c = p.get((), 0)
        if c > 0:
            base = add(n, C(-c))
            fs = [Forall(base, lambda i: substf(g, {b.id: i}))]
            for i in range(c): fs.append(substf(g, {b.id: add(base, C(i))}))
            return And(*fs)
    return f

def elem_template(ex, s1, v, st, s0, carried_out, sub_):
    "what is stored in an array slot, as a template in K"
    if isinstance(v, (T, F)): return substK(v, sub_)
    if isinstance(v, BigTm): return BigTm(substK(v.val, sub_), v.own)
    if isinstance(v, ElTm): return ElTm(v.grp, substK(v.val, sub_), v.own)
    p = ptr_of(v)
    if p is not None:
        if p.oid in carried_out: raise Unsupported('stored object is carried to the next iteration')
        if p.oid in st.heap: return v
        c = s1.heap[p.oid]
        if isinstance(c, T): return BigTm(substK(c, sub_), 'fresh')
        if isinstance(c, El):
            if c.val is None: raise Unsupported('element not set')
            return ElTm(c.grp, substK(c.val, sub_), 'fresh')
        if isinstance(c, St): raise Unsupported('struct elements')
    raise Unsupported(f'array element {v!r}')

def final_array(ex, st, base, off, n, tmpl, K):
    while isinstance(base, ArrW) and not base.ws: base = base.base
    if isinstance(base, ArrW) and isinstance(base.base, Fam):
        # single elements written before the loop: together with it they must cover the array
        k = fresh('idx', 0, base.base.n, 'idx')
        cover = Or(And(Ge(k, off), Lt(k, add(off, n))), *[Eq(k, i) for i, _ in base.ws])
        if not smt.implied(st.pc, cover): raise Unsupported('array written in part')
        b = bvar()
        r = subst_val(tmpl, {K.id: sub(b, off)})
        for i, v in base.ws:
            p = ptr_of(v)
            if p is not None:
                c = st.heap[p.oid]
                if isinstance(c, T): v = BigTm(c, ex.owner(p.oid))
                elif isinstance(c, El) and c.val is not None: v = ElTm(c.grp, c.val, ex.owner(p.oid))
            if not smt.implied(st.pc, Or(Lt(i, off), Ge(i, add(off, n)))): raise Unsupported('array written twice')
            r2 = ex.ite_val(Eq(b, i), v, r)
            if r2 is None: raise Unsupported('array written in part')
            if isinstance(r2, (BigTm, ElTm)): r2.own = v.own if v.own != 'fresh' else r.own
            r = r2
        return Fam(base.base.n, b, r)
    if not isinstance(base, Fam): raise Unsupported('array base')
    b = bvar()
    t = subst_val(tmpl, {K.id: sub(b, off)})
    whole = Eq(off, C(0)) is TRUE and (Eq(n, base.n) is TRUE or smt.implied(st.pc, Eq(n, base.n)))
    if whole: return Fam(base.n, b, t)
    old = subst_val(base.tmpl, {base.bv.id: b})
    inside = And(Ge(b, off), Lt(b, add(off, n)))
    r = ex.ite_val(inside, t, old)
    if r is None: raise Unsupported('array written in part')
    return Fam(base.n, b, r)

def trip(ex, f, h, st, state_at, K):
    "the number of iterations"
    sK, rK = state_at(K, st)
    sK.pc = sK.pc + flat(Ge(K, C(0)))
    # evaluate the header block's condition
    fr = Frame(ex, f)
    cond = []
    blk = f.blocks[h]
    last = blk['i'][-1]
    if last['op'] != 'if': raise Unsupported('loop without a condition in its header')
    t, e = blk['s']
    if (t in f.loops[h]) == (e in f.loops[h]): raise Unsupported('loop without a condition in its header')
    regs = dict(rK)
    for ins in blk['i'][:-1]:
        if ins['op'] == 'phi': continue
        if ins['op'] in ('store', 'alloc'): raise Unsupported('loop header with effects')
        if ins['op'] == 'call':
            outs = fr.call(ins['call'], regs, sK)
            if len(outs) != 1: raise Unsupported('loop header with branching calls')
            sK, v = outs[0]
            if 'r' in ins: regs[ins['r']] = v
            continue
        fr.simple(ins, ins['op'], regs, sK)
    c = fr.opval(regs, last['x'])
    go = c if t in f.loops[h] else Not(c)
    neg_ = False
    g = go
    if g.op == 'not' and g.a[0].op == 'le':
        # not (t <= 0)  ==  1 - t <= 0
        g = Le0(sub(C(1), g.a[0].a[0]))
    if g.op == 'not' and g.a[0].op == 'eq':
        # counter != bound: counts up or down to it by one
        ab = split_linear(g.a[0].a[0], K)
        if ab and is_c(ab[0]) and abs(ab[0].a[0]) == 1:
            n = simp(neg(ab[1]) if ab[0].a[0] == 1 else ab[1])
            if smt.implied(st.pc, Ge(n, C(0))): return n
        raise Unsupported('loop condition')
    if g.op != 'le': raise Unsupported('loop condition ' + showf(g)[:100])
    ab = split_linear(g.a[0], K)
    if ab is None or not is_c(ab[0]) or ab[0].a[0] <= 0: raise Unsupported('loop condition')
    a, b = ab[0].a[0], ab[1]
    if K.id in tids(b): raise Unsupported('loop condition')
    # continue while a*K + b <= 0
    m = neg(b)
    n = simp(add(m, C(1))) if a == 1 else add(div(m, C(a)), C(1))
    if smt.implied(st.pc, Ge(n, C(0))): return n
    return ite(Ge(n, C(0)), n, C(0))
