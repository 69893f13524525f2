"""The inner-product argument for vectors of every length 2^k, by induction on the rounds.

One round of the prover and one round of the verifier are executed for a vector of any even
length; what they hand on is stated as the same function of what they were given.  With the
entry, the last step and the verifier's exit this is an induction over the rounds:

  prover   (a, b, g, h, u, P, x, n)  ->  (a', b', g', h', u, P', x', n/2),  L and R appended
  invariant  P = <g, a> + <h, b> + (<a, b> + d) u,  with the same d in every round
  verifier (g, h, P, x) -> (g', h', P', x') from the L and R of the round: as the prover's
"""
from roots import job
from spec import *
from roots_bp import IPT, IPPT, SEEDU
from contracts import hash_ip, hash_round, dot
import lib

REC = 'bulletproofs.computeBipRecursive'
MAXN = 1 << 40

def ind(title):
    """A step of the induction. How the rounds are arranged is the code's own business: where a
    step does not go through, the group is open (lengths up to 32 are decided by roots_bp)"""
    def d(fn):
        @job('C06', title)
        def _(c):
            bad = []
            try: fn(c)
            finally:
                bad = [o for o in c.obs if o.status != 'proved']
                c.obs = [o for o in c.obs if o.status == 'proved']
            if bad: raise Unsupported(f'the induction does not go through: {bad[0].name}')
    return d

def fold(g, h, x, q, half):
    "the generators of the next round"
    xi = inv(x, q)
    return (lambda i: add(mul(xi, g(i)), mul(x, g(add(half, i))))), (lambda i: add(mul(x, h(i)), mul(xi, h(add(half, i)))))

def rec_args(c, **kw):
    f = c.fn(REC)
    names = list(f.params)
    want = ('a', 'b', 'g', 'h', 'u', 'P', 'x', 'n', 'Ls', 'Rs', 'SP')
    if len(names) != len(want): raise Missing('parameters of the recursion')
    return f, [kw[w] for w in want]

@ind('proving, one round of any even length')
def _(c):
    g = c.group()
    q = g.val.q
    half = V('half', 1, MAXN, 'len')
    n = mul(C(2), half)
    a, b, G, Hv = c.bigs('a', n), c.bigs('b', n), c.els(g, 'G', n), c.els(g, 'h', n)
    k = V('k', 0, 60, 'len')
    Ls, Rs = c.els(g, 'accL', k), c.els(g, 'accR', k)
    u, P, x = c.el(g, 'u'), c.el(g, 'P'), c.big('x')
    f, args = rec_args(c, a=a, b=b, g=G, h=Hv, u=u, P=P, x=x, n=n, Ls=Ls, Rs=Rs, SP=g)
    va, vb, vg, vh, vu, vP, vx, vL, vR = (c.view(v) for v in (a, b, G, Hv, u, P, x, Ls, Rs))
    rec = []
    def sp(ex, st, args):
        rec.append((st.fork(), args))
        ret = c.struct(IPT, P=c.el(g, 'retP'), Cc=NIL, A=c.big('retA'), B=c.big('retB'))
        for r in ret:
            if isinstance(r, Ptr): st.heap[r.oid] = c.st.heap[r.oid]
        return [(st, ret)]
    c.ex.contracts[f.name] = sp
    outs = c.body(REC, *args)
    c.prove('the round ends in one round of half the length', TRUE if len(rec) == 1 and len(outs) == 1 else FALSE)
    st, r = rec[0]
    c.cover('round', st)
    a2, b2, g2, h2, u2, P2, x2, n2, L2, R2, SP2 = (c.view(v, st) if i < 10 else v for i, v in enumerate(r))
    c.prove('half the length', And(*[Eq(w.n, half) for w in (a2, b2, g2, h2)], Eq(n2.t, half)), st)
    c.prove('one more pair', And(Eq(L2.n, add(k, C(1))), Eq(R2.n, add(k, C(1)))), st)
    i = fresh('i', 0, k, 'idx')
    c.prove('the pairs so far stay', And(Eq(L2[i].t, vL[i].t), Eq(R2[i].t, vR[i].t)), st)
    L, R = L2[k].t, R2[k].t
    sm = lambda p, s, o, t: summ(half, lambda i: mul(p[add(s, i)].t, o[add(t, i)].t))
    z = C(0)
    c.prove('L', EqM(L, add(sm(vg, half, va, z), sm(vh, z, vb, half), mul(vu.t, sm(va, z, vb, half))), q), st)
    c.prove('R', EqM(R, add(sm(vg, z, va, half), sm(vh, half, vb, z), mul(vu.t, sm(va, half, vb, z))), q), st)
    xx = hash_round(Elt(g.val, L), Elt(g.val, R), vx.t)
    c.prove('the challenge of the round', Eq(x2.t, xx), st)
    fg, fh = fold(lambda i: vg[i].t, lambda i: vh[i].t, xx, q, half)
    j = fresh('j', 0, half, 'idx')
    c.prove('g folded', EqM(g2[j].t, fg(j), q), st)
    c.prove('h folded', EqM(h2[j].t, fh(j), q), st)
    xi = inv(xx, q)
    c.prove('P folded', EqM(P2.t, add(vP.t, mul(xx, xx, L), mul(xi, xi, R)), q), st)
    c.prove('u stays', Eq(u2.t, vu.t), st)
    c.prove('the group stays', TRUE if same_val(SP2, g) else FALSE)
    d = V('d')
    inva = lambda g_, h_, a_, b_: add(dot(g_, a_), dot(h_, b_), mul(vu.t, add(dot(a_, b_), d)))
    want = inva(g2, h2, a2, b2)
    got = tm.subst(P2.t, {vP.t.id: inva(vg, vh, va, vb)})
    c.prove('the invariant is kept', EqM(got, want, q), st)
    s, v = outs[0]
    c.prove('the result of the rest is the result', TRUE if c.view(c.get(v, IPT, 'A'), s).t.a[0] == 'retA' else FALSE)
    c.no_panic('round')
    c.frame('round')

@ind('proving, the last step')
def _(c):
    g = c.group()
    a, b, G, Hv = c.bigs('a', 1), c.bigs('b', 1), c.els(g, 'G', 1), c.els(g, 'h', 1)
    k = V('k', 0, 60, 'len')
    Ls, Rs = c.els(g, 'accL', k), c.els(g, 'accR', k)
    f, args = rec_args(c, a=a, b=b, g=G, h=Hv, u=c.el(g, 'u'), P=c.el(g, 'P'), x=c.big('x'), n=C(1), Ls=Ls, Rs=Rs, SP=g)
    va, vb, vL, vR = (c.view(v) for v in (a, b, Ls, Rs))
    outs = c.body(REC, *args)
    c.prove('it returns', TRUE if len(outs) == 1 else FALSE)
    s, v = outs[0]
    get = lambda k: c.view(c.get(v, IPT, k), s)
    c.prove('what is left is sent', And(Eq(get('A').t, va[0].t), Eq(get('B').t, vb[0].t)), s)
    i = fresh('i', 0, k, 'idx')
    L, R = get('L'), get('R')
    c.prove('with the pairs of all rounds', And(Eq(L.n, k), Eq(R.n, k), Eq(L[i].t, vL[i].t), Eq(R[i].t, vR[i].t)), s)
    c.no_panic('last step')
    c.frame('last step')

@ind('proving, the start for any length')
def _(c):
    g = c.group()
    n = V('n', 1, MAXN, 'len')
    a, b, G, Hv = c.bigs('a', n), c.bigs('b', n), c.els(g, 'G', n), c.els(g, 'h', n)
    P, cc, U = c.el(g, 'P'), c.big('c'), c.el(g, 'U')
    par = c.struct(IPPT, Gg=G, Hh=Hv, Uu=U, GP=g)
    vg, vh, vP, vc, vU, va, vb = (c.view(v) for v in (G, Hv, P, cc, U, a, b))
    rec = []
    f = c.fn(REC)
    if len(f.params) != 11: raise Missing('parameters of the recursion')
    ret = {k: v for k, v in (('A', c.big('retA')), ('B', c.big('retB')), ('L', c.els(g, 'retL', V('kl', 0, 60, 'len'))), ('R', c.els(g, 'retR', V('kl', 0, 60, 'len'))))}
    def sp(ex, st, args):
        rec.append((st.fork(), args))
        return [(st, c.struct(IPT, P=c.el(g, 'P'), **ret))]
    c.ex.contracts[f.name] = sp
    outs = c.body('bulletproofs.proveInnerProduct', a, b, P, cc, par)
    c.prove('one chain of rounds', TRUE if len(rec) == 1 and len(outs) == 1 else FALSE)
    st, r = rec[0]
    a2, b2, g2, h2, u2, P2, x2, n2, L2, R2 = (c.view(v, st) for v in r[:10])
    i = fresh('i', 0, n, 'idx')
    for nm, w, o in (('a', a2, va), ('b', b2, vb), ('g', g2, vg), ('h', h2, vh)):
        c.prove(f'{nm} is what was given', And(Eq(w.n, n), Eq(w[i].t, o[i].t)), st)
    x0 = app('fba', (('dig', hash_ip(vg, vh, vP, vc)),))
    c.prove('the first challenge', Eq(x2.t, x0), st)
    c.prove('u', EqM(u2.t, mul(vU.t, x0), g.val.q), st)
    c.prove('P', EqM(P2.t, add(vP.t, mul(vU.t, x0, vc.t)), g.val.q), st)
    c.prove('n, and no pairs yet', And(Eq(n2.t, n), Eq(L2.n, C(0)), Eq(R2.n, C(0))), st)
    s, v = outs[0]
    c.prove('no error', c.view(v[1], s).isnil, s)
    get = lambda k: c.get(v[0], IPT, k)
    c.prove('the argument is for the statement', And(EqM(c.view(get('P'), s).t, vP.t, g.val.q), Eq(c.view(get('Cc'), s).t, vc.t)), s)
    for k, w in ret.items(): c.prove(f'{k} is that of the rounds', TRUE if same_val(get(k), w) else FALSE)
    c.prove('with the parameters', TRUE if same_val(get('Params'), par) else FALSE)
    c.no_panic('start')
    c.frame('start')

@ind('verifying an arbitrary argument for any length')
def _(c):
    import loops
    g = c.group()
    q = g.val.q
    n, n2, l, r = (V(x, 0, 1 << 30, 'len') for x in ('lenG', 'lenH', 'lenL', 'lenR'))
    G, Hv, U, P, cc, A, B = c.els(g, 'G', n), c.els(g, 'h', n2), c.el(g, 'U'), c.el(g, 'P'), c.big('Cc'), c.big('a'), c.big('b')
    L, R = c.els(g, 'L', l), c.els(g, 'R', r)
    pr = c.struct(IPT, P=P, Cc=cc, A=A, B=B, L=L, R=R, Params=c.struct(IPPT, Gg=G, Hh=Hv, Uu=U, GP=g))
    vG, vH, vU, vP, vc, vA, vB, vL, vR = (c.view(v) for v in (G, Hv, U, P, cc, A, B, L, R))
    ends = []
    def hook(fr, b, items, iters):
        phis = [i['r'] for i in fr.f.blocks[b]['i'] if i['op'] == 'phi']
        if len(items) != 1: return False
        st, regs = items[0]
        role = {}
        for p in phis:
            v = regs.get(p)
            if isinstance(v, Slc) and v.oid in (G.oid, Hv.oid): role[p] = 'g' if v.oid == G.oid else 'h'
        if sorted(role.values()) != ['g', 'h']: return False
        if ends: raise Unsupported('two loops over the generators')
        ex = c.ex
        x0 = app('fba', (('dig', hash_ip(vG, Vec(n, vH.get), vP, vc)),))
        PP = add(vP.t, mul(vU.t, x0, vc.t))
        def value(s, v):
            try: return c.view(v, s)
            except (Unsupported, KeyError, AttributeError, TypeError): return None
        for p in phis:
            if p in role: continue
            v = regs.get(p)
            w = value(st, v)
            if isinstance(w, Int) and is_c(w.t) and w.t.a[0] == 0: role[p] = 'i'
            elif isinstance(w, Int) and ex.decide(st, Eq(w.t, n)) is True: role[p] = 'n'
            elif isinstance(w, Big) and w.t is x0: role[p] = 'x'
            elif isinstance(w, Elt): role[p] = 'P'
            else: raise Unsupported('a loop variable of another kind')
        cells = [v for p, v in regs.items() if p not in role and isinstance(value(st, v), Elt) and ex.owner(v.val.oid if isinstance(v, Iface) else v.oid) == 'fresh']
        cells = [v for v in cells if tm.eqz_mod(value(st, v).t, PP, q)] if hasattr(tm, 'eqz_mod') else [v for v in cells if ex.decide(st, EqM(value(st, v).t, PP, q)) is True]
        if 'P' not in role.values() and len(cells) != 1: raise Unsupported('no folded commitment')
        # the entry
        for p in phis:
            w = value(st, regs[p])
            if role[p] == 'P': c.prove('entry: P', EqM(w.t, PP, q), st)
            if role[p] in 'gh': c.prove(f'entry: {role[p]}', Eq(w.n, n), st)
        for k in 'gix':
            if k != 'i' and k not in role.values(): raise Unsupported('no ' + k)
        # the state of an arbitrary round
        def state(size, K, tag):
            s = st.fork()
            rr = dict(regs)
            def elv(p, name):
                v = regs[p] if not isinstance(p, (Iface, Ptr)) else p
                x = V(name)
                if isinstance(p, str):
                    e = c.el(g, x)
                    s.heap.update({o: z for o, z in c.st.heap.items() if o not in s.heap})
                    rr[p] = e
                else:
                    o = v.val.oid if isinstance(v, Iface) else v.oid
                    old = s.heap[o]
                    if not isinstance(old, El): raise Unsupported('the folded commitment')
                    s.heap[o] = El(old.grp, x)
                return x
            d = {}
            for p, k in role.items():
                if k in 'gh': rr[p] = c.els(g, k + tag, size)
                elif k == 'i': rr[p] = K
                elif k == 'n': rr[p] = size if isinstance(size, T) else C(size)
                elif k == 'x': rr[p] = c.big('x' + tag)
                else: d['P'] = elv(p, 'P' + tag)
            if 'P' not in role.values(): d['P'] = elv(cells[0], 'P' + tag)
            s.heap.update({o: z for o, z in c.st.heap.items() if o not in s.heap})
            for p, k in role.items():
                if k in 'ghx': d[k] = c.view(rr[p], s)
            return s, rr, d
        half, K = V('half', 1, 1 << 29, 'len'), V('K', 0, 1 << 30, 'len')
        s, rr, d = state(mul(C(2), half), K, 'K')
        s.pc = s.pc + flat(Lt(K, l))
        outs, exits, rets = loops.run_body(ex, fr.f, b, rr, s)
        exits = [e for e in exits if smt.feasible(e[3].pc)]
        if len(outs) != 1 or exits or rets: raise Unsupported('a round with several ends')
        t, r2 = outs[0]
        c.cover('a round', t)
        xx = hash_round(vL[K], vR[K], d['x'].t)
        xi = inv(xx, q)
        fg, fh = fold(lambda i: d['g'][i].t, lambda i: d['h'][i].t, xx, q, half)
        j = fresh('j', 0, half, 'idx')
        for p, k in role.items():
            w = c.view(r2[p], t)
            if k == 'i': c.prove('round: the next one follows', Eq(w.t, add(K, C(1))), t)
            if k == 'n': c.prove('round: half the length', Eq(w.t, half), t)
            if k == 'x': c.prove('round: the challenge', Eq(w.t, xx), t)
            if k in 'gh': c.prove(f'round: {k} folded', And(Eq(w.n, half), EqM(w[j].t, (fg if k == 'g' else fh)(j), q)), t)
        w = c.view(r2[next(p for p, k in role.items() if k == 'P')] if 'P' in role.values() else cells[0], t)
        c.prove('round: P folded', EqM(w.t, add(d['P'], mul(xx, xx, vL[K].t), mul(xi, xi, vR[K].t)), q), t)
        pc_ = None if 'P' in role.values() else (cells[0].val.oid if isinstance(cells[0], Iface) else cells[0].oid)
        for o, z in s.heap.items():
            if o != pc_ and not (t.heap.get(o) is z or same_val(t.heap.get(o), z)): raise Unsupported('a round that changes something else')
        for p, z in rr.items():
            if p not in role and p in r2 and not same_val(r2[p], z): raise Unsupported('a round that changes another variable')
        # after the last round
        s, rr, d = state(1, l, 'E')
        ends.append(d)
        fr.block(b, iters, rr, s)
        return True
    c.ex.loophook = hook
    k_ = 0
    for s, v in c.call('(bulletproofs.InnerProductProof).Verify', pr):
        if not smt.feasible(s.pc): continue
        w = c.view(v, s)
        # refused: not for vectors of length 2^k and k rounds
        for k in range(30):
            sub_ = {n.id: C(2 ** k), n2.id: C(2 ** k), l.id: C(k), r.id: C(k)}
            f = And(*[tm.substf(x, sub_) for x in s.pc], Not(tm.substf(w[1].isnil, sub_)))
            if f is not FALSE: c.prove(f'not refused for {k} rounds of 2^{k} generators', Not(f))
        s = s.fork(w[1].isnil)
        if not smt.feasible(s.pc): continue
        if len(ends) != 1: raise Unsupported('no loop over the rounds')
        k_ += 1
        d = ends[0]
        x0 = app('fba', (('dig', hash_ip(vG, Vec(n, vH.get), vP, vc)),))
        c.prove('accepted exactly when the folded equation holds', Iff(w[0].f, EqM(d['P'], add(mul(vA.t, d['g'][0].t), mul(vB.t, d['h'][0].t), mul(vU.t, x0, vA.t, vB.t)), q)), s)
    c.prove('some execution returns', TRUE if k_ else FALSE)
    c.no_panic('verifying')
    c.frame('verifying')
