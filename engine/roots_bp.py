"""Range proofs, aggregated range proofs, the inner-product argument."""
from roots import job
from spec import *
from contracts import delta, sumpow, hash_bp, hash_ip, hash_round, H, es, dot
import contracts

SIZES = (1, 2, 4, 8, 16, 32)
BPT, MBT, IPT = 'bulletproofs.BulletProof', 'bulletproofs.MultiBulletProof', 'bulletproofs.InnerProductProof'
SPT, IPPT = 'bulletproofs.BulletProofSetupParams', 'bulletproofs.InnerProductParams'
SEEDU = 'BulletproofsDoesNotNeedTrustedSetupU'

def log2(n): return n.bit_length() - 1

def sym_params(c, g, N):
    return c.struct(SPT, N=C(N), G=c.el(g, C(1)), H=c.el(g, 'H'), Gg=c.els(g, 'G', N), Hh=c.els(g, 'h', N), GP=g)

def sym_ipp(c, g, k, params=None):
    kw = {} if params is None else {'Params': params}
    return c.struct(IPT, P=c.el(g, 'P'), Cc=c.big('Cc'), A=c.big('a'), B=c.big('b'), L=c.els(g, 'L', k), R=c.els(g, 'R', k), **kw)

def ipp_ok(q, Gs, Hs, u, L, R, P, Cc, a, b, name):
    "P, Cc, a, b terms; Gs, Hs, L, R lists of terms: the inner-product equation"
    n = len(Gs)
    E_ = lambda t: Elt(name, t)
    x0 = app('fba', (('dig', hash_ip(vec(*[E_(t) for t in Gs]), vec(*[E_(t) for t in Hs]), E_(P), Big(Cc))),))
    ux = mul(u, x0)
    xs, x = [], x0
    for l, r in zip(L, R):
        x = hash_round(E_(l), E_(r), x)
        xs.append(x)
    lhs = [P, mul(ux, Cc)]
    for x, l, r in zip(xs, L, R):
        xi = inv(x, q)
        lhs += [mul(x, x, l), mul(xi, xi, r)]
    k = len(xs)
    sg, sh = [], []
    for i in range(n):
        s, t = [], []
        for j, x in enumerate(xs):
            hi = (i >> (k - 1 - j)) & 1
            s.append(x if hi else inv(x, q)); t.append(inv(x, q) if hi else x)
        sg.append(mul(Gs[i], *s)); sh.append(mul(Hs[i], *t))
    rhs = [mul(a, add(C(0), *sg)), mul(b, add(C(0), *sh)), mul(ux, a, b)]
    return EqM(add(*lhs), add(*rhs), q)

def elts(c, v):
    w = c.view(v)
    return [w[i].t for i in range(w.n.a[0])]

def bp_accept(c, g, N, Vs, pr, multi):
    "the verification equations of a range proof over the verifier's own parameters"
    q = g.val.q
    f = lambda *p: c.view(c.get(pr, MBT if multi else BPT, *p)).t
    A, S, T1, T2 = (Elt(g.val, f(k)) for k in ('A', 'S', 'T1', 'T2'))
    taux, mu, tp = f('Taux'), f('Mu'), f('Tprime')
    Hh, Gg = elts(c, c.get(pr, MBT if multi else BPT, 'Params', 'Hh')), elts(c, c.get(pr, MBT if multi else BPT, 'Params', 'Gg'))
    Ht = f('Params', 'H')
    Vl = [Elt(g.val, t) for t in Vs]
    x = hash_bp(*Vl, A, S, T1, T2)[0]
    y, z = hash_bp(*Vl, A, S)
    m = len(Vs)
    n = N // m
    s1 = sumpow(y, C(N))
    dl = sub(mul(sub(z, mul(z, z)), s1), add(C(0), *[mul(power(z, C(3 + j)), sumpow(C(2), C(n))) for j in range(m)]))
    e65 = EqM(add(*[mul(v, power(z, C(2 + j))) for j, v in enumerate(Vs)], dl, mul(T1.t, x), mul(T2.t, x, x)), add(tp, mul(taux, Ht)), q)
    yi = inv(y, q)
    hp = [mul(h, power(yi, C(i))) for i, h in enumerate(Hh)]
    P, Cc, a, b = (f('InnerProductProof', k) for k in ('P', 'Cc', 'A', 'B'))
    L, R = (elts(c, c.get(pr, MBT if multi else BPT, 'InnerProductProof', k)) for k in 'LR')
    e67 = EqM(add(mul(mu, Ht), P),
              add(A.t, mul(x, S.t), *[mul(C(-1), z, G) for G in Gg],
                  *[mul(hp[i], add(mul(z, power(y, C(i))), mul(power(z, C(2 + i // n)), C(2 ** (i % n))))) for i in range(N)]), q)
    u = lib.mtg(g.val, (('lit', SEEDU),))
    ip = ipp_ok(q, Gg, hp, u, L, R, P, Cc, a, b, g.val)
    return And(e65, e67, Eq(Cc, tp), ip)

def result(c, nm, outs, want, err=None):
    "every outcome (bool, error) agrees with the specification"
    if not outs: c.obs.append(Ob(nm, 'failed', 'exec', 0.0, 'no execution returns'))
    for s, v in outs:
        if not smt.feasible(s.pc): continue
        w = c.view(v, s)
        if not (isinstance(w, tuple) and isinstance(w[0], Bl)): raise Unsupported('result shape')
        c.prove(nm, Iff(w[0].f, want), s)
        if err is not None: c.prove(nm + ' error', Iff(w[1].isnil, err), s)

def bits(N, pfx='v'):
    return [V(f'{pfx}{i}', 0, 1, 'bit') for i in range(N)]
def val(bs): return add(C(0), *[mul(C(2 ** i), b) for i, b in enumerate(bs)])

def setup(c, N):
    g = c.group()
    r = c.call('bulletproofs.Setup', C(2 ** N), g)
    r = [(s, v) for s, v in r if smt.feasible(s.pc)]
    if len(r) != 1: raise Unsupported('Setup: several outcomes')
    c.st, v = r[0]
    c.prove(f'Setup(2^{N}) succeeds', c.view(v[1]).isnil)
    return g, v[0]

# ---- C02: completeness ---------------------------------------------------------
def complete(N):
    def f(c):
        g, params = setup(c, N)
        bs = bits(N)
        sec = c.big(val(bs))
        outs = c.call('bulletproofs.Prove', sec, params)
        for s, v in outs:
            if not smt.feasible(s.pc): continue
            c.cover(f'Prove N={N}', s)
            c.st = s
            c.prove(f'Prove N={N} succeeds', c.view(v[2]).isnil)
            H_ = c.view(c.get(params, SPT, 'H')).t
            c.prove_eq(f'N={N}: V commits to the value under the returned blinding', c.view(c.get(v[0], BPT, 'V')), Elt(g.val, add(val(bs), mul(H_, c.view(v[1]).t))))
            p = c.ex.newp(s, v[0])
            result(c, f'N={N}: honest proof accepted', c.call('(*bulletproofs.BulletProof).Verify', p, st=s), TRUE, TRUE)
        c.no_panic(f'Prove/Verify N={N}')
    return f
def outside(N):
    def f(c):
        g, params = setup(c, N)
        bs, hi = bits(N), V('hi')
        sec = c.big(add(val(bs), mul(C(2 ** N), hi)))
        outs = c.call('bulletproofs.Prove', sec, params)
        for s, v in outs:
            if not smt.feasible(s.pc): continue
            c.st = s
            if c.ex.decide(s, c.view(v[2]).isnil) is False: continue
            p = c.ex.newp(s, v[0])
            z = hash_bp(*(c.view(c.get(v[0], BPT, k)) for k in 'VAS'))[1]
            # z and 2 are units, so this is hi = 0 modulo the group order
            result(c, f'N={N}: value + {2**N}·hi accepted only if hi is zero modulo the group order', c.call('(*bulletproofs.BulletProof).Verify', p, st=s), EqM(mul(z, z, C(2 ** N), hi), C(0), g.val.q))
    return f
for N in SIZES:
    job('C02', f'completeness N={N}', weight=N)(complete(N))
    job('C02', f'out of range N={N}', 'quick', weight=N)(outside(N))

# ---- C03: acceptance -----------------------------------------------------------
def bp_struct(c, g, N, ipp):
    return c.struct(BPT, V=c.el(g, 'V'), A=c.el(g, 'A'), S=c.el(g, 'S'), T1=c.el(g, 'T1'), T2=c.el(g, 'T2'), Taux=c.big('taux'), Mu=c.big('mu'),
                    Tprime=c.big('tp'), InnerProductProof=ipp, Params=sym_params(c, g, N))
def foreign(c, g):
    "inner-product parameters the prover put in the proof: of any size, to be ignored"
    n = V('fn', 0, 1 << 30, 'len')
    return c.struct(IPPT, Gg=c.els(g, 'fG', n), Hh=c.els(g, 'fH', n), Uu=c.el(g, 'fU'), GP=g)
def accept(N):
    def f(c):
        g = c.group()
        pr = bp_struct(c, g, N, sym_ipp(c, g, log2(N), foreign(c, g)))
        p = c.ex.newp(c.st, pr, 'in', 'proof')
        outs = c.call('(*bulletproofs.BulletProof).Verify', p)
        want = bp_accept(c, g, N, [c.view(c.get(pr, BPT, 'V')).t], pr, False)
        c.prove(f'N={N}: acceptance is neither always nor never', TRUE if want not in (TRUE, FALSE) else FALSE)
        result(c, f'N={N}: accepted exactly when the equations hold', outs, want, TRUE)
        c.no_panic(f'Verify N={N}')
    return f
def wrong_shape(N, multi=False):
    def f(c):
        g = c.group()
        l, r = V('lenL', 0, 1 << 30, 'len'), V('lenR', 0, 1 << 30, 'len')
        ipp = c.struct(IPT, P=c.el(g, 'P'), Cc=c.big('Cc'), A=c.big('a'), B=c.big('b'), L=c.els(g, 'L', l), R=c.els(g, 'R', r), Params=foreign(c, g))
        T_ = MBT if multi else BPT
        pr = mbp_struct(c, g, N, 1, ipp) if multi else bp_struct(c, g, N, ipp)
        p = c.ex.newp(c.st, pr, 'in', 'proof')
        s = c.st.fork(Or(Ne(l, C(log2(N))), Ne(r, C(log2(N)))))
        outs = c.call(f'(*{T_}).Verify', p, st=s)
        result(c, f'N={N}: rejected when the folding rounds do not match the range', outs, FALSE)
        c.no_panic(f'Verify N={N} malformed')
    return f
for N in SIZES:
    job('C03', f'acceptance N={N}', weight=N)(accept(N))
    job('C03', f'wrong shape N={N}', 'quick', weight=N)(wrong_shape(N))

# ---- C04/C05: aggregation --------------------------------------------------------
def mbp_struct(c, g, N, m, ipp):
    return c.struct(MBT, Vs=c.els(g, 'V', m), A=c.el(g, 'A'), S=c.el(g, 'S'), T1=c.el(g, 'T1'), T2=c.el(g, 'T2'), Taux=c.big('taux'), Mu=c.big('mu'),
                    Tprime=c.big('tp'), InnerProductProof=ipp, Params=sym_params(c, g, N))
def mcomplete(N, m):
    def f(c):
        g, params = setup(c, N)
        n = N // m
        vs = [val(bits(n, f'v{j}_')) for j in range(m)]
        secs = c.slice([c.big(v) for v in vs], 'secrets')
        for s, v in c.call('bulletproofs.MultiProve', secs, params):
            if not smt.feasible(s.pc): continue
            c.cover(f'MultiProve N={N} m={m}', s)
            c.st = s
            c.prove(f'MultiProve N={N} m={m} succeeds', c.view(v[2]).isnil)
            H_ = c.view(c.get(params, SPT, 'H')).t
            ga = c.view(v[1])
            c.prove_eq(f'N={N} m={m}: commitments to the values under the returned blindings', c.view(c.get(v[0], MBT, 'Vs')), vec(*[Elt(g.val, add(vs[j], mul(H_, ga[j].t))) for j in range(m)]))
            p = c.ex.newp(s, v[0])
            result(c, f'N={N} m={m}: honest aggregated proof accepted', c.call('(*bulletproofs.MultiBulletProof).Verify', p, st=s), TRUE, TRUE)
        c.no_panic(f'MultiProve/Verify N={N} m={m}')
    return f
def maccept(N, m):
    def f(c):
        g = c.group()
        pr = mbp_struct(c, g, N, m, sym_ipp(c, g, log2(N), foreign(c, g)))
        p = c.ex.newp(c.st, pr, 'in', 'proof')
        outs = c.call('(*bulletproofs.MultiBulletProof).Verify', p)
        want = bp_accept(c, g, N, elts(c, c.get(pr, MBT, 'Vs')), pr, True)
        c.prove(f'N={N} m={m}: acceptance is neither always nor never', TRUE if want not in (TRUE, FALSE) else FALSE)
        result(c, f'N={N} m={m}: accepted exactly when the equations hold', outs, want, TRUE)
        c.no_panic(f'Verify N={N} m={m}')
    return f
def mrefuse(N, prove):
    def f(c):
        g = c.group()
        m = V('count', 0, 1 << 30, 'len')
        s0 = c.st
        bad = And(*[Ne(m, C(d)) for d in range(1, N + 1) if N % d == 0])
        if prove:
            secs = c.bigs('secret', m)
            outs = c.call('bulletproofs.MultiProve', secs, sym_params(c, g, N), st=c.st.fork(bad))
            if not outs: c.obs.append(Ob(f'N={N}', 'failed', 'exec', 0.0, 'no execution returns'))
            for s, v in outs: c.prove(f'N={N}: refuses a number of values that does not split the range', Not(c.view(v[2], s).isnil), s)
        else:
            pr = c.setf(mbp_struct(c, g, N, 1, sym_ipp(c, g, log2(N), foreign(c, g))), MBT, Vs=c.els(g, 'V', m))
            p = c.ex.newp(c.st, pr, 'in', 'proof')
            outs = c.call('(*bulletproofs.MultiBulletProof).Verify', p, st=c.st.fork(bad))
            result(c, f'N={N}: rejects a number of commitments that does not split the range', outs, FALSE)
        c.no_panic(f'N={N} uneven')
    return f
for N in SIZES:
    for m in SIZES:
        if m > N: continue
        job('C04', f'aggregated completeness N={N} m={m}', weight=N)(mcomplete(N, m))
        job('C05', f'aggregated acceptance N={N} m={m}', weight=N)(maccept(N, m))
    job('C04', f'uneven split refused N={N}')(mrefuse(N, True))
    job('C05', f'uneven split rejected N={N}')(mrefuse(N, False))
    job('C05', f'wrong shape N={N}', 'quick', weight=N)(wrong_shape(N, True))

# ---- C06: inner-product argument ---------------------------------------------------
def ipcomplete(n):
    def f(c):
        g = c.group()
        G, Hv = c.els(g, 'G', n), c.els(g, 'h', n)
        a, b = c.bigs('a', n), c.bigs('b', n)
        params = c.call1('bulletproofs.setupInnerProduct', G, Hv, C(n), g)
        c.prove(f'n={n}: setup succeeds', c.view(params[1]).isnil)
        va, vb, vg, vh = (c.view(x) for x in (a, b, G, Hv))
        q = g.val.q
        cc = mod(dot(va, vb), q)
        P = c.el(g, add(dot(vg, va), dot(vh, vb)))
        for s, v in c.call('bulletproofs.proveInnerProduct', a, b, P, c.big(cc), params[0]):
            if not smt.feasible(s.pc): continue
            c.cover(f'proveInnerProduct n={n}', s)
            c.prove(f'n={n}: proving succeeds', c.view(v[1], s).isnil, s)
            result(c, f'n={n}: honest argument accepted', c.call('(bulletproofs.InnerProductProof).Verify', v[0], st=s), TRUE, TRUE)
        # a wrong claimed product is rejected unless the u-term vanishes
        c.no_panic(f'inner product n={n}')
    return f
def ipwrong(n):
    def f(c):
        g = c.group()
        G, Hv = c.els(g, 'G', n), c.els(g, 'h', n)
        a, b = c.bigs('a', n), c.bigs('b', n)
        params = c.call1('bulletproofs.setupInnerProduct', G, Hv, C(n), g)
        va, vb, vg, vh = (c.view(x) for x in (a, b, G, Hv))
        q = g.val.q
        d = V('d')
        claimed = add(dot(va, vb), d)
        P = c.el(g, add(dot(vg, va), dot(vh, vb)))
        for s, v in c.call('bulletproofs.proveInnerProduct', a, b, P, c.big(claimed), params[0]):
            if not smt.feasible(s.pc): continue
            u = lib.mtg(g.val, (('lit', SEEDU),))
            x0 = app('fba', (('dig', hash_ip(vg, vh, c.view(P), Big(claimed))),))
            result(c, f'n={n}: claim off by d accepted only if u^(x·d) is the identity', c.call('(bulletproofs.InnerProductProof).Verify', v[0], st=s), EqM(mul(u, x0, d), C(0), q))
    return f
def ipaccept(n):
    def f(c):
        g = c.group()
        G, Hv = c.els(g, 'G', n), c.els(g, 'h', n)
        u = c.el(g, 'U')
        pr = sym_ipp(c, g, log2(n), c.struct(IPPT, Gg=G, Hh=Hv, Uu=u, GP=g))
        outs = c.call('(bulletproofs.InnerProductProof).Verify', pr)
        t = lambda k: c.view(c.get(pr, IPT, k)).t
        want = ipp_ok(g.val.q, elts(c, G), elts(c, Hv), c.view(u).t, elts(c, c.get(pr, IPT, 'L')), elts(c, c.get(pr, IPT, 'R')), t('P'), t('Cc'), t('A'), t('B'), g.val)
        result(c, f'n={n}: accepted exactly when the folded equation holds', outs, want, TRUE)
        c.no_panic(f'inner product Verify n={n}')
    return f
def ipshape(c):
    g = c.group()
    n, n2, l, r = (V(x, 0, 1 << 30, 'len') for x in ('lenG', 'lenH', 'lenL', 'lenR'))
    pr = c.struct(IPT, P=c.el(g, 'P'), Cc=c.big('Cc'), A=c.big('a'), B=c.big('b'), L=c.els(g, 'L', l), R=c.els(g, 'R', r),
                  Params=c.struct(IPPT, Gg=c.els(g, 'G', n), Hh=c.els(g, 'h', n2), Uu=c.el(g, 'U'), GP=g))
    s = c.st.fork(Or(Ne(n, n2), Ne(l, r)))
    result(c, 'rejected when the generator vectors or the rounds differ in number', c.call('(bulletproofs.InnerProductProof).Verify', pr, st=s), FALSE, FALSE)
    c.no_panic('inner product Verify, unequal lengths')
def iprounds(n):
    def f(c):
        "n generators of each kind, any number of rounds but log2 n"
        g = c.group()
        l = V('lenL', 0, 1 << 30, 'len')
        pr = c.struct(IPT, P=c.el(g, 'P'), Cc=c.big('Cc'), A=c.big('a'), B=c.big('b'), L=c.els(g, 'L', l), R=c.els(g, 'R', l),
                      Params=c.struct(IPPT, Gg=c.els(g, 'G', n), Hh=c.els(g, 'h', n), Uu=c.el(g, 'U'), GP=g))
        s = c.st.fork(Ne(l, C(log2(n)))) if n & (n - 1) == 0 and n else c.st
        result(c, f'{n} generators and another number of rounds than their logarithm: rejected', c.call('(bulletproofs.InnerProductProof).Verify', pr, st=s), FALSE, FALSE)
        c.no_panic(f'inner product Verify, {n} generators and a wrong number of rounds')
    return f
def iplen(n, m):
    def f(c):
        "vectors of different lengths are refused; n = None: of any lengths"
        g = c.group()
        k = max(n, m) if n is not None else 4
        par = c.struct(IPPT, Gg=c.els(g, 'G', k), Hh=c.els(g, 'h', k), Uu=c.el(g, 'U'), GP=g)
        la, lb = (V('lenA', 0, 1 << 30, 'len'), V('lenB', 0, 1 << 30, 'len')) if n is None else (n, m)
        a, b = c.bigs('a', la), c.bigs('b', lb)
        if n is None: c.st = c.st.fork(Ne(la, lb))
        outs = c.call('bulletproofs.proveInnerProduct', a, b, c.el(g, 'P'), c.big('c'), par)
        w = 'any lengths' if n is None else f'lengths {n} and {m}'
        c.prove(f'{w}: some execution returns', TRUE if any(smt.feasible(t.pc) for t, _ in outs) else FALSE)
        for t, v in outs:
            if smt.feasible(t.pc): c.prove(f'{w}: vectors of different lengths are refused', Not(c.view(v[1], t).isnil), t)
        c.no_panic(f'proveInnerProduct, {w}')
    return f
for n in SIZES:
    job('C06', f'completeness n={n}', weight=n)(ipcomplete(n))
    job('C06', f'wrong product n={n}', 'quick', weight=n)(ipwrong(n))
    job('C06', f'acceptance n={n}', weight=n)(ipaccept(n))
job('C06', 'unequal lengths')(ipshape)
for n in (0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 31, 32): job('C06', f'wrong number of rounds n={n}')(iprounds(n))
job('C06', 'vectors of any different lengths')(iplen(None, None))
for n, m in ((1, 2), (2, 1), (2, 4), (4, 2), (3, 4), (4, 3), (1, 8), (8, 1), (0, 1), (1, 0), (8, 4), (4, 8)): job('C06', f'vectors of lengths {n} and {m}')(iplen(n, m))
