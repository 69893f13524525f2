"""The sigma protocol that ties the ciphertext to the range-proof commitments."""
from roots import job
from spec import *
from contracts import H, es
from roots_bp import result

GPT, PPT, SPF, VCT = 'voteproof.GroupParameters', 'voteproof.ProofParams', 'voteproof.SigmaProof', 'voteproof.VerCommitments'

def gparams(c, g, h):
    return c.struct(GPT, G=c.el(g, C(1)), H=c.el(g, h), N=Ptr(g.val.noid), F=Ptr(g.val.poid), I=g)

def groups(c):
    return c.group('FF'), c.group('EC')

def emb(c, tname, **kw):
    "a struct with embedded structs: fields given by their promoted names"
    t = c.typ(tname)
    def mkst(t):
        out = []
        for f in c.ex.U(t)['fields']:
            if f['name'] in kw: out.append(kw.pop(f['name']))
            elif f['emb'] and c.ex.U(f['t'])['k'] == 'struct': out.append(mkst(f['t']))
            else: out.append(Poison(f'{tname}.{f["name"]} is not part of the specification'))
        return St(out)
    r = mkst(t)
    if kw: raise Missing(f'{tname}.{sorted(kw)}')
    return r

def prom(c, v, tname, name):
    "a field, promoted or not"
    def go(v, t):
        fs = c.ex.U(t)['fields']
        for f, x in zip(fs, v):
            if f['name'] == name: return x
        for f, x in zip(fs, v):
            if f['emb'] and c.ex.U(f['t'])['k'] == 'struct':
                r = go(x, f['t'])
                if r is not None: return r
        return None
    r = go(v, c.typ(tname))
    if r is None: raise Missing(f'{tname}.{name}')
    return r

def lens(c):
    "parameter lengths that Setup accepts"
    bx, bc, bg = V('Bx', 0, 255), V('Bc', 0, 256), V('Bg', 0, 65535)
    bb = add(bg, C(-1), neg(bx), neg(bc))
    c.st.pc += flat(Ge(bb, C(1)))
    return bx, bc, bg, bb

def challenge(els, bc):
    h = H(*[es(e) for e in els])
    return div(h, power(C(2), sub(C(256), mul(C(8), div(bc, C(8))))))

def mk_params(c, gF, gE, bx, bc, bg, bb, lo, hi):
    return emb(c, PPT, Bx=bx, Bc=bc, Bg=bg, Bb=bb, RangeLo=lo, RangeHi=hi, GFF=gparams(c, gF, 'hF'), GEC=gparams(c, gE, 'hE'))

def sigma_accept(c, gF, gE, bx, bc, bb, pr, Y, Xp, Xq1, Xq2, hF, hE):
    f = lambda k: c.view(prom(c, pr, SPF, k))
    W, Kp, Kq1, Kq2 = (f(k) for k in ('W', 'Kp', 'Kq1', 'Kq2'))
    ch, Z, Sp, Sq1, Sq2 = (f(k).t for k in ('Challenge', 'Z', 'Sp', 'Sq1', 'Sq2'))
    qF, qE = gF.val.q, gE.val.q
    lo = add(bx, bc)
    return And(Le(power(C(2), lo), Z), Lt(Z, power(C(2), add(lo, bb))),
               Eq(ch, challenge([Elt(gF.val, Y), Elt(gF.val, Xp), Elt(gE.val, Xq1), Elt(gE.val, Xq2), W, Kp, Kq1, Kq2], bc)),
               EqM(Sp, add(mul(Y, ch), W.t), qF),
               EqM(add(Z, mul(Sp, hF)), add(mul(Xp, ch), Kp.t), qF),
               EqM(add(Z, mul(Sq1, hE)), add(mul(Xq1, ch), Kq1.t), qE),
               EqM(add(Z, mul(Sq2, hE)), add(mul(Xq2, ch), Kq2.t), qE))

def sym_sigma(c, gF, gE, params):
    return emb(c, SPF, W=c.el(gF, 'W'), Kp=c.el(gF, 'Kp'), Kq1=c.el(gE, 'Kq1'), Kq2=c.el(gE, 'Kq2'), Challenge=c.big('chal'), Z=c.big('Z'),
               Sp=c.big('Sp'), Sq1=c.big('Sq1'), Sq2=c.big('Sq2'), Params=params)

@job('C07', 'completeness')
def _(c):
    gF, gE = groups(c)
    bx, bc, bg, bb = lens(c)
    # the secret scalars are wide enough for both groups
    for g in (gF, gE): c.st.pc += flat(Le(power(C(2), sub(bg, C(1))), g.val.q))
    params = mk_params(c, gF, gE, bx, bc, bg, bb, V('lo', 0, 65535), V('hi', 0, 65535))
    x, rp, r1, r2 = (c.big(k) for k in ('x', 'rp', 'r1', 'r2'))
    t = lambda p: c.view(p).t
    hF, hE = V('hF'), V('hE')
    comm = c.struct(VCT, Y=c.el(gF, t(rp)), Xp=c.el(gF, add(t(x), mul(t(rp), hF))), Xq1=c.el(gE, add(t(x), mul(t(r1), hE))), Xq2=c.el(gE, add(t(x), mul(t(r2), hE))))
    n = 0
    for s, v in c.call('voteproof.Prove', x, rp, r1, r2, params):
        if not smt.feasible(s.pc): continue
        n += 1
        c.cover('Prove', s)
        p = c.ex.newp(s, v)
        for s2, w in c.call('(*voteproof.SigmaProof).Verify', p, comm, st=s):
            if smt.feasible(s2.pc): c.prove('honest transcript accepted', c.view(w, s2).f, s2)
        c.st = s
        Z = c.view(prom(c, v, SPF, 'Z')).t
        c.prove('response lies in the range that hides the secret', And(Le(power(C(2), add(bx, bc)), Z), Lt(Z, power(C(2), sub(bg, C(1))))), s)
    c.prove('some execution returns', TRUE if n else FALSE)
    c.no_panic('sigma Prove/Verify')

@job('C08', 'acceptance')
def _(c):
    gF, gE = groups(c)
    bx, bc, bg, bb = lens(c)
    params = mk_params(c, gF, gE, bx, bc, bg, bb, V('lo', 0, 65535), V('hi', 0, 65535))
    pr = sym_sigma(c, gF, gE, params)
    comm = c.struct(VCT, Y=c.el(gF, 'Y'), Xp=c.el(gF, 'Xp'), Xq1=c.el(gE, 'Xq1'), Xq2=c.el(gE, 'Xq2'))
    p = c.ex.newp(c.st, pr, 'in', 'proof')
    want = sigma_accept(c, gF, gE, bx, bc, bb, pr, V('Y'), V('Xp'), V('Xq1'), V('Xq2'), V('hF'), V('hE'))
    outs = c.call('(*voteproof.SigmaProof).Verify', p, comm)
    for s, w in outs:
        if not smt.feasible(s.pc): continue
        c.prove('accepted exactly when the equations hold', Iff(c.view(w, s).f, want), s)
    c.prove('some execution returns', TRUE if outs else FALSE)
    c.no_panic('sigma Verify')

@job('C16', 'sigma setup')
def _(c):
    gF, gE = groups(c)
    bx, bc, bg = V('Bx', 0, 255), V('Bc', 0, 65535), V('Bg', 0, 65535)
    lo, hi = V('lo', 0, 65535), V('hi', 0, 65535)
    ap = c.struct('voteproof.AlgebraicParameters', GFF=gparams(c, gF, 'hF'), GEC=gparams(c, gE, 'hE'))
    bb = add(bg, C(-1), neg(bx), neg(bc))
    outs = c.call('voteproof.Setup', bx, bc, bg, lo, hi, ap)
    for s, v in outs:
        if not smt.feasible(s.pc): continue
        ok = c.view(v[1], s).isnil
        c.prove('rejected exactly when no response room remains or the challenge exceeds the digest', Iff(ok, And(Ge(bb, C(1)), Le(bc, C(256)))), s)
        for k, t in (('Bx', bx), ('Bc', bc), ('Bg', bg), ('Bb', bb), ('RangeLo', lo), ('RangeHi', hi)):
            c.prove(f'{k} as requested', Implies(ok, Eq(prom(c, v[0], PPT, k), t)), s)
        for k, g in (('GFF', gF), ('GEC', gE)):
            gp = prom(c, v[0], PPT, k)
            c.prove_eq(f'{k} as given', c.view(gp, s), c.view(prom(c, ap, 'voteproof.AlgebraicParameters', k), s), s)
    c.prove('some execution returns', TRUE if outs else FALSE)
    c.no_panic('voteproof.Setup')
