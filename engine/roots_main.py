"""Casting and verifying a vote."""
from roots import job
from spec import *
import contracts, terms
from roots_bp import bp_accept, sym_ipp, foreign, sym_params, setup as bp_setup, complete, BPT, SPT, IPT, result, elts
from roots_vp import emb, prom, gparams, sigma_accept, sym_sigma, GPT, PPT, SPF, VCT

BDT, CTT, PUB = 'main.BallotData', 'main.ElGamalCiphertext', 'main.PublicParameters'

@job('C10', 'encryption')
def _(c):
    g = c.group('FF')
    sk, m = V('sk'), V('choice', 0, 65535)
    pk = c.el(g, sk)
    n = 0
    for s, v in c.call('main.encryptVote', m, pk, g):
        if not smt.feasible(s.pc): continue
        n += 1
        c.cover('encryptVote', s)
        c.st = s
        U, W = c.view(c.get(v[0], CTT, 'U')).t, c.view(c.get(v[0], CTT, 'V')).t
        r = c.view(v[1]).t
        q = g.val.q
        c.prove('the ciphertext decrypts to the encoded choice', EqM(sub(W, mul(sk, U)), m, q))
        c.prove('the returned randomiser is the one used', EqM(U, r, q))
        c.prove('the randomiser lies in [1, q-1]', And(Le(C(1), r), Lt(r, q)))
        # it takes every value: it is a fresh draw, over the whole interval
        rs = getattr(c.ex, 'rands', [])
        ok = None
        for x, m_ in rs:
            for k in (0, 1):
                if Eq(r, add(x, C(k))) is not TRUE: continue
                full = Eq(m_, sub(q, C(1))) if k else Eq(m_, q)   # k = 0: zero is drawn again, as [1, q-1] above shows
                ok = full if ok is None else Or(ok, full)
        if ok is None and rs:
            import terms
            rs_atoms = {next(iter(terms.nf(x, q)))[0][0] for x, _ in rs}
            if any(at in rs_atoms for mo in terms.nf(r, q) for at, e in mo): raise Unsupported('form of the randomiser')
        c.prove('the randomiser is uniform on [1, q-1]', FALSE if ok is None else ok)
        c.prove('the draw comes from the cryptographic source', FALSE if getattr(c.ex, 'weak', None) else TRUE)
    c.prove('some execution returns', TRUE if n else FALSE)
    c.no_panic('encryptVote')
    c.frame('encryptVote')

def ballot(c, gF, gE, N=16, pfx=('lo', 'up')):
    bps = []
    old = c.pfx
    for p in pfx:
        c.pfx = p + '_'
        pr = c.struct(BPT, V=c.el(gE, 'V'), A=c.el(gE, 'A'), S=c.el(gE, 'S'), T1=c.el(gE, 'T1'), T2=c.el(gE, 'T2'), Taux=c.big('taux'), Mu=c.big('mu'),
                      Tprime=c.big('tp'), InnerProductProof=sym_ipp(c, gE, N.bit_length() - 1, foreign(c, gE)), Params=sym_params(c, gE, N))
        bps.append(pr)
    c.pfx = old
    return bps

def accept9(N):
  def f(c):
    gF, gE = c.group('FF'), c.group('EC')
    bx, bc, bg = V('Bx', 0, 255), V('Bc', 0, 256), V('Bg', 0, 65535)
    bb = add(bg, C(-1), neg(bx), neg(bc))
    c.st.pc += flat(Ge(bb, C(1)))
    lo, hi = V('RangeLo', 0, 65535), V('RangeHi', 0, 65535)
    params = emb(c, PPT, Bx=bx, Bc=bc, Bg=bg, Bb=bb, RangeLo=lo, RangeHi=hi, GFF=gparams(c, gF, 'hF'), GEC=gparams(c, gE, 'hE'))
    # whatever parameters the voter put in the proof are to be ignored
    fp = emb(c, PPT, Bx=V('fBx', 0, 255), Bc=V('fBc', 0, 65535), Bg=V('fBg', 0, 65535), Bb=V('fBb', -(1 << 17), 1 << 17), RangeLo=V('fLo', 0, 65535), RangeHi=V('fHi', 0, 65535),
             GFF=gparams(c, gF, 'fhF'), GEC=gparams(c, gE, 'fhE'))
    lob, upb = ballot(c, gF, gE, N)
    sg = sym_sigma(c, gF, gE, fp)
    ct = c.struct(CTT, U=c.el(gF, 'U'), V=c.el(gF, 'W_'))
    bd = c.struct(BDT, Ballot=ct, BpLower=lob, BpUpper=upb, VoteProof=sg)
    outs = c.call('main.verifyVote', bd, params)
    v1, v2 = (c.view(c.get(b, BPT, 'V')).t for b in (lob, upb))
    want = And(bp_accept(c, gE, N, [v1], lob, False), bp_accept(c, gE, N, [v2], upb, False),
               sigma_accept(c, gF, gE, bx, bc, bb, sg, V('U'), V('W_'), add(lo, v1), sub(hi, v2), V('hF'), V('hE')))
    n = 0
    for s, v in outs:
        if not smt.feasible(s.pc): continue
        n += 1
        c.prove(f'N={N}: a ballot counts exactly when both range proofs and the consistency proof hold for its ciphertext and the election\'s range', Iff(c.view(v[0], s).f, want), s)
    c.prove('some execution returns', TRUE if n else FALSE)
    c.no_panic(f'verifyVote N={N}')
  return f
for N in (1, 2, 4, 8, 16, 32): job('C09', f'acceptance N={N}', 'quick')(accept9(N))

class Honest:
    """The contract that C02's obligations establish for Prove and Verify: for
    parameters made by Setup and a value in range, Prove returns a commitment
    to the value under the returned blinding factor, and Verify accepts."""
    def __init__(self, c, N):
        self.c, self.N, self.made = c, N, {}
        self.on = True
        P = c.P
        for n, f in (('bulletproofs.Prove', self.prove), ('(*bulletproofs.BulletProof).Verify', self.verify)):
            c.ex.contracts[c.fn(n).name] = f
    def params_ok(self, ex, st, params):
        c = self.c
        if c.get(params, SPT, 'N') is not C(self.N): return None
        g = c.get(params, SPT, 'GP')
        if not (isinstance(g, Iface) and g.typ == 'absgrp'): return None
        ref = self.ref
        old, c.st = c.st, st
        try:
            k = [c.view(c.get(params, SPT, x)).t for x in ('G', 'H')] + elts(c, c.get(params, SPT, 'Gg')) + elts(c, c.get(params, SPT, 'Hh'))
        finally: c.st = old
        return g if all(EqM(a, b, g.val.q) is TRUE for a, b in zip(k, ref)) and len(k) == len(ref) else None
    def prove(self, ex, st, args):
        if not self.on: return None
        try: g = self.params_ok(ex, st, args[1])
        except Unsupported: g = None
        if g is None: return None
        x = view(ex, st, args[0]).t
        if ex.decide(st, And(Le(C(0), x), Lt(x, C(2 ** self.N)))) is not True: return None
        c = self.c
        gamma = fresh('gamma', 0, g.val.q)
        H_ = self.ref[1]
        k = len(self.made)
        el = lambda n: lib.mkel(ex, st, g, fresh(n, 0, g.val.q))
        L = [el('L') for _ in range(self.N.bit_length() - 1)]
        R = [el('R') for _ in range(self.N.bit_length() - 1)]
        sl = lambda xs: Slc(ex.new(st, Ar(xs)), C(0), C(len(xs)), C(len(xs)))
        big = lambda n: ex.newp(st, fresh(n, 0, g.val.q))
        ip = c.struct(IPT, P=el('P'), Cc=big('Cc'), A=big('a'), B=big('b'), L=sl(L), R=sl(R))
        pr = c.struct(BPT, V=lib.mkel(ex, st, g, add(x, mul(H_, gamma))), A=el('A'), S=el('S'), T1=el('T1'), T2=el('T2'), Taux=big('taux'), Mu=big('mu'), Tprime=big('tp'),
                      InnerProductProof=ip, Params=args[1])
        self.made[self.key(st, pr)] = True
        return [(st, Tup([pr, ex.newp(st, gamma), ErrV(TRUE)]))]
    def key(self, st, pr):
        c = self.c
        old, c.st = c.st, st
        try:
            f = lambda *p: c.view(c.get(pr, BPT, *p)).t
            k = [f(x).id for x in ('V', 'A', 'S', 'T1', 'T2', 'Taux', 'Mu', 'Tprime')]
            k += [f('InnerProductProof', x).id for x in ('P', 'Cc', 'A', 'B')]
            for x in 'LR': k += [t.id for t in elts(c, c.get(pr, BPT, 'InnerProductProof', x))]
            return tuple(k)
        finally: c.st = old
    def verify(self, ex, st, args):
        if not self.on: return None
        try:
            pr = ex.load(st, args[0])
            if self.key(st, pr) not in self.made: return None
            if self.params_ok(ex, st, self.c.get(pr, BPT, 'Params')) is None: return None
        except (Unsupported, AttributeError): return None
        return [(st, Tup([TRUE, ErrV(TRUE)]))]

def abstract_modp(c):
    "NewModPGroup by the contract that C11 establishes: a prime-order group, here wider than the curve's"
    gF = c.group('FF', 2 ** 3070)
    c.st.pc += flat(And(Lt(gF.val.q, C(2 ** 3071)), Ge(gF.val.p, C(2 ** 3071)), Lt(gF.val.p, C(2 ** 3072)), Eq(gF.val.p, add(mul(C(2), gF.val.q), C(1)))))
    c.ex.contracts[c.fn('group.NewModPGroup').name] = lambda ex, st, args: [(st, gF)]
    return gF

@job('C01', 'honest ballot')
def _(c):
    gE = c.group('EC')
    gF = abstract_modp(c)
    c.st.pc += flat(Lt(gE.val.q, C(2 ** 384)))
    N = 16
    _, refp = None, None
    r = [(s, v) for s, v in c.call('bulletproofs.Setup', C(2 ** N), gE) if smt.feasible(s.pc)]
    if len(r) != 1: raise Unsupported('Setup')
    hon = Honest(c, N)
    old, c.st = c.st, r[0][0]
    p = r[0][1][0]
    hon.ref = [c.view(c.get(p, SPT, x)).t for x in ('G', 'H')] + elts(c, c.get(p, SPT, 'Gg')) + elts(c, c.get(p, SPT, 'Hh'))
    c.st = old
    r = [(s, v) for s, v in c.call('main.setup', gE) if smt.feasible(s.pc)]
    n = 0
    for s, v in r:
        c.prove('setup succeeds', c.view(v[1], s).isnil, s)
        for s2, w in c.call('main.castVote', v[0], st=s):
            if not smt.feasible(s2.pc): continue
            n += 1
            c.cover('castVote', s2)
            c.st = s2
            rp = c.get(v[0], PUB, 'RPParams')
            lo, hi = prom(c, rp, PPT, 'RangeLo'), prom(c, rp, PPT, 'RangeHi')
            c.prove('the election range is the candidate range', And(Eq(lo, c.get(v[0], PUB, 'candidateMin')), Eq(hi, c.get(v[0], PUB, 'candidateMax'))))
            for s3, x in c.call('main.verifyVote', w[0], rp, st=s2):
                if not smt.feasible(s3.pc): continue
                c.prove('every honestly cast ballot is accepted', c.view(x[0], s3).f, s3)
            # and it encrypts a candidate number under the election key
            bd = w[0]
            U, W = (c.view(c.get(bd, BDT, 'Ballot', k)).t for k in 'UV')
            lv = c.view(c.get(bd, BDT, 'BpLower', 'V')).t
            pk = c.view(c.get(v[0], PUB, 'EGPK')).t
            # what the ballot decrypts to, as an integer: the residue of V - sk U
            ch = lib.poly_term(terms.nf(sub(W, mul(pk, U)), gF.val.q))
            if ch is None: raise Unsupported('form of the plaintext')
            c.prove('the ballot encrypts a candidate number', And(Le(lo, ch), Le(ch, hi)))
    c.prove('some execution returns', TRUE if n else FALSE)
    c.no_panic('setup/castVote/verifyVote')

job('C01', 'range proofs complete for the election\'s range')(complete(16))
