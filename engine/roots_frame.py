"""Proving and verifying leave their inputs, the parameters and the package state unmodified (C18)."""
from roots import job
from spec import *
from roots_bp import BPT, MBT, IPT, SPT, IPPT, sym_params, sym_ipp, bp_struct, mbp_struct, foreign, log2, bits, val
from roots_vp import SPF, VCT, PPT, emb, groups, lens, mk_params, sym_sigma, gparams
from roots_main import BDT, CTT, PUB, ballot

def snap(st):
    return {o: v for o, v in st.heap.items()}

def run(c, nm, outs):
    "every outcome leaves what existed before as it was"
    n = 0
    for s, v in outs:
        if not smt.feasible(s.pc): continue
        n += 1
    c.prove(f'{nm}: some execution returns', TRUE if n else FALSE)
    c.frame(nm)
    for o, v in c.st.heap.items():
        for s, _ in outs:
            w = s.heap.get(o)
            if w is v or same_val(w, v): continue
            if isinstance(v, T) and isinstance(w, T):
                c.prove(f'{nm}: number in object {o} unchanged', Eq(v, w), s)

def own(fn):
    "the slices given have room beyond their length, which is the caller's too"
    def f(c):
        c.spare = 8
        fn(c)
    return f

def bp_prove(N):
    def f(c):
        g = c.group()
        params = sym_params(c, g, N)
        sec = c.big(val(bits(N)))
        run(c, f'Prove N={N}', c.call('bulletproofs.Prove', sec, params))
    return own(f)
def bp_verify(N):
    def f(c):
        g = c.group()
        p = c.ex.newp(c.st, bp_struct(c, g, N, sym_ipp(c, g, log2(N), foreign(c, g))), 'in', 'proof')
        run(c, f'Verify N={N}', c.call('(*bulletproofs.BulletProof).Verify', p))
    return own(f)
def mb_prove(N, m):
    def f(c):
        g = c.group()
        params = sym_params(c, g, N)
        secs = c.slice([c.big(val(bits(N // m, f'v{j}_'))) for j in range(m)], 'secrets')
        run(c, f'MultiProve N={N} m={m}', c.call('bulletproofs.MultiProve', secs, params))
    return own(f)
def mb_verify(N, m):
    def f(c):
        g = c.group()
        p = c.ex.newp(c.st, mbp_struct(c, g, N, m, sym_ipp(c, g, log2(N), foreign(c, g))), 'in', 'proof')
        run(c, f'aggregated Verify N={N} m={m}', c.call('(*bulletproofs.MultiBulletProof).Verify', p))
    return own(f)
def ip_prove(n):
    def f(c):
        g = c.group()
        params = c.struct(IPPT, Gg=c.els(g, 'G', n), Hh=c.els(g, 'h', n), Uu=c.el(g, 'U'), GP=g)
        run(c, f'inner-product proof n={n}', c.call('bulletproofs.proveInnerProduct', c.bigs('a', n), c.bigs('b', n), c.el(g, 'P'), c.big('cc'), params))
    return own(f)
def ip_verify(n):
    def f(c):
        g = c.group()
        pr = sym_ipp(c, g, log2(n), c.struct(IPPT, Gg=c.els(g, 'G', n), Hh=c.els(g, 'h', n), Uu=c.el(g, 'U'), GP=g))
        run(c, f'inner-product Verify n={n}', c.call('(bulletproofs.InnerProductProof).Verify', pr))
    return own(f)
for N in (1, 2, 4, 8, 16, 32):
    t = 'quick'
    job('C18', f'range proof Prove N={N}', t, weight=N)(bp_prove(N))
    job('C18', f'range proof Verify N={N}', t, weight=N)(bp_verify(N))
    job('C18', f'inner-product prover n={N}', t, weight=N)(ip_prove(N))
    job('C18', f'inner-product verifier n={N}', t, weight=N)(ip_verify(N))
for N, m in [(n, k) for n in (1, 2, 4, 8, 16, 32) for k in (1, 2, 4, 8, 16, 32) if k <= n]:
    job('C18', f'aggregated Prove N={N} m={m}', weight=N)(mb_prove(N, m))
    job('C18', f'aggregated Verify N={N} m={m}', weight=N)(mb_verify(N, m))

def sym_sig_params(c):
    gF, gE = groups(c)
    bx, bc, bg, bb = lens(c)
    return gF, gE, mk_params(c, gF, gE, bx, bc, bg, bb, V('lo', 0, 65535), V('hi', 0, 65535))

@job('C18', 'consistency proof Prove')
def _(c):
    gF, gE, params = sym_sig_params(c)
    run(c, 'sigma Prove', c.call('voteproof.Prove', c.big('x'), c.big('rp'), c.big('r1'), c.big('r2'), params))
@job('C18', 'consistency proof Verify')
def _(c):
    gF, gE, params = sym_sig_params(c)
    p = c.ex.newp(c.st, sym_sigma(c, gF, gE, params), 'in', 'proof')
    comm = c.struct(VCT, Y=c.el(gF, 'Y'), Xp=c.el(gF, 'Xp'), Xq1=c.el(gE, 'Xq1'), Xq2=c.el(gE, 'Xq2'))
    run(c, 'sigma Verify', c.call('(*voteproof.SigmaProof).Verify', p, comm))
@job('C18', 'verifyVote')
@own
def _(c):
    gF, gE, params = sym_sig_params(c)
    lob, upb = ballot(c, gF, gE, 4)
    bd = c.struct(BDT, Ballot=c.struct(CTT, U=c.el(gF, 'U'), V=c.el(gF, 'W_')), BpLower=lob, BpUpper=upb, VoteProof=sym_sigma(c, gF, gE, params))
    run(c, 'verifyVote', c.call('main.verifyVote', bd, params))
@job('C18', 'encryptVote')
def _(c):
    gF = c.group('FF')
    run(c, 'encryptVote', c.call('main.encryptVote', V('choice', 0, 65535), c.el(gF, 'pk'), gF))
@job('C18', 'castVote')
@own
def _(c):
    gF, gE, params = sym_sig_params(c)
    bp = sym_params(c, gE, 16)
    lo, hi = V('lo', 0, 65535), V('hi', 0, 65535)
    c.st.pc += flat(Lt(lo, hi))
    pp = c.struct(PUB, FFGroupParams=gparams(c, gF, 'hF'), ECGroupParams=gparams(c, gE, 'hE'), EGPK=c.el(gF, 'pk'), candidateMin=lo, candidateMax=hi, BPParams=bp, RPParams=params)
    run(c, 'castVote', c.call('main.castVote', pp))
@job('C18', 'Pedersen commitment')
def _(c):
    g = c.group()
    run(c, 'PedersenCommit', c.call('util.PedersenCommit', c.big('x'), c.big('r'), c.el(g, 'H'), g))
@job('C18', 'digits')
def _(c):
    run(c, 'Decompose', c.call('util.Decompose', c.big('x', 0, None), V('u', 2, (1 << 63) - 1), V('l', 0, 1 << 40, 'len')))
