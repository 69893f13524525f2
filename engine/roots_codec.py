"""Encoding and decoding: what is written is read back (C12); anything else is an error, never a panic or another value (C13)."""
from roots import job
from spec import *
import jsonm
import groups as gr
from lib import bytes_slice, seq_eq
from roots_grp import GROUPS, ORDER, make, inv, then, scale, cases, MAKERS, is_val
from roots_bp import BPT, IPT, SPT, IPPT, sym_params, sym_ipp
from roots_vp import SPF, PPT, emb, gparams, mk_params, sym_sigma
import roots_main
from roots_main import BDT, CTT

# ---- elements of the concrete groups ------------------------------------------------

RECV = {
    'fresh': lambda c, s, g: inv(c, s, g, 'Element'),
    'generator': lambda c, s, g: inv(c, s, g, 'Generator'),
    'identity': lambda c, s, g: inv(c, s, g, 'Identity'),
    'multiple': lambda c, s, g: scale(c, s, g, V('old', 1, 2 ** 200)),
}
FORMS = (('JSON', 'MarshalJSON', 'UnmarshalJSON'), ('binary', 'MarshalBinary', 'UnmarshalBinary'), ('bytes', 'MarshalBinary', 'SetBytes'))

def segs_of(c, s, b): return lib.slice_segs(c.ex, s, b)

def elem_roundtrip(key):
    def f(c):
        g = make(c, key)
        n = 0
        for l, a in cases(key):
            for mn, m in MAKERS.items():
                for form, enc, dec in FORMS:
                    for s, x in m(c, c.st.fork(), g, a):
                        for s1, r in inv(c, s, x, enc):
                            nm = f'{form} of a {mn} ({l})'
                            c.prove(f'{nm}: encoding succeeds', r[1].isnil, s1)
                            is_val(c, f'{nm}: encoding leaves the element', s1.fork(), g, x, a)
                            for rn, mk in RECV.items():
                                for s2, y in mk(c, s1.fork(), g):
                                    for s3, e in inv(c, s2, y, dec, r[0]):
                                        n += 1
                                        if dec != 'SetBytes': c.prove(f'{nm}: decoding into a {rn} succeeds', e.isnil, s3)
                                        is_val(c, f'{nm}: decoded into a {rn}', s3.fork(), g, y, a)
                                        is_val(c, f'{nm}: source after decoding into a {rn}', s3.fork(), g, x, a)
                                        for s4, gen in inv(c, s3.fork(), g, 'Generator'): is_val(c, f'{nm}: generator after decoding into a {rn}', s4, g, gen, C(1))
                                        for s4, r2 in inv(c, s3.fork(), y, enc):
                                            c.prove(f'{nm}: decoded into a {rn} and encoded again', seq_eq(segs_of(c, s4, r2[0]), segs_of(c, s4, r[0])), s4)
                                        # independent afterwards: writing one leaves the other
                                        for s4, _ in then(c, inv(c, s3.fork(), g, 'Generator'), lambda t, w: inv(c, t, y, 'Add', y, w)): is_val(c, f'{nm}: source independent', s4, g, x, a)
        c.prove('some execution returns', TRUE if n else FALSE)
        c.no_panic(f'{key} codec')
        for pc, what, pos in c.ex.frame: c.obs.append(Ob('library state untouched', 'failed', 'exec', 0.0, f'{what} is written at {pos}', pos))
    return f

# ---- decoding of bytes of unknown content ---------------------------------------------

def wire(c, name):
    return bytes_slice(c.ex, c.st, (('wire', ('root', name)),), 'in') if False else bytes_slice(c.ex, c.st, (('wire', name),))

def tree_eq(c, a, b):
    "two JSON texts denote the same value"
    if a == b: return TRUE
    if a[0] == b[0] == 'num': return Eq(a[1], b[1])
    if a[0] == b[0] == 'b64': return seq_eq(a[1], b[1])
    raise Unsupported('JSON comparison')

def elem_malformed(key):
    def f(c):
        g = make(c, key)
        q = C(ORDER[key])
        n = 0
        # JSON
        for rn, mk in RECV.items():
            if rn == 'multiple': continue
            for s, y in mk(c, c.st.fork(), g):
                data = bytes_slice(c.ex, s, (('wire', 'data'),))
                for s1, e in inv(c, s, y, 'UnmarshalJSON', data):
                    s2 = s1.fork(e.isnil)
                    if not smt.feasible(s2.pc): continue
                    n += 1
                    member(c, f'{key} JSON into a {rn}', s2, g, y, key)
                    reencode(c, f'{key} JSON into a {rn}', s2, y, key)
        # binary
        for rn, mk in RECV.items():
            if rn == 'multiple': continue
            for s, y in mk(c, c.st.fork(), g):
                data = bytes_slice(c.ex, s, (('opq', 'data'),))
                for s1, e in inv(c, s, y, 'UnmarshalBinary', data):
                    s2 = s1.fork(e.isnil)
                    if not smt.feasible(s2.pc): continue
                    n += 1
                    member(c, f'{key} binary into a {rn}', s2, g, y, key)
        for dec in ('UnmarshalJSON', 'UnmarshalBinary'):
            for s, y in inv(c, c.st.fork(), g, 'Element'):
                for s1, e in inv(c, s, y, dec, bytes_slice(c.ex, s, ())): c.prove(f'{key}: {dec} of no bytes is an error', Not(e.isnil), s1)
        c.prove('some bytes are accepted', TRUE if n else FALSE)
        c.no_panic(f'{key}: decoding any bytes')
    return f

def member(c, nm, st, g, y, key):
    "the element decoded is in the group: the order annihilates it, and arithmetic with it is group arithmetic"
    for s, z in then(c, inv(c, st.fork(), g, 'Element'), lambda t, r: inv(c, t, r, 'Subtract', y, y)):
        is_val(c, f'{nm}: accepted only as a group element', s, g, z, C(0))

def reencode(c, nm, st, y, key):
    for s, r in inv(c, st.fork(), y, 'MarshalJSON'):
        sg = segs_of(c, s, r[0])
        want = None
        w = ('wire', 'data')
        if key == 'R255':
            ok = sg and sg[0][0] == 'json' and sg[0][1][0] == 'b64'
            if not ok: raise Unsupported('JSON form')
            got = sg[0][1][1]
            raw = (('b64of', (w,)),)
            # canonical encodings: what the library accepts is what it writes
            srcs = [raw, (('optseg', Bool('jmissing', (w,)), raw),)]
            if got in srcs: fact = TRUE
            elif len(got) == 1 and got[0][0] == 'cbin': fact = Or(*[EqM(got[0][3][0], app('cdecval', 'R255', x), C(ORDER['R255'])) for x in srcs])
            else: raise Unsupported('JSON form')
            c.prove(f'{nm}: encodes back to what was read', fact, s)
            continue
        tr = jsonm.emb(sg)
        if key == 'ModP':
            if tr[0] != 'num': raise Unsupported('JSON form')
            if gr.glog(tr[1]) is None: c.prove(f'{nm}: accepted only if a quadratic residue in [1, p)', And(Le(C(1), tr[1]), Lt(tr[1], C(gr.RFC3072)), Eq(app('jacobi', tr[1], C(gr.RFC3072)), C(1))), s)
            c.prove(f'{nm}: encodes back to what was read', Or(Eq(tr[1], app('jnum', (w,))), Eq(tr[1], app('numval', (w,)))), s)
            continue
        if tr[0] != 'obj' or len(tr[1]) != 2 or any(t[0] != 'num' for _, t in tr[1]): raise Unsupported('JSON form')
        cv, (X, Y) = gr.CG[key], [t[1] for _, t in tr[1]]
        on, _ = gr.as_point(cv, X, Y)
        # an element of the other curve library is a point by construction
        if key == 'K1': c.prove(f'{nm}: accepted only if on the curve', TRUE if on is TRUE else Or(And(Eq(X, C(0)), Eq(Y, C(0))), And(on, Le(C(0), X), Lt(X, cv.p), Le(C(0), Y), Lt(Y, cv.p))), s)
        for k, t in tr[1]:
            if t[0] != 'num': raise Unsupported('JSON form')
            src = (('wire', (w,), k),)
            c.prove(f'{nm}: coordinate {k} encodes back to what was read', Eq(t[1], app('jnum', src)), s)
            c.prove(f'{nm}: coordinate {k} was given', Not(Bool('jnull', src)), s)

for key, _ in GROUPS:
    job('C12', f'{key}: elements', weight=3)(elem_roundtrip(key))
    job('C13', f'{key}: elements', weight=3)(elem_malformed(key))

# ---- proofs and ballots ------------------------------------------------------------------

def marshal(c, v, tname):
    "bytes of json.Marshal of a value"
    outs = []
    for s, tr in jsonm.jenc(c.ex, c.st.fork(), v, c.typ(tname)):
        outs.append((s, bytes_slice(c.ex, s, (jsonm.unemb(tr),))))
    if len(outs) != 1: raise Unsupported('several encodings')
    c.st = outs[0][0]
    return outs[0][1]

def sym_bp(c, g, k, N=None, shape='any'):
    "a range proof with k folding rounds over N generators (terms or numbers), and its parameters"
    n = V('gens', 0, 1 << 30, 'len') if N is None else N
    ipp = c.struct(IPT, P=c.el(g, 'P'), Cc=c.big('Cc'), A=c.big('a'), B=c.big('b'), L=c.els(g, 'L', k), R=c.els(g, 'R', k),
                   Params=c.struct(IPPT, Gg=c.els(g, 'iG', n), Hh=c.els(g, 'iH', n), Uu=c.el(g, 'iU'), GP=g))
    m = C(16)
    params = c.struct(SPT, N=m, G=c.el(g, C(1)), H=c.el(g, 'H'), Gg=c.els(g, 'G', 16), Hh=c.els(g, 'h', 16), GP=g)
    pr = c.struct(BPT, V=c.el(g, 'V'), A=c.el(g, 'A'), S=c.el(g, 'S'), T1=c.el(g, 'T1'), T2=c.el(g, 'T2'), Taux=c.big('taux'), Mu=c.big('mu'), Tprime=c.big('tp'),
                  InnerProductProof=ipp, Params=params)
    return pr, params

def decoded(c, nm, outs, orig):
    n = 0
    for s, v in outs:
        if not smt.feasible(s.pc): continue
        n += 1
        c.prove(f'{nm}: decoding succeeds', c.view(v[1], s).isnil, s)
        c.prove_eq(f'{nm}: decoded', c.view(v[0], s), c.view(orig, s), s)
    c.prove(f'{nm}: some execution returns', TRUE if n else FALSE)

def bp_roundtrip(k, N):
    def f(c):
        g = c.group()
        kk = V('rounds', 0, 1 << 30, 'len') if k is None else k
        pr, params = sym_bp(c, g, kk, N)
        b = marshal(c, pr, BPT)
        decoded(c, 'range proof', c.call('bulletproofs.BulletProofUnmarshalJSON', b, params), pr)
        c.no_panic('range proof codec')
        c.frame('range proof codec')
    return f
job('C12', 'range proof, any number of rounds and generators', weight=4)(bp_roundtrip(None, None))
job('C12', 'range proof, 4 rounds, 16 generators', weight=4)(bp_roundtrip(4, 16))

def sigma(c):
    gF, gE = c.group('FF'), c.group('EC')
    params = mk_params(c, gF, gE, V('Bx', 0, 255), V('Bc', 0, 65535), V('Bg', 0, 65535), V('Bb', -(1 << 62), 1 << 62), V('lo', 0, 65535), V('hi', 0, 65535))
    return gF, gE, sym_sigma(c, gF, gE, params), params

@job('C12', 'consistency proof', weight=2)
def _(c):
    gF, gE, pr, _ = sigma(c)
    b = marshal(c, pr, SPF)
    decoded(c, 'consistency proof', c.call('voteproof.ProofUnmarshalJSON', b, gF, gE), pr)
    c.no_panic('consistency proof codec')
    c.frame('consistency proof codec')

@job('C12', 'ciphertext')
def _(c):
    gF = c.group('FF')
    ct = c.struct(CTT, U=c.el(gF, 'U'), V=c.el(gF, 'W_'))
    b = marshal(c, ct, CTT)
    decoded(c, 'ciphertext', c.call('main.BallotUnmarshalJSON', b, gF), ct)
    c.no_panic('ciphertext codec')
    c.frame('ciphertext codec')

@job('C12', 'ballot', weight=6)
def _(c):
    gF, gE, sg, rp = sigma(c)
    bps = []
    k = V('rounds', 0, 1 << 30, 'len')
    for p in ('lo', 'up'):
        c.pfx = p + '_'
        pr, params = sym_bp(c, gE, k)
        bps.append(pr)
    c.pfx = ''
    bps[0] = c.setf(bps[0], BPT, Params=params)
    ct = c.struct(CTT, U=c.el(gF, 'U'), V=c.el(gF, 'W_'))
    bd = c.struct(BDT, Ballot=ct, BpLower=bps[0], BpUpper=bps[1], VoteProof=sg)
    pp = c.struct(roots_main.PUB, BPParams=params, RPParams=rp)
    b = marshal(c, bd, BDT)
    decoded(c, 'ballot', c.call('main.BallotDataUnmarshalJSON', b, pp), bd)
    c.no_panic('ballot codec')
    c.frame('ballot codec')

# ---- ballots and proofs of unknown content -------------------------------------------------
# A wire value is known by its path; decoding must return exactly the values at
# the paths of the format, and an error when one is missing or does not decode.

ROOT = (('wire', 'data'),)
def at(segs, *keys):
    for k in keys: segs = (('wire', segs, k),)
    return segs
def elem_ok(g, segs): return Bool('decok', 'eljson', g.val.name, segs)
def elem_val(g, segs): return app('decval', 'eljson', g.val.name, segs)

def expect_el(c, nm, s, x, g, segs):
    v = c.view(x, s)
    if not isinstance(v, Elt):
        c.obs.append(Ob(nm, 'failed', 'shape', 0.0, f'{v!r} is not an element')); return
    c.prove(f'{nm} was given and decoded', And(Not(Bool('jmissing', segs)), elem_ok(g, segs)), s)
    c.prove(f'{nm} is what was read', EqM(v.t, elem_val(g, segs), g.val.q), s)

def expect_num(c, nm, s, x, segs, must=True):
    v = c.view(x, s)
    if isinstance(v, tuple) and v and v[0] == 'opt':
        if must: c.prove(f'{nm} was given', Not(v[1]), s)
        v = v[2]
    if not isinstance(v, Big):
        c.obs.append(Ob(nm, 'failed', 'shape', 0.0, f'{v!r} is not a number')); return
    if must: c.prove(f'{nm} was given', Not(Bool('jnull', segs)), s)
    c.prove(f'{nm} is what was read', Eq(v.t, app('jnum', segs)), s)

def instances(pc, i):
    "what the universally quantified conjuncts say of index i"
    out = []
    for f in pc:
        for x in flat(f):
            if x.op == 'forall':
                n, b, body = x.a
                out.append(Implies(And(Le(C(0), i), Lt(i, n)), tm.substf(body, {b.id: i})))
    return tuple(out)

def expect_els(c, nm, s, x, g, segs):
    v = c.view(x, s)
    if not isinstance(v, Vec): raise Unsupported('vector shape')
    n = jsonm.wlen(segs)
    c.prove(f'{nm}: as many as were given', Eq(v.n, n), s)
    i = fresh('i', 0, n, 'idx')
    s2 = s.fork(Ge(n, C(1)))
    if not smt.feasible(s2.pc): return
    s2.pc += instances(s2.pc, i)
    e = v.get(i)
    seg = (('wirei', segs, i),)
    if not isinstance(e, Elt):
        c.obs.append(Ob(nm, 'failed', 'shape', 0.0, f'{e!r} is not an element')); return
    c.prove(f'{nm}: each was decoded', elem_ok(g, seg), s2)
    c.prove(f'{nm}: each is what was read', EqM(e.t, elem_val(g, seg), g.val.q), s2)

def expect_bp(c, nm, s, v, g, root, params):
    F = lambda *p: cget(c, s, v, BPT, *p)
    for k in ('V', 'A', 'S', 'T1', 'T2'): expect_el(c, f'{nm} {k}', s, F(k), g, at(root, k))
    for k in ('Taux', 'Mu', 'Tprime'): expect_num(c, f'{nm} {k}', s, F(k), at(root, k))
    I = 'InnerProductProof'
    expect_el(c, f'{nm} P', s, F(I, 'P'), g, at(root, I, 'P'))
    for k, j in (('Cc', 'Cc'), ('A', 'a'), ('B', 'b')): expect_num(c, f'{nm} inner-product {k}', s, F(I, k), at(root, I, j))
    for k in 'LR': expect_els(c, f'{nm} {k}', s, F(I, k), g, at(root, I, k))
    c.prove_eq(f'{nm} is over the verifier\'s parameters', c.view(F('Params'), s), c.view(params, s), s)

def cget(c, s, v, tname, *p):
    old, c.st = c.st, s
    try: return c.get(v, tname, *p)
    finally: c.st = old

def expect_sigma(c, nm, s, v, gF, gE, root):
    from roots_vp import prom
    for k, g in (('W', gF), ('Kp', gF), ('Kq1', gE), ('Kq2', gE)): expect_el(c, f'{nm} {k}', s, prom(c, v, SPF, k), g, at(root, k))
    for k in ('Challenge', 'Z', 'Sp', 'Sq1', 'Sq2'): expect_num(c, f'{nm} {k}', s, prom(c, v, SPF, k), at(root, k))

def expect_ct(c, nm, s, v, g, root):
    for k, j in (('U', 'u'), ('V', 'v')): expect_el(c, f'{nm} {k}', s, cget(c, s, v, CTT, k), g, at(root, j))

def accepted(c, nm, outs):
    "the outcomes without an error"
    n = 0
    for s, v in outs:
        ok = c.view(v[1], s).isnil
        s2 = s.fork(ok)
        if ok is FALSE or not smt.feasible(s2.pc): continue
        n += 1
        yield s2, v[0]
    c.prove(f'{nm}: some bytes are accepted', TRUE if n else FALSE)

def wired(c): return bytes_slice(c.ex, c.st, ROOT)

@job('C13', 'range proof', weight=3)
def _(c):
    g = c.group()
    params = sym_params(c, g, 16)
    for s, v in accepted(c, 'range proof', c.call('bulletproofs.BulletProofUnmarshalJSON', wired(c), params)): expect_bp(c, 'range proof', s, v, g, ROOT, params)
    c.no_panic('decoding a range proof')
    c.frame('decoding a range proof')

@job('C13', 'consistency proof', weight=2)
def _(c):
    gF, gE = c.group('FF'), c.group('EC')
    for s, v in accepted(c, 'consistency proof', c.call('voteproof.ProofUnmarshalJSON', wired(c), gF, gE)): expect_sigma(c, 'consistency proof', s, v, gF, gE, ROOT)
    c.no_panic('decoding a consistency proof')
    c.frame('decoding a consistency proof')

@job('C13', 'ciphertext')
def _(c):
    gF = c.group('FF')
    for s, v in accepted(c, 'ciphertext', c.call('main.BallotUnmarshalJSON', wired(c), gF)): expect_ct(c, 'ciphertext', s, v, gF, ROOT)
    c.no_panic('decoding a ciphertext')
    c.frame('decoding a ciphertext')

@job('C13', 'ballot', weight=4)
def _(c):
    gF, gE, _, rp = sigma(c)
    params = sym_params(c, gE, 16)
    pp = c.struct(roots_main.PUB, BPParams=params, RPParams=rp)
    for s, v in accepted(c, 'ballot', c.call('main.BallotDataUnmarshalJSON', wired(c), pp)):
        expect_ct(c, 'ballot', s, cget(c, s, v, BDT, 'Ballot'), gF, at(ROOT, 'ballot'))
        expect_bp(c, 'lower proof', s, cget(c, s, v, BDT, 'BpLower'), gE, at(ROOT, 'lbProof'), params)
        expect_bp(c, 'upper proof', s, cget(c, s, v, BDT, 'BpUpper'), gE, at(ROOT, 'ubProof'), params)
        expect_sigma(c, 'consistency proof', s, cget(c, s, v, BDT, 'VoteProof'), gF, gE, at(ROOT, 'voteProof'))
    c.no_panic('decoding a ballot')
    c.frame('decoding a ballot')
