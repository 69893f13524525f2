"""Vector algebra, digit decomposition, parameter setup."""
from roots import job
from spec import *
import contracts
from contracts import ALL, verify

VECTOR = ['VectorCopy', 'VectorConvertToBig', 'VectorAdd', 'VectorSub', 'VectorMul', 'VectorAddConst', 'VectorScalarMul', 'VectorInnerProduct', 'VectorECAdd',
          'ScalarProduct', 'VectorExp', 'powerOf', 'vectorScalarExp', 'commitInnerProduct', 'commitVector', 'commitVectorBig', 'computeAR', 'updateGenerators']

def con_job(n):
    def f(c):
        d = verify(c.P, ALL[n])
        c.obs += d.obs
        c.ex.assumed |= d.ex.assumed; c.ex.inlined |= d.ex.inlined; c.ex.used |= d.ex.used; c.ex.nloops += d.ex.nloops
    return f
for k in VECTOR: job('C14', k)(con_job('bulletproofs.' + k))
job('C14', 'PedersenCommit')(con_job('util.PedersenCommit'))
job('C14', 'delta')(con_job('(*bulletproofs.BulletProofSetupParams).delta'))

def delta_mul(m, k):
    "m values of k bits; either may be symbolic"
    def f(c):
        g = c.group()
        mt = V('m', 1, 1 << 20, 'len') if m is None else C(m)
        kt = V('k', 0, 1 << 20, 'len') if k is None else C(k)
        N = mul(mt, kt)
        if m is None and k is None: c.st.pc += flat(And(Le(C(0), N), Le(N, C(1 << 40))))
        y, z = V('y', None, None), V('z', None, None)
        params = c.ex.newp(c.st, c.struct('bulletproofs.BulletProofSetupParams', N=N, GP=g), 'in', 'params')
        nm = f'deltaMul, {"every number" if m is None else m} values of {"every number of" if k is None else k} bits'
        outs = c.body('(*bulletproofs.BulletProofSetupParams).deltaMul', params, c.big(y), c.big(z), mt)
        c.prove(f'{nm}: some execution returns', TRUE if outs else FALSE)
        zs = add(C(0), *[power(z, C(j + 3)) for j in range(m)]) if m is not None else summ(mt, lambda j: power(z, add(j, C(3))))
        want = sub(mul(sub(z, mul(z, z)), contracts.sumpow(y, N)), mul(zs, contracts.sumpow(C(2), kt)))
        for s, v in outs:
            c.cover(nm, s)
            c.prove(nm, EqM(c.view(v, s).t, want, g.val.q), s)
        c.no_panic(nm)
        c.frame(nm)
    return f
for m in (1, 2, 4, 32): job('C14', f'deltaMul m={m}')(delta_mul(m, None))
job('C14', 'deltaMul m=5, k=3')(delta_mul(5, 3))

@job('C14', 'pedersenCommit')
def _(c):
    "the commitment of the consistency proof, over any group and any second generator"
    from roots_vp import gparams
    g = c.group()
    m, r = V('m', None, None), V('r', None, None)
    gp = gparams(c, g, 'h')
    outs = c.body('voteproof.pedersenCommit', c.big(m), c.big(r), gp)
    c.prove('some execution returns', TRUE if outs else FALSE)
    for s, v in outs:
        c.cover('pedersenCommit', s)
        c.prove('the commitment is m G + r H', EqM(c.view(v, s).t, add(m, mul(V('h'), r)), g.val.q), s)
    c.no_panic('pedersenCommit')
    c.frame('pedersenCommit')

@job('C15', 'digits for every base and length')
def _(c):
    x, u, l = V('x', 0, None), V('u', 2, (1 << 63) - 1), V('l', 0, 1 << 40, 'len')
    outs = c.body('util.Decompose', c.big(x, owner='in'), u, l)
    for s, v in outs:
        c.cover('Decompose', s)
        w = c.view(v, s)
        c.prove('number of digits', Eq(w.n, l), s)
        i = fresh('i', 0, l, 'idx')
        d = w.get(i).t
        c.prove('digit i is the i-th base-u digit', Eq(d, mod(div(x, power(u, i)), u)), s)
        c.prove('digit in [0, base)', And(Le(C(0), d), Lt(d, u)), s)
    c.prove('some execution returns', TRUE if outs else FALSE)
    c.no_panic('Decompose')
    c.frame('Decompose')

@job('C15', 'recombination lemma')
def _(c):
    # Σ_{i<l} d_i u^i = x - u^l div(x, u^l), by induction on l; div(x, u^(l+1)) = div(div(x, u^l), u)
    x, u, y, p = V('x', 0, None), V('u', 2, None), V('y'), V('p')
    c.prove('base case', Eq(sub(x, mul(C(1), x)), C(0)))
    r, w = V('yr'), V('yw')
    # y = u w + r is the division of y = div(x, u^l) by u; S is the sum so far, p = u^l
    S = sub(x, mul(p, y))
    S1 = add(S, mul(r, p))
    c.prove('induction step', Eq(tm.subst(S1, {y.id: add(mul(u, w), r)}), sub(x, mul(p, u, w))))

def setup_pow(k):
    def f(c):
        g = c.group()
        n = 2 ** k
        good = k in (1, 2, 4, 8, 16, 32)
        outs = c.call('bulletproofs.Setup', C(n), g)
        alive = [(s, v) for s, v in outs if smt.feasible(s.pc)]
        c.prove(f'Setup(2^{k}) returns', TRUE if alive else FALSE)
        for s, v in alive:
            ok = c.view(v[1], s).isnil
            if not good:
                c.prove(f'Setup(2^{k}) refused', Not(ok), s)
                continue
            c.prove(f'Setup(2^{k}) accepted', ok, s)
            c.st = s
            T_ = 'bulletproofs.BulletProofSetupParams'
            c.prove(f'Setup(2^{k}): N', Eq(c.get(v[0], T_, 'N'), C(k)))
            gs = [c.view(c.get(v[0], T_, kk)) for kk in ('G', 'H')]
            c.prove_eq(f'Setup(2^{k}): G is the generator', gs[0], Elt(g.val, C(1)))
            G, Hh = c.view(c.get(v[0], T_, 'Gg')), c.view(c.get(v[0], T_, 'Hh'))
            c.prove(f'Setup(2^{k}): one pair of generators per bit', And(Eq(G.n, C(k)), Eq(Hh.n, C(k))))
            alls = [gs[1].t] + [G[i].t for i in range(k)] + [Hh[i].t for i in range(k)]
            # every generator is derived by hashing, each from a different seed
            mt = all(t.op == 'app' and t.a[0] == 'mtg' for t in alls)
            c.prove(f'Setup(2^{k}): generators are hashed, each from its own seed', TRUE if mt and len({t.id for t in alls}) == len(alls) else FALSE)
            c.prove(f'Setup(2^{k}): group kept', TRUE if same_val(c.get(v[0], T_, 'GP'), g) else FALSE)
        c.no_panic(f'Setup(2^{k})')
    return f
for k in range(63): job('C16', f'range 2^{k}')(setup_pow(k))

@job('C16', 'power-of-two test')
def _(c):
    "IsPowerOfTwo over all 64-bit values"
    import bv
    bv.prove_power(c)

@job('C16', 'not a power of two')
def _(c):
    g = c.group()
    b = V('b', -(1 << 63), (1 << 63) - 1)
    name = c.fn('bulletproofs.IsPowerOfTwo').name
    # IsPowerOfTwo by its contract: false here
    orig = c.ex.contracts.get(name)
    c.ex.contracts[name] = lambda ex, st, args: [(st, FALSE)] if args[0] is b else None
    outs = c.call('bulletproofs.Setup', b, g)
    n = 0
    for s, v in outs:
        if not smt.feasible(s.pc): continue
        n += 1
        c.prove('Setup refuses a bound that is not a power of two', Not(c.view(v[1], s).isnil), s)
    c.prove('Setup returns', TRUE if n else FALSE)
    c.no_panic('Setup')
job('C14', 'deltaMul')(delta_mul(None, None))
