"""Blinding: every mask is a fresh full-range draw from the cryptographic source (C19)."""
from roots import job
from spec import *
import terms as tm
from roots_bp import BPT, MBT, IPT, SPT, sym_params, bits, val, SIZES
from roots_vp import SPF, emb, prom, groups, lens, mk_params

def coef(t, q, a):
    "polynomial: the coefficient of the variable a in t, which must be linear in it"
    out = {}
    aid = next(iter(tm.nf(a, q)))[0][0]
    for m, k in tm.nf(t, q).items():
        for at, e in m:
            if at == aid:
                if e != 1: raise Unsupported('not linear in a generator')
                out[tuple(x for x in m if x[0] != aid)] = k
    return out
def rest(t, q, gens):
    "what is left of t without the generators: the multiple of the base generator"
    ids = {next(iter(tm.nf(a, q)))[0][0] for a in gens}
    return {m: k for m, k in tm.nf(t, q).items() if not any(at in ids for at, e in m)}

def linear(p, q, draws):
    "{draw index: coefficient} of a polynomial that is affine in the draws with constant coefficients"
    out = {}
    ids = {next(iter(tm.nf(x, q)))[0][0]: i for i, (x, m) in enumerate(draws)}
    for m, k in p.items():
        hit = [at for at, e in m if at in ids]
        if not hit: continue
        if len(m) != 1 or m[0][1] != 1: raise Unsupported('a mask is not linear in the draws')
        out[ids[hit[0]]] = k
    return out

PRIME = 2 ** 521 - 1          # a prime to compute the rank modulo, instead of the unknown order
def rank(rows):
    rows = [dict(r) for r in rows]
    n = 0
    while rows:
        r = rows.pop()
        r = {k: v % PRIME for k, v in r.items() if v % PRIME}
        if not r: continue
        n += 1
        p = next(iter(r))
        iv = pow(r[p], -1, PRIME)
        for o in rows:
            f = o.get(p, 0) * iv % PRIME
            if f:
                for k, v in r.items(): o[k] = (o.get(k, 0) - f * v) % PRIME
    return n

def ob(c, nm, ok, detail=''): c.obs.append(Ob(nm, 'proved' if ok else 'failed', 'masks', 0.0, '' if ok else detail))

def masks(c, nm, q, ms, draws, bound=None):
    """ms: [(what, polynomial)]: jointly uniform, i.e. linearly independent in draws that are
    each uniform below `bound` (the group order by default)"""
    bound = q if bound is None else bound
    rows = []
    for what, p in ms:
        r = linear(p, q, draws)
        ob(c, f'{nm}: {what} is blinded', bool(r), f'no fresh draw in the mask of {what}')
        for i in r:
            m = draws[i][1]
            if Eq(m, bound) is TRUE: continue
            if is_c(m) or Lt(m, bound) is TRUE or m.op != 'v': c.prove(f'{nm}: {what} is blinded over the whole range', Eq(m, bound)); continue
            ob(c, f'{nm}: {what} is blinded over the whole range', False, f'drawn below {m}')
        rows.append(r)
    n = rank(rows)
    ob(c, f'{nm}: no mask is used twice', n == len(rows), f'{len(rows)} masks made from {n} independent draws')

def secure(c, nm):
    ob(c, f'{nm}: all draws come from the cryptographic source', not getattr(c.ex, 'weak', None), str(getattr(c.ex, 'weak', None)))

def gens(c, params, N):
    H = c.view(c.get(params, SPT, 'H')).t
    G, h = (c.view(c.get(params, SPT, k)) for k in ('Gg', 'Hh'))
    return H, [G[i].t for i in range(N)], [h[i].t for i in range(N)]

def bp(N):
    def f(c):
        g = c.group()
        params = sym_params(c, g, N)
        q = g.val.q
        n = 0
        H, Gs, hs = gens(c, params, N)
        for s, v in c.call('bulletproofs.Prove', c.big(val(bits(N))), params):
            if not smt.feasible(s.pc): continue
            n += 1
            c.st = s
            e = lambda k: c.view(c.get(v[0], BPT, k)).t
            draws = getattr(c.ex, 'rands', [])
            ms = [(k, coef(e(k), q, H)) for k in ('V', 'A', 'S', 'T1', 'T2')]
            ms += [(f'left mask {i}', coef(e('S'), q, G)) for i, G in enumerate(Gs)] + [(f'right mask {i}', coef(e('S'), q, G)) for i, G in enumerate(hs)]
            masks(c, f'range proof N={N}', q, ms, draws)
        c.prove('some execution returns', TRUE if n else FALSE)
        secure(c, f'range proof N={N}')
    return f

def mbp(N, m):
    def f(c):
        g = c.group()
        params = sym_params(c, g, N)
        q = g.val.q
        n = 0
        H, Gs, hs = gens(c, params, N)
        secs = c.slice([c.big(val(bits(N // m, f'v{j}_'))) for j in range(m)])
        for s, v in c.call('bulletproofs.MultiProve', secs, params):
            if not smt.feasible(s.pc): continue
            n += 1
            c.st = s
            e = lambda k: c.view(c.get(v[0], MBT, k)).t
            draws = getattr(c.ex, 'rands', [])
            Vs = c.view(c.get(v[0], MBT, 'Vs'))
            ms = [(k, coef(e(k), q, H)) for k in ('A', 'S', 'T1', 'T2')] + [(f'commitment {j}', coef(Vs[j].t, q, H)) for j in range(m)]
            ms += [(f'left mask {i}', coef(e('S'), q, G)) for i, G in enumerate(Gs)] + [(f'right mask {i}', coef(e('S'), q, G)) for i, G in enumerate(hs)]
            masks(c, f'aggregated proof N={N} m={m}', q, ms, draws)
        c.prove('some execution returns', TRUE if n else FALSE)
        secure(c, f'aggregated proof N={N} m={m}')
    return f
for N in SIZES:
    job('C19', f'range proof N={N}', weight=N)(bp(N))
    for m in [k for k in SIZES if k <= N]: job('C19', f'aggregated proof N={N} m={m}', weight=N)(mbp(N, m))

@job('C19', 'consistency proof')
def _(c):
    gF, gE = groups(c)
    bx, bc, bg, bb = lens(c)
    for g in (gF, gE): c.st.pc += flat(Le(power(C(2), sub(bg, C(1))), g.val.q))
    params = mk_params(c, gF, gE, bx, bc, bg, bb, V('lo', 0, 65535), V('hi', 0, 65535))
    n = 0
    qF, qE = gF.val.q, gE.val.q
    for s, v in c.call('voteproof.Prove', *(c.big(k) for k in ('x', 'rp', 'r1', 'r2')), params):
        if not smt.feasible(s.pc): continue
        n += 1
        c.st = s
        e = lambda k: c.view(prom(c, v, SPF, k)).t
        draws = getattr(c.ex, 'rands', [])
        hF, hE = V('hF'), V('hE')
        nm = 'consistency proof'
        masks(c, nm, qF, [('the first move for c1', tm.nf(e('W'), qF))], draws)
        masks(c, nm, qF, [('the first move for c2', coef(e('Kp'), qF, hF))], draws)
        masks(c, nm, qE, [(k, coef(e(k), qE, hE)) for k in ('Kq1', 'Kq2')], draws)
        top = power(C(2), add(bx, bc, bb))
        for k, q, h in (('Kp', qF, hF), ('Kq1', qE, hE), ('Kq2', qE, hE)):
            r = rest(e(k), q, [h])
            lin = linear(r, q, draws)
            ob(c, f'{nm}: the response mask in {k} is a draw', len(lin) == 1, str(lin))
            for i in lin: c.prove(f'{nm}: the response mask takes its whole interval', Eq(draws[i][1], top))
            used = {next(iter(linear(tm.nf(e('W'), qF), qF, draws)), None)} | {next(iter(linear(coef(e(kk), qE, hE), qE, draws)), None) for kk in ('Kq1', 'Kq2')}
            ob(c, f'{nm}: the response mask in {k} blinds nothing else', not (set(lin) & used), str(lin))
    c.prove('some execution returns', TRUE if n else FALSE)
    secure(c, 'consistency proof')
