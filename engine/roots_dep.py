"""The point operations of ing-bank/zkrp (package p256, the curve secp256k1) against the
contracts that group.SecP256k1 is verified with (groups.py): their bodies are under contract
as well, over the field and scalar arithmetic of go-ethereum's secp256k1 package.
"""
from roots import job
from spec import *
import groups as gr
import lib

PK = 'github.com/ing-bank/zkrp/crypto/p256.'
BC = '(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).'
K1 = gr.K1

def boot(c):
    "the package as its initialisers leave it"
    ex, st = c.ex, c.st
    for n, t in c.P.globals.items():
        if n.startswith(PK): st.heap[lib.global_ptr(ex, n, t).oid] = FALSE if n.endswith('init$guard') else ex.zero(t)
    outs = c.body(PK + 'init')
    if len(outs) != 1: raise Unsupported('package initialiser')
    c.st = outs[0][0]
    curve = c.ex.load(c.st, lib.global_ptr(ex, PK + 'CURVE', None))
    s = ex.load(c.st, curve)[0]
    fs = [f['name'] for f in ex.U(c.P.type_id('secp256k1.BitCurve'))['fields']] if c.P.type_id('secp256k1.BitCurve') else ['P', 'N', 'B', 'Gx', 'Gy', 'BitSize']
    r = dict(zip(fs, s))
    c.prove_eq('field order', c.view(r['P'], c.st), Big(gr.CURVES['K1'][1]))
    c.prove_eq('group order', c.view(r['N'], c.st), Big(gr.CURVES['K1'][0]))
    return r, curve

# ---- go-ethereum's secp256k1.BitCurve, on finite points (assumed) ----

def point(ex, st, x, y):
    "logarithm of a finite point given by its coordinates"
    X, Y = lib.big(ex, st, x), lib.big(ex, st, y)
    on, v = gr.as_point(K1, X, Y)
    if on is not TRUE or is_c(X): raise Unsupported('curve operation on something that is not a finite point')
    return v
def fresh_pair(ex, st, v):
    X, Y = gr.coords(K1, v)
    return lib.newbig(ex, st, X), lib.newbig(ex, st, Y)
@lib.model(BC + 'Double')
def _(ex, st, r, x, y): return Tup(list(fresh_pair(ex, st, mul(C(2), point(ex, st, x, y)))))
def mult(ex, st, v, k):
    segs = lib.slice_segs(ex, st, k)
    n = lib.be_int(ex, st, segs)
    ex.require(st, Lt(n, C(1 << 256)), "can't handle scalars > 256 bits")
    w = mul(v, n)
    z = EqM(w, C(0), K1.q)
    a, b = fresh_pair(ex, st, w)
    if z is FALSE: return Tup([a, b])
    if z is TRUE: return Tup([NIL, NIL])
    return Tup([Opt(z, a), Opt(z, b)])
@lib.model(BC + 'ScalarMult')
def _(ex, st, r, x, y, k): return mult(ex, st, point(ex, st, x, y), k)
@lib.model(BC + 'ScalarBaseMult')
def _(ex, st, r, k): return mult(ex, st, C(1), k)
# the chord law for two different finite points: MyBitCurve.Add, whose body is verified below
@lib.model('(*' + PK + 'MyBitCurve).Add')
def _(ex, st, r, x1, y1, x2, y2):
    v, w = point(ex, st, x1, y1), point(ex, st, x2, y2)
    if ex.decide(st, EqM(v, w, K1.q)) is not False: raise Unsupported('the chord law for a point and itself')
    return Tup(list(fresh_pair(ex, st, add(v, w))))

FORMS = ('nil', 'zero', 'finite')
def operand(c, form, v, owner='in'):
    "(pointer, logarithm) of a point"
    if form == 'nil': s = [NIL, NIL]; v = C(0)
    elif form == 'zero': s = [c.ex.newp(c.st, C(0), owner), c.ex.newp(c.st, C(0), owner)]; v = C(0)
    else: s = [c.ex.newp(c.st, gr.px(K1, v), owner), c.ex.newp(c.st, gr.py(K1, v), owner)]
    return c.ex.newp(c.st, St(s), owner, 'point'), v
NZ = lambda v: Not(EqM(v, C(0), K1.q))

def result(c, nm, st, p, ret, want, share=()):
    "the receiver is returned and is the point of logarithm `want`, with coordinates of its own"
    c.prove(nm + ': returns the receiver', TRUE if isinstance(ret, Ptr) and ret.oid == p.oid else FALSE)
    c.prove(nm + ': the point', EqM(gr.zval(c.ex, st, p), want, K1.q), st)
    X, Y = c.ex.load(st, p)
    z = EqM(want, C(0), K1.q)
    if z is FALSE or smt.implied(st.pc, Not(z)):
        for k, (u, w) in enumerate(zip((X, Y), gr.coords(K1, want))):
            isn = TRUE if u is NIL else u.isnil if isinstance(u, Opt) else FALSE
            c.prove(f'{nm}: coordinate {k} present', Not(isn), st)
            if u is NIL: continue
            u = u.val if isinstance(u, Opt) else u
            c.prove(f'{nm}: coordinate {k}', Eq(lib.big(c.ex, st, u), w), st)
    else:
        # the point at infinity: no coordinates, or both zero
        for u in (X, Y):
            if u is NIL: continue
            o = u if isinstance(u, Opt) else None
            b = lib.big(c.ex, st, u.val if o else u)
            c.prove(f'{nm}: infinity has a form of its own', Or(o.isnil if o else FALSE, Implies(z, Eq(b, C(0)))), st)
        c.prove(f'{nm}: both coordinates or none', Iff(*[TRUE if u is NIL else u.isnil if isinstance(u, Opt) else FALSE for u in (X, Y)]), st)
    for u in (X, Y):
        u = u.val if isinstance(u, Opt) else u
        if isinstance(u, Ptr) and c.ex.owner(u.oid) != 'fresh':
            c.prove(f'{nm}: shares coordinates only with the operand it copies', TRUE if u.oid in share else FALSE)

def cells(c, p):
    return {u.oid for u in c.ex.load(c.st, p) if isinstance(u, Ptr)}

def dep(title, weight=1):
    def d(fn):
        @job('C11', 'zkrp p256: ' + title, weight=weight)
        def _(c):
            a = boot(c)
            del c.ex.frame[:], c.ex.panics[:]
            fn(c, *a)
            c.no_panic(title)
            c.frame(title)
    return d

def unary(c, meth, form, v, call, want, ass=(), aliased=True, share=False):
    "meth on one operand in every form, with a fresh receiver and in place"
    s0 = c.st
    for al in ('fresh receiver', 'in place')[:2 if aliased else 1]:
        c.st = s0.fork(And(*ass))
        a, va = operand(c, form, v, 'in' if al == 'fresh receiver' else 'fresh')
        p = a if al == 'in place' else operand(c, 'nil', None, 'fresh')[0]
        n = 0
        for st, ret in c.body(PK_METH(meth), p, *call(a)):
            if not smt.feasible(st.pc): continue
            n += 1
            result(c, f'{meth}, {form}, {al}', st, p, ret, want(va), cells(c, a) if share else ())
        c.prove(f'{meth}, {form}, {al}: returns', TRUE if n else FALSE)
    c.st = s0
def PK_METH(m): return '(*' + PK + 'P256).' + m

@dep('IsZero, SetInfinity, String')
def _(c, r, curve):
    a = V('a')
    for f in FORMS:
        s0 = c.st
        c.st = s0.fork(NZ(a))
        p, v = operand(c, f, a)
        for st, b in c.body(PK_METH('IsZero'), p): c.prove(f'IsZero, {f}', b if f != 'finite' else Not(b), st)
        for st, b in c.body(PK_METH('String'), p):
            X, Y = [('lit', '<nil>') if f == 'nil' else ('dec', C(0)) if f == 'zero' else ('dec', t) for t in gr.coords(K1, v)]
            from lib import seq_eq
            c.prove(f'String, {f}', seq_eq(b.segs, (('lit', 'P256('), X, ('lit', ','), Y, ('lit', ')'))), st)
        q, _v = operand(c, f, a, 'fresh')
        for st, ret in c.body(PK_METH('SetInfinity'), q): result(c, f'SetInfinity, {f}', st, q, ret, C(0))
        if f == 'finite':
            # half a point is infinity
            for k in (0, 1):
                q, _v = operand(c, f, a, 'fresh')
                s = c.ex.load(c.st, q)
                c.ex.store(c.st, q, St([NIL, s[1]] if k == 0 else [s[0], NIL]))
                for st, b in c.body(PK_METH('IsZero'), q): c.prove('IsZero with one coordinate', b, st)
        c.st = s0

@dep('Double')
def _(c, r, curve):
    a = V('a')
    for f in FORMS: unary(c, 'Double', f, a, lambda x: (x,), lambda v: mul(C(2), v), (NZ(a), NZ(add(a, a))))

@dep('ScalarMult', 2)
def _(c, r, curve):
    a, k = V('a'), V('k')
    kp = c.big(k)
    for kl, ass in (('zero', (Eq(k, C(0)),)), ('multiple of the order', (Not(Eq(k, C(0))), EqM(k, C(0), K1.q))), ('other', (NZ(k),))):
        s0 = c.st
        c.st = s0.fork(And(*ass))
        for f in FORMS: unary(c, 'ScalarMult', f, a, lambda x: (x, kp), lambda v: mul(v, k), (NZ(a), NZ(mul(a, k))) if kl == 'other' else (NZ(a), EqM(mul(a, k), C(0), K1.q)))
        c.st = s0

@dep('ScalarBaseMult')
def _(c, r, curve):
    k = V('k')
    kp = c.big(k)
    for f in FORMS: unary(c, 'ScalarBaseMult', f, V('a'), lambda x: (kp,), lambda v: k, (NZ(V('a')),), aliased=False)

def binary(c, meth, pairs):
    a, b = V('a'), V('b')
    q = K1.q
    for fa, fb, rel in pairs:
        vb = a if rel == 'equal' else neg(a) if rel == 'opposite' else b
        ass = [NZ(a)]
        if rel == 'different': ass += [NZ(b), Not(EqM(a, b, q)), NZ(add(a, b))]
        if rel == 'opposite': ass += [Not(EqM(a, neg(a), q)), NZ(neg(a))]
        if rel == 'equal': ass += [NZ(add(a, a))]
        s0 = c.st
        for al in ('fresh', 'left', 'right', 'same'):
            if al == 'same' and not (fa == fb and (fa != 'finite' or rel == 'equal')): continue
            if meth == 'Add' and al == 'same' and fa == 'finite': continue
            c.st = s0.fork(And(*ass))
            x, vx = operand(c, fa, a, 'fresh' if al in ('left', 'same') else 'in')
            y, vy = (x, vx) if al == 'same' else operand(c, fb, vb, 'fresh' if al == 'right' else 'in')
            p = {'fresh': None, 'left': x, 'right': y, 'same': x}[al] or operand(c, 'nil', None, 'fresh')[0]
            n = 0
            for st, ret in c.body(PK_METH(meth), p, x, y):
                if not smt.feasible(st.pc): continue
                n += 1
                result(c, f'{meth}, {fa} + {fb} ({rel}), {al} receiver', st, p, ret, add(vx, vy), cells(c, x) | cells(c, y) if 'finite' not in (fa, fb) or fa != fb else ())
            c.prove(f'{meth}, {fa} + {fb} ({rel}), {al}: returns', TRUE if n else FALSE)
        c.st = s0
ALL = [(f, g, '') for f in FORMS for g in FORMS if (f, g) != ('finite', 'finite')] + [('finite', 'finite', r) for r in ('equal', 'opposite', 'different')]

@dep('Multiply', 3)
def _(c, r, curve): binary(c, 'Multiply', ALL)
@dep('Add on what it is meant for', 2)
def _(c, r, curve): binary(c, 'Add', [(f, g, s) for f, g, s in ALL if s != 'equal' and not (f == 'finite' and g != 'finite')])

@dep('Neg')
def _(c, r, curve):
    # it multiplies the receiver: in place only
    a = V('a')
    s0 = c.st
    for f in FORMS:
        c.st = s0.fork(And(NZ(a), NZ(neg(a))))
        p, v = operand(c, f, a, 'fresh')
        for st, ret in c.body(PK_METH('Neg'), p, p): result(c, f'Neg, {f}', st, p, ret, neg(v))
    c.st = s0

@dep('curve addition is the chord law')
def _(c, r, curve):
    p = C(gr.CURVES['K1'][1])
    hi = gr.CURVES['K1'][1] - 1
    x1, y1, y2, d = V('x1', 0, hi), V('y1', 0, hi), V('y2', 0, hi), V('d', 1, hi)
    s0 = c.st
    for same in (False, True):
        x2 = x1 if same else mod(add(x1, d), p)      # every pair of different x-coordinates is of this form
        c.st = s0.fork(TRUE if same else Not(EqM(d, C(0), p)))
        outs = c.body('(*' + PK + 'MyBitCurve).Add', curve, *[c.big(t) for t in (x1, y1, x2, y2)])
        k = 0
        for st, ret in outs:
            if not smt.feasible(st.pc): continue
            k += 1
            x3, y3 = lib.big(c.ex, st, ret[0]), lib.big(c.ex, st, ret[1])
            if same:
                c.prove('same x-coordinate: infinity', And(Eq(x3, C(0)), Eq(y3, C(0))), st)
                continue
            lam = mul(sub(y2, y1), inv(d, p))
            wx = sub(sub(mul(lam, lam), x1), x2)
            c.prove('x-coordinate', EqM(x3, wx, p), st)
            c.prove('y-coordinate', EqM(y3, sub(mul(lam, sub(x1, wx)), y1), p), st)
            c.prove('reduced', And(Le(C(0), x3), Lt(x3, p), Le(C(0), y3), Lt(y3, p)), st)
        c.prove('returns', TRUE if k else FALSE)
    c.st = s0

def equation(X, Y):
    p = C(gr.CURVES['K1'][1])
    return EqM(mul(Y, Y), add(mul(X, X, X), C(7)), p)

@dep('IsOnCurve is the curve equation')
def _(c, r, curve):
    X, Y = V('X'), V('Y')
    q = c.ex.newp(c.st, St([c.big(X), c.big(Y)]), 'in', 'point')
    outs = c.body(PK_METH('IsOnCurve'), q)
    for st, b in outs: c.prove('exactly when y^2 = x^3 + 7', Iff(b, equation(X, Y)), st)
    c.prove('returns', TRUE if outs else FALSE)
