"""Assumed contracts of the curve libraries behind the concrete groups.

A library point is known by its discrete logarithm v; its affine coordinates
are px(v), py(v), where (0, 0) stands for the point at infinity.
"""
import terms as tm
from terms import *
from values import *
import smt
import lib
from lib import model, slice_segs, bytes_slice, big, newbig

CURVES = {
    'P256': (0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
             0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, 32),
    'P384': (0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
             0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff, 48),
    'R255': (0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed, 2 ** 255 - 19, 32),
    'K1': (0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
           0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f, 32),
}

class Curve(Grp):
    def __init__(self, name):
        self.name = name
        n, p, self.w = CURVES[name]
        self.q, self.p = C(n), C(p)
        self.noid = self.poid = None

CG = {n: Curve(n) for n in CURVES}
for n in CURVES:
    RANGEFN['px' + n] = CURVES[n][1]
    RANGEFN['py' + n] = CURVES[n][1]

def px(c, v): return app('px' + c.name, (v, c.q))
def py(c, v): return app('py' + c.name, (v, c.q))

def coords(c, v):
    if EqM(v, C(0), c.q) is TRUE: return C(0), C(0)
    return px(c, v), py(c, v)

def unwrap(t):
    "the atom, if the term is a sum of just one"
    if t.op in ('v', 'c', 'app'): return t
    try: p = nf(t)
    except Blowup: return t
    if len(p) == 1:
        (m, k), = p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].term is not None: return ATOMS[m[0][0]].term
    return t

def as_point(c, X, Y):
    "(on the curve, logarithm) of a pair of coordinates"
    if is_c(X) and is_c(Y) and X.a[0] == 0 and Y.a[0] == 0: return TRUE, C(0)
    X, Y = unwrap(X), unwrap(Y)
    if X.op == 'app' and X.a[0] == 'px' + c.name and Y.op == 'app' and Y.a[0] == 'py' + c.name:
        a, b = X.a[1][0], Y.a[1][0]
        if EqM(a, b, c.q) is TRUE: return TRUE, a
    return oncurve(c, X, Y), app('log' + c.name, X, Y)

def oncurve(c, X, Y): return Bool('oncurve' + c.name, X, Y)

def pair_axioms(done, deps):
    "coordinates determine the point"
    out = []
    by = {}
    import z3
    for d in list(done):
        if isinstance(d, int) and ATOMS[d].key[0] == 'app' and ATOMS[d].key[1][:3] == 'log' and ATOMS[d].term is not None:
            # a pair of coordinates on the curve is the point of its logarithm, and not the point at infinity
            t = ATOMS[d].term
            c, X, Y = CG[t.a[0][3:]], t.a[1], t.a[2]
            f = And(oncurve(c, X, Y), Le(C(0), X), Lt(X, c.p), Le(C(0), Y), Lt(Y, c.p))
            out.append(z3.Implies(smt.z_form(f, deps), z3.And(smt.z_int(px(c, t), deps) == smt.z_int(X, deps), smt.z_int(py(c, t), deps) == smt.z_int(Y, deps),
                                                              z3.Not(smt.z_form(EqM(t, C(0), c.q), deps)))))
    for d in list(done):
        if isinstance(d, int) and ATOMS[d].key[0] == 'app' and ATOMS[d].key[1][:2] in ('px', 'py') and ATOMS[d].term is not None:
            n = ATOMS[d].key[1][2:]
            v = ATOMS[d].term.a[1][0]
            by.setdefault(n, {})[tm.pkey(nf(v, CG[n].q))] = v
    for n, vs in by.items():
        c = CG[n]
        vs = list(vs.values())
        zs = [(smt.z_int(px(c, v), deps), smt.z_int(py(c, v), deps)) for v in vs]
        for i, v in enumerate(vs):
            z = smt.z_form(EqM(v, C(0), c.q), deps)
            out.append(z3.And(zs[i][0] == 0, zs[i][1] == 0) == z)
            for j in range(i):
                e = smt.z_form(EqM(v, vs[j], c.q), deps)
                out.append(z3.And(zs[i][0] == zs[j][0], zs[i][1] == zs[j][1]) == e)
            # a residue in [1, order) is not zero
            if v.op == 'v' and VARS[v.a[0]].lo is not None and VARS[v.a[0]].lo >= 1 and isinstance(VARS[v.a[0]].hi, int) and VARS[v.a[0]].hi < c.q.a[0]:
                out.append(z3.Not(z))
    return out
smt.PAIRAX.append(pair_axioms)

# ---- safe-prime groups: elements are gpow(v), the v-th power of the generator ----

RFC3072 = int(''.join("""FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F 83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510 15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7 ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF""".split()), 16)
SAFE = {RFC3072: ((RFC3072 - 1) // 2, 2)}
GPQ = C(SAFE[RFC3072][0])
RANGEFN['gpow'] = RFC3072
smt.APPAX['gpow'] = lambda t, x, zi: [x >= 1]

def gpow(v):
    k = pconst(nf(v, GPQ))
    if k is not None and k % GPQ.a[0] < 3000: return C(2 ** (k % GPQ.a[0]))
    return app('gpow', (v, GPQ))
def glog(t):
    "logarithm of a residue that is known to be a power of the generator"
    if is_c(t):
        k = t.a[0]
        return C(k.bit_length() - 1) if k > 0 and k & (k - 1) == 0 else None
    try: p = nf(t)
    except Blowup: return None
    if len(p) != 1: return None
    (m, c), = p.items()
    if c <= 0 or c & (c - 1): return None
    r = C(c.bit_length() - 1)
    for a, e in m:
        at = ATOMS[a]
        if at.key[0] != 'app' or at.key[1] != 'gpow' or at.term is None or not isinstance(e, int): return None
        r = add(r, mul(C(e), at.term.a[1][0]))
    return r
def is_safe(m): return is_c(m) and m.a[0] in SAFE
def gp_hook(x, m):
    if not is_safe(m): return None
    l = glog(x)
    return None if l is None else gpow(l)
lib.MODHOOK.append(gp_hook)
def gexp(xv, yv, mv):
    if not is_safe(mv): return None
    l = glog(xv)
    return None if l is None else gpow(mul(l, yv))
lib.EXPHOOK.append(gexp)
lib.INVHOOK.append(lambda x, m: gp_hook2(x, m))
def gp_hook2(x, m):
    if not is_safe(m): return None
    l = glog(x)
    return None if l is None else gpow(neg(l))
lib.JACHOOK.append(lambda x, m: C(1) if is_safe(m) and glog(x) is not None else None)
def euler(ex, st, x, y, m):
    "Euler's criterion: x^q is the Legendre symbol of x modulo the safe prime 2q+1; so x^(q-1) is the inverse of a square"
    if not is_safe(m) or not is_c(y) or is_c(x): return None
    q = SAFE[m.a[0]][0]
    if y.a[0] not in (q, q - 1): return None
    jac = app('jacobi', x, m)
    out = []
    def on(f, v):
        if ex.decide(st, f) is not False: out.append((st.fork(f), v))
    on(Eq(jac, C(1)), C(1) if y.a[0] == q else inv(x, m))
    if y.a[0] == q:
        on(Eq(jac, C(-1)), C(m.a[0] - 1))
        on(Eq(jac, C(0)), C(0))
    else: on(Not(Eq(jac, C(1))), mod(power(x, y), m))
    return out
lib.EULER.append(euler)

def gp_axioms(done, deps):
    "equal powers have equal exponents"
    import z3
    vs = {}
    for d in list(done):
        if isinstance(d, int) and ATOMS[d].key[0] == 'app' and ATOMS[d].key[1] == 'gpow' and ATOMS[d].term is not None:
            v = ATOMS[d].term.a[1][0]
            vs[tm.pkey(nf(v, GPQ))] = v
    out = []
    vs = list(vs.values())
    zs = [smt.z_int(gpow(v), deps) for v in vs]
    for i, v in enumerate(vs):
        for k in range(3): out.append((zs[i] == 2 ** k) == smt.z_form(EqM(v, C(k), GPQ), deps))
        for j in range(i): out.append((zs[i] == zs[j]) == smt.z_form(EqM(v, vs[j], GPQ), deps))
    return out
smt.PAIRAX.append(gp_axioms)

def obj(ex, st, c, v):
    return Iface('circlel', ex.newp(st, El(c, v)))

def cel(ex, st, x, c):
    if x is NIL: return C(0)
    if isinstance(x, Opt): raise Unsupported('optional library point')
    if not isinstance(x, Iface) or x.typ != 'circlel': raise Unsupported('library point')
    e = ex.load(st, x.val)
    if e.grp is not c: ex.panic(st, 'incompatible curve element')
    return e.val

def circl(ex, st, recv, meth, args):
    ex.assumed.add(f'circl {recv.typ}.{meth}')
    shared = ex.__dict__.setdefault('sharedgen', set())
    if recv.typ == 'circl':
        c = CG.get(recv.val)
        if c is None: raise Unsupported(f'circl group {recv.val}')
        if meth in ('NewElement', 'Identity'): return obj(ex, st, c, C(0))
        if meth == 'Generator':
            r = obj(ex, st, c, C(1))
            if c.name != 'R255': shared.add(r.val.oid)
            return r
        if meth == 'RandomElement': return obj(ex, st, c, fresh('rndpt', 0, c.q))
        if meth == 'NewScalar': return Iface('circlsc', ex.newp(st, St([c, C(0)])))
        if meth == 'HashToElement': return obj(ex, st, c, app('htc', c.name, slice_segs(ex, st, args[0]), slice_segs(ex, st, args[1])))
        raise Unsupported(f'circl group {meth}')
    if recv.typ == 'circlsc':
        c, v = ex.load(st, recv.val)
        if meth == 'SetBigInt':
            ex.store(st, recv.val, St([c, mod(big(ex, st, args[0]), c.q)]))
            return recv
        if meth == 'SetUint64':
            ex.store(st, recv.val, St([c, mod(args[0], c.q)]))
            return recv
        raise Unsupported(f'circl scalar {meth}')
    e = ex.load(st, recv.val)
    c = e.grp
    def put(v, inplace):
        o = recv.val.oid
        if inplace and o in shared:
            ex.frame.append((st.pc, 'generator of the curve library', ex.pos))
        if not inplace: shared.discard(o)
        ex.note_write(st, o)
        st.heap[o] = El(c, v)
        return recv
    def scal(x):
        sc, v = ex.load(st, x.val)
        if sc is not c: ex.panic(st, 'incompatible scalar')
        return v
    if meth == 'Add': return put(add(cel(ex, st, args[0], c), cel(ex, st, args[1], c)), c.name == 'R255')
    if meth == 'Dbl': return put(mul(C(2), cel(ex, st, args[0], c)), c.name == 'R255')
    if meth == 'Neg': return put(neg(cel(ex, st, args[0], c)), True)
    if meth == 'Set': return put(cel(ex, st, args[0], c), True)
    if meth == 'Copy': return obj(ex, st, c, e.val)
    if meth == 'Mul': return put(mul(cel(ex, st, args[0], c), scal(args[1])), c.name == 'R255')
    if meth == 'MulGen': return put(scal(args[0]), c.name == 'R255')
    if meth == 'IsEqual': return EqM(e.val, cel(ex, st, args[0], c), c.q)
    if meth == 'IsIdentity': return EqM(e.val, C(0), c.q)
    if meth in ('MarshalBinary', 'MarshalBinaryCompress'):
        if c.name == 'R255' or meth != 'MarshalBinary':
            return Tup([bytes_slice(ex, st, (('cbin', c.name, meth, (e.val, c.q)),)), ErrV(TRUE)])
        z = EqM(e.val, C(0), c.q)
        d = ex.decide(st, z)
        def enc(s):
            return Tup([bytes_slice(ex, s, (('raw', b'\x04'), ('be', px(c, e.val), c.w), ('be', py(c, e.val), c.w))), ErrV(TRUE)])
        if d is True: return Tup([bytes_slice(ex, st, (('raw', b'\x00'),)), ErrV(TRUE)])
        if d is False: return enc(st)
        s2 = st.fork(z)
        st.pc = st.pc + (Not(z),)
        return [(s2, Tup([bytes_slice(ex, s2, (('raw', b'\x00'),)), ErrV(TRUE)])), (st, enc(st))]
    if meth == 'UnmarshalBinary':
        segs = slice_segs(ex, st, args[0])
        if c.name == 'R255':
            if len(segs) == 1 and segs[0][0] == 'cbin' and segs[0][1] == 'R255':
                put(segs[0][3][0], True)
                return ErrV(TRUE)
            ln = lib.seglen(segs)
            ok = FALSE if is_c(ln) and ln.a[0] != 32 else Bool('cdecok', c.name, segs)
            put(ite(ok, app('cdecval', c.name, segs), app('cdecbad', c.name, segs)), True)
            return ErrV(ok)
        if segs == (('raw', b'\x00'),):
            put(C(0), True)
            return ErrV(TRUE)
        if lib.seglen(segs) is C(1 + 2 * c.w) or (is_c(lib.seglen(segs)) and lib.seglen(segs).a[0] == 1 + 2 * c.w):
            tag = lib.be_int(ex, st, lib.cut(ex, st, segs, C(0), C(1)))
            if is_c(tag) and tag.a[0] != 4: return ErrV(FALSE)
            if is_c(tag):
                X = lib.be_int(ex, st, lib.cut(ex, st, segs, C(1), C(c.w)))
                Y = lib.be_int(ex, st, lib.cut(ex, st, segs, C(1 + c.w), C(c.w)))
                on, v = as_point(c, X, Y)
                inr = And(Lt(X, c.p), Lt(Y, c.p))
                if X.op == 'app' and X.a[0].startswith('px'): inr = TRUE
                ok = And(inr, on)
                if is_c(X) and is_c(Y) and X.a[0] == 0 and Y.a[0] == 0: ok = FALSE
                if ok is FALSE: return ErrV(FALSE)
                put(v if ok is TRUE else ite(ok, v, e.val), False)
                return ErrV(ok)
        elif is_c(lib.seglen(segs)) and lib.seglen(segs).a[0] not in (1, 1 + c.w): return ErrV(FALSE)
        ok = Bool('cdecok', c.name, segs)
        put(ite(ok, app('cdecval', c.name, segs), e.val), True)
        return ErrV(ok)
    raise Unsupported(f'circl element {meth}')

# --------------------------------------------------------------------------
# github.com/ing-bank/zkrp/crypto/p256: secp256k1 points as pairs of big integers

Z = '(*github.com/ing-bank/zkrp/crypto/p256.P256).'
K1 = CG['K1']

def zval(ex, st, p):
    "logarithm of a point"
    if p is NIL: ex.panic(st, 'nil point')
    s = ex.load(st, p)
    X, Y = s[0], s[1]
    if X is NIL or Y is NIL: return C(0)
    if isinstance(X, Opt) or isinstance(Y, Opt):
        xn = X.isnil if isinstance(X, Opt) else FALSE
        yn = Y.isnil if isinstance(Y, Opt) else FALSE
        xv = X.val if isinstance(X, Opt) else X
        yv = Y.val if isinstance(Y, Opt) else Y
        on, v = as_point(K1, ex.load(st, xv), ex.load(st, yv))
        # the point at infinity has both forms
        z = Or(xn, yn)
        if smt.implied(st.pc + (z,), EqM(v, C(0), K1.q)): return v
        return ite(z, C(0), v)
    on, v = as_point(K1, ex.load(st, X), ex.load(st, Y))
    return v

def zset(ex, st, p, v):
    if p is NIL: ex.panic(st, 'nil point')
    X, Y = coords(K1, v)
    z = EqM(v, C(0), K1.q)
    if z is TRUE: r = St([NIL, NIL])
    else:
        a, b = newbig(ex, st, X), newbig(ex, st, Y)
        if z is not FALSE and ex.decide(st, z) is not False:
            n = And(z, Bool('nilform', fresh('form')))
            r = St([Opt(n, a), Opt(n, b)])
        else: r = St([a, b])
    ex.store(st, p, r)
    return p

@model(Z + 'IsZero')
def _(ex, st, p):
    v = unwrap(zval(ex, st, p))
    if v.op == 'app' and v.a[0] == 'logK1': return And(Eq(v.a[1], C(0)), Eq(v.a[2], C(0)))
    return EqM(v, C(0), K1.q)
@model(Z + 'SetInfinity')
def _(ex, st, p):
    ex.store(st, p, St([NIL, NIL])); return p
@model(Z + 'ScalarMult')
def _(ex, st, p, a, n): return zset(ex, st, p, mul(zval(ex, st, a), big(ex, st, n)))
@model(Z + 'ScalarBaseMult')
def _(ex, st, p, n): return zset(ex, st, p, big(ex, st, n))

def share(ex, st, p, src):
    "the receiver shares the coordinates of src"
    s = ex.load(st, src)
    ex.store(st, p, St([s[0], s[1]]))
    return p
def zadd(multiply):
    def f(ex, st, p, a, b):
        va, vb = zval(ex, st, a), zval(ex, st, b)
        if EqM(va, C(0), K1.q) is TRUE: return share(ex, st, p, b)
        if not multiply:
            # Add: distinct points only, and it mishandles a zero second operand
            d = ex.decide(st, Or(EqM(va, vb, K1.q), EqM(vb, C(0), K1.q)))
            if d is not False: return zset(ex, st, p, app('zkrpadd', (va, K1.q), (vb, K1.q)))
        elif EqM(vb, C(0), K1.q) is TRUE: return share(ex, st, p, a)
        return zset(ex, st, p, add(va, vb))
    return f
TABLE = lib.TABLE
TABLE[Z + 'Multiply'] = zadd(True)
TABLE[Z + 'Add'] = zadd(False)
@model(Z + 'Double')
def _(ex, st, p, a): return zset(ex, st, p, mul(C(2), zval(ex, st, a)))
@model(Z + 'Neg')
def _(ex, st, p, a):
    # multiplies the receiver, not the argument
    if EqM(zval(ex, st, a), C(0), K1.q) is TRUE: return zset(ex, st, p, C(0))
    return zset(ex, st, p, neg(zval(ex, st, p)))
@model(Z + 'IsOnCurve')
def _(ex, st, p):
    s = ex.load(st, p)
    if s[0] is NIL or s[1] is NIL: ex.panic(st, 'nil coordinate')
    X, Y = big(ex, st, s[0]), big(ex, st, s[1])
    return as_point(K1, X, Y)[0] if not (is_c(X) and is_c(Y) and X.a[0] == 0 and Y.a[0] == 0) else FALSE
@model(Z + 'String')
def _(ex, st, p):
    s = ex.load(st, p)
    def d(x):
        if x is NIL: return ('lit', '<nil>')
        if isinstance(x, Opt):
            if ex.decide(st, x.isnil) is False: return ('dec', ex.load(st, x.val))
            if ex.decide(st, x.isnil) is True: return ('lit', '<nil>')
            return ('optdec', x.isnil, ex.load(st, x.val))
        return ('dec', ex.load(st, x))
    return Str((('lit', 'P256('), d(s[0]), ('lit', ','), d(s[1]), ('lit', ')')))
@model('github.com/ing-bank/zkrp/crypto/p256.MapToGroup')
def _(ex, st, s):
    v = app('htc', 'K1', s.segs)
    ex.assumed.add('zkrp MapToGroup finds a point for every string')
    a, b = newbig(ex, st, px(K1, v)), newbig(ex, st, py(K1, v))
    return Tup([ex.newp(st, St([a, b])), ErrV(TRUE)])
