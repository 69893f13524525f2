"""circl's wrapper of the short Weierstrass curves (group.P256, group.P384) and of ristretto255
against the contracts that group.P256, group.P384 and group.Ristretto255 are verified with
(groups.py): the bodies are under contract too, over the point arithmetic of crypto/elliptic,
circl's p384 and go-ristretto.
"""
from roots import job
from spec import *
import groups as gr
import lib

PK = 'github.com/cloudflare/circl/group.'
E_ = '(*' + PK + 'wElt).'
S_ = '(*' + PK + 'wScl).'
BITS = {'P256': 256, 'P384': 384}

class Env:
    def __init__(self, c, key):
        self.c, self.key, self.k = c, key, gr.CG[key]
        n, p, self.w = gr.CURVES[key]
        fs = [f['name'] for f in c.ex.U(c.typ('crypto/elliptic.CurveParams'))['fields']]
        val = {'P': C(p), 'N': C(n), 'B': V('curveB', 0, p - 1), 'Gx': gr.px(self.k, C(1)), 'Gy': gr.py(self.k, C(1)), 'BitSize': C(BITS[key]), 'Name': lit(key)}
        self.params = c.ex.newp(c.st, St([c.ex.newp(c.st, val[f], 'glob', 'curve parameters') if f in ('P', 'N', 'B', 'Gx', 'Gy') else val[f] for f in fs]), 'glob', 'curve parameters')
        self.gx, self.gy = [c.ex.load(c.st, self.params)[fs.index(f)] for f in ('Gx', 'Gy')]
        for n, t in c.P.globals.items():
            if n.startswith(PK + 'Err'): c.st.heap[lib.global_ptr(c.ex, n, t).oid] = ErrV(FALSE)
        self.curve = Iface('ecurve', (key, self.params))
        self.wg = St([self.curve])
        self.et, self.st_ = c.typ('*' + PK + 'wElt'), c.typ('*' + PK + 'wScl')
    def el(self, v, owner='in'):
        "(pointer, interface value): a point of logarithm v; (0, 0) for the identity"
        c = self.c
        X, Y = gr.coords(self.k, v)
        p = c.ex.newp(c.st, St([self.wg, c.ex.newp(c.st, X, owner, 'coordinate'), c.ex.newp(c.st, Y, owner, 'coordinate')]), owner, 'point')
        return p, Iface(self.et, p)
    def sc(self, v):
        c = self.c
        k = lib.bytes_slice(c.ex, c.st, (('be', v, self.w),))
        p = c.ex.newp(c.st, St([self.wg, k]), 'in', 'scalar')
        return p, Iface(self.st_, p)

def point(ex, st, k, x, y):
    X, Y = lib.big(ex, st, x), lib.big(ex, st, y)
    on, v = gr.as_point(k, X, Y)
    if on is not TRUE: raise Unsupported('curve operation on something that is not a point')
    return v
def ecurve(ex, st, recv, meth, args):
    "crypto/elliptic.Curve: the group law on affine points, (0, 0) being the identity (assumed)"
    key, params = recv.val
    k = gr.CG[key]
    ex.assumed.add(f'elliptic.Curve.{meth}')
    def pair(v): return Tup([lib.newbig(ex, st, t) for t in gr.coords(k, v)])
    def num(b): return lib.be_int(ex, st, lib.slice_segs(ex, st, b))
    if meth == 'Params': return params
    if meth == 'Add': return pair(add(point(ex, st, k, *args[:2]), point(ex, st, k, *args[2:])))
    if meth == 'Double': return pair(mul(C(2), point(ex, st, k, *args)))
    if meth == 'ScalarMult': return pair(mul(point(ex, st, k, *args[:2]), num(args[2])))
    if meth == 'ScalarBaseMult': return pair(num(args[0]))
    raise Unsupported(f'elliptic.Curve {meth}')
lib.INVOKE['ecurve'] = ecurve

@lib.model('crypto/elliptic.Marshal')
def _(ex, st, cv, x, y):
    k = gr.CG[cv.val[0]]
    v = point(ex, st, k, x, y)
    if ex.decide(st, EqM(v, C(0), k.q)) is not False: raise Unsupported('elliptic.Marshal of the point at infinity')
    return lib.bytes_slice(ex, st, (('raw', b'\x04'), ('be', lib.big(ex, st, x), k.w), ('be', lib.big(ex, st, y), k.w)))
@lib.model('crypto/elliptic.Unmarshal')
def _(ex, st, cv, b):
    # nil unless 04 | x | y with reduced coordinates of a point on the curve
    k = gr.CG[cv.val[0]]
    segs = lib.slice_segs(ex, st, b)
    n = lib.seglen(segs)
    if not is_c(n): raise Unsupported('elliptic.Unmarshal')
    if n.a[0] != 1 + 2 * k.w: return Tup([NIL, NIL])
    tag = lib.be_int(ex, st, lib.cut(ex, st, segs, C(0), C(1)))
    if not is_c(tag): raise Unsupported('elliptic.Unmarshal')
    if tag.a[0] != 4: return Tup([NIL, NIL])
    X = lib.be_int(ex, st, lib.cut(ex, st, segs, C(1), C(k.w)))
    Y = lib.be_int(ex, st, lib.cut(ex, st, segs, C(1 + k.w), C(k.w)))
    on, v = gr.as_point(k, X, Y)
    ok = And(Lt(X, k.p), Lt(Y, k.p), on)
    if is_c(X) and is_c(Y) and X.a[0] == 0 and Y.a[0] == 0: ok = FALSE
    if X.op == 'app' and X.a[0].startswith('px'): ok = on
    r = [lib.newbig(ex, st, X), lib.newbig(ex, st, Y)]
    return Tup([NIL, NIL] if ok is FALSE else r if ok is TRUE else [Opt(Not(ok), u) for u in r])

def dep(key, title, weight=1):
    def d(fn):
        @job('C11', f'circl {key}: {title}', weight=weight)
        def _(c):
            e = Env(c, key)
            fn(c, e)
            c.no_panic(title)
            c.frame(title)
    return d
def xy(c, st, p):
    s = c.ex.load(st, p)
    return s[1], s[2]
def at(c, e, st, p):
    x, y = xy(c, st, p)
    X, Y = lib.big(c.ex, st, x), lib.big(c.ex, st, y)
    return X, Y

def result(c, e, nm, st, p, ret, want, old, inplace, ops):
    "the receiver is returned, it is the point, in its own coordinates or in new ones"
    if ret is not None: c.prove(nm + ': returns the receiver', TRUE if isinstance(ret, Iface) and ret.typ == e.et and ret.val.oid == p.oid else FALSE)
    X, Y = at(c, e, st, p)
    for n, g, w in zip('xy', (X, Y), gr.coords(e.k, want)): c.prove(f'{nm}: {n}', Eq(g, w), st)
    x, y = xy(c, st, p)
    if inplace: c.prove(nm + ': written in place', TRUE if (x.oid, y.oid) == (old[0].oid, old[1].oid) else FALSE)
    else: c.prove(nm + ': new coordinates', TRUE if not {x.oid, y.oid} & {u.oid for u in old} and not {x.oid, y.oid} & {u.oid for o in ops for u in o} and c.ex.owner(x.oid) == 'fresh' and x.oid != y.oid else FALSE)

def op(c, e, meth, n, want, inplace, extra=()):
    "meth on n points, each the identity or not, with every aliasing of the receiver"
    vs = [V(f'a{i}', 1, gr.CURVES[e.key][0] - 1) for i in range(n)]
    s0 = c.st
    for z in range(2 ** n):
        vals = [C(0) if z >> i & 1 else vs[i] for i in range(n)]
        for al in [None] + list(range(n)):
            c.st = s0.fork(And(*[Not(EqM(v, C(0), e.k.q)) for v in vals if v.op == 'v']))
            ops = [e.el(v, 'fresh' if al == i else 'in') for i, v in enumerate(vals)]
            p = ops[al][0] if al is not None else e.el(V('old', 1, gr.CURVES[e.key][0] - 1), 'fresh')[0]
            old = xy(c, c.st, p)
            cells = [xy(c, c.st, o[0]) for o in ops]
            k = 0
            for st, ret in c.body(E_ + meth, p, *[o[1] for o in ops], *[x for x in extra]):
                k += 1
                nm = f'{meth}, {"identity" if z else "points"} {z}, ' + ('fresh receiver' if al is None else f'receiver is operand {al}')
                result(c, e, nm, st, p, ret, want(vals), old, inplace, cells)
            c.prove(f'{meth} {z} {al}: returns', TRUE if k else FALSE)
    c.st = s0

for key in ('P256', 'P384'):
    @dep(key, 'Add, Dbl, Set', 2)
    def _(c, e):
        op(c, e, 'Add', 2, lambda v: add(*v), False)
        op(c, e, 'Dbl', 1, lambda v: mul(C(2), v[0]), False)
        op(c, e, 'Set', 1, lambda v: v[0], True)
    @dep(key, 'Mul, MulGen', 2)
    def _(c, e):
        k = V('k', 0, gr.CURVES[e.key][0] - 1)
        p, s = e.sc(k)
        op(c, e, 'Mul', 1, lambda v: mul(v[0], k), False, (s,))
        op(c, e, 'MulGen', 0, lambda v: k, False, (s,))
    @dep(key, 'Neg')
    def _(c, e):
        # -(x, y) = (x, p - y), and (0, 0) stays
        a = V('a', 1, gr.CURVES[e.key][0] - 1)
        s0 = c.st
        for v in (C(0), a):
            for al in (False, True):
                c.st = s0.fork(Not(EqM(a, C(0), e.k.q)))
                q, i = e.el(v, 'fresh' if al else 'in')
                p = q if al else e.el(V('old', 1, gr.CURVES[e.key][0] - 1), 'fresh')[0]
                old = xy(c, c.st, p)
                X, Y = gr.coords(e.k, v)
                for st, ret in c.body(E_ + 'Neg', p, i):
                    x, y = at(c, e, st, p)
                    c.prove('Neg: same x', Eq(x, X), st)
                    c.prove('Neg: opposite y', EqM(add(y, Y), C(0), e.k.p), st)
                    c.prove('Neg: reduced', And(Le(C(0), y), Lt(y, e.k.p)), st)
                    n = xy(c, st, p)
                    c.prove('Neg: in place', TRUE if [u.oid for u in n] == [u.oid for u in old] else FALSE)
        c.st = s0
    @dep(key, 'constructors and tests')
    def _(c, e):
        q = e.k.q
        for m in ('Identity', 'NewElement'):
            for st, r in c.body('(' + PK + 'wG).' + m, e.wg):
                x, y = at(c, e, st, r.val)
                c.prove(f'{m}: (0, 0)', And(Eq(x, C(0)), Eq(y, C(0))), st)
        for st, r in c.body('(' + PK + 'wG).Generator', e.wg):
            x, y = xy(c, st, r.val)
            c.prove('Generator: the coordinates of the curve parameters themselves', TRUE if (x.oid, y.oid) == (e.gx.oid, e.gy.oid) else FALSE)
        n = gr.CURVES[e.key][0] - 1
        a, b = V('a', 1, n), V('b', 1, n)
        s0 = c.st
        for u, v, f in ((C(0), C(0), TRUE), (a, a, TRUE), (a, C(0), FALSE), (C(0), a, FALSE), (a, b, FALSE)):
            c.st = s0.fork(Not(EqM(a, b, q)))
            (p, _i), (_p, j) = e.el(u), e.el(v)
            for st, r in c.body(E_ + 'IsEqual', p, j): c.prove('IsEqual', Iff(r, f), st)
            for st, r in c.body(E_ + 'IsIdentity', p): c.prove('IsIdentity', Iff(r, EqM(u, C(0), q)), st)
            if v is C(0) or u is C(0): continue
            for st, r in c.body(E_ + 'Copy', p):
                x, y = xy(c, st, r.val)
                c.prove('Copy: of its own', TRUE if c.ex.owner(x.oid) == c.ex.owner(y.oid) == c.ex.owner(r.val.oid) == 'fresh' else FALSE)
                for g, w in zip((x, y), gr.coords(e.k, u)): c.prove('Copy: the point', Eq(lib.big(c.ex, st, g), w), st)
        c.st = s0
    @dep(key, 'scalars')
    def _(c, e):
        k = V('k')
        bp = c.big(k)
        for st, r in c.body('(' + PK + 'wG).NewScalar', e.wg):
            for st2, ret in c.body(S_ + 'SetBigInt', r.val, bp, st=st):
                c.prove('SetBigInt: returns the receiver', TRUE if ret.val.oid == r.val.oid else FALSE)
                segs = lib.slice_segs(c.ex, st2, c.ex.load(st2, r.val)[1])
                c.prove('SetBigInt: the residue', Eq(lib.be_int(c.ex, st2, segs), mod(k, e.k.q)), st2)
                c.prove('SetBigInt: the length', Eq(lib.seglen(segs), C(e.w)), st2)
    @dep(key, 'MarshalBinary, UnmarshalBinary', 2)
    def _(c, e):
        n = gr.CURVES[e.key][0] - 1
        a = V('a', 1, n)
        s0 = c.st
        for v in (C(0), a):
            c.st = s0.fork(Not(EqM(a, C(0), e.k.q)))
            p, _i = e.el(v, 'fresh')
            for st, r in c.body(E_ + 'MarshalBinary', p):
                X, Y = gr.coords(e.k, v)
                want = (('raw', b'\x00'),) if v is C(0) else (('raw', b'\x04'), ('be', X, e.w), ('be', Y, e.w))
                segs = lib.slice_segs(c.ex, st, r[0])
                c.prove('MarshalBinary: no error', r[1].isnil, st)
                c.prove('MarshalBinary: length', Eq(lib.seglen(segs), lib.seglen(want)), st)
                c.prove('MarshalBinary: bytes', lib.seq_eq(lib.norm_segs(segs), lib.norm_segs(want)), st)
                for g, w in zip(at(c, e, st, p), (X, Y)): c.prove('MarshalBinary: the value stays', Eq(g, w), st)
                # and back
                q, _j = e.el(V('old', 1, n), 'fresh')
                c2 = xy(c, c.st, q)
                st.heap.update({u.oid: c.st.heap[u.oid] for u in c2}); st.heap[q.oid] = c.st.heap[q.oid]
                for st2, err in c.body(E_ + 'UnmarshalBinary', q, r[0], st=st):
                    c.prove('UnmarshalBinary of it: no error', err.isnil, st2)
                    for g, w in zip(at(c, e, st2, q), (X, Y)): c.prove('UnmarshalBinary of it: the point', Eq(g, w), st2)
        # arbitrary documents: by length and first byte
        X, Y = V('X', 0, 256 ** e.w - 1), V('Y', 0, 256 ** e.w - 1)
        for nm, segs in [('uncompressed', (('raw', b'\x04'), ('be', X, e.w), ('be', Y, e.w))), ('wrong tag', (('raw', b'\x05'), ('be', X, e.w), ('be', Y, e.w))), ('tag of the other form', (('raw', b'\x02'), ('be', X, e.w), ('be', Y, e.w))),
                         ('empty', ()), ('one byte', (('raw', b'\x01'),)), ('zero', (('raw', b'\x00'),)), ('one more', (('raw', b'\x04'), ('be', X, e.w), ('be', Y, e.w + 1)))]:
            c.st = s0.fork()
            q, _j = e.el(V('old', 1, n), 'fresh')
            old = gr.coords(e.k, V('old', 1, n))
            b = lib.bytes_slice(c.ex, c.st, segs)
            on, _v = gr.as_point(e.k, X, Y)
            k = 0
            for st, err in c.body(E_ + 'UnmarshalBinary', q, b):
                if not smt.feasible(st.pc): continue
                k += 1
                good = And(Lt(X, e.k.p), Lt(Y, e.k.p), on) if nm == 'uncompressed' else TRUE if nm == 'zero' else FALSE
                c.prove(f'UnmarshalBinary, {nm}: exactly the points are accepted', Iff(err.isnil, good), st)
                g = at(c, e, st, q)
                w = (X, Y) if nm == 'uncompressed' else (C(0), C(0))
                for h, u, o in zip(g, w, old):
                    c.prove(f'UnmarshalBinary, {nm}: the point of the document', Implies(err.isnil, Eq(h, u)), st)
                    c.prove(f'UnmarshalBinary, {nm}: an error leaves the point', Or(err.isnil, Eq(h, o)), st)
            c.prove(f'UnmarshalBinary, {nm}: returns', TRUE if k else FALSE)
        c.st = s0

# ---- ristretto255: circl's wrapper over go-ristretto ----

R = 'github.com/bwesterb/go-ristretto.'
K = gr.CG['R255']
def rp(ex, st, p):
    v = ex.load(st, p)
    if not isinstance(v, El): raise Unsupported('ristretto point without a value')
    return v.val
def rput(ex, st, p, v):
    ex.store(st, p, El(K, v))
    return p
def rmodel(m, fn): lib.TABLE['(*' + R + m] = fn
rmodel('Point).SetZero', lambda ex, st, p: rput(ex, st, p, C(0)))
rmodel('Point).SetBase', lambda ex, st, p: rput(ex, st, p, C(1)))
rmodel('Point).Set', lambda ex, st, p, a: rput(ex, st, p, rp(ex, st, a)))
rmodel('Point).Add', lambda ex, st, p, a, b: rput(ex, st, p, add(rp(ex, st, a), rp(ex, st, b))))
rmodel('Point).Neg', lambda ex, st, p, a: rput(ex, st, p, neg(rp(ex, st, a))))
rmodel('Point).ScalarMult', lambda ex, st, p, a, k: rput(ex, st, p, mul(rp(ex, st, a), rp(ex, st, k))))
rmodel('Point).ScalarMultBase', lambda ex, st, p, k: rput(ex, st, p, rp(ex, st, k)))
rmodel('Point).Equals', lambda ex, st, p, a: EqM(rp(ex, st, p), rp(ex, st, a), K.q))
rmodel('Point).MarshalBinary', lambda ex, st, p: Tup([lib.bytes_slice(ex, st, (('cbin', 'R255', 'MarshalBinary', (rp(ex, st, p), K.q)),)), ErrV(TRUE)]))
def runm(ex, st, p, b):
    segs = lib.slice_segs(ex, st, b)
    n = lib.seglen(segs)
    if len(segs) == 1 and segs[0][0] == 'cbin':
        rput(ex, st, p, segs[0][3][0]); return ErrV(TRUE)
    ok = FALSE if is_c(n) and n.a[0] != 32 else Bool('cdecok', 'R255', segs)
    rput(ex, st, p, ite(ok, app('cdecval', 'R255', segs), app('cdecbad', 'R255', segs)))
    return ErrV(ok)
rmodel('Point).UnmarshalBinary', runm)
rmodel('Scalar).SetBigInt', lambda ex, st, s, x: rput(ex, st, s, mod(lib.big(ex, st, x), K.q)))
rmodel('Scalar).SetUint64', lambda ex, st, s, x: rput(ex, st, s, mod(x, K.q)))

RE, RS = '(*' + PK + 'ristrettoElement).', '(*' + PK + 'ristrettoScalar).'
def rdep(title):
    def d(fn):
        @job('C11', f'circl ristretto255: {title}')
        def _(c):
            et, st_ = c.typ('*' + PK + 'ristrettoElement'), c.typ('*' + PK + 'ristrettoScalar')
            def el(v, owner='in', t=et):
                p = c.ex.newp(c.st, St([El(K, v)]), owner, 'point')
                return p, Iface(t, p)
            fn(c, el, lambda v: el(v, 'in', st_))
            c.no_panic(title)
            c.frame(title)
    return d
def rval(c, st, i): return c.ex.load(st, i.val)[0].val

@rdep('operations')
def _(c, el, sc):
    a, b, k = V('a', 0, K.q.a[0] - 1), V('b', 0, K.q.a[0] - 1), V('k', 0, K.q.a[0] - 1)
    _p, s = sc(k)
    s0 = c.st
    for m, n, want, extra in (('Add', 2, add(a, b), ()), ('Dbl', 1, mul(C(2), a), ()), ('Neg', 1, neg(a), ()), ('Set', 1, a, ()), ('Mul', 1, mul(a, k), (s,)), ('MulGen', 0, k, (s,))):
        for al in [None] + list(range(n)) + (['same'] if n == 2 else []):
            c.st = s0.fork()
            vs = [a, a] if al == 'same' else [a, b][:n]
            ops = [el(v, 'fresh' if al == i or al == 'same' else 'in') for i, v in enumerate(vs)]
            if al == 'same': ops[1] = ops[0]
            p = ops[0 if al == 'same' else al][0] if al is not None else el(V('old'), 'fresh')[0]
            k_ = 0
            for st, ret in c.body(RE + m, p, *[o[1] for o in ops], *extra):
                k_ += 1
                c.prove(f'{m}, receiver {al}: is the receiver', TRUE if ret.val.oid == p.oid else FALSE)
                c.prove(f'{m}, receiver {al}: the point', EqM(rval(c, st, ret), add(a, a) if al == 'same' else want, K.q), st)
            c.prove(f'{m}, receiver {al}: returns', TRUE if k_ else FALSE)
    c.st = s0

@rdep('constructors, tests and encoding')
def _(c, el, sc):
    a, b = V('a', 0, K.q.a[0] - 1), V('b', 0, K.q.a[0] - 1)
    g = St([])
    for m, w in (('Identity', C(0)), ('NewElement', C(0)), ('Generator', C(1))):
        for st, r in c.body('(' + PK + 'ristrettoGroup).' + m, g):
            c.prove(m, EqM(rval(c, st, r), w, K.q), st)
            c.prove(f'{m}: of its own', TRUE if c.ex.owner(r.val.oid) == 'fresh' else FALSE)
    (p, i), (q, j) = el(a), el(b)
    for st, r in c.body(RE + 'IsEqual', p, j): c.prove('IsEqual', Iff(r, EqM(a, b, K.q)), st)
    for st, r in c.body(RE + 'IsIdentity', p): c.prove('IsIdentity', Iff(r, EqM(a, C(0), K.q)), st)
    for st, r in c.body(RE + 'Copy', p):
        c.prove('Copy', EqM(rval(c, st, r), a, K.q), st)
        c.prove('Copy: of its own', TRUE if r.val.oid != p.oid else FALSE)
    for m in ('MarshalBinary', 'MarshalBinaryCompress'):
        for st, r in c.body(RE + m, p):
            c.prove(f'{m}: no error', r[1].isnil, st)
            c.prove(f'{m}: the encoding', lib.seq_eq(lib.slice_segs(c.ex, st, r[0]), (('cbin', 'R255', 'MarshalBinary', (a, K.q)),)), st)
    d = (('opq', 'document'),)
    t, _t = el(V('old'), 'fresh')
    for st, err in c.body(RE + 'UnmarshalBinary', t, lib.bytes_slice(c.ex, c.st, d)):
        c.prove('UnmarshalBinary: what go-ristretto decides', Iff(err.isnil, Bool('cdecok', 'R255', d)), st)
        c.prove('UnmarshalBinary: what go-ristretto decodes', Implies(err.isnil, EqM(c.ex.load(st, t)[0].val, app('cdecval', 'R255', d), K.q)), st)
    k = V('k')
    kp = c.big(k)
    for st, r in c.body('(' + PK + 'ristrettoGroup).NewScalar', g):
        for st2, ret in c.body(RS + 'SetBigInt', r.val, kp, st=st):
            c.prove('SetBigInt: returns the receiver', TRUE if ret.val.oid == r.val.oid else FALSE)
            c.prove('SetBigInt: the residue', EqM(rval(c, st2, ret), k, K.q), st2)
