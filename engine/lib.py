"""Models of the libraries that takakv/msc-poc calls: the assumed contracts."""
import math, re
import terms as tm
from terms import *
from values import *
import smt

TABLE = {}

def model(*names):
    def d(fn):
        for n in names: TABLE[n] = fn
        return fn
    return d

RANGEFN['H'] = 1 << 256
RANGEFN['cmp'] = None
del RANGEFN['cmp']

def cmp_ax(t, x, zi):
    import z3
    a, b = zi(t.a[1]), zi(t.a[2])
    return [x >= -1, x <= 1, (x == 0) == (a == b), (x < 0) == (a < b)]
smt.APPAX['cmp'] = cmp_ax
smt.APPAX['tz64'] = smt.APPAX['popcnt64'] = lambda t, x, zi: [x >= 0, x <= 64]
def bitlen_ax(t, x, zi):
    a = zi(t.a[1])
    import z3
    out = [x >= 0, (x == 0) == (a == 0)]
    for k in (8, 16, 32, 64, 128, 224, 240, 248, 251, 252, 253, 255, 256, 383, 384, 3071, 3072):
        out.append((x <= k) == z3.And(a < 2 ** k, a > -(2 ** k)))
    return out
smt.APPAX['bitlen'] = bitlen_ax
def log2_ax(t, x, zi):
    a = zi(t.a[1])
    import z3
    return [z3.Implies(a >= 1, z3.And(x >= 0, x <= 63))] + [z3.Implies(a == 2 ** k, x == k) for k in range(63)]
smt.APPAX['flog2'] = log2_ax

# --------------------------------------------------------------------------
# integers

def poly_term(p):
    out = []
    for m, c in p.items():
        fs = [C(c)]
        for a, e in m:
            t = ATOMS[a].term
            if t is None or not isinstance(e, int) or e < 1: return None
            fs.append(power(t, e))
        out.append(mul(*fs))
    return add(C(0), *out)

def mono_range(m):
    lo, hi = 1, 1
    for a, e in m:
        at = ATOMS[a]
        if not isinstance(e, int) or e < 1: return None
        if at.bit: l, h = 0, 1
        elif at.key[0] == 'v':
            vi = VARS[at.key[1]]
            l, h = vi.lo, vi.hi
            if l is None or l < 0 or not isinstance(h, int): return None
        elif at.key[0] == 'mod' and is_c(tm._terms[at.key[1]]): l, h = 0, tm._terms[at.key[1]].a[0] - 1
        elif at.key[0] == 'app' and isinstance(RANGEFN.get(at.key[1]), int): l, h = 0, RANGEFN[at.key[1]] - 1
        else: return None
        lo *= l ** e; hi *= h ** e
    return lo, hi

def split(x, d):
    "x = d*Q + R with 0 <= R < d, as terms, or None"
    try: p = nf(x)
    except Blowup: return None
    if len(p) > 200: return None
    Q, R = {}, {}
    for m, c in p.items():
        q, r = divmod(c, d)
        if q: Q[m] = q
        if r: R[m] = r
    hi = 0
    for m, c in R.items():
        if m == (): hi += c; continue
        g = mono_range(m)
        if g is None: return None
        hi += c * g[1]
    if hi >= d: return None
    q, r = poly_term(Q), poly_term(R)
    if q is None or r is None: return None
    return q, r

def cheap(x):
    try: p = nf(x)
    except Blowup: return False
    return len(p) <= 4 and all(len(m) <= 2 for m in p)

MODHOOK, EXPHOOK, INVHOOK, JACHOOK = [], [], [], []
EULER = []
def hooked(hs, *a):
    for h in hs:
        r = h(*a)
        if r is not None: return r

def emod(ex, st, x, m):
    "Euclidean remainder for m > 0"
    r = hooked(MODHOOK, x, m)
    if r is not None: return r
    if is_c(m):
        s = split(x, m.a[0])
        if s: return s[1]
    elif quotient(x, m) is not None: return C(0)
    r = mod(x, m)
    if r.op != 'mod': return r
    if cheap(x) and smt.implied(st.pc, And(Le(C(0), x), Lt(x, m))): return x
    return r

def quotient(x, d):
    "x / d when every term of x is a multiple of the variable d, else None"
    if d.op != 'v' or x.op not in ('v', '+', '*'): return None
    try: px, pd = nf(x), nf(d)
    except Blowup: return None
    (at, _), = next(iter(pd))
    out = {}
    for m, c in px.items():
        e = dict(m).get(at)
        if not isinstance(e, int) or e < 1: return None
        k = tuple((a, f - 1 if a == at else f) for a, f in m if a != at or f > 1)
        out[k] = c
    return poly_term(out)

def ediv(ex, st, x, d):
    if is_c(d):
        s = split(x, d.a[0])
        if s: return s[0]
    else:
        r = quotient(x, d)
        if r is not None: return r
    if cheap(x) and smt.implied(st.pc, And(Le(C(0), x), Lt(x, d))): return C(0)
    return div(x, d)

def big(ex, st, p):
    "the value of a *big.Int operand"
    if isinstance(p, Opt):
        ex.require(st, Not(p.isnil), 'nil big.Int')
        p = p.val
    if p is NIL: ex.panic(st, 'nil big.Int')
    v = ex.load(st, p)
    if not isinstance(v, T): raise Unsupported(f'big.Int holding {v!r}')
    return v

def setbig(ex, st, p, t):
    if isinstance(p, Opt):
        ex.require(st, Not(p.isnil), 'nil big.Int')
        p = p.val
    if p is NIL: ex.panic(st, 'nil big.Int')
    ex.store(st, p, t)
    return p

def newbig(ex, st, t):
    return ex.newp(st, t)

B = '(*math/big.Int).'

@model('math/big.NewInt')
def _(ex, st, x): return newbig(ex, st, x)

def bin_model(name, fn):
    @model(B + name)
    def _(ex, st, z, x, y): return setbig(ex, st, z, fn(ex, st, big(ex, st, x), big(ex, st, y)))

bin_model('Add', lambda ex, st, x, y: add(x, y))
bin_model('Sub', lambda ex, st, x, y: sub(x, y))
bin_model('Mul', lambda ex, st, x, y: mul(x, y))

def positive(ex, st, m):
    lo = None
    if is_c(m): return m.a[0] > 0
    if m.op == 'v': lo = VARS[m.a[0]].lo
    if lo is not None and lo > 0: return True
    return smt.implied(st.pc, Gt(m, C(0)))

def absm(ex, st, m):
    ex.require(st, Ne(m, C(0)), 'division by zero')
    if positive(ex, st, m): return m
    if smt.implied(st.pc, Lt(m, C(0))): return neg(m)
    raise Unsupported('modulus of unknown sign')

@model(B + 'Mod')
def _(ex, st, z, x, y):
    m = absm(ex, st, big(ex, st, y))
    return setbig(ex, st, z, emod(ex, st, big(ex, st, x), m))

@model(B + 'Div')
def _(ex, st, z, x, y):
    d = big(ex, st, y)
    ex.require(st, Ne(d, C(0)), 'division by zero')
    if not positive(ex, st, d): raise Unsupported('division by a value of unknown sign')
    return setbig(ex, st, z, ediv(ex, st, big(ex, st, x), d))

@model(B + 'DivMod')
def _(ex, st, z, x, y, m):
    d = big(ex, st, y)
    ex.require(st, Ne(d, C(0)), 'division by zero')
    if not positive(ex, st, d): raise Unsupported('division by a value of unknown sign')
    xv = big(ex, st, x)
    q, r = ediv(ex, st, xv, d), emod(ex, st, xv, d)
    return Tup([setbig(ex, st, z, q), setbig(ex, st, m, r)])

def nonneg(st, t, depth=6):
    "t >= 0 on this path: products and sums of nonnegative terms included"
    if is_c(t): return t.a[0] >= 0
    if depth and t.op in ('+', '*') and all(nonneg(st, a, depth - 1) for a in t.a): return True
    return smt.implied(st.pc, Ge(t, C(0)))

def quorem(ex, st, x, y):
    xv, d = big(ex, st, x), big(ex, st, y)
    ex.require(st, Ne(d, C(0)), 'division by zero')
    if is_c(xv) and is_c(d):
        a, b = xv.a[0], d.a[0]
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return C(q), C(a - b * q)
    if not positive(ex, st, d): raise Unsupported('division by a value of unknown sign')
    if nonneg(st, xv): return ediv(ex, st, xv, d), emod(ex, st, xv, d)
    if smt.implied(st.pc, Le(xv, C(0))): return neg(ediv(ex, st, neg(xv), d)), neg(emod(ex, st, neg(xv), d))
    c = Ge(xv, C(0))
    return ite(c, div(xv, d), neg(div(neg(xv), d))), ite(c, mod(xv, d), neg(mod(neg(xv), d)))

@model(B + 'Quo')
def _(ex, st, z, x, y): return setbig(ex, st, z, quorem(ex, st, x, y)[0])
@model(B + 'Rem')
def _(ex, st, z, x, y): return setbig(ex, st, z, quorem(ex, st, x, y)[1])
@model(B + 'QuoRem')
def _(ex, st, z, x, y, r):
    q, m = quorem(ex, st, x, y)
    return Tup([setbig(ex, st, z, q), setbig(ex, st, r, m)])

@model(B + 'Neg')
def _(ex, st, z, x): return setbig(ex, st, z, neg(big(ex, st, x)))
@model(B + 'Set')
def _(ex, st, z, x): return setbig(ex, st, z, big(ex, st, x))
def babs(ex, st, v):
    if is_c(v): return C(abs(v.a[0]))
    d = ex.decide(st, Ge(v, C(0)))
    return v if d is True else neg(v) if d is False else ite(Ge(v, C(0)), v, neg(v))
@model(B + 'Abs')
def _(ex, st, z, x): return setbig(ex, st, z, babs(ex, st, big(ex, st, x)))
@model(B + 'SetInt64', B + 'SetUint64')
def _(ex, st, z, x): return setbig(ex, st, z, x)
@model(B + 'Sign')
def _(ex, st, x):
    v = big(ex, st, x)
    return sgn(v, C(0))
def sgn(a, b):
    if is_c(a) and is_c(b): return C((a.a[0] > b.a[0]) - (a.a[0] < b.a[0]))
    if Eq(a, b) is TRUE: return C(0)
    return app('cmp', a, b)
@model(B + 'Cmp')
def _(ex, st, x, y): return sgn(big(ex, st, x), big(ex, st, y))
@model(B + 'CmpAbs')
def _(ex, st, x, y):
    a, b = big(ex, st, x), big(ex, st, y)
    return sgn(babs(ex, st, a), babs(ex, st, b))
@model(B + 'Int64')
def _(ex, st, x):
    from exec import wrap
    return wrap(ex, st, big(ex, st, x), (64, True))
@model(B + 'Uint64')
def _(ex, st, x):
    from exec import wrap
    return wrap(ex, st, babs(ex, st, big(ex, st, x)), (64, False))      # of the absolute value
@model(B + 'IsInt64')
def _(ex, st, x):
    v = big(ex, st, x)
    return And(Le(C(-(1 << 63)), v), Lt(v, C(1 << 63)))
@model(B + 'IsUint64')
def _(ex, st, x):
    v = big(ex, st, x)
    return And(Le(C(0), v), Lt(v, C(1 << 64)))
@model(B + 'BitLen')
def _(ex, st, x):
    v = big(ex, st, x)
    if is_c(v): return C(abs(v.a[0]).bit_length())
    return app('bitlen', v)
@model(B + 'Lsh')
def _(ex, st, z, x, n): return setbig(ex, st, z, mul(big(ex, st, x), power(C(2), n)))
@model(B + 'Rsh')
def _(ex, st, z, x, n):
    return setbig(ex, st, z, ediv(ex, st, big(ex, st, x), power(C(2), n)))
@model(B + 'Bit')
def _(ex, st, x, i):
    v = big(ex, st, x)
    ex.require(st, Ge(i, C(0)), 'negative bit index')
    return emod(ex, st, ediv(ex, st, v, power(C(2), i)), C(2))
@model(B + 'And')
def _(ex, st, z, x, y):
    a, b = big(ex, st, x), big(ex, st, y)
    for p, q in ((a, b), (b, a)):
        if is_c(q) and q.a[0] >= 0 and q.a[0] & (q.a[0] + 1) == 0: return setbig(ex, st, z, emod(ex, st, p, C(q.a[0] + 1)))
    raise Unsupported('big.Int.And')
@model(B + 'SetString')
def _(ex, st, z, s, base):
    t = s.lit()
    if t is None or not is_c(base): raise Unsupported('SetString')
    try: v = int(t, base.a[0])
    except ValueError: return Tup([NIL, FALSE])
    return Tup([setbig(ex, st, z, C(v)), TRUE])
@model(B + 'String')
def _(ex, st, x): return lit('<nil>') if x is NIL else Str((('dec', big(ex, st, x)),))
@model(B + 'Text')
def _(ex, st, x, b):
    if is_c(b) and b.a[0] == 10: return Str((('dec', big(ex, st, x)),))
    return Str((('text', big(ex, st, x), b),))
@model(B + 'ProbablyPrime')
def _(ex, st, x, n): return Bool('prime', big(ex, st, x))

def unit_mono(p, n):
    "is the polynomial a product of values that are invertible modulo n (hash outputs are assumed to be)"
    if len(p) != 1: return False
    (m, c), = p.items()
    if c == 0 or (abs(c) >= lower(n) and not (is_c(n) and math.gcd(c, n.a[0]) == 1)): return False
    for a, e in m:
        at = ATOMS[a]
        if at.key[0] == 'k': 
            if abs(at.key[1]) >= lower(n) or at.key[1] == 0: return False
            continue
        if at.key[0] == 'app' and at.key[1] in ('H', 'fba'): continue
        if at.key[0] == 'div' and at.term is not None and at.term.op == 'div' and at.term.a[0].op == 'app': continue
        if at.key[0] == 'v':
            vi = VARS[at.key[1]]
            if vi.lo is not None and vi.lo >= 1 and (vi.hi is n or (isinstance(vi.hi, int) and vi.hi < lower(n))): continue
            if vi.kind == 'unit': continue
        return False
    return True

def hash_unit(p):
    return any(ATOMS[a].key[0] in ('app', 'div') for m in p for a, e in m)

@model(B + 'ModInverse')
def _(ex, st, z, g, n):
    gv, nv = big(ex, st, g), big(ex, st, n)
    r = hooked(INVHOOK, gv, nv)
    if r is not None: return setbig(ex, st, z, r)
    p = nf(gv, nv)
    if unit_mono(p, nv):
        if hash_unit(p): ex.assumed.add('hash outputs are invertible modulo the group order')
        return setbig(ex, st, z, inv(gv, nv))
    if not is_c(nv) and not (nv.op == 'v' and VARS[nv.a[0]].kind == 'order'): raise Unsupported('inverse modulo a non-prime')
    zero = EqM(gv, C(0), nv)
    d = ex.decide(st, zero)
    if d is True: return NIL
    if d is False: return setbig(ex, st, z, inv(gv, nv))
    s2 = st.fork(zero)
    st.pc = st.pc + (Not(zero),)
    return [(st, setbig(ex, st, z, inv(gv, nv))), (s2, NIL)]

@model(B + 'Exp')
def _(ex, st, z, x, y, m):
    xv, yv = big(ex, st, x), big(ex, st, y)
    if isinstance(m, Opt): raise Unsupported('Exp with an optional modulus')
    mv = None if m is NIL else big(ex, st, m)
    if mv is None or (is_c(mv) and mv.a[0] == 0):
        if is_c(yv) and yv.a[0] <= 0: return setbig(ex, st, z, C(1))
        if not smt.implied(st.pc, Ge(yv, C(0))): raise Unsupported('Exp with an exponent of unknown sign')
        return setbig(ex, st, z, power(xv, yv))
    r = hooked(EXPHOOK, xv, yv, mv)
    if r is not None: return setbig(ex, st, z, r)
    for f in EULER:
        r = f(ex, st, xv, yv, mv)
        if r is not None: return [(s, setbig(ex, s, z, v)) for s, v in r]
    if not positive(ex, st, mv): raise Unsupported('Exp with a modulus of unknown sign')
    if is_c(xv) and is_c(yv) and is_c(mv):
        try: return setbig(ex, st, z, C(pow(xv.a[0], yv.a[0], mv.a[0])))
        except ValueError: return NIL
    return setbig(ex, st, z, mod(power(xv, yv), mv))

@model('math/big.Jacobi')
def _(ex, st, x, y):
    xv, yv = big(ex, st, x), big(ex, st, y)
    return hooked(JACHOOK, xv, yv) or app('jacobi', xv, yv)
smt.APPAX['jacobi'] = lambda t, x, zi: [x >= -1, x <= 1]

# bytes of big integers
@model(B + 'SetBytes')
def _(ex, st, z, b): return setbig(ex, st, z, be_int(ex, st, slice_segs(ex, st, b)))
@model(B + 'Bytes')
def _(ex, st, x):
    v = big(ex, st, x)
    if is_c(v):
        n = (abs(v.a[0]).bit_length() + 7) // 8
        return bytes_slice(ex, st, (('raw', abs(v.a[0]).to_bytes(n, 'big')),))
    return bytes_slice(ex, st, (('bemin', v),))
@model(B + 'FillBytes')
def _(ex, st, x, buf):
    v = big(ex, st, x)
    if isinstance(buf, Slc) and is_c(buf.ln) and is_c(buf.off):
        w = buf.ln.a[0]
        ex.require(st, And(Lt(v, C(256 ** w)), Gt(v, C(-256 ** w))), 'math/big: buffer too small to fit value')
        put(ex, st, buf, (('be', babs(ex, st, v), w),))
        return buf
    raise Unsupported('FillBytes')
@model(B + 'MarshalJSON', B + 'MarshalText')
def _(ex, st, x):
    if x is NIL: return Tup([bytes_slice(ex, st, (('lit', 'null'),)), ErrV(TRUE)])
    return Tup([bytes_slice(ex, st, (('dec', big(ex, st, x)),)), ErrV(TRUE)])

def dec_value(ex, st, segs, what):
    "(ok, value) of parsing a decimal number"
    if len(segs) == 1 and segs[0][0] == 'dec': return TRUE, segs[0][1]
    if len(segs) == 1 and segs[0][0] == 'lit':
        try: return TRUE, C(int(segs[0][1]))
        except ValueError: return FALSE, C(0)
    ok = Bool(what + 'ok', segs)
    return ok, app(what + 'val', segs)

@model(B + 'UnmarshalJSON', B + 'UnmarshalText')
def _(ex, st, z, b):
    segs = slice_segs(ex, st, b)
    if not segs: return ErrV(FALSE)
    ok, v = dec_value(ex, st, segs, 'num')
    if ok is FALSE: return ErrV(FALSE)
    # the JSON null leaves the number as it was
    if len(segs) == 1 and segs[0][0] in OPAQUE: v = ite(Bool('jsonnull', segs), big(ex, st, z), v)
    # z's value is unspecified on error
    nz = v if ok is TRUE else ite(ok, v, app('numbad', segs))
    setbig(ex, st, z, nz)
    return ErrV(ok)

# --------------------------------------------------------------------------
# byte sequences

def seg_len(s):
    k = s[0]
    if k == 'lit': return C(len(s[1].encode()))
    if k == 'raw': return C(len(s[1]))
    if k == 'b': return C(1)
    if k == 'be': return C(s[2])
    if k == 'dig': return C(32)
    if k == 'pre': return s[2] if isinstance(s[2], T) else C(s[2])
    if k == 'bemin': return app('belen', s[1])
    if k == 'zero': return C(s[1])
    if k == 'part': return s[3]
    return app('seglen', s)
smt.NONNEG.update({'belen', 'seglen'})
def belen_ax(t, x, zi):
    import z3
    a = zi(t.a[1])
    out = [x >= 0, (x == 0) == (a == 0)]
    for k in (32, 48, 64):
        out.append((x <= k) == z3.And(a < 256 ** k, a > -(256 ** k)))
    return out
smt.APPAX['belen'] = belen_ax

def seglen(segs):
    return add(C(0), *[seg_len(s) for s in segs])

def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == 'lit' and not s[1]: continue
        if s[0] == 'raw' and not s[1]: continue
        if s[0] == 'be' and is_c(s[1]): s = ('raw', (abs(s[1].a[0])).to_bytes(s[2], 'big'))
        if s[0] == 'zero': s = ('raw', bytes(s[1]))
        if s[0] == 'b' and is_c(s[1]): s = ('raw', bytes([s[1].a[0] % 256]))
        if s[0] == 'dec' and is_c(s[1]): s = ('lit', str(s[1].a[0]))
        if out and s[0] == 'raw' and out[-1][0] == 'raw': out[-1] = ('raw', out[-1][1] + s[1])
        elif out and s[0] == 'lit' and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + s[1])
        else: out.append(s)
    return tuple(out)

def bytes_slice(ex, st, segs):
    segs = norm_segs(segs)
    o = ex.new(st, Bytes(segs))
    n = seglen(segs)
    return Slc(o, C(0), n, n)

def content_segs(ex, c):
    if isinstance(c, Bytes): return c.segs
    if isinstance(c, Ar): return norm_segs(tuple(('b', x) for x in c))
    raise Unsupported(f'bytes held as {type(c).__name__}')

def slice_segs(ex, st, b):
    "segments of a byte slice"
    if isinstance(b, Opt):
        # a nil slice reads as empty
        if b.isnil is TRUE: return ()
        if ex.decide(st, b.isnil) is False: return slice_segs(ex, st, b.val)
        return (('optseg', b.isnil, slice_segs(ex, st, b.val)),)
    if type(b).__name__ == 'ByTm': return b.segs
    if not isinstance(b, Slc): raise Unsupported(f'bytes of {b!r}')
    if b.oid is None: return ()
    segs = content_segs(ex, st.heap[b.oid])
    tot = seglen(segs)
    if Eq(b.off, C(0)) is TRUE and Eq(b.ln, tot) is TRUE: return segs
    return cut(ex, st, segs, b.off, b.ln)

OPAQUE = ('opq', 'wire', 'wirei', 'b64of', 'optseg')
def cut(ex, st, segs, off, ln):
    out = []
    if len(segs) == 1 and segs[0][0] in OPAQUE: return (('part', segs[0], off, ln),)
    if len(segs) == 1 and segs[0][0] == 'part': return (('part', segs[0][1], add(segs[0][2], off), ln),)
    # skip off
    i = 0
    segs = list(segs)
    while segs:
        if is_c(off) and off.a[0] == 0: break
        n = seg_len(segs[0])
        if not (is_c(n) and is_c(off)): 
            if Eq(n, off) is TRUE: segs.pop(0); off = C(0); continue
            raise Unsupported('slice of opaque bytes')
        if n.a[0] <= off.a[0]:
            off = C(off.a[0] - n.a[0]); segs.pop(0)
        else:
            segs[0:1] = seg_split(segs[0], off.a[0])[1]
            off = C(0)
    while segs:
        if is_c(ln) and ln.a[0] == 0: break
        n = seg_len(segs[0])
        if is_c(n) and is_c(ln):
            if n.a[0] <= ln.a[0]:
                out.append(segs.pop(0)); ln = C(ln.a[0] - n.a[0])
            else:
                out += seg_split(segs[0], ln.a[0])[0]
                ln = C(0)
        elif Eq(n, ln) is TRUE:
            out.append(segs.pop(0)); ln = C(0)
        elif segs[0][0] == 'dig':
            out.append(('pre', segs[0], ln)); ln = C(0)
        else: raise Unsupported('slice of opaque bytes')
    return norm_segs(tuple(out))

def seg_split(s, k):
    if s[0] == 'raw': return [('raw', s[1][:k])], [('raw', s[1][k:])]
    if s[0] == 'lit' and s[1].isascii(): return [('lit', s[1][:k])], [('lit', s[1][k:])]
    if s[0] == 'be':
        w = s[2]
        return [('be', div(s[1], C(256 ** (w - k))), k)], [('be', mod(s[1], C(256 ** (w - k))), w - k)]
    if s[0] == 'dig': return [('pre', s, k)], [('suf', s, k)]
    raise Unsupported('split of opaque bytes')

def be_int(ex, st, segs):
    segs = norm_segs(segs)
    tot = C(0)
    if len(segs) == 1:
        s = segs[0]
        if s[0] == 'dig': return s[1]
        if s[0] == 'bemin': return s[1] if smt.implied(st.pc, Ge(s[1], C(0))) else ite(Ge(s[1], C(0)), s[1], neg(s[1]))
        if s[0] == 'pre':
            k = s[2] if isinstance(s[2], T) else C(s[2])
            return div(s[1][1], power(C(2), sub(C(256), mul(C(8), k))))
        if s[0] == 'lit': return C(int.from_bytes(s[1].encode(), 'big'))
        if s[0] == 'part' and is_c(s[3]) and 0 < s[3].a[0] <= 64:
            nm = f'beint{s[3].a[0]}'
            RANGEFN[nm] = 256 ** s[3].a[0]
            return app(nm, segs)
    for s in segs:
        if s[0] == 'raw': tot = add(mul(tot, C(256 ** len(s[1]))), C(int.from_bytes(s[1], 'big')))
        elif s[0] == 'b': tot = add(mul(tot, C(256)), s[1])
        elif s[0] == 'be': tot = add(mul(tot, C(256 ** s[2])), s[1])
        elif s[0] == 'dig': tot = add(mul(tot, C(1 << 256)), s[1])
        else: return app('beint', segs)
    return tot
smt.NONNEG.add('beint')

def byte_at(ex, st, c, i):
    if not is_c(i): raise Unsupported('byte at a symbolic index')
    ss = cut(ex, st, c.segs, i, C(1))
    return be_int(ex, st, ss)

def byte_set(ex, st, c, i, v):
    if not is_c(i): raise Unsupported('byte at a symbolic index')
    tot = seglen(c.segs)
    a = cut(ex, st, c.segs, C(0), i)
    b = cut(ex, st, c.segs, add(i, C(1)), sub(tot, add(i, C(1))))
    return Bytes(norm_segs(a + (('b', v),) + b))

def put(ex, st, dst, segs):
    "overwrite the bytes of slice dst by segs (same concrete length)"
    ex.note_write(st, dst.oid)
    cur = content_segs(ex, st.heap[dst.oid])
    tot = seglen(cur)
    a = cut(ex, st, cur, C(0), dst.off)
    e = add(dst.off, dst.ln)
    from exec import simp
    b = cut(ex, st, cur, simp(e), simp(sub(tot, e)))
    st.heap[dst.oid] = Bytes(norm_segs(a + tuple(segs) + b))

def str_slice(ex, st, x, lo, hi):
    t = x.lit()
    l = lo if lo is not None else C(0)
    if t is not None and is_c(l) and (hi is None or is_c(hi)):
        b = t.encode()
        h = len(b) if hi is None else hi.a[0]
        if not 0 <= l.a[0] <= h <= len(b): ex.panic(st, 'slice bounds out of range')
        return lit(b[l.a[0]:h].decode())
    n = seglen(x.segs)
    h = hi if hi is not None else n
    ex.require(st, And(Le(C(0), l), Le(l, h), Le(h, n)), 'slice bounds out of range')
    return Str(cut(ex, st, x.segs, l, sub(h, l)))

def seq_eq(a, b):
    a, b = norm_segs(a), norm_segs(b)
    if a == b: return TRUE
    la, lb = seglen(a), seglen(b)
    if is_c(la) and is_c(lb) and la is not lb: return FALSE
    if a and b and a[0][0] == b[0][0] and a[0][0] in ('raw', 'lit'):
        k = min(len(a[0][1]), len(b[0][1]))
        if a[0][1][:k] != b[0][1][:k]: return FALSE
        ra = ((a[0][0], a[0][1][k:]),) + a[1:] if len(a[0][1]) > k else a[1:]
        rb = ((b[0][0], b[0][1][k:]),) + b[1:] if len(b[0][1]) > k else b[1:]
        return seq_eq(ra, rb)
    for x, y in ((a, b), (b, a)):
        if x and y and x[0][0] == 'dec' and y[0][0] == 'lit' and not (y[0][1][0].isdigit() or y[0][1][0] == '-'): return FALSE
        if not x and y and y[0][0] in ('dec', 'lit', 'raw', 'be'): return FALSE
    for x, y in ((a, b), (b, a)):
        if len(x) == len(y) == 1 and x[0][0] == 'dec' and y[0][0] == 'lit':
            try: k = int(y[0][1])
            except ValueError: return FALSE
            return Eq(x[0][1], C(k)) if str(k) == y[0][1] else FALSE
    for x, y in ((a, b), (b, a)):
        # a number that something other than a digit follows, against a fixed text
        if len(x) > 1 and x[0][0] == 'dec' and x[1][0] == 'lit' and not x[1][1][0].isdigit() and y and y[0][0] == 'lit':
            m = re.match('-?[0-9]+', y[0][1])
            if not m or m.end() == len(y[0][1]) and len(y) > 1: break
            if str(int(m.group())) != m.group(): return FALSE
            rest = y[0][1][m.end():]
            return And(Eq(x[0][1], C(int(m.group()))), seq_eq(x[1:], ((('lit', rest),) if rest else ()) + y[1:]))
    if len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b)) and \
       not any(x[0] in ('dec', 'dig') and y[0] in ('dec', 'dig', 'b', 'raw', 'be') for x, y in zip(a, a[1:])):
        fs = []
        for x, y in zip(a, b):
            if x == y: continue
            if x[0] == 'el' and x[1] == y[1]: fs.append(EqM(x[2][0], y[2][0], x[2][1]))
            elif x[0] == 'cbin' and x[1:3] == y[1:3]: fs.append(EqM(x[3][0], y[3][0], x[3][1]))
            elif x[0] in ('dec', 'b', 'dig'): fs.append(Eq(x[1], y[1]))
            elif x[0] == 'be' and x[2] == y[2]: fs.append(Eq(x[1], y[1]))
            else: return Bool('seqeq', a, b)
        return And(*fs)
    return Bool('seqeq', a, b)

# --------------------------------------------------------------------------
# builtins

def deopt(ex, st, s):
    "a slice that may be nil as a slice"
    if isinstance(s, Opt):
        v = s.val
        return Slc(v.oid, v.off, ite(s.isnil, C(0), v.ln), ite(s.isnil, C(0), v.cp))
    return s

def builtin(ex, st, name, args, call):
    from exec import simp
    if name == 'len':
        x = args[0]
        if isinstance(x, Str) or type(x).__name__ == 'ByTm': return seglen(x.segs)
        x = deopt(ex, st, x)
        if isinstance(x, Slc): return x.ln
        if isinstance(x, Ar): return C(len(x))
        if x is NIL: return C(0)
        if isinstance(x, Ptr):
            x = ex.load(st, x)
            return C(len(x.items if isinstance(x, MapV) else x))
    if name == 'cap':
        x = deopt(ex, st, args[0])
        if isinstance(x, Slc): return x.cp
    if name == 'append': return append(ex, st, args[0], args[1])
    if name == 'copy': return copy(ex, st, args[0], args[1])
    if name in ('print', 'println'): return None
    if name == 'delete':
        import exec as exec_
        exec_.map_set(ex, st, args[0], args[1], None, True)
        return None
    if name in ('min', 'max') and all(isinstance(a, T) for a in args):
        r = args[0]
        for a in args[1:]: r = ite(Le(r, a), r, a) if name == 'min' else ite(Le(a, r), r, a)
        return r
    if name == 'ssa:wrapnilchk': return args[0]
    raise Unsupported(f'builtin {name}')

def elems(ex, st, s):
    "elements of a slice with concrete bounds"
    if s.oid is None or Eq(s.ln, C(0)) is TRUE: return []
    c = st.heap[s.oid]
    if isinstance(c, Ar) and is_c(s.off) and is_c(s.ln): return list(c[s.off.a[0]:s.off.a[0] + s.ln.a[0]])
    return None

def is_bytes(ex, st, s):
    return s.oid is not None and isinstance(st.heap[s.oid], Bytes)

def family(ex, st, s):
    "the elements of a slice as a function of the index"
    if s.oid is None: return lambda i: None
    c = st.heap[s.oid]
    if isinstance(c, Fam): return lambda i: ex.sub_get(st, c, simp_add(s.off, i))
    if isinstance(c, Ar):
        es = elems(ex, st, s)
        if es is None: return None
        out = []
        for v in es:
            p = v.val if isinstance(v, Iface) else v
            o = st.heap.get(p.oid) if isinstance(p, Ptr) and not p.path else None
            if isinstance(v, (T, F, BigTm, ElTm)): out.append(v)
            elif isinstance(o, T): out.append(BigTm(o, ex.owner(p.oid)))
            elif isinstance(o, El) and o.val is not None: out.append(ElTm(o.grp, o.val, ex.owner(p.oid)))
            else: return None
        if not out: return lambda i: None
        def f(i):
            r = out[-1]
            for k in range(len(out) - 2, -1, -1):
                r = ex.ite_val(Eq(i, C(k)), out[k], r)
                if r is None: raise Unsupported('append of symbolic length')
            return r
        return f
    return None
def simp_add(a, b):
    return b if is_c(a) and a.a[0] == 0 else add(a, b)

def append(ex, st, s, xs):
    from exec import simp
    s = deopt(ex, st, s)
    if isinstance(xs, Str):
        b = content = xs.segs
        xs = bytes_slice(ex, st, b)
    xs = deopt(ex, st, xs)
    if not isinstance(s, Slc) or not isinstance(xs, Slc): raise Unsupported('append')
    if Eq(xs.ln, C(0)) is TRUE: return s
    if s.oid in ex.grown:
        # the array may have spare room: what a second append to the same slice
        # writes there is seen through the result of the first one
        m = ex.grown[s.oid]
        if st.heap.get(m, C(0)) is not C(0): raise Unsupported('two appends to a slice that may have spare room')
        ex.note_write(st, m)
        st.heap[m] = C(1)
    r = append1(ex, st, s, xs)
    if r.oid != s.oid:
        ex.grown[r.oid] = ex.new(st, C(0))
        if s.oid is not None and s.oid not in ex.grown and Eq(s.cp, s.ln) is not TRUE: ex.grown[s.oid] = ex.new(st, C(1))
    return r

def append1(ex, st, s, xs):
    from exec import simp
    if is_bytes(ex, st, s) or is_bytes(ex, st, xs):
        a, b = slice_segs(ex, st, s), slice_segs(ex, st, xs)
        n = simp(add(s.ln, xs.ln))
        if s.oid is not None and all(is_c(simp(x)) for x in (s.off, s.ln, s.cp, xs.ln)) and simp(n).a[0] <= simp(s.cp).a[0]:
            put(ex, st, Slc(s.oid, simp(add(s.off, s.ln)), simp(xs.ln), s.cp), b)
            return Slc(s.oid, s.off, simp(n), s.cp)
        if s.oid is not None and Eq(s.cp, s.ln) is not TRUE and ex.decide(st, Le(n, s.cp)) is not False:
            raise Unsupported('append in place')
        return bytes_slice(ex, st, a + b)
    es = elems(ex, st, xs)
    if s.oid is not None and isinstance(st.heap[s.oid], AppArr):
        c = st.heap[s.oid]
        if es is None: raise Unsupported('append of symbolic length')
        n = simp(add(s.ln, C(len(es))))
        return Slc(ex.new(st, AppArr(c.key, c.ws + tuple(es))), C(0), n, n)
    cur = elems(ex, st, s)
    if es is None or cur is None:
        a, b = family(ex, st, s), family(ex, st, xs)
        if a is None or b is None: raise Unsupported('append of symbolic length')
        n = simp(add(s.ln, xs.ln))
        if s.oid is not None and not smt.implied(st.pc, Gt(n, s.cp)):
            if not (Eq(s.ln, C(0)) is TRUE and ex.owner(s.oid) == 'fresh'): raise Unsupported('append in place')
        i = bvar()
        if cur == []: t = b(i)
        else:
            t = ex.ite_val(Lt(i, s.ln), a(i), b(sub(i, s.ln)))
            if t is None: raise Unsupported('append of symbolic length')
        return Slc(ex.new(st, Fam(n, i, t)), C(0), n, n)
    n = len(cur) + len(es)
    if s.oid is not None and not is_c(s.cp) and ex.owner(s.oid) != 'fresh': raise Unsupported('append in place')
    if s.oid is not None and is_c(s.cp) and s.cp.a[0] >= n:
        ex.note_write(st, s.oid)
        c = list(st.heap[s.oid])
        o = s.off.a[0] + len(cur)
        c[o:o + len(es)] = es
        st.heap[s.oid] = Ar(c)
        return Slc(s.oid, s.off, C(n), s.cp)
    o = ex.new(st, Ar(cur + es))
    return Slc(o, C(0), C(n), C(n))

def copy(ex, st, d, s):
    from exec import simp
    d = deopt(ex, st, d)
    if isinstance(s, Str): s = bytes_slice(ex, st, s.segs)
    s = deopt(ex, st, s)
    if d.oid is None or s.oid is None: return C(0)
    if is_bytes(ex, st, d) or is_bytes(ex, st, s) or (isinstance(st.heap[d.oid], Ar) and len(st.heap[d.oid]) and isinstance(st.heap[d.oid][0], T) and not is_c(simp(d.ln))):
        segs = slice_segs(ex, st, s)
        if Eq(d.ln, s.ln) is TRUE:
            if is_c(simp(d.ln)):
                put(ex, st, Slc(d.oid, simp(d.off), simp(d.ln), d.cp), segs)
                return d.ln
            # right-aligned copy of the shortest encoding of a number
            if len(segs) == 1 and segs[0][0] == 'bemin':
                end = simp(add(d.off, d.ln))
                if is_c(end):
                    cur = content_segs(ex, st.heap[d.oid])
                    for w in range(end.a[0], 0, -1):
                        z = cut(ex, st, cur, C(end.a[0] - w), C(w))
                        if z == (('raw', bytes(w)),) and smt.implied(st.pc, And(Lt(segs[0][1], C(256 ** w)), Gt(segs[0][1], C(-256 ** w)))):
                            v = segs[0][1]
                            if not smt.implied(st.pc, Ge(v, C(0))): v = ite(Ge(v, C(0)), v, neg(v))
                            put(ex, st, Slc(d.oid, C(end.a[0] - w), C(w), C(w)), (('be', v, w),))
                            return d.ln
        if is_c(d.ln) and is_c(s.ln):
            n = min(d.ln.a[0], s.ln.a[0])
            put(ex, st, Slc(d.oid, d.off, C(n), C(n)), cut(ex, st, segs, C(0), C(n)))
            return C(n)
        raise Unsupported('copy of bytes')
    a, b = elems(ex, st, d), elems(ex, st, s)
    if a is None or b is None:
        c, f = st.heap[d.oid], family(ex, st, s)
        whole = isinstance(c, Fam) and Eq(d.off, C(0)) is TRUE and smt.implied(st.pc, And(Eq(d.ln, c.n), Le(c.n, s.ln)))
        if not whole or f is None: raise Unsupported('copy of symbolic length')
        ex.note_write(st, d.oid)
        i = bvar()
        st.heap[d.oid] = Fam(c.n, i, f(i))
        return d.ln
    n = min(len(a), len(b))
    ex.note_write(st, d.oid)
    c = list(st.heap[d.oid])
    o = d.off.a[0]
    c[o:o + n] = b[:n]
    st.heap[d.oid] = Ar(c)
    return C(n)

# --------------------------------------------------------------------------
# globals

def global_ptr(ex, name, t):
    o = ex.globs.get(name)
    if o is None:
        o = ex.globs[name] = -len(ex.globs) - 1
        ex.meta[o] = ('glob', name)
    return Ptr(o)

def init_globals(ex, st):
    "run the initialisers of the repository's packages"
    for n, t in ex.prog.globals.items():
        p = global_ptr(ex, n, t)
        ex.meta.pop(p.oid, None)
        if n.endswith('init$guard'): st.heap[p.oid] = FALSE
        elif ex.prog.module in n: st.heap[p.oid] = ex.zero(t)
        else: st.heap[p.oid] = Opq('global', (n,))
    ext = {'crypto/rand.Reader': Opq('randreader'), 'github.com/cloudflare/circl/group.P256': Iface('circl', 'P256'),
           'github.com/cloudflare/circl/group.P384': Iface('circl', 'P384'), 'github.com/cloudflare/circl/group.P521': Iface('circl', 'P521'),
           'github.com/cloudflare/circl/group.Ristretto255': Iface('circl', 'R255')}
    for n, v in ext.items(): st.heap[global_ptr(ex, n, None).oid] = v
    for n in ex.prog.inits:
        if ex.prog.module not in n: continue
        f = ex.prog.funcs.get(n)
        if f is None: continue
        try:
            r = ex.run(f, st.fork(), [])
            if len(r) != 1: raise Unsupported('package initialiser')
            st = r[0][0]
        except Unsupported:         # what it would have set is unknown
            for g, t in ex.prog.globals.items():
                if g.startswith(n[:n.rindex('.')] + '.') and not g.endswith('init$guard'): st.heap[global_ptr(ex, g, t).oid] = Poison()
    for n in ex.prog.mutable():
        if n in ex.globs: st.heap[ex.globs[n]] = Poison(f'{n} depends on the calls made before')
    for o in list(st.heap):
        if o not in ex.meta: ex.meta[o] = ('glob', 'package variable')
    return st

@model('init', 'github.com/cloudflare/circl/group.init')
def _(ex, st): return None

# --------------------------------------------------------------------------
# hashing, strings, errors, fmt, time, random numbers

def hash_term(ex, segs):
    segs = norm_segs(segs)
    t = app('H', segs)
    ex.hashes.append(segs)
    return t

@model('crypto/sha256.New')
def _(ex, st): return Iface('sha256', ex.newp(st, Bytes(())))
@model('crypto/sha256.Sum256')
def _(ex, st, b): return Bytes((('dig', hash_term(ex, slice_segs(ex, st, b))),))

def lib_invoke(ex, st, recv, meth, args, iface):
    if recv.typ == 'sha256':
        p = recv.val
        if meth == 'Write':
            segs = slice_segs(ex, st, args[0])
            c = ex.load(st, p)
            ex.store(st, p, Bytes(norm_segs(c.segs + segs)))
            return Tup([seglen(segs), ErrV(TRUE)])
        if meth == 'Sum':
            pre = slice_segs(ex, st, args[0])
            return bytes_slice(ex, st, pre + (('dig', hash_term(ex, ex.load(st, p).segs)),))
        if meth == 'Reset':
            ex.store(st, p, Bytes(())); return None
        if meth == 'Size': return C(32)
        if meth == 'BlockSize': return C(64)
    if recv.typ in ('circl', 'circlel', 'circlsc'):
        import groups
        return groups.circl(ex, st, recv, meth, args)
    if recv.typ in INVOKE: return INVOKE[recv.typ](ex, st, recv, meth, args)
    raise Unsupported(f'{recv.typ}.{meth}')
INVOKE = {}

def write_to(ex, st, w, segs):
    "what io.WriteString, fmt.Fprint and the like write to w"
    if isinstance(w, Iface) and w.typ == 'sha256':
        return lib_invoke(ex, st, w, 'Write', [bytes_slice(ex, st, segs)], None)
    if isinstance(w, Iface) and isinstance(w.val, Ptr):
        c = ex.load(st, w.val)
        if isinstance(c, Bytes):
            ex.store(st, w.val, Bytes(norm_segs(c.segs + tuple(segs))))
            return Tup([seglen(segs), ErrV(TRUE)])
    raise Unsupported('writing to ' + (str(w.typ) if isinstance(w, Iface) else type(w).__name__))

@model('io.WriteString')
def _(ex, st, w, s): return write_to(ex, st, w, s.segs)
@model('fmt.Fprint')
def _(ex, st, w, xs): return write_to(ex, st, w, TABLE['fmt.Sprint'](ex, st, xs).segs)
@model('fmt.Fprintf')
def _(ex, st, w, f, xs): return write_to(ex, st, w, TABLE['fmt.Sprintf'](ex, st, f, xs).segs)

def opq_invoke(ex, st, recv, meth, args, iface):
    raise Unsupported(f'{recv.tag}.{meth}')

for T_ in ('bytes.Buffer', 'strings.Builder'):
    def mkw(T_):
        @model(f'(*{T_}).WriteString')
        def _(ex, st, p, s):
            c = ex.load(st, p)
            ex.store(st, p, Bytes(norm_segs(c.segs + s.segs)))
            return Tup([seglen(s.segs), ErrV(TRUE)])
        @model(f'(*{T_}).Write')
        def _(ex, st, p, b):
            segs = slice_segs(ex, st, b)
            c = ex.load(st, p)
            ex.store(st, p, Bytes(norm_segs(c.segs + segs)))
            return Tup([seglen(segs), ErrV(TRUE)])
        @model(f'(*{T_}).WriteByte')
        def _(ex, st, p, b):
            c = ex.load(st, p)
            ex.store(st, p, Bytes(norm_segs(c.segs + (('b', b),))))
            return ErrV(TRUE)
        @model(f'(*{T_}).String')
        def _(ex, st, p): return Str(ex.load(st, p).segs)
        @model(f'(*{T_}).Len')
        def _(ex, st, p): return seglen(ex.load(st, p).segs)
        @model(f'(*{T_}).Grow')
        def _(ex, st, p, n):
            ex.require(st, Ge(n, C(0)), 'Grow: negative count')
            return None
        @model(f'(*{T_}).Reset')
        def _(ex, st, p):
            ex.store(st, p, Bytes(())); return None
    mkw(T_)
@model('bytes.NewBuffer')
def _(ex, st, b):
    if not isinstance(b, Slc): raise Unsupported('bytes.NewBuffer')
    if b.oid is not None and ex.owner(b.oid) != 'fresh': raise Unsupported('bytes.NewBuffer of a slice of the caller')
    return Ptr(ex.new(st, Bytes(slice_segs(ex, st, b))))
@model('bytes.NewBufferString')
def _(ex, st, x): return Ptr(ex.new(st, Bytes(x.segs)))
@model('(*bytes.Buffer).Bytes')
def _(ex, st, p): return bytes_slice(ex, st, ex.load(st, p).segs)

@model('github.com/ing-bank/zkrp/util/byteconversion.FromByteArray')
def _(ex, st, b):
    segs = slice_segs(ex, st, b)
    n = seglen(segs)
    ex.require(st, Gt(n, C(0)), 'empty byte array')
    return Tup([newbig(ex, st, app('fba', segs)), ErrV(TRUE)])

@model('strings.Join')
def _(ex, st, s, sep):
    es = elems(ex, st, s)
    if es is None: raise Unsupported('strings.Join')
    segs = ()
    for i, e in enumerate(es):
        if i: segs += sep.segs
        segs += e.segs
    return Str(segs)
@model('strings.Fields')
def _(ex, st, s):
    t = s.lit()
    if t is None: raise Unsupported('strings.Fields')
    fs = [lit(x) for x in t.split()]
    o = ex.new(st, Ar(fs))
    return Slc(o, C(0), C(len(fs)), C(len(fs)))
@model('strings.Repeat')
def _(ex, st, s, n):
    if s.lit() is not None and is_c(n): return lit(s.lit() * n.a[0])
    raise Unsupported('strings.Repeat')
@model('strings.ReplaceAll')
def _(ex, st, s, a, b):
    if None in (s.lit(), a.lit(), b.lit()): raise Unsupported('strings.ReplaceAll')
    return lit(s.lit().replace(a.lit(), b.lit()))
@model('strconv.Itoa')
def _(ex, st, n): return Str((('dec', n),))
@model('strconv.FormatInt')
def _(ex, st, n, b):
    if is_c(b) and b.a[0] == 10: return Str((('dec', n),))
    raise Unsupported('FormatInt')
@model('strconv.FormatUint')
def _(ex, st, n, b):
    if is_c(b) and b.a[0] == 10: return Str((('dec', n),))
    raise Unsupported('FormatUint')
@model('strconv.AppendInt')
def _(ex, st, d, n, b):
    return append(ex, st, d, Str((('dec', n),)))

def variadic(ex, st, s):
    es = elems(ex, st, s)
    if es is None: raise Unsupported('variadic arguments')
    return es

def fmt_val(ex, st, v, verb='v'):
    if isinstance(v, Iface) and isinstance(v.val, T): return (('dec', v.val),)
    if isinstance(v, Iface) and isinstance(v.val, Str): return v.val.segs
    if isinstance(v, Iface) and isinstance(v.typ, int) and ex.tname(v.typ) == '*math/big.Int': return (('dec', big(ex, st, v.val)),)
    if isinstance(v, Iface) and isinstance(v.typ, int) and ex.tname(v.typ) == '[]byte' and verb == 's': return slice_segs(ex, st, v.val)
    if (isinstance(v, Iface) and v.typ == 'abselem') or isinstance(v, ElTm):
        r = abs_elem(ex, st, 'String', v, [])
        return r.segs
    if isinstance(v, ErrV): return (('opq', 'errtext'),)
    raise Unsupported('formatting')

@model('fmt.Sprint')
def _(ex, st, xs):
    es = variadic(ex, st, xs)
    segs = ()
    prev_str = True
    for i, e in enumerate(es):
        is_str = isinstance(e, Iface) and isinstance(e.val, Str)
        if i and not is_str and not prev_str: segs += (('lit', ' '),)
        segs += fmt_val(ex, st, e)
        prev_str = is_str
    return Str(segs)
@model('fmt.Sprintf')
def _(ex, st, f, xs):
    t = f.lit()
    if t is None: raise Unsupported('Sprintf')
    es = variadic(ex, st, xs)
    segs, i, k = (), 0, 0
    while i < len(t):
        if t[i] == '%':
            v = t[i + 1]
            if v == '%': segs += (('lit', '%'),)
            elif v in 'dsv':
                segs += fmt_val(ex, st, es[k], v); k += 1
            else: raise Unsupported('Sprintf verb')
            i += 2
        else:
            segs += (('lit', t[i]),); i += 1
    return Str(segs)
@model('fmt.Println', 'fmt.Printf', 'fmt.Print', 'log.Println', 'log.Printf')
def _(ex, st, *a): return Tup([C(0), ErrV(TRUE)])
@model('fmt.Errorf', 'errors.New')
def _(ex, st, *a): return ErrV(FALSE)
@model('errors.Join')
def _(ex, st, xs):
    es = variadic(ex, st, xs)
    return ErrV(And(*[e.isnil if isinstance(e, ErrV) else (TRUE if e is NIL else FALSE) for e in es]))
@model('time.Now')
def _(ex, st): return Opq('time')
@model('time.Since')
def _(ex, st, t): return fresh('dur', -(1 << 63), (1 << 63) - 1)
@model('(time.Time).Sub')
def _(ex, st, t, u): return fresh('dur', -(1 << 63), (1 << 63) - 1)
@model('math.Log2')
def _(ex, st, x):
    if x.k == 'c':
        try: return Flt('c', math.log2(x.v))
        except ValueError: return Flt('c', float('nan'))
    if x.k == 'int': return Flt('log2', x.v)
    raise Unsupported('math.Log2')
@model('math/bits.TrailingZeros64', 'math/bits.TrailingZeros')
def _(ex, st, x):
    if is_c(x): return C((x.a[0] & -x.a[0]).bit_length() - 1 if x.a[0] else 64)
    return app('tz64', x)
@model('math/bits.Len64', 'math/bits.Len')
def _(ex, st, x):
    if is_c(x): return C((x.a[0] % (1 << 64)).bit_length())
    return app('bitlen', x)         # the argument is unsigned
@model('math/bits.OnesCount64', 'math/bits.OnesCount')
def _(ex, st, x):
    if is_c(x): return C(bin(x.a[0] % (1 << 64)).count('1'))
    return app('popcnt64', x)

def source(ex, reader):
    if isinstance(reader, Opq) and reader.tag == 'randreader': return
    if isinstance(reader, Opq) and reader.tag == 'weakrand': ex.weak = 'math/rand'
    else: raise Unsupported('source of randomness')

@model('math/rand.NewSource', 'math/rand.New')
def _(ex, st, *a): return Opq('weakrand')
@model('(*math/big.Int).Rand')
def _(ex, st, z, rnd, n):
    ex.weak = 'math/rand'
    r = fresh('rnd', 0, big(ex, st, n))
    ex.rands = getattr(ex, 'rands', []) + [(r, big(ex, st, n))]
    return setbig(ex, st, z, r)

@model('crypto/rand.Int')
def _(ex, st, reader, mx):
    source(ex, reader)
    m = big(ex, st, mx)
    ex.require(st, Gt(m, C(0)), 'crypto/rand: argument to Int is <= 0')
    if is_c(m): r = fresh('rnd', 0, m.a[0] - 1)
    else: r = fresh('rnd', 0, m)
    ex.rands = getattr(ex, 'rands', []) + [(r, m)]
    return Tup([newbig(ex, st, r), ErrV(TRUE)])

@model('slices.Clone')
def _(ex, st, s): raise Unsupported('slices.Clone')

def unknown(ex, st, name, args):
    if name.endswith('.init'): return None
    raise Unsupported(f'call of {name}')

# --------------------------------------------------------------------------
# the abstract group: the contract stated by the group.Group and group.Element interfaces

def mkgrp(ex, st, name, qlo=2 ** 250):
    g = Grp(name, qlo)
    g.noid = ex.new(st, g.q, 'in', f'order of group {name}')
    g.poid = ex.new(st, g.p, 'in', f'field order of group {name}')
    return Iface('absgrp', g)

def mkel(ex, st, g, val, owner='fresh', name=''):
    if isinstance(g, Iface): g = g.val
    return Iface('abselem', ex.newp(st, El(g, val), owner, name))

def abs_group(ex, st, meth, recv, args):
    g = recv.val
    if meth == 'Element': return mkel(ex, st, g, None)
    if meth == 'Identity': return mkel(ex, st, g, C(0))
    if meth == 'Generator': return mkel(ex, st, g, C(1))
    if meth == 'Random': return mkel(ex, st, g, fresh('rndel', 0, g.q))
    if meth == 'N': return Ptr(g.noid)
    if meth == 'P': return Ptr(g.poid)
    if meth == 'Name': return Str((('grpname', g.name),))
    if meth == 'MarshalJSON': return Tup([bytes_slice(ex, st, (('grpjson', g.name),)), ErrV(TRUE)])
    raise Unsupported(f'Group.{meth}')

def elv(ex, st, x, g=None):
    "(group, value) of an element operand"
    if isinstance(x, Opt):
        ex.require(st, Not(x.isnil), 'nil element')
        x = x.val
    if x is NIL: ex.panic(st, 'nil group element')
    if isinstance(x, ElTm): h, v = x.grp, x.val
    elif isinstance(x, Iface) and x.typ == 'abselem':
        e = ex.load(st, x.val)
        h, v = e.grp, e.val
        if v is None: v = fresh('unset', 0, h.q)
    else: raise Unsupported(f'element operand {x!r}')
    if g is not None and h is not g: ex.panic(st, 'incompatible group element')
    return h, v

def setel(ex, st, recv, val):
    if isinstance(recv, ElTm): return ex.tm_write(st, recv)
    p = recv.val
    e = ex.load(st, p)
    ex.note_write(st, p.oid)
    st.heap[p.oid] = El(e.grp, val)
    return recv

def abs_elem(ex, st, meth, recv, args):
    if isinstance(recv, ElTm): g, own = recv.grp, recv.val
    else:
        e = ex.load(st, recv.val)
        g, own = e.grp, e.val
    ov = lambda x: elv(ex, st, x, g)[1]
    if meth == 'Add': return setel(ex, st, recv, add(ov(args[0]), ov(args[1])))
    if meth == 'Subtract': return setel(ex, st, recv, sub(ov(args[0]), ov(args[1])))
    if meth == 'Negate': return setel(ex, st, recv, neg(ov(args[0])))
    if meth == 'Scale': return setel(ex, st, recv, mul(ov(args[0]), big(ex, st, args[1])))
    if meth == 'BaseScale': return setel(ex, st, recv, big(ex, st, args[0]))
    if meth == 'Set': return setel(ex, st, recv, ov(args[0]))
    if own is None and meth in ('IsEqual', 'IsIdentity', 'String', 'MarshalBinary', 'MarshalJSON'): own = fresh('unset', 0, g.q)
    if meth == 'IsEqual': return EqM(own, ov(args[0]), g.q)
    if meth == 'IsIdentity': return EqM(own, C(0), g.q)
    if meth == 'String': return Str((('el', g.name, (own, g.q)),))
    if meth == 'GroupOrder': return Ptr(g.noid)
    if meth == 'FieldOrder': return Ptr(g.poid)
    if meth == 'MapToGroup':
        if not isinstance(recv, ElTm):
            ex.note_write(st, recv.val.oid)
            st.heap[recv.val.oid] = El(g, None)
        return Tup([mkel(ex, st, g, mtg(g, args[0].segs)), ErrV(TRUE)])
    if meth in ('MarshalBinary', 'MarshalJSON'):
        k = 'elbin' if meth == 'MarshalBinary' else 'eljson'
        return Tup([bytes_slice(ex, st, ((k, g.name, (own, g.q)),)), ErrV(TRUE)])
    if meth in ('UnmarshalBinary', 'UnmarshalJSON'):
        k = 'elbin' if meth == 'UnmarshalBinary' else 'eljson'
        segs = slice_segs(ex, st, args[0])
        if len(segs) == 1 and segs[0][0] == k and segs[0][1] == g.name:
            setel(ex, st, recv, segs[0][2][0])
            return ErrV(TRUE)
        ok = TRUE
        if len(segs) == 1 and segs[0][0] == 'optseg': ok, segs = Not(segs[0][1]), segs[0][2]
        # no element is encoded as no bytes at all
        ok = And(ok, Bool('decok', k, g.name, segs)) if segs else FALSE
        v = app('decval', k, g.name, segs)
        ex.note_write(st, recv.val.oid)
        st.heap[recv.val.oid] = El(g, v if ok is TRUE else ite(ok, v, own if own is not None else app('undec', g.name)))
        return ErrV(ok)
    if meth == 'SetBytes':
        segs = slice_segs(ex, st, args[0])
        if len(segs) == 1 and segs[0][0] == 'elbin' and segs[0][1] == g.name: return setel(ex, st, recv, segs[0][2][0])
        return setel(ex, st, recv, app('decval', 'elbin', g.name, segs))
    raise Unsupported(f'Element.{meth}')

def mtg(g, segs):
    return app('mtg', g.name, norm_segs(segs))

import jsonm, groups
