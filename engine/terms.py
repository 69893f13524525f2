"""Symbolic integers, polynomial normal forms and formulas.

Terms are hash-consed DAG nodes over the mathematical integers.  `nf(t)` is a
canonical polynomial of t over Z, `nf(t, m)` a canonical polynomial of t in the
ring Z/mZ for a symbolic modulus m (the order of a group).  Bounded sums with a
symbolic range, powers with symbolic exponents, inverses modulo a prime and
bits are part of the normal form.  `evaluate` interprets a term in a random
model; every identity that the normal form accepts is cross-checked there.
"""
import hashlib, random, itertools, math
from functools import lru_cache

class Blowup(Exception):
    pass

MAXMONO = 60000

# --------------------------------------------------------------------------
# terms

_tab = {}
_terms = []

class T:
    __slots__ = ('op', 'a', 'id', 'h')
    def __repr__(self):
        return show(self)

def mk(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, (T, F)) else x for x in a) + tuple(1 if isinstance(x, T) else 2 if isinstance(x, F) else 0 for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_terms)
        h = 0
        if op == 'sum':
            h = a[2].h + 1
            if a[0].h > h: h = a[0].h
        else:
            for x in a:
                if isinstance(x, (T, F)):
                    if x.h > h: h = x.h
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (T, F)) and y.h > h: h = y.h
        t.h = h
        _terms.append(t)
        _tab[key] = t
    return t

class VarInfo:
    __slots__ = ('lo', 'hi', 'kind')
    def __init__(self, lo, hi, kind):
        self.lo, self.hi, self.kind = lo, hi, kind

VARS = {}          # name -> VarInfo; lo inclusive int|None, hi inclusive int | exclusive T | None
_fresh = itertools.count()

def C(n):
    return mk('c', int(n))

ZERO, ONE = None, None

def V(name, lo=None, hi=None, kind='int'):
    if name not in VARS:
        VARS[name] = VarInfo(lo, hi, kind)
    return mk('v', name)

def fresh(base, lo=None, hi=None, kind='int'):
    return V(f"{base}!{next(_fresh)}", lo, hi, kind)

def BV(k):
    return mk('bv', k)

_bvid = itertools.count(1)

def bvar():
    "a bound variable with a unique name"
    return mk('bv', -next(_bvid))

def is_c(t): return t.op == 'c'
def cval(t): return t.a[0] if t.op == 'c' else None

def add(*ts):
    k, out = 0, []
    for t in ts:
        if isinstance(t, int): k += t
        elif t.op == 'c': k += t.a[0]
        elif t.op == '+': 
            for x in t.a:
                if x.op == 'c': k += x.a[0]
                else: out.append(x)
        else: out.append(t)
    if k or not out: out.append(C(k))
    if len(out) == 1: return out[0]
    return mk('+', *out)

def mul(*ts):
    k, out = 1, []
    for t in ts:
        if isinstance(t, int): k *= t
        elif t.op == 'c': k *= t.a[0]
        else: out.append(t)
    if k == 0: return C(0)
    if not out: return C(k)
    if k != 1: out.insert(0, C(k))
    if len(out) == 1: return out[0]
    return mk('*', *out)

def neg(t): return mul(C(-1), t)
def sub(a, b): return add(a, neg(b))

def power(b, e):
    if isinstance(e, int): e = C(e)
    if is_c(e):
        if e.a[0] == 0: return C(1)
        if e.a[0] == 1: return b
        if is_c(b) and 0 <= e.a[0] < 100000: return C(b.a[0] ** e.a[0])
    if is_c(b) and b.a[0] == 1: return C(1)
    return mk('^', b, e)

def mod(t, m):
    "Euclidean remainder, m > 0"
    if is_c(m):
        if is_c(t): return C(t.a[0] % abs(m.a[0]))
        if abs(m.a[0]) == 1: return C(0)
    if t.op == 'mod' and t.a[1] is m: return t
    if t.op == 'inv' and t.a[1] is m: return t
    if t.op == 'v':
        vi = VARS[t.a[0]]
        if vi.lo is not None and vi.lo >= 0 and vi.hi is m: return t
    return mk('mod', t, m)

def div(t, d):
    "floor division, d > 0"
    if is_c(d):
        if is_c(t): return C(t.a[0] // d.a[0])
        if d.a[0] == 1: return t
    if t.op == 'div': return div(t.a[0], mul(t.a[1], d))
    return mk('div', t, d)

def inv(t, m):
    "the inverse of t modulo m, in [0, m)"
    return mk('inv', t, m)

def ite(f, a, b):
    if f is TRUE: return a
    if f is FALSE: return b
    if a is b: return a
    return mk('ite', f, a, b)

def app(name, *args):
    """uninterpreted function; an argument is a T (compared over Z), a pair
    (T, m) of terms (compared modulo m), or a hashable constant"""
    return mk('app', name, *args)

def summ(n, fn):
    "sum of fn(i) for 0 <= i < n"
    if isinstance(n, int): n = C(n)
    if is_c(n):
        return add(C(0), *[fn(C(i)) for i in range(max(0, n.a[0]))])
    b = bvar()
    return mk('sum', n, b, fn(b))

def show(t, d=0):
    if isinstance(t, F): return showf(t, d)
    if not isinstance(t, T): return str(t)
    if d > 9: return '…'
    o = t.op
    if o == 'c': return str(t.a[0]) if abs(t.a[0]) < 10**12 else hex(t.a[0])
    if o == 'v': return t.a[0]
    if o == 'bv': return f"i{t.a[0]}" if t.a[0] >= 0 else f"k{-t.a[0]}"
    if o == '+': return '(' + ' + '.join(show(x, d+1) for x in t.a) + ')'
    if o == '*': return '·'.join(show(x, d+1) for x in t.a)
    if o == '^': return f"{show(t.a[0], d+1)}^{show(t.a[1], d+1)}"
    if o == 'mod': return f"({show(t.a[0], d+1)} mod {show(t.a[1], d+1)})"
    if o == 'sum': return f"Σ[{show(t.a[1])}<{show(t.a[0], d+1)}]({show(t.a[2], d+1)})"
    if o == 'app': return f"{t.a[0]}({', '.join(showarg(x, d+1) for x in t.a[1:])})"
    return f"{o}({', '.join(show(x, d+1) for x in t.a)})"

def showarg(x, d):
    if isinstance(x, tuple): return '[' + ','.join(showarg(y, d) for y in x) + ']'
    return show(x, d)

# --------------------------------------------------------------------------
# substitution

def subst(t, s, memo=None):
    "replace terms by id -> T"
    if memo is None: memo = {}
    return _subst(t, s, memo)

def _subst_arg(x, s, memo):
    if isinstance(x, T): return _subst(x, s, memo)
    if isinstance(x, F): return _substf(x, s, memo)
    if isinstance(x, tuple): return tuple(_subst_arg(y, s, memo) for y in x)
    return x

BITOP = {'bit&': lambda x, y: x & y, 'bit|': lambda x, y: x | y, 'bit^': lambda x, y: x ^ y, 'bit&^': lambda x, y: x & ~y}
def _subst(t, s, memo):
    r = s.get(t.id)
    if r is not None: return r
    if t.op in ('c', 'v', 'bv'): return t
    r = memo.get(t.id)
    if r is not None: return r
    a = [_subst_arg(x, s, memo) for x in t.a]
    o = t.op
    if all(x is y for x, y in zip(a, t.a)): r = t
    elif o == '+': r = add(*a)
    elif o == '*': r = mul(*a)
    elif o == '^': r = power(*a)
    elif o == 'mod': r = mod(*a)
    elif o == 'div': r = div(*a)
    elif o == 'inv': r = inv(*a)
    elif o == 'ite': r = ite(*a)
    elif o == 'sum':
        if is_c(a[0]):
            r = add(C(0), *[subst(a[2], {a[1].id: C(i)}) for i in range(max(0, a[0].a[0]))])
        else: r = mk('sum', *a)
    elif o == 'app' and a[0] in BITOP and is_c(a[1]) and is_c(a[2]) and a[1].a[0] >= 0 and a[2].a[0] >= 0: r = C(BITOP[a[0]](a[1].a[0], a[2].a[0]))
    else: r = mk(o, *a)
    memo[t.id] = r
    return r

# --------------------------------------------------------------------------
# polynomials: dict monomial -> coefficient
# monomial: tuple of (atom, exponent), sorted; exponent int or tuple (a poly key)

class Atom:
    __slots__ = ('key', 'id', 'bit', 'fv', 'term')

_atoms = {}
ATOMS = []

def atom(key, fv=frozenset(), bit=False, term=None):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key, a.id, a.bit, a.fv, a.term = key, len(ATOMS), bit, fv, term
        ATOMS.append(a)
        _atoms[key] = a
    return a.id

EMPTY = frozenset()

def pkey(p):
    return tuple(sorted(p.items(), key=_mkey))

def _mkey(it):
    return (len(it[0]), repr(it[0]), it[1])

def kpoly(k):
    return dict(k)

def pfv(p):
    "free bound variables of a polynomial (dict or key)"
    s = EMPTY
    for m, c in (p.items() if isinstance(p, dict) else p):
        for a, e in m:
            s = s | ATOMS[a].fv
            if not isinstance(e, int): s = s | pfv(e)
    return s

def padd(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + c
        if c2: r[m] = c2
        else: r.pop(m, None)
    return r

def pscale(p, k):
    if k == 0: return {}
    return {m: c * k for m, c in p.items()}

def expadd(e, f):
    if isinstance(e, int) and isinstance(f, int): return e + f
    pe = {(): e} if isinstance(e, int) else kpoly(e)
    pf = {(): f} if isinstance(f, int) else kpoly(f)
    pe = {m: c for m, c in pe.items() if c}
    pf = {m: c for m, c in pf.items() if c}
    r = padd(pe, pf)
    if not r: return 0
    if len(r) == 1 and () in r: return r[()]
    return pkey(r)

def expmul(e, f):
    if isinstance(e, int) and isinstance(f, int): return e * f
    pe = {(): e} if isinstance(e, int) else kpoly(e)
    pf = {(): f} if isinstance(f, int) else kpoly(f)
    r = pmul(pe, pf)
    if not r: return 0
    if len(r) == 1 and () in r: return r[()]
    return pkey(r)

_mm = {}

def mmul(m, n):
    if not m: return (1, n)
    if not n: return (1, m)
    k = (m, n)
    r = _mm.get(k)
    if r is not None: return r
    d = dict(m)
    for a, e in n:
        if a in d: d[a] = expadd(d[a], e)
        else: d[a] = e
    r = norm_mono(d)
    if len(_mm) < 2000000: _mm[k] = r
    return r

def norm_mono(d):
    coef = 1
    out = []
    for a, e in d.items():
        if e == 0: continue
        at = ATOMS[a]
        if at.bit and isinstance(e, int) and e > 1: e = 1
        if at.key[0] == 'k':       # a constant base
            base = at.key[1]
            if isinstance(e, int):
                if e > 0:
                    coef *= base ** e
                    continue
            else:
                pe = kpoly(e)
                c0 = pe.get((), 0)
                if c0 > 0:
                    coef *= base ** c0
                    del pe[()]
                    e = pkey(pe)
        out.append((a, e))
    out.sort(key=lambda x: x[0])
    return (coef, tuple(out))

def pmul(p, q):
    if not p or not q: return {}
    if len(p) * len(q) > 4 * MAXMONO: raise Blowup()
    if len(q) < len(p): p, q = q, p
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k, mn = mmul(m, n)
            v = r.get(mn, 0) + c * d * k
            if v: r[mn] = v
            else: r.pop(mn, None)
    if len(r) > MAXMONO: raise Blowup()
    return r

def preduce(p, m):
    if m is not None and is_c(m):
        k = m.a[0]
        return {x: c % k for x, c in p.items() if c % k}
    return p

def pconst(p):
    "the constant value of p, or None"
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    return None

# rewriting of variables by definitions (v := sum of its digits, ...)
DEFS = {}
_ver = 0

def define(t, d):
    global _ver
    DEFS[t.id] = d
    _ver += 1
    _nf.clear(); _fk.clear()

def clear_defs():
    global _ver
    if DEFS:
        DEFS.clear(); _ver += 1
        _nf.clear(); _fk.clear()

_nf = {}

def nf(t, m=None):
    k = (t.id, -1 if m is None else m.id)
    r = _nf.get(k)
    if r is None:
        r = preduce(_nfc(t, m), m)
        _nf[k] = r
    return r

def lower(m):
    "a known lower bound of a modulus"
    if m.op == 'c': return m.a[0]
    if m.op == 'v':
        lo = VARS[m.a[0]].lo
        return lo if lo is not None else 1
    return 1

def _argkey(x):
    if isinstance(x, T):
        p = nf(x)
        return ('z', pkey(p)), pfv(p)
    if isinstance(x, F):
        return ('f', fkey(x)), ffv(x)
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[0], T) and isinstance(x[1], T):
            p = nf(x[0], x[1])
            return ('m', x[1].id, pkey(p)), pfv(p)
        ks, fv = [], EMPTY
        for y in x:
            k, f = _argkey(y)
            ks.append(k); fv = fv | f
        return ('t', tuple(ks)), fv
    return ('c', x), EMPTY

def single(a):
    return {((a, 1),): 1}

def ppow(p, e):
    "p to the power e, where e is a polynomial"
    ce = pconst(e)
    if ce is not None:
        if ce == 0: return {(): 1}
        if len(p) == 1:
            (mm, c), = p.items()
            if ce > 0 or c in (1, -1):
                d = {a: expmul(x, ce) for a, x in mm}
                k, mo = norm_mono(d)
                return {mo: k * (c ** abs(ce))}
        if ce > 0:
            if ce > 64: raise Blowup()
            r = {(): 1}
            for _ in range(ce): r = pmul(r, p)
            return r
    ek = pkey(e) if ce is None else ce
    pc = pconst(p)
    if pc is not None:
        if pc in (0, 1): 
            if pc == 1: return {(): 1}
            a = atom(('powp', pkey(p)), EMPTY)
            return {((a, ek),): 1}
        a = atom(('k', pc))
        k, mo = norm_mono({a: ek})
        return {mo: k}
    if len(p) == 1:
        (mm, c), = p.items()
        d = {a: expmul(x, ek) for a, x in mm}
        if c != 1:
            a = atom(('k', c))
            d[a] = expadd(d.get(a, 0), ek)
        k, mo = norm_mono(d)
        return {mo: k}
    a = atom(('powp', pkey(p)), pfv(p))
    return {((a, ek),): 1}

def _nfc(t, m):
    if t is m: return {}
    o = t.op
    if o == 'c': return {(): t.a[0]} if t.a[0] else {}
    if o == 'v':
        d = DEFS.get(t.id)
        if d is not None: return nf(d, m)
        vi = VARS[t.a[0]]
        return single(atom(('v', t.a[0]), EMPTY, vi.kind == 'bit', t))
    if o == 'bv': return single(atom(('bv', t.a[0]), frozenset((t.a[0],)), False, t))
    if o == '+':
        r = {}
        for x in t.a:
            for mo, c in nf(x, m).items():
                v = r.get(mo, 0) + c
                if v: r[mo] = v
                else: r.pop(mo, None)
        if len(r) > MAXMONO: raise Blowup()
        return r
    if o == '*':
        r = {(): 1}
        for x in t.a: r = pmul(r, nf(x, m))
        return r
    if o == '^':
        return ppow(nf(t.a[0], m), nf(t.a[1]))
    if o == 'mod':
        x, d = t.a
        if d is m: return nf(x, m)
        if m is not None and is_c(m) and is_c(d) and d.a[0] % m.a[0] == 0: return nf(x, m)
        p = nf(x, d)
        c = pconst(p)
        if c is not None and is_c(d): return {(): c % d.a[0]} if c % d.a[0] else {}
        if c is not None and 0 <= c < lower(d): return {(): c} if c else {}
        if len(p) == 1:
            (mo, cc), = p.items()
            if cc == 1 and len(mo) == 1 and mo[0][1] == 1:
                at = ATOMS[mo[0][0]]
                if at.key[0] == 'v':
                    vi = VARS[at.key[1]]
                    if vi.lo is not None and vi.lo >= 0 and (vi.hi is d or (isinstance(vi.hi, int) and vi.hi < lower(d))): return p
                if at.bit: return p
                if at.key[0] == 'app' and at.term is not None and in_range(at.term, d): return p
        return single(atom(('mod', d.id, pkey(p)), pfv(p), is_c(d) and d.a[0] == 2, t))
    if o == 'div':
        p = nf(t.a[0]); q = nf(t.a[1])
        cp, cq = pconst(p), pconst(q)
        if cp is not None and cq is not None and cq > 0: return {(): cp // cq} if cp // cq else {}
        if cq == 1: return p
        return single(atom(('div', pkey(p), pkey(q)), pfv(p) | pfv(q), False, t))
    if o == 'inv':
        x, d = t.a
        p = nf(x, d)
        k = 1
        if is_c(d) and len(p) == 1:
            (mm, c), = p.items()
            if math.gcd(c, d.a[0]) == 1: k, p = pow(c, -1, d.a[0]), {mm: 1}
        p = ppow(p, {(): -1})
        if k != 1: p = preduce(pscale(p, k), d)
        if d is m: return p
        c = pconst(p)
        if c == 1: return p
        return single(atom(('mod', d.id, pkey(p)), pfv(p), False, t))
    if o == 'ite':
        f, a, b = t.a
        v = fval(f)
        if v is True: return nf(a, m)
        if v is False: return nf(b, m)
        pa, pb = nf(a, m), nf(b, m)
        if pa == pb: return pa
        bt = bit_test(f)
        if bt is not None:      # polynomial that is 1 if f, else 0
            return padd(pb, pmul(bt, padd(pa, pscale(pb, -1))))
        return single(atom(('ite', fkey(f), pkey(pa), pkey(pb)), ffv(f) | pfv(pa) | pfv(pb), False, t))
    if o == 'app':
        ks, fv = [], EMPTY
        for x in t.a[1:]:
            k, f = _argkey(x)
            ks.append(k); fv = fv | f
        return single(atom(('app', t.a[0], tuple(ks)), fv, t.a[0] in BITFN, t))
    if o == 'sum':
        return nfsum(t, m)
    raise AssertionError(o)

BITFN = set()
RANGEFN = {}     # function name -> modulus T or int (exclusive): values lie in [0, that)

def in_range(t, d):
    r = RANGEFN.get(t.a[0])
    return r is d or (isinstance(r, int) and r <= lower(d))

def mentions(t, n):
    vs = {v.id for v in leaves(n)}
    return bool(vs) and any(x.id in vs for x in leaves(t))

_leaves = {}
def leaves(t):
    r = _leaves.get(t.id)
    if r is None:
        if t.op in ('v', 'bv'): r = frozenset((t,))
        else:
            r = EMPTY
            for x in t.a: r = r | _lv(x)
        _leaves[t.id] = r
    return r
def _lv(x):
    if isinstance(x, T): return leaves(x)
    if isinstance(x, F):
        r = EMPTY
        for y in x.a: r = r | _lv(y)
        return r
    if isinstance(x, tuple):
        r = EMPTY
        for y in x: r = r | _lv(y)
        return r
    return EMPTY

def bva(k): return next(iter(nf(BV(k))))[0][0]

def size(p):
    "how much there is to read in a polynomial, the arguments of its atoms included"
    return sum(_count(ATOMS[a].key) + _count(e) for mo in p for a, e in mo)
def _count(k): return sum(map(_count, k)) if isinstance(k, tuple) else 1

def plain(p):
    "the polynomial as a term, or None"
    out = []
    for mo, co in p.items():
        fs = [C(co)]
        for a, e in mo:
            x = factor(a, e)
            if x is None: return None
            fs.append(x)
        out.append(mul(*fs))
    return add(C(0), *out)

def factor(a, e):
    t = C(ATOMS[a].key[1]) if ATOMS[a].key[0] == 'k' else ATOMS[a].term
    x = C(e) if isinstance(e, int) else plain(kpoly(e))
    return None if t is None or x is None or isinstance(e, int) and e < 1 else power(t, x)

def shallow(dep, k):
    "the summand as a term, if it nests fewer sums than the factors taken out of it did"
    if not k: return None
    fs = [factor(a, e) for a, e in dep]
    if any(f is None for f in fs): return None
    t = mul(*fs)
    return t if t.h < k else None

def nfsum(t, m):
    n, b, body = t.a
    pn = nf(n)
    c = pconst(pn)
    if c is not None:
        r = {}
        for i in range(max(0, c)):
            r = padd(r, nf(subst(body, {b.id: C(i)}), m))
        return r
    c0 = pn.get((), 0)
    if c0 > 0:
        base = add(n, C(-c0))
        r = nf(mk('sum', base, b, body), m)
        for i in range(c0):
            r = padd(r, nf(subst(body, {b.id: add(base, C(i))}), m))
        return r
    if len(pn) == 1:
        (mo, cc), = pn.items()
        if cc == 2 and len(mo) == 1 and mo[0][1] == 1 and ATOMS[mo[0][0]].term is not None:
            half = ATOMS[mo[0][0]].term
            return padd(nf(mk('sum', half, b, body), m),
                        nf(mk('sum', half, b, subst(body, {b.id: add(half, b)})), m))
    if mentions(body, n):       # read the sum from its other end where that is simpler
        if body.op == '+':
            r = {}
            for x in body.a: r = padd(r, nf(mk('sum', n, b, x), m))
            return r
        back = subst(body, {b.id: add(n, C(-1), neg(b))})
        p0, p1 = nf(body, m), nf(back, m)
        if size(p1) < size(p0): body = back
    k = body.h
    cb = BV(k)
    p = nf(subst(body, {b.id: cb}), m)
    pnm = nf(n, m)
    r = {}
    nk = pkey(pn)
    nfvs = pfv(pn)
    for mo, co in p.items():
        dep, ind = [], []
        for a, e in mo:
            d = k in ATOMS[a].fv or (not isinstance(e, int) and k in pfv(e))
            (dep if d else ind).append((a, e))
        if len(dep) == 1 and ATOMS[dep[0][0]].key == ('k', 2) and dep[0][1] == ((((bva(k), 1),), 1),):
            s = padd(ppow({(): 2}, pn), {(): -1})     # sum of 2^k for k below n
        elif dep and (low := shallow(dep, k)) is not None:
            b2 = bvar()
            s = nf(mk('sum', n, b2, subst(low, {cb.id: b2})), m)
        elif dep:
            fv = EMPTY
            for a, e in dep:
                fv = fv | ATOMS[a].fv
                if not isinstance(e, int): fv = fv | pfv(e)
            s = single(atom(('sum', nk, k, tuple(dep)), (fv - {k}) | nfvs))
        else:
            s = pnm
        r = padd(r, pmul({tuple(ind): co}, s))
    return r

def eqz(a, b=None):
    return not nf(a if b is None else sub(a, b))

def eqm(a, b, m):
    return not nf(sub(a, b), m)

def show_poly(p, lim=12):
    def sm(m):
        return '·'.join(show_atom(a) + ('' if e == 1 else f"^{e if isinstance(e, int) else show_poly(kpoly(e))}") for a, e in m) or '1'
    its = sorted(p.items(), key=_mkey)
    s = ' + '.join((f"{c}·" if c != 1 else '') + sm(m) for m, c in its[:lim])
    if len(its) > lim: s += f" + … ({len(its)} monomials)"
    return s or '0'

def show_atom(a):
    at = ATOMS[a]
    if at.term is not None and at.term.op in ('v', 'app', 'bv'): return show(at.term)
    k = at.key
    if k[0] == 'k': return str(k[1])
    if k[0] == 'mod': return f"({show_poly(kpoly(k[2]), 4)} mod {show(_terms[k[1]])})"
    if k[0] == 'sum': return f"Σ[i{k[2]}<{show_poly(kpoly(k[1]))}]({'·'.join(show_atom(x) + ('' if e == 1 else '^' + (str(e) if isinstance(e, int) else show_poly(kpoly(e)))) for x, e in k[3])})"
    if at.term is not None: return show(at.term)
    return str(k)

# --------------------------------------------------------------------------
# formulas

_ftab = {}
_forms = []

class F:
    __slots__ = ('op', 'a', 'id', 'h')
    def __repr__(self): return showf(self)

def mkf(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, (T, F)) else x for x in a) + tuple(1 if isinstance(x, T) else 2 if isinstance(x, F) else 0 for x in a)
    f = _ftab.get(key)
    if f is None:
        f = F()
        f.op, f.a, f.id = op, a, len(_forms)
        h = 0
        for x in a:
            if isinstance(x, (T, F)):
                if x.h > h: h = x.h
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (T, F)) and y.h > h: h = y.h
        if op == 'forall': h += 1
        f.h = h
        _forms.append(f)
        _ftab[key] = f
    return f

TRUE = mkf('true')
FALSE = mkf('false')

def Not(f):
    if f is TRUE: return FALSE
    if f is FALSE: return TRUE
    if f.op == 'not': return f.a[0]
    return mkf('not', f)

def And(*fs):
    out = []
    for f in fs:
        if f is FALSE: return FALSE
        if f is TRUE: continue
        if f.op == 'and':
            for g in f.a:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if Not(f) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mkf('and', *out)

def Or(*fs):
    return Not(And(*[Not(f) for f in fs]))

def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    return And(Implies(a, b), Implies(b, a))

def IteF(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is FALSE: return And(Not(c), b)
    if a is TRUE: return Or(c, b)
    if b is FALSE: return And(c, a)
    if b is TRUE: return Or(Not(c), a)
    return And(Implies(c, a), Implies(Not(c), b))

def Le0(t):
    try:
        c = pconst(nf(t))
        if c is not None: return TRUE if c <= 0 else FALSE
    except Blowup: pass
    return mkf('le', t)

def Le(a, b): return Le0(sub(a, b))
def Lt(a, b): return Le0(add(sub(a, b), C(1)))
PITS = [0]      # equalities decided by evaluation at random points (too large to expand)
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)

def Eq(a, b):
    if a is b: return TRUE
    t = sub(a, b)
    try:
        c = pconst(nf(t))
        if c is not None: return TRUE if c == 0 else FALSE
    except Blowup:
        PITS[0] += 1
        if pit_zero(t, None): return TRUE
    return mkf('eq', t)

def Ne(a, b): return Not(Eq(a, b))

def EqM(a, b, m):
    "a = b modulo m"
    if a is b: return TRUE
    t = sub(a, b)
    try:
        p = nf(t, m)
        if not p: return TRUE
        c = pconst(p)
        if c is not None and abs(c) < lower(m): return FALSE
    except Blowup:
        PITS[0] += 1
        if pit_zero(t, m): return TRUE
    return mkf('eqm', t, m)

def Bool(name, *args):
    return mkf('b', name, *args)

def Forall(n, fn):
    if isinstance(n, int): n = C(n)
    if is_c(n): return And(*[fn(C(i)) for i in range(max(0, n.a[0]))])
    b = bvar()
    g = fn(b)
    if g is TRUE: return TRUE
    return mkf('forall', n, b, g)

def _substf(f, s, memo):
    if not f.a: return f
    k = ('f', f.id)
    r = memo.get(k)
    if r is not None: return r
    a = [_subst_arg(x, s, memo) for x in f.a]
    o = f.op
    if all(x is y for x, y in zip(a, f.a)): r = f
    elif o == 'not': r = Not(a[0])
    elif o == 'and': r = And(*a)
    elif o == 'le': r = Le0(a[0])
    elif o == 'eq': r = Eq(a[0], C(0))
    elif o == 'eqm': r = EqM(a[0], C(0), a[1])
    elif o == 'forall':
        if is_c(a[0]): r = And(*[_substf(a[2], {a[1].id: C(i)}, {}) for i in range(max(0, a[0].a[0]))])
        else: r = mkf('forall', *a)
    else: r = mkf(o, *a)
    memo[k] = r
    return r

def substf(f, s): return _substf(f, s, {})

_fk = {}

def _canon_sign(k):
    if k and k[0][1] < 0: return tuple((m, -c) for m, c in k)
    return k

def fkey(f):
    r = _fk.get(f.id)
    if r is not None: return r
    o = f.op
    if o in ('true', 'false'): r = (o,)
    elif o == 'not': r = ('not', fkey(f.a[0]))
    elif o == 'and': r = ('and', tuple(sorted((fkey(x) for x in f.a), key=repr)))
    elif o == 'le': r = ('le', pkey(nf(f.a[0])))
    elif o == 'eq': r = ('eq', _canon_sign(pkey(nf(f.a[0]))))
    elif o == 'eqm':
        try: r = ('eqm', f.a[1].id, _canon_sign(pkey(nf(f.a[0], f.a[1]))))
        except Blowup:
            PITS[0] += 1
            r = ('eqm', f.a[1].id, fingerprint(f.a[0], f.a[1]))
    elif o == 'b': r = ('b', f.a[0], tuple(_argkey(x)[0] for x in f.a[1:]))
    elif o == 'forall':
        k = f.a[2].h
        g = substf(f.a[2], {f.a[1].id: BV(k)})
        r = ('forall', pkey(nf(f.a[0])), k, fkey(g))
    else: raise AssertionError(o)
    _fk[f.id] = r
    return r

def ffv(f):
    o = f.op
    if o in ('true', 'false'): return EMPTY
    if o in ('le', 'eq'): return pfv(nf(f.a[0]))
    if o == 'eqm': return pfv(nf(*f.a))
    s = EMPTY
    if o == 'forall':
        return ffv(f.a[2]) | pfv(nf(f.a[0]))
    for x in f.a:
        if isinstance(x, F): s = s | ffv(x)
        elif isinstance(x, (T, tuple)): s = s | _argkey(x)[1]
    return s

def fval(f):
    if f is TRUE: return True
    if f is FALSE: return False
    return None

def bit_test(f):
    "polynomial equal to 1 when f holds and 0 otherwise, if f only tests a bit"
    if f.op == 'not':
        b = bit_test(f.a[0])
        return None if b is None else padd({(): 1}, pscale(b, -1))
    if f.op == 'and':
        r = {(): 1}
        for g in f.a:
            b = bit_test(g)
            if b is None: return None
            r = pmul(r, b)
        return r
    if f.op in ('eq', 'le'):
        try: p = nf(f.a[0])
        except Blowup: return None
        c = p.get((), 0)
        rest = {m: x for m, x in p.items() if m != ()}
        if len(rest) == 1:
            (m, x), = rest.items()
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].bit:
                v0, v1 = c, c + x
                t0, t1 = ((v0 == 0), (v1 == 0)) if f.op == 'eq' else ((v0 <= 0), (v1 <= 0))
                b = {m: 1}
                return padd({(): 1} if t0 else {}, pscale(b, int(t1) - int(t0)))
    return None

def showf(f, d=0):
    o = f.op
    if o in ('true', 'false'): return o
    if o == 'not': return f"¬({showf(f.a[0], d)})"
    if o == 'and': return '(' + ' ∧ '.join(showf(x, d) for x in f.a) + ')'
    if o == 'le': return f"{show(f.a[0], d)} ≤ 0"
    if o == 'eq': return f"{show(f.a[0], d)} = 0"
    if o == 'eqm': return f"{show(f.a[0], d)} ≡ 0 [{show(f.a[1], d)}]"
    if o == 'forall': return f"∀{show(f.a[1])}<{show(f.a[0], d)}. {showf(f.a[2], d)}"
    return f"{f.a[0]}({', '.join(showarg(x, d) for x in f.a[1:])})"

# --------------------------------------------------------------------------
# random models

PRIMES = [2**255 - 19, 2**521 - 1, 2**256 - 2**32 - 977, 2**607 - 1, 2**384 - 2**128 - 2**96 + 2**32 - 1]

class Model:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.bvs = {}
        self.mods = {}
    def prf(self, *k):
        h = hashlib.sha512(repr((self.seed,) + k).encode()).digest() + hashlib.sha512(repr((1, self.seed) + k).encode()).digest()
        return int.from_bytes(h, 'big')
    def var(self, name):
        vi = VARS[name]
        if vi.kind == 'order':
            # distinct primes, stable per name
            if name not in self.mods: self.mods[name] = PRIMES[len(self.mods) % len(PRIMES)]
            return self.mods[name]
        r = self.prf('v', name)
        if vi.kind == 'bit': return r & 1
        if vi.kind == 'len': 
            lo = vi.lo or 0
            return lo + r % 4
        lo = vi.lo
        hi = vi.hi
        if isinstance(hi, T): hi = self.ev(hi) - 1
        if lo is None and hi is None: return r % (1 << 300) - (1 << 299)
        if lo is None: return hi - r % (1 << 300)
        if hi is None: return lo + r % (1 << 300)
        return lo + r % max(1, hi - lo + 1)
    def ev(self, t):
        if t.op == 'c': return t.a[0]
        k = t.id
        if self.bvs: 
            k = (t.id, tuple(sorted(self.bvs.items())))
        r = self.memo.get(k)
        if r is None:
            r = self._ev(t)
            self.memo[k] = r
        return r
    def arg(self, x):
        if isinstance(x, T): return self.ev(x)
        if isinstance(x, F): return self.evf(x)
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], T) and isinstance(x[1], T): return ('m', self.evm(x[0], x[1]))
            return tuple(self.arg(y) for y in x)
        return x
    def evm(self, t, m):
        "evaluate modulo m (inverses allowed)"
        M = self.ev(m)
        return self.ev(t) % M
    def _ev(self, t):
        o = t.op
        if o == 'v':
            d = DEFS.get(t.id)
            return self.ev(d) if d is not None else self.var(t.a[0])
        if o == 'bv': return self.bvs[t.a[0]]
        if o == '+': return sum(self.ev(x) for x in t.a)
        if o == '*':
            r = 1
            for x in t.a: r *= self.ev(x)
            if r.bit_length() > 200000: raise Blowup()
            return r
        if o == '^':
            b, e = self.ev(t.a[0]), self.ev(t.a[1])
            if e < 0 or e * max(1, b.bit_length()) > 100000: raise Blowup()
            return b ** e
        if o == 'mod': return self.evmod(t.a[0], self.ev(t.a[1]))
        if o == 'div':
            d = self.ev(t.a[1])
            return self.ev(t.a[0]) // d if d else 0
        if o == 'inv':
            M = self.ev(t.a[1])
            x = self.evmod(t.a[0], M)
            return pow(x, -1, M) if x else 0
        if o == 'ite': return self.ev(t.a[1]) if self.evf(t.a[0]) else self.ev(t.a[2])
        if o == 'app':
            nm = t.a[0]
            r = self.prf('app', nm, *[self.arg(x) for x in t.a[1:]])
            if nm in BITFN: return r & 1
            rg = RANGEFN.get(nm)
            if isinstance(rg, T): return r % self.ev(rg)
            if isinstance(rg, int): return r % rg
            return r % (1 << 256)
        if o == 'sum':
            n = self.ev(t.a[0])
            if n > 300: raise Blowup()
            s = 0
            b = t.a[1].a[0]
            old = self.bvs.get(b)
            for i in range(n):
                self.bvs[b] = i
                s += self.ev(t.a[2])
            if old is None: self.bvs.pop(b, None)
            else: self.bvs[b] = old
            return s
        raise AssertionError(o)
    def evmod(self, t, M):
        "t modulo the number M, reducing early"
        o = t.op
        if o == '+': return sum(self.evmod(x, M) for x in t.a) % M
        if o == '*':
            r = 1
            for x in t.a: r = r * self.evmod(x, M) % M
            return r
        if o == '^':
            e = self.ev(t.a[1])
            b = self.evmod(t.a[0], M)
            try: return pow(b, e, M)
            except ValueError: return 0
        if o == 'mod' and self.ev(t.a[1]) == M:
            k = ('mm', t.id, tuple(sorted(self.bvs.items())))
            r = self.memo.get(k)
            if r is None: r = self.memo[k] = self.evmod(t.a[0], M)
            return r
        if o == 'sum':
            n = self.ev(t.a[0])
            if n > 300: raise Blowup()
            s = 0
            b = t.a[1].a[0]
            old = self.bvs.get(b)
            for i in range(n):
                self.bvs[b] = i
                s += self.evmod(t.a[2], M)
            if old is None: self.bvs.pop(b, None)
            else: self.bvs[b] = old
            return s % M
        return self.ev(t) % M
    def evf(self, f):
        o = f.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'not': return not self.evf(f.a[0])
        if o == 'and': return all(self.evf(x) for x in f.a)
        if o == 'le': return self.ev(f.a[0]) <= 0
        if o == 'eq': return self.ev(f.a[0]) == 0
        if o == 'eqm': return self.evmod(f.a[0], self.ev(f.a[1])) == 0
        if o == 'forall':
            n = self.ev(f.a[0])
            b = f.a[1].a[0]
            old = self.bvs.get(b)
            r = True
            for i in range(min(n, 300)):
                self.bvs[b] = i
                if not self.evf(f.a[2]): r = False
            if old is None: self.bvs.pop(b, None)
            else: self.bvs[b] = old
            return r
        return bool(self.prf('b', *[self.arg(x) for x in f.a]) & 1)

_models = []
_models_ver = None

def models(k=6):
    global _models_ver
    if _models_ver != _ver:
        _models.clear(); _models_ver = _ver
    while len(_models) < k: _models.append(Model(1000 + len(_models)))
    return _models[:k]

def pit_zero(t, m, k=12):
    "is t zero (modulo m) in k random models?"
    for M in models(k):
        v = M.evmod(t, M.ev(m)) if m is not None else M.ev(t)
        if v: return False
    return True

def fingerprint(t, m):
    vs = []
    for M in models(6):
        vs.append(M.evmod(t, M.ev(m)) if m is not None else M.ev(t))
    if m is not None:       # up to sign
        alt = [(-v) % M.ev(m) for v, M in zip(vs, models(6))]
        vs = min(vs, alt)
    return ('fp',) + tuple(vs)
