"""Path conditions and obligations in z3.

Integer atoms (variables, remainders, uninterpreted values) become z3 integers
with their range facts; non-linear monomials become fresh integers with sign
facts, an over-approximation.  Equations modulo a group order are Booleans,
identified by their canonical polynomial.
"""
import time
import z3
import terms as tm
from terms import *

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'nf': 0, 'pit': 0}
TIMEOUT = 8000

class Enc:
    def __init__(self):
        self.ax = {}          # z3 axioms keyed by atom
        self.mono = {}
        self.bools = {}
        self.pending = []

_e = Enc()
_ver = [None]

def enc():
    if _ver[0] != tm._ver:
        _ver[0] = tm._ver
        global _e
        _e = Enc()
        _cache.clear()
        _zf.clear()
    return _e

_zf = {}

def z_atom(a, deps):
    "z3 integer of an atom; collects the atoms used in deps"
    deps.add(a)
    return z3.Int(f"a{a}")

def axioms(a, deps):
    "range facts of atom a (may use further atoms)"
    at = ATOMS[a]
    x = z3.Int(f"a{a}")
    out = []
    k = at.key
    if at.bit:
        out = [x >= 0, x <= 1]
        if k[0] == 'mod' and tm._terms[k[1]] is C(2):
            p = kpoly(k[2])
            out += low_digits(x, 2, p, deps)
            d = one_atom(p)
            if d is not None and d.key[0] == 'div' and pconst(kpoly(d.key[2])) is not None:
                z = z_poly(p, deps)
                out.append(z3.Implies(z >= 0, x <= z))
        return out
    if k[0] == 'v':
        vi = VARS[k[1]]
        if vi.lo is not None: out.append(x >= vi.lo)
        if isinstance(vi.hi, int): out.append(x <= vi.hi)
        elif vi.hi is not None: out.append(x < z_int(vi.hi, deps))
    elif k[0] == 'mod':
        m = tm._terms[k[1]]
        zm = z_int(m, deps)
        out += [x >= 0, x < zm]
        p = kpoly(k[2])
        if small_linear(p):
            inner = z_poly(p, deps)
            if is_c(m): out.append(x == inner % m.a[0])
            else: out.append(z3.Implies(z3.And(inner >= 0, inner < zm), x == inner))
        if is_c(m): out += low_digits(x, m.a[0], p, deps)
    elif k[0] == 'div':
        p, q = kpoly(k[1]), kpoly(k[2])
        c = pconst(q)
        zp = z_poly(p, deps)
        if c is not None and c > 0:
            out += [c * x <= zp, zp < c * x + c]
        else:
            zq = z_poly(q, deps)
            out.append(z3.Implies(z3.And(zp >= 0, zq > 0), z3.And(x >= 0, x <= zp)))
    elif k[0] == 'ite':
        f = at.term.a[0] if at.term is not None and at.term.op == 'ite' else None
        if f is not None:
            zc = z_form(f, deps)
            out.append(x == z3.If(zc, z_poly(kpoly(k[2]), deps), z_poly(kpoly(k[3]), deps)))
    elif k[0] == 'app':
        nm = k[1]
        r = RANGEFN.get(nm)
        if isinstance(r, int): out += [x >= 0, x < r]
        elif r is not None: out += [x >= 0, x < z_int(r, deps)]
        elif nm in NONNEG: out.append(x >= 0)
        if nm in APPAX and at.term is not None:
            out += APPAX[nm](at.term, x, lambda t: z_int(t, deps))
    return out

def one_atom(p):
    if len(p) != 1: return None
    (m, c), = p.items()
    return ATOMS[m[0][0]] if c == 1 and len(m) == 1 and m[0][1] == 1 else None

def low_digits(x, m, p, deps):
    "((u mod 2^a) div 2^t) mod 2^b = (u div 2^t) mod 2^b when 0 <= t <= a - b"
    d = one_atom(p)
    if m & (m - 1) or d is None or d.key[0] != 'div': return []
    u = one_atom(kpoly(d.key[1]))
    if u is None or u.key[0] != 'mod': return []
    big = tm._terms[u.key[1]]
    if not is_c(big) or big.a[0] & (big.a[0] - 1) or big.a[0] <= 0: return []
    q = kpoly(d.key[2])
    if len(q) != 1: return []
    (mo, c), = q.items()
    if c != 1 or len(mo) != 1 or ATOMS[mo[0][0]].key != ('k', 2): return []
    import lib
    e = mo[0][1]
    t = C(e) if isinstance(e, int) else lib.poly_term(kpoly(e))
    v = lib.poly_term(kpoly(u.key[2]))
    if t is None or v is None: return []
    room = (big.a[0].bit_length() - 1) - (m.bit_length() - 1)
    zt = z_int(t, deps)
    return [z3.Implies(z3.And(zt >= 0, zt <= room), x == z_int(mod(div(v, power(C(2), t)), C(m)), deps))]

PAIRAX = []
NONNEG = {'H', 'len', 'bitlen', 'be', 'abs'}
APPAX = {}

def small_linear(p):
    if len(p) > 40: return False
    return True

def z_mono(m, deps):
    if len(m) == 1 and m[0][1] == 1: return z_atom(m[0][0], deps)
    e = enc()
    deps.add(('m', m))
    x = e.mono.get(m)
    if x is None:
        x = e.mono[m] = z3.Int(f"m{len(e.mono)}")
    return x

def mono_axioms(m, deps):
    x = enc().mono[m]
    out = []
    # sign of a product
    allnn, allpos = True, True
    for a, e in m:
        at = ATOMS[a]
        if at.key[0] == 'k':
            if at.key[1] <= 0: allnn = allpos = False
            continue
        if isinstance(e, int) and e % 2 == 0 and e > 0:
            allpos = False
            continue
        lo = None
        if at.bit or at.key[0] == 'mod': lo = 0
        elif at.key[0] == 'v': lo = VARS[at.key[1]].lo
        elif at.key[0] == 'app' and (at.key[1] in NONNEG or at.key[1] in RANGEFN): lo = 0
        if lo is None or lo < 0: allnn = allpos = False
        elif lo == 0: allpos = False
    if allnn:
        if allpos: out.append(x >= 1)
        else:
            out.append(x >= 0)
            # a product of non-negative integers is 0 or at least each factor
            if all(e == 1 for _, e in m):
                zs = [z_atom(a, deps) for a, _ in m]
                out.append(z3.Or(*[z == 0 for z in zs], z3.And(*[x >= z for z in zs])))
                out.append(z3.Implies(z3.Or(*[z == 0 for z in zs]), x == 0))
    # the power of a constant is monotone in its exponent: enough for 2^(a+b) >= 2^a
    return out

def z_poly(p, deps):
    s = []
    for m, c in p.items():
        if not m: s.append(z3.IntVal(c))
        else: s.append(c * z_mono(m, deps) if c != 1 else z_mono(m, deps))
    if not s: return z3.IntVal(0)
    if len(s) == 1: return s[0]
    return z3.Sum(s)

def z_int(t, deps):
    return z_poly(nf(t), deps)

def z_form(f, deps):
    o = f.op
    if o == 'true': return z3.BoolVal(True)
    if o == 'false': return z3.BoolVal(False)
    if o == 'not': return z3.Not(z_form(f.a[0], deps))
    if o == 'and': return z3.And(*[z_form(x, deps) for x in f.a])
    if o in ('le', 'eq'):
        try: p = nf(f.a[0])
        except Blowup: return z_bool(('blow', f.id))
        if len(p) > 400: return z_bool(fkey(f))
        z = z_poly(p, deps)
        return z <= 0 if o == 'le' else z == 0
    if o == 'eqm' and tm.is_c(f.a[1]):
        try: p = nf(f.a[0], f.a[1])
        except Blowup: p = None
        if p is not None and len(p) <= 50: return z_poly(p, deps) % f.a[1].a[0] == 0
    return z_bool(fkey(f))

def z_bool(k):
    e = enc()
    b = e.bools.get(k)
    if b is None:
        b = e.bools[k] = z3.Bool(f"b{len(e.bools)}")
    return b

def build(fs):
    enc()
    deps = set()
    zs = [z_form(f, deps) for f in fs]
    done = set()
    def close():
        nonlocal zs
        while deps - done:
            for d in list(deps - done):
                done.add(d)
                if isinstance(d, tuple): zs += mono_axioms(d[1], deps)
                else: zs += axioms(d, deps)
    close()
    for fn in PAIRAX:
        zs += fn(done, deps)
        close()
    zs += pow_axioms(done, deps)
    close()
    LAST[0] = [d for d in done if interpreted(d)]
    return zs

LAST = [()]
def interpreted(d):
    if isinstance(d, tuple): return len(d[1]) == 1 and ATOMS[d[1][0][0]].key[0] == 'k' and ATOMS[d[1][0][0]].key[1] > 1
    return ATOMS[d].key[0] == 'app' and ATOMS[d].key[1] in tm.BITOP and ATOMS[d].term is not None

def facts(m, ds):
    "true facts about powers and bit operations that the model m gets wrong"
    out = []
    val = lambda z: m.eval(z, model_completion=True).as_long()
    for d in ds:
        if isinstance(d, tuple):
            (a, e), = d[1]
            b = ATOMS[a].key[1]
            x, ze = enc().mono[d[1]], z_poly({(): e} if isinstance(e, int) else kpoly(e), set())
            k = val(ze)
            if 0 <= k <= 4096 and val(x) != b ** k:
                out += [z3.Implies(ze == k, x == b ** k), z3.Implies(ze >= k, x >= b ** k), z3.Implies(z3.And(ze >= 0, ze <= k), x <= b ** k)]
        else:
            t = ATOMS[d].term
            x, u, v = z_atom(d, set()), z_int(t.a[1], set()), z_int(t.a[2], set())
            i, j = val(u), val(v)
            if i >= 0 and j >= 0 and val(x) != (w := tm.BITOP[t.a[0]](i, j)): out.append(z3.Implies(z3.And(u == i, v == j), x == w))
    return out

def solve(s, ds):
    r = str(s.check())
    for _ in range(12):
        if r != 'sat' or not ds: break
        l = facts(s.model(), ds)
        if not l: break
        s.add(*l)
        STATS['z3_queries'] += 1
        r = str(s.check())
    return r

def pow_axioms(done, dd):
    "order facts between powers of the same constant"
    out = []
    ps = {}
    for d in done:
        if isinstance(d, tuple) and len(d[1]) == 1 and ATOMS[d[1][0][0]].key[0] == 'k':
            b = ATOMS[d[1][0][0]].key[1]
            if b > 1: ps.setdefault(b, []).append(d[1])
    for b, ms in ps.items():
        for i, m in enumerate(ms):
            x = enc().mono[m]
            e = m[0][1]
            ze = z_poly({(): e} if isinstance(e, int) else kpoly(e), dd)
            for K in (*range(0 if b == 2 else 8, 8), 8, 16, 32, 64, 128, 224, 240, 251, 252, 255, 256, 383, 384, 3071):
                out.append(z3.Implies(ze >= K, x >= b ** K))
                out.append(z3.Implies(z3.And(ze <= K, ze >= 0), x <= b ** K))
            for n in ms[i+1:]:
                y = enc().mono[n]
                g = n[0][1]
                zg = z_poly({(): g} if isinstance(g, int) else kpoly(g), dd)
                dl = pconst(tm.padd(kpoly(e), tm.pscale(kpoly(g), -1))) if not isinstance(e, int) and not isinstance(g, int) else None
                if dl is not None and abs(dl) <= 4096:
                    out.append(z3.Implies(zg >= 0, x == b ** dl * y) if dl >= 0 else z3.Implies(ze >= 0, y == b ** -dl * x))
                out.append(z3.Implies(ze <= zg, x <= y))
                out.append(z3.Implies(zg <= ze, y <= x))
                for dlt in range(0, 2):
                    out.append(z3.Implies(ze + dlt <= zg, (b ** dlt) * x <= y))
                    out.append(z3.Implies(zg + dlt <= ze, (b ** dlt) * y <= x))
    return out

_cache = {}

def check(fs):
    "'sat' | 'unsat' | 'unknown' for the conjunction of formulas"
    gs = []
    for f in fs:
        if f is FALSE: return 'unsat'
        if f is TRUE: continue
        gs.append(f)
    if not gs: return 'sat'
    enc()
    k = frozenset(f.id for f in gs)
    r = _cache.get(k)
    if r is not None: return r
    t0 = time.time()
    s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
    s.set('timeout', TIMEOUT)
    s.add(*build(gs))
    r = solve(s, LAST[0])
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    _cache[k] = r
    return r

def feasible(pc, f=TRUE):
    return check(tuple(pc) + (f,)) != 'unsat'

def implied(pc, f):
    if f is TRUE: return True
    if f is FALSE: return check(tuple(pc)) == 'unsat'
    if f.op == 'and': return all(implied(pc, g) for g in f.a)
    fk = fkey_safe(f)
    if fk is not None:
        for g in pc:
            if g is f or (g.op == f.op and fkey_safe(g) == fk): return True
    return check(tuple(pc) + (Not(f),)) == 'unsat'

def fkey_safe(f):
    try: return fkey(f)
    except Blowup: return None

def model(fs):
    "a z3 model of the conjunction, as {atom description: int}"
    s = z3.Solver()
    s.set('timeout', TIMEOUT)
    s.add(*build([f for f in fs if f is not TRUE]))
    if solve(s, LAST[0]) != 'sat': return None
    m = s.model()
    out = {}
    for d in m.decls():
        n = d.name()
        v = m[d]
        if n[0] == 'a' and n[1:].isdigit():
            try: out[show_atom(int(n[1:]))] = v.as_long()
            except Exception: pass
    return out

def smtlib(fs):
    s = z3.Solver()
    s.add(*build([f for f in fs if f is not TRUE]))
    return s.to_smt2()

def check_long(fs):
    "a second opinion: a longer run of z3, then cvc5 on the same problem"
    import subprocess, os, tempfile
    fs = [f for f in fs if f is not TRUE]
    s = z3.Solver()
    s.set('timeout', 4 * TIMEOUT)
    zs = build(fs)
    s.add(*zs)
    t0 = time.time()
    r = solve(s, LAST[0])
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    if r != 'unknown': return r
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, ('(set-logic ALL)\n' + s.to_smt2()).encode())
        os.close(fd)
        STATS['cvc5_queries'] += 1
        o = subprocess.run(['cvc5', '--tlimit=20000', p], capture_output=True, text=True, timeout=40).stdout.split()
        if o and o[0] in ('sat', 'unsat'): return o[0]
    except Exception: pass
    finally: os.unlink(p)
    return 'unknown'
