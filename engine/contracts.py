"""Contracts of the helper functions of /repo.

Each contract is a precondition (how the symbolic arguments are drawn) and a
postcondition (the view of the results as a function of the views of the
arguments).  It is checked against the function's own SSA body for vectors of
every length, and only then answers calls of that function elsewhere.
"""
from spec import *

ALL = {}       # short name -> Contract

class Contract:
    def __init__(self, name, args, post, fresh=True, when=None):
        self.name, self.args, self.post, self.fresh, self.when = name, args, post, fresh, when

def contract(name, args, fresh=True, when=None):
    def d(fn):
        ALL[name] = Contract(name, args, fn, fresh, when)
        return fn
    return d

class Skip(Exception): pass

def pick(*cases):
    "the case whose condition is known to hold"
    def f(ex, st):
        for cond, v in cases:
            if ex.decide(st, cond) is True: return v
        raise Skip()
    return f

def applier(con, full):
    def sp(ex, st, args):
        if not con.fresh: return None      # results alias the arguments: the body is executed instead
        try:
            vs = [groupview(ex, st, a) for a in args]
            r = con.post(ex, st, *vs)
        except (Skip, AttributeError, TypeError, KeyError):
            return None
        return [(st, build(ex, st, r))]
    return sp

def groupview(ex, st, a):
    if isinstance(a, Iface) and a.typ == 'absgrp': return a.val
    return view(ex, st, a)

def verify(P, con, inforce=()):
    "obligations of the contract against the body; returns the context"
    c = Ctx(P, inforce)
    ex = c.ex
    c.pfx = con.name.rsplit('.', 1)[1] + '_'
    for variant in ('n', 2):
        n = V('n', 0, 1 << 40, 'len') if variant == 'n' else 2
        tag = con.name + (' (every length)' if variant == 'n' else ' (length 2, aliasing)')
        if con.args is None: return c
        cases = con.args(c, n)
        if isinstance(cases, list): cases = {'': cases}
        if variant == 2 and not any('vec' in k or k == '' for k in cases): break
        if variant == 2 and not con.fresh: break
        for cname, args in cases.items():
            nm = tag + (' ' + cname if cname else '')
            st0 = c.st
            s0 = c.st.fork(args.f) if isinstance(args, Cond) else c.st
            outs = c.body(con.name, *args, st=s0)
            if not outs: c.obs.append(Ob(nm, 'failed', 'exec', 0.0, 'no execution returns'))
            for s, v in outs:
                c.cover(nm, s)
                vs = [groupview(ex, st0, a) for a in args]
                try: want = con.post(ex, s, *vs)
                except Skip: raise Unsupported('contract does not apply to its own precondition')
                c.prove_eq(nm, view(ex, s, v), want, s)
                if con.fresh and variant == 2:
                    seen = set()
                    for o in handles(ex, s, v):
                        if ex.owner(o) != 'fresh' or o in seen:
                            c.obs.append(Ob(nm + ' results are fresh', 'failed', 'exec', 0.0, 'a result aliases an argument or another result'))
                        seen.add(o)
            c.no_panic(nm)
            c.frame(nm)
            ex.panics.clear(); ex.frame.clear()
    return c

def handles(ex, st, v):
    "the mutable objects behind a result"
    if isinstance(v, Tup):
        for x in v: yield from handles(ex, st, x)
    elif isinstance(v, Ptr): yield v.oid
    elif isinstance(v, Iface) and isinstance(v.val, Ptr): yield v.val.oid
    elif isinstance(v, Slc) and v.oid is not None:
        yield v.oid
        c = st.heap[v.oid]
        if isinstance(c, Ar):
            for x in c: yield from handles(ex, st, x)

def mism(c, n, f='bigs', *pre):
    "two vectors of different lengths"
    m = V('len_m', 0, 1 << 40, 'len')
    v = [getattr(c, f)(*pre, 'a', n), getattr(c, f)(*pre, 'b', m)]
    return Cond(Ne(n, m), v)
class Cond(list):
    def __init__(self, f, l): self.f = f; super().__init__(l)
    def __add__(self, o): return Cond(self.f, list(self) + list(o))
def same(ex, st, a, b):
    d = ex.decide(st, both(a, b))
    if d is None: raise Skip()
    return d

def nmod(g): return g.q
def both(a, b):
    return Eq(a.n, b.n)

def pair(c, n, kind, *rest):
    return [c.bigs('a', n), c.bigs('b', n), *rest]

def vecop(name, fn):
    def args(c, n):
        g = c.group()
        d = {'vec': [c.bigs('a', n), c.bigs('b', n), Ptr(g.val.noid)]}
        if not isinstance(n, int): d['unequal vec'] = mism(c, n) + [Ptr(g.val.noid)]
        return d
    @contract('bulletproofs.' + name, args)
    def _(ex, st, a, b, m):
        if not same(ex, st, a, b): return (Vec(0, None), FAIL)
        return (Vec(a.n, lambda i: Big(mod(fn(a[i].t, b[i].t), m.t))), OK)

vecop('VectorAdd', add)
vecop('VectorSub', sub)
vecop('VectorMul', mul)

def one(c, n): 
    g = c.group()
    return [c.bigs('a', n), c.big('c'), Ptr(g.val.noid)]

@contract('bulletproofs.VectorAddConst', one)
def _(ex, st, a, k, m): return Vec(a.n, lambda i: Big(mod(add(a[i].t, k.t), m.t)))
@contract('bulletproofs.VectorScalarMul', one)
def _(ex, st, a, k, m): return (Vec(a.n, lambda i: Big(mod(mul(a[i].t, k.t), m.t))), OK)

@contract('bulletproofs.VectorCopy', lambda c, n: [c.big('x'), C(n) if isinstance(n, int) else n], fresh=False)
def _(ex, st, x, n): return (Vec(n.t, lambda i: x), OK)

@contract('bulletproofs.VectorConvertToBig', lambda c, n: [c.ints('a', n, -(1 << 63), (1 << 63) - 1), C(n) if isinstance(n, int) else n])
def _(ex, st, a, n):
    if ex.decide(st, Le(n.t, a.n)) is not True or ex.decide(st, Ge(n.t, C(0))) is not True: raise Skip()
    return (Vec(n.t, lambda i: Big(a[i].t)), OK)

@contract('bulletproofs.VectorInnerProduct', lambda c, n: [c.bigs('a', n), c.bigs('b', n), Ptr(c.group().val.noid)])
def _(ex, st, a, b, m):
    if ex.decide(st, both(a, b)) is not True: raise Skip()
    return Big(mod(dot(a, b), m.t))

def dot(a, b):
    if is_c(a.n): return add(*[mul(a[i].t, b[i].t) for i in range(a.n.a[0])])
    return summ(a.n, lambda i: mul(a[i].t, b[i].t))

def two(k1, k2):
    def args(c, n):
        g = c.group()
        mkv = lambda k, nm, n: c.els(g, nm, n) if k == 'E' else c.bigs(nm, n)
        d = {'vec': [mkv(k1, 'a', n), mkv(k2, 'b', n), g]}
        if not isinstance(n, int):
            m = V('len_m', 0, 1 << 40, 'len')
            d['unequal vec'] = Cond(Ne(n, m), [mkv(k1, 'a', n), mkv(k2, 'b', m), g])
        return d
    return args
@contract('bulletproofs.ScalarProduct', two('B', 'B'))
def _(ex, st, a, b, g):
    if not same(ex, st, a, b): return (Null(), FAIL)
    return (Big(mod(dot(a, b), g.q)), OK)

def gargs(*kinds):
    def args(c, n):
        g = c.group()
        out = []
        for k, nm in kinds:
            out.append(c.els(g, nm, n) if k == 'E' else c.bigs(nm, n) if k == 'B' else c.big(nm) if k == 'b' else c.el(g, nm) if k == 'e'
                       else (C(n) if isinstance(n, int) else n) if k == 'n' else g)
        return out
    return args

@contract('bulletproofs.VectorExp', two('E', 'B'))
def _(ex, st, a, b, g):
    if not same(ex, st, a, b): return (Null(), FAIL)
    return (Elt(g, dot(a, b)), OK)

@contract('bulletproofs.VectorECAdd', two('E', 'E'))
def _(ex, st, a, b, g):
    if not same(ex, st, a, b): return (Vec(0, None), FAIL)
    return (Vec(a.n, lambda i: Elt(g, add(a[i].t, b[i].t))), OK)

@contract('bulletproofs.vectorScalarExp', gargs(('E', 'a'), ('b', 'c'), ('g', '')))
def _(ex, st, a, k, g): return Vec(a.n, lambda i: Elt(g, mul(a[i].t, k.t)))

@contract('bulletproofs.powerOf', gargs(('b', 'x'), ('n', ''), ('g', '')))
def _(ex, st, x, n, g):
    if ex.decide(st, Ge(n.t, C(0))) is not True: raise Skip()
    return Vec(n.t, lambda i: Big(mod(power(x.t, i), g.q)))

@contract('bulletproofs.commitInnerProduct', gargs(('E', 'g'), ('E', 'h'), ('B', 'a'), ('B', 'b'), ('g', '')))
def _(ex, st, g, h, a, b, G):
    for x, y in ((g, a), (h, b)):
        if ex.decide(st, both(x, y)) is not True: raise Skip()
    return Elt(G, add(dot(g, a), dot(h, b)))

@contract('bulletproofs.commitVectorBig', gargs(('B', 'a'), ('B', 'b'), ('b', 'al'), ('e', 'H'), ('E', 'g'), ('E', 'h'), ('n', ''), ('g', '')))
def _(ex, st, a, b, al, H, g, h, n, G):
    for x in (a, b, g, h):
        if ex.decide(st, Eq(x.n, n.t)) is not True: raise Skip()
    return Elt(G, add(mul(H.t, al.t), dot(g, a), dot(h, b)))

def cv_args(c, n):
    g = c.group()
    nn = C(n) if isinstance(n, int) else n
    return [c.ints('a', n, -(1 << 63), (1 << 63) - 1), c.ints('b', n, -(1 << 63), (1 << 63) - 1), c.big('al'), c.el(g, 'H'),
            c.els(g, 'g', n), c.els(g, 'h', n), nn, g]
@contract('bulletproofs.commitVector', cv_args)
def _(ex, st, a, b, al, H, g, h, n, G):
    for x in (a, b, g, h):
        if ex.decide(st, Eq(x.n, n.t)) is not True: raise Skip()
    return Elt(G, add(mul(H.t, al.t), dot(g, a), dot(h, b)))

@contract('util.PedersenCommit', gargs(('b', 'x'), ('b', 'r'), ('e', 'H'), ('g', '')))
def _(ex, st, x, r, H, g): return Elt(g, add(x.t, mul(H.t, r.t)))

def dec_args(c, n):
    return [c.big('x', 0, None), C(2), C(n) if isinstance(n, int) else n]
@contract('util.Decompose', dec_args)
def _(ex, st, x, u, l):
    if u.t is not C(2) or not all(ex.decide(st, Ge(y.t, C(0))) is True for y in (x, l)): raise Skip()
    b = lambda i: lib.emod(ex, st, lib.ediv(ex, st, x.t, power(u.t, i)), u.t)
    return Vec(l.t, lambda i: Int(b(i)))


def es(e): return ('el', e.g.name, (e.t, e.g.q))
def H(*segs): return app('H', lib.norm_segs(segs))

def hash_bp(*es_):
    "the two Fiat-Shamir challenges of the elements sent so far"
    segs = tuple(map(es, es_))
    h1 = H(*segs)
    return h1, H(*segs, ('dec', h1))

@contract('bulletproofs.HashBP', gargs(('E', 'e')))
def _(ex, st, v):
    segs = tuple(es(v[i]) for i in range(v.n.a[0])) if is_c(v.n) else (('rep', v.n, (es(v[BV(10 ** 6)]),)),)
    x = H(*segs)
    ex.hashes += [segs, segs + (('dec', x),)]
    return (Big(x), Big(H(*segs, ('dec', x))), OK)

def hash_round(l, r, x): return H(es(l), es(r), ('dec', x))
@contract('bulletproofs.hashRound', gargs(('e', 'L'), ('e', 'R'), ('b', 'x')))
def _(ex, st, l, r, x):
    ex.hashes.append((es(l), es(r), ('dec', x.t)))
    return Big(hash_round(l, r, x.t))

def hash_ip(g, h, P, c):
    if is_c(g.n): mid = [x for i in range(g.n.a[0]) for x in (es(g[i]), es(h[i]))]
    else:
        i = BV(10 ** 6)
        mid = [('rep', g.n, (es(g[i]), es(h[i])))]
    return H(es(P), *mid, ('dec', c.t))

@contract('bulletproofs.hashIP', gargs(('E', 'g'), ('E', 'h'), ('e', 'P'), ('b', 'c')))
def _(ex, st, g, h, P, c):
    if ex.decide(st, both(g, h)) is not True: raise Skip()
    t = hash_ip(g, h, P, c)
    ex.hashes.append(t.a[1])
    return (Big(app('fba', (('dig', t),))), OK)

def ug_args(c, n):
    g = c.group()
    nn = C(n) if isinstance(n, int) else n
    return Cond(Ge(nn, C(1)), [c.els(g, 'h', n), c.big(H(('lit', 'any challenge'))), nn, g])
@contract('bulletproofs.updateGenerators', ug_args, fresh=False)
def _(ex, st, h, y, n, g):
    return Vec(n.t, lambda i: Elt(g, mul(h[i].t, power(inv(y.t, g.q), i))))

@contract('bulletproofs.computePP', lambda c, n: (lambda g: {'': [c.el(g, 'P'), c.big('c'), c.big('x'), c.struct('bulletproofs.InnerProductParams', Uu=c.el(g, 'u'), GP=g)]})(c.group()))
def _(ex, st, P, c, x, params):
    u = [e for e in params if isinstance(e, Elt)]
    if len(u) != 1: raise Skip()
    return (Elt(P.g, add(P.t, mul(u[0].t, x.t, c.t))), Elt(P.g, mul(u[0].t, x.t)))

def ar_args(c, n): return [c.ints('bit', n, 0, 1)]
@contract('bulletproofs.computeAR', ar_args)
def _(ex, st, x):
    if not is_c(x.n): return (Vec(x.n, lambda i: Int(sub(x[i].t, C(1)))), OK)
    for i in range(x.n.a[0]):
        if not (ex.decide(st, Ge(x[i].t, C(0))) is True and ex.decide(st, Le(x[i].t, C(1))) is True): raise Skip()
    return (Vec(x.n, lambda i: Int(sub(x[i].t, C(1)))), OK)

def delta_args(c, n):
    g = c.group()
    nn = C(n) if isinstance(n, int) else n
    return {'': [c.ex.newp(c.st, c.struct('bulletproofs.BulletProofSetupParams', N=nn, GP=g), 'in', 'params'), c.big('y'), c.big('z')]}
@contract('(*bulletproofs.BulletProofSetupParams).delta', delta_args)
def _(ex, st, params, y, z):
    n = [e for e in params if isinstance(e, Int)]
    g = [e.v.val for e in params if isinstance(e, Raw) and isinstance(e.v, Iface) and e.v.typ == 'absgrp']
    if len(n) != 1 or len(g) != 1: raise Skip()
    return Big(mod(delta(n[0].t, y.t, z.t), g[0].q))

def sumpow(b, n):
    if is_c(n): return add(*[power(b, C(i)) for i in range(n.a[0])])
    return summ(n, lambda i: power(b, i))
def delta(n, y, z):
    return sub(mul(sub(z, mul(z, z)), sumpow(y, n)), mul(power(z, C(3)), sumpow(C(2), n)))
