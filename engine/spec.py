"""Obligations: contexts in which the functions of /repo are executed on
symbolic inputs, views of their results, and the discharge of postconditions."""
import time, traceback
from exec import *
import lib, smt
import terms as tm

class Missing(Unsupported):
    "the function under contract is not there (any more)"

# ---- views ------------------------------------------------------------------
# A view is what a caller can observe of a value, as nested Python data.

class Big:
    "a *big.Int"
    def __init__(self, t): self.t = t if isinstance(t, T) else C(t)
    def __repr__(self): return f'Big({self.t})'
class Int:
    def __init__(self, t): self.t = t if isinstance(t, T) else C(t)
    def __repr__(self): return f'Int({self.t})'
class Elt:
    "a group element, by its discrete logarithm"
    def __init__(self, g, t): self.g, self.t = g, t if isinstance(t, T) else C(t)
    def __repr__(self): return f'Elt({self.t})'
class Vec:
    "a slice: its length and its elements by index"
    def __init__(self, n, get): self.n, self.get = n if isinstance(n, T) else C(n), get
    def __getitem__(self, i): return self.get(i if isinstance(i, T) else C(i))
    def __repr__(self): return f'Vec({self.n}; {self.get(C(0)) if self.n is not C(0) else ""})'
class Err:
    "an error, nil exactly when the formula holds"
    def __init__(self, isnil): self.isnil = isnil
class Bl:
    def __init__(self, f): self.f = f
class Raw:
    "a value only compared for identity"
    def __init__(self, v): self.v = v
class Null:
    pass
OK = Err(TRUE)
FAIL = Err(FALSE)
def vec(*xs):
    xs = list(xs)
    def get(i):
        if not is_c(i): raise Unsupported('symbolic index into a concrete vector')
        return xs[i.a[0]]
    return Vec(C(len(xs)), get)

def view(ex, st, v, t=None):
    if isinstance(v, Opt):
        d = ex.decide(st, v.isnil)
        if d is True: return Null()
        if d is False: return view(ex, st, v.val, t)
        return ('opt', v.isnil, view(ex, st, v.val, t))
    if isinstance(v, T): return Int(v)
    if isinstance(v, F): return Bl(v)
    if isinstance(v, ErrV): return Err(v.isnil)
    if isinstance(v, BigTm): return Big(v.val)
    if isinstance(v, ElTm): return Elt(v.grp, v.val)
    if v is NIL: return Null()
    if isinstance(v, Iface):
        if v.typ == 'abselem':
            e = st.heap[v.val.oid]
            if e.val is None: raise Unsupported('unset element')
            return Elt(e.grp, e.val)
        return Raw(v)
    if isinstance(v, Ptr):
        c = ex.load(st, v)
        if isinstance(c, T): return Big(c)
        return view(ex, st, c)
    if isinstance(v, Slc):
        if v.oid is None: return Vec(C(0), None)
        def get(i):
            return view(ex, st, ex.sub_get(st, st.heap[v.oid], simp(add(v.off, i))))
        return Vec(v.ln, get)
    if isinstance(v, (St, Ar, Tup)): return tuple(view(ex, st, x) for x in v)
    if isinstance(v, Str): return ('str', v.segs)
    return Raw(v)

class Shape(Exception): pass

def eqs(a, b, where=''):
    "[(label, formula)]: the two views are equal"
    if isinstance(a, tuple) and isinstance(b, tuple) and not (a and a[0] in ('opt', 'str')):
        if len(a) != len(b): raise Shape(f'{where}: {len(a)} results, not {len(b)}')
        out = []
        for i, (x, y) in enumerate(zip(a, b)): out += eqs(x, y, f'{where}.{i}')
        return out
    if isinstance(b, (Big, Int)) and isinstance(a, (Big, Int)): return [(where, Eq(a.t, b.t))]
    if isinstance(a, Elt) and isinstance(b, Elt):
        if a.g is not b.g: raise Shape(f'{where}: element of another group')
        return [(where, EqM(a.t, b.t, a.g.q))]
    if isinstance(a, Err) and isinstance(b, Err): return [(where + ' error', Iff(a.isnil, b.isnil))]
    if isinstance(a, Bl) and isinstance(b, Bl): return [(where, Iff(a.f, b.f))]
    if isinstance(a, Vec) and isinstance(b, Vec):
        le = Eq(a.n, b.n)
        out = [(where + ' length', le)]
        if is_c(b.n):
            if is_c(a.n) and a.n is not b.n: raise Shape(f'{where}: length {a.n}, not {b.n}')
            for i in range(b.n.a[0]): out += eqs(a[i], b[i], f'{where}[{i}]')
        else:
            i = fresh('i', 0, b.n, 'idx')
            out += eqs(a.get(i), b.get(i), f'{where}[i]')
        return out
    if isinstance(a, Null) and isinstance(b, Null): return []
    if isinstance(b, Raw) and isinstance(a, Raw):
        return [(where, TRUE if same_val(a.v, b.v) else FALSE)]
    raise Shape(f'{where}: {a!r} is not {b!r}')

def build(ex, st, v):
    "a value showing the view, made of fresh objects"
    if isinstance(v, Big): return ex.newp(st, v.t)
    if isinstance(v, Int): return v.t
    if isinstance(v, Elt): return lib.mkel(ex, st, v.g, v.t)
    if isinstance(v, Err): return ErrV(v.isnil)
    if isinstance(v, Bl): return v.f
    if isinstance(v, Raw): return v.v
    if isinstance(v, Null): return NIL
    if isinstance(v, Vec):
        if is_c(v.n):
            o = ex.new(st, Ar([build(ex, st, v[i]) for i in range(v.n.a[0])]))
        else:
            b = bvar()
            e = v.get(b)
            tmpl = e.t if isinstance(e, Int) else BigTm(e.t, 'fresh') if isinstance(e, Big) else ElTm(e.g, e.t, 'fresh')
            o = ex.new(st, Fam(v.n, b, tmpl))
        return Slc(o, C(0), v.n, v.n)
    if isinstance(v, tuple): return Tup([build(ex, st, x) for x in v])
    raise Unsupported(f'build {v!r}')

# ---- contexts -----------------------------------------------------------------

class Ob:
    __slots__ = ('name', 'status', 'how', 'time', 'detail', 'pos')
    def __init__(self, name, status, how='', time=0.0, detail='', pos=''):
        self.name, self.status, self.how, self.time, self.detail, self.pos = name, status, how, time, detail, pos
    def j(self): return {k: getattr(self, k) for k in self.__slots__}

class Ctx:
    def __init__(self, P, contracts=()):
        self.P = P
        self.pfx = ''
        self.spare = 0
        self.ex = Ex(P)
        self.obs = []
        self.st = lib.init_globals(self.ex, State({}, ()))
        for n, sp in contracts: self.ex.contracts[n] = sp
    # inputs
    def group(self, name='Q', qlo=2 ** 250): return lib.mkgrp(self.ex, self.st, name, qlo)
    def big(self, name, lo=None, hi=None, owner='in'):
        return self.ex.newp(self.st, name if isinstance(name, T) else V(self.pfx + name, lo, hi), owner, str(name))
    def el(self, g, name, owner='in'):
        return lib.mkel(self.ex, self.st, g, name if isinstance(name, T) else V(self.pfx + name, 0, g.val.q if isinstance(g, Iface) else g.q), owner, str(name))
    def bigs(self, name, n, rng=None):
        "a vector of integers; of symbolic length if n is a term"
        ex, st = self.ex, self.st
        if isinstance(n, int):
            items = [self.big(f'{name}{i}', *(rng or (None, None))) for i in range(n)]
            return self.slice(items, name)
        b = bvar()
        name = self.pfx + name
        if rng is not None: RANGEFN[name] = rng[1]
        return Slc(ex.new(st, Fam(n, b, BigTm(app(name, b))), 'in', name), C(0), n, n)
    def els(self, g, name, n):
        if isinstance(n, int): return self.slice([self.el(g, f'{name}{i}') for i in range(n)], name)
        b = bvar()
        name = self.pfx + name
        return Slc(self.ex.new(self.st, Fam(n, b, ElTm(g.val, app(name, b))), 'in', name), C(0), n, n)
    def ints(self, name, n, lo, hi):
        if isinstance(n, int): return self.slice([V(f'{self.pfx}{name}{i}', lo, hi) for i in range(n)], name)
        b = bvar()
        name = self.pfx + name
        int_ax(name, lo, hi)
        return Slc(self.ex.new(self.st, Fam(n, b, app(name, b)), 'in', name), C(0), n, n)
    def slice(self, items, name='slice', owner='in'):
        n = len(items)
        if self.spare and n: items = list(items) + [items[-1]] * self.spare   # the caller's, beyond the length
        o = self.ex.new(self.st, Ar(items), owner, name)
        return Slc(o, C(0), C(n), C(len(items)))
    def typ(self, short):
        t = self.P.type_id(short)
        if t is None: raise Missing(f'type {short}')
        return t
    def struct(self, tname, **kw):
        t = self.typ(tname)
        fs = self.ex.U(t)['fields']
        names = [f['name'] for f in fs]
        for k in kw:
            if k not in names: raise Missing(f'{tname}.{k}')
        known = FIELDS.get(tname, names)
        return St(kw[k] if k in kw else self.ex.zero(f['t']) if k in known else Poison(f'{tname}.{k} is not part of the specification') for k, f in zip(names, fs))
    def get(self, v, tname, *path):
        "a field of a struct value, along a path of names"
        t = self.typ(tname)
        for k in path:
            u = self.ex.U(t)
            if u['k'] == 'ptr':
                v, t = self.ex.load(self.st, v), u['e']
                u = self.ex.U(t)
            names = [f['name'] for f in u['fields']]
            if k not in names: raise Missing(f'{tname}.{k}')
            i = names.index(k)
            v, t = v[i], u['fields'][i]['t']
        return v
    def setf(self, v, tname, **kw):
        "a copy of the struct value with some fields replaced"
        names = [f['name'] for f in self.ex.U(self.typ(tname))['fields']]
        l = list(v)
        for k, x in kw.items():
            if k not in names: raise Missing(f'{tname}.{k}')
            l[names.index(k)] = x
        return St(l)
    def view(self, v, st=None): return view(self.ex, st or self.st, v)
    # calls
    def fn(self, name):
        f = self.P.find(name)
        if f is None or not f.blocks: raise Missing(name)
        return f
    def body(self, name, *args, st=None):
        "outcomes of running the body of the function (not its contract)"
        f = self.fn(name)
        if len(f.params) != len(args): raise Missing(f'{name} takes {len(f.params)} arguments')
        self.ex.inlined.add(f.name)
        return self.ex.run(f, (st or self.st).fork(), list(args))
    def call(self, name, *args, st=None):
        f = self.fn(name)
        if len(f.params) != len(args): raise Missing(f'{name} takes {len(f.params)} arguments')
        return self.ex.call_fn((st or self.st).fork(), f.name, list(args))
    def call1(self, name, *args, st=None):
        r = self.call(name, *args, st=st)
        if len(r) != 1: raise Unsupported(f'{name}: {len(r)} outcomes')
        self.st = r[0][0]
        return r[0][1]
    # obligations
    def prove(self, name, f, st=None, pc=None):
        t0 = time.time()
        if pc is None: pc = (st or self.st).pc
        ob = discharge(name, pc, f)
        ob.time = time.time() - t0
        self.obs.append(ob)
        return ob.status == 'proved'
    def prove_eq(self, name, got, want, st=None):
        try: l = eqs(got, want)
        except Shape as e:
            if smt.feasible((st or self.st).pc): self.obs.append(Ob(name, 'failed', 'shape', 0.0, str(e)))
            return False
        ok = True
        for w, f in l: ok = self.prove(name + (' ' + w if w else ''), f, st) and ok
        return ok
    def cover(self, name, st=None):
        "reachability: the state must be feasible (a vacuous proof fails here)"
        t0 = time.time()
        r = smt.check((st or self.st).pc)
        self.obs.append(Ob(name + ' reachable', 'proved' if r != 'unsat' else 'failed', 'z3', time.time() - t0, '' if r != 'unsat' else 'no execution reaches this point'))
    def no_panic(self, name):
        if not self.ex.panics: self.obs.append(Ob(name + ' never panics', 'proved', 'exec'))
        for pc, msg, pos in self.ex.panics[:3]:
            self.obs.append(Ob(name + ' never panics', 'failed' if smt.check(pc) == 'sat' else 'unknown', 'exec', 0.0, f'{msg} at {pos} when {show_pc(pc)}', pos))
    def frame(self, name, only=None):
        bad = [x for x in self.ex.frame if only is None or only(x)]
        if not bad: self.obs.append(Ob(name + ' leaves its inputs unmodified', 'proved', 'exec'))
        seen = set()
        for pc, what, pos in bad:
            if (what, pos) in seen: continue
            seen.add((what, pos))
            glob = what in self.P.globals or what == 'package variable'
            self.obs.append(Ob(name + ' leaves its inputs unmodified', 'unsupported' if glob else 'failed', 'exec', 0.0, f'{what} is written at {pos}', pos))

# the fields the specification speaks of; what a proof or parameter object has besides them depends on its history
FIELDS = {
    'bulletproofs.BulletProof': ('V', 'A', 'S', 'T1', 'T2', 'Taux', 'Mu', 'Tprime', 'InnerProductProof', 'Params'),
    'bulletproofs.MultiBulletProof': ('Vs', 'A', 'S', 'T1', 'T2', 'Taux', 'Mu', 'Tprime', 'InnerProductProof', 'Params'),
    'bulletproofs.InnerProductProof': ('P', 'Cc', 'A', 'B', 'L', 'R', 'Params'),
    'bulletproofs.InnerProductParams': ('Gg', 'Hh', 'Uu', 'GP'),
    'bulletproofs.BulletProofSetupParams': ('N', 'G', 'H', 'Gg', 'Hh', 'GP'),
    'voteproof.GroupParameters': ('G', 'H', 'N', 'F', 'I'),
    'voteproof.AlgebraicParameters': ('GFF', 'GEC'),
    'voteproof.VerCommitments': ('Y', 'Xp', 'Xq1', 'Xq2'),
    'main.BallotData': ('Ballot', 'BpLower', 'BpUpper', 'VoteProof'),
    'main.ElGamalCiphertext': ('U', 'V'),
    'main.PublicParameters': ('FFGroupParams', 'ECGroupParams', 'EGPK', 'candidateMin', 'candidateMax', 'BPParams', 'RPParams'),
}

def int_ax(name, lo, hi):
    smt.APPAX[name] = lambda t, x, zi: [x >= lo, x <= hi]

def show_pc(pc):
    s = ' ∧ '.join(showf(f) for f in pc[-6:])
    return s[:600] or 'always'

def show_model(m):
    if not m: return ''
    return ', '.join(f'{k} = {v}' for k, v in sorted(m.items(), key=lambda x: len(x[0]))[:12])

def find_ite(x, seen=None):
    "an if-then-else inside a formula or term"
    seen = set() if seen is None else seen
    if isinstance(x, (T, F)):
        if (x.__class__, x.id) in seen: return None
        seen.add((x.__class__, x.id))
        if isinstance(x, T) and x.op == 'ite': return x
        for y in x.a:
            r = find_ite(y, seen)
            if r is not None: return r
    elif isinstance(x, tuple):
        for y in x:
            r = find_ite(y, seen)
            if r is not None: return r
    return None

def replace(f, old, new):
    return tm.substf(f, {old.id: new})

def eqvar(c):
    "(variable, value) if the condition fixes an integer variable"
    if c.op != 'eq': return None
    p = nf(c.a[0])
    if len(p) > 2: return None
    k = 0
    v = None
    for m, co in p.items():
        if m == (): k = co
        elif len(m) == 1 and m[0][1] == 1 and abs(co) == 1 and ATOMS[m[0][0]].key[0] == 'v': v, s = m[0][0], co
        else: return None
    if v is None: return None
    return mk('v', ATOMS[v].key[1]), C(-k * s)

def discharge(name, pc, f, depth=0):
    o = discharge0(name, pc, f)
    if o.status == 'proved' or depth > 6: return o
    for g in pc:
        e = eqvar(g)
        if e and uses(f, e[0]):
            return discharge(name, tuple(tm.substf(h, {e[0].id: e[1]}) for h in pc) + (g,), tm.substf(f, {e[0].id: e[1]}), depth + 1)
    it = find_ite(f)
    if it is None: return o
    c = it.a[0]
    for g, b in ((c, it.a[1]), (Not(c), it.a[2])):
        if not smt.feasible(tuple(pc), g): continue
        f2 = replace(f, it, b)
        pc2 = tuple(pc) + flat(g)
        e = eqvar(g)
        if e: f2 = tm.substf(f2, {e[0].id: e[1]})
        o = discharge(name, pc2, f2, depth + 1)
        if o.status != 'proved': return o
    return Ob(name, 'proved', 'case split')

def uses(x, v, seen=None):
    seen = set() if seen is None else seen
    if x is v: return True
    if isinstance(x, (T, F)):
        if (x.__class__, x.id) in seen: return False
        seen.add((x.__class__, x.id))
        return any(uses(y, v, seen) for y in x.a)
    if isinstance(x, tuple): return any(uses(y, v, seen) for y in x)
    return False

def has_op(x, ops):
    if isinstance(x, T) and x.op in ops: return True
    if isinstance(x, (T, F)): return any(has_op(y, ops) for y in x.a)
    if isinstance(x, tuple): return any(has_op(y, ops) for y in x)
    return False

def true_at_random(pc, f):
    "f is an equality of sums or powers that the normal form does not decide: is it true wherever it is evaluated?"
    n = 0
    for m in models(8):
        try:
            if not all(m.evf(g) for g in pc): continue
            if not m.evf(f): return False
            n += 1
        except Exception: return False
    return n >= 3

def discharge0(name, pc, f):
    if f is TRUE: return Ob(name, 'proved', 'normal-form')
    if f.op == 'and':
        for g in f.a:
            o = discharge(name, pc, g)
            if o.status != 'proved': return o
        return o
    if f.op in ('iff',):
        pass
    fk = smt.fkey_safe(f)
    if fk is not None and any(g is f or (g.op == f.op and smt.fkey_safe(g) == fk) for g in pc): return Ob(name, 'proved', 'normal-form')
    r = smt.check(tuple(pc) + (Not(f),))
    if r == 'unsat': return Ob(name, 'proved', 'z3')
    if r == 'unknown':
        r = smt.check_long(tuple(pc) + (Not(f),))
        if r == 'unsat': return Ob(name, 'proved', 'z3/cvc5')
    if r == 'unknown':
        for m in models(8):
            try:
                if all(m.evf(g) for g in pc) and not m.evf(f):
                    return Ob(name, 'failed', 'random model', 0.0, showf(f)[:1500])
            except Exception: pass
        return Ob(name, 'unsupported', 'z3', 0.0, 'solver gave no answer: ' + showf(f)[:600])
    if f.op in ('eq', 'eqm') and has_op(f, ('sum', '^')) and true_at_random(pc, f):
        return Ob(name, 'unsupported', 'z3', 0.0, 'holds in every random model but was not derived: ' + showf(f)[:600])
    mdl = ''
    try: mdl = show_model(smt.model(tuple(pc) + (Not(f),)))
    except Exception: pass
    return Ob(name, 'failed', 'z3', 0.0, f'not valid: {showf(f)[:1500]} | path {show_pc(pc)} | model {mdl}')
