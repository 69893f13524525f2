"""encoding/json, driven by the Go types: the assumed contract of Marshal and Unmarshal.

A marshalled value is the segment ('json', tree).  Bytes of unknown origin are
('wire', path): decoding them yields unconstrained values that are functions of
their JSON path, and an error unless an uninterpreted predicate holds.
"""
import terms as tm
from terms import *
from values import *
import smt
import lib
from lib import model, slice_segs, bytes_slice

class ByTm:
    "a byte slice inside an array of symbolic length"
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = segs

def fields(ex, t):
    "JSON fields of a struct type: [(key, index path, type)]"
    out = []
    for i, f in enumerate(ex.U(t)['fields']):
        tag = ''
        if 'json:"' in f['tag']: tag = f['tag'].split('json:"', 1)[1].split('"', 1)[0]
        name, *opts = tag.split(',')
        if tag == '-': continue
        if 'string' in opts or 'omitempty' in opts or 'omitzero' in opts: raise Unsupported('json tag option')
        u = ex.U(f['t'])
        if f['emb'] and not name and u['k'] == 'struct' and not has(ex, f['t'], 'MarshalJSON'):
            out += [(k, (i,) + p, tt, d + 1) for k, p, tt, d in fields(ex, f['t'])]
            continue
        if not f['exp']: continue
        out.append((name or f['name'], (i,), f['t'], 0))
    # shallower fields hide deeper ones
    best = {}
    for x in out: best[x[0]] = min(best.get(x[0], 99), x[3])
    return [x for x in out if x[3] == best[x[0]]]

def has(ex, t, m):
    return m in ex.prog.methods.get(t, {})

def emb(segs):
    segs = lib.norm_segs(segs)
    if len(segs) == 1:
        if segs[0][0] == 'json': return segs[0][1]
        if segs[0][0] == 'dec': return ('num', segs[0][1])
    return ('emb', segs)

RAWT = ('encoding/json.RawMessage', 'encoding/json/jsontext.Value')
class JErr(Exception): pass

def jenc(ex, st, v, t, addr=None):
    "[(state, tree)]; error paths are dropped into ex via JErr"
    s = ex.tname(t)
    u = ex.U(t)
    k = u['k']
    if isinstance(v, Opt):
        d = ex.decide(st, v.isnil)
        if d is True: return [(st, ('null',))]
        if d is False: return jenc(ex, st, v.val, t, addr)
        s2 = st.fork(v.isnil)
        st.pc = st.pc + (Not(v.isnil),)
        return [(s2, ('null',))] + jenc(ex, st, v.val, t, addr)
    if s in RAWT:
        segs = slice_segs(ex, st, v)
        return [(st, emb(segs) if segs else ('null',))]
    if k == 'iface':
        if v is NIL: return [(st, ('null',))]
        if isinstance(v, ElTm) or (isinstance(v, Iface) and isinstance(v.typ, str)):
            return [(s2, emb(slice_segs(ex, s2, r[0]))) for s2, r in ex.invoke(st, v, 'MarshalJSON', [], None)]
        return jenc(ex, st, v.val, v.typ)
    if k == 'ptr':
        if v is NIL: return [(st, ('null',))]
        if isinstance(v, BigTm) or ex.tname(u['e']) == 'math/big.Int': return [(st, ('num', lib.big(ex, st, v)))]
        if has(ex, t, 'MarshalJSON'): return meth(ex, st, t, v)
        return jenc(ex, st, ex.load(st, v), u['e'], v)
    if has(ex, t, 'MarshalJSON'): return meth(ex, st, t, v)
    if addr is not None:
        pt = ex.prog.tid.get('*' + s)
        if pt is not None and has(ex, pt, 'MarshalJSON'): return meth(ex, st, pt, addr)
    if s == 'math/big.Int': return [(st, ('num', v))] if addr is not None else [(st, ('obj', ()))]
    if k == 'basic':
        if isinstance(v, T): return [(st, ('num', v))]
        if isinstance(v, F): return [(st, ('bool', v))]
        if isinstance(v, Str): return [(st, ('str', v.segs))]
    if k == 'struct':
        outs = [(st, ())]
        for key, path, ft, _ in fields(ex, t):
            nxt = []
            for s1, done in outs:
                x = v
                a = addr
                for i in path:
                    x = x[i]
                    if a is not None: a = Ptr(a.oid, a.path + (i,))
                for s2, tr in jenc(ex, s1, x, ft, a): nxt.append((s2, done + ((key, tr),)))
            outs = nxt
        return [(s1, ('obj', d)) for s1, d in outs]
    if k == 'slice':
        if ex.tname(u['e']) in ('byte', 'uint8'): return [(st, ('b64', slice_segs(ex, st, v)))] if v.oid is not None else [(st, ('null',))]
        if v.oid is None: return [(st, ('null',))]
        es = lib.elems(ex, st, v)
        if es is None:
            c = st.heap[v.oid]
            if not isinstance(c, Fam): raise Unsupported('json of a partly written array')
            b = BV(10 ** 6)
            r = jenc(ex, st, ex.sub_get(st, c, add(v.off, b)), u['e'])
            if len(r) != 1: raise Unsupported('json of array elements')
            return [(r[0][0], ('arrf', v.ln, r[0][1]))]
        outs = [(st, ())]
        for e in es: outs = [(s2, d + (tr,)) for s1, d in outs for s2, tr in jenc(ex, s1, e, u['e'])]
        return [(s1, ('arr', d)) for s1, d in outs]
    if k == 'array':
        outs = [(st, ())]
        for e in v: outs = [(s2, d + (tr,)) for s1, d in outs for s2, tr in jenc(ex, s1, e, u['e'])]
        return [(s1, ('arr', d)) for s1, d in outs]
    raise Unsupported(f'json of {s}')

def meth(ex, st, t, v):
    out = []
    for s2, r in ex.call_fn(st, ex.prog.methods[t]['MarshalJSON'], [v]):
        d = ex.decide(s2, r[1].isnil)
        if d is not True: raise Unsupported('MarshalJSON that may fail')
        out.append((s2, emb(slice_segs(ex, s2, r[0]))))
    return out

@model('encoding/json.Marshal')
def _(ex, st, v):
    if v is NIL: return Tup([bytes_slice(ex, st, (('lit', 'null'),)), ErrV(TRUE)])
    r = jenc(ex, st, v.val, v.typ) if isinstance(v.typ, int) else [(s2, emb(slice_segs(ex, s2, x[0]))) for s2, x in ex.invoke(st, v, 'MarshalJSON', [], None)]
    return [(s2, Tup([bytes_slice(ex, s2, (unemb(tr),)), ErrV(TRUE)])) for s2, tr in r]
@model('encoding/json.MarshalIndent')
def _(ex, st, v, p, i): return lib.TABLE['encoding/json.Marshal'](ex, st, v)

def unemb(tr):
    if tr[0] == 'emb' and len(tr[1]) == 1: return tr[1][0]
    return ('json', tr)

INTR = {'int': (-(1 << 63), (1 << 63) - 1), 'int64': (-(1 << 63), (1 << 63) - 1), 'int32': (-(1 << 31), (1 << 31) - 1),
        'uint8': (0, 255), 'uint16': (0, 65535), 'uint32': (0, (1 << 32) - 1), 'uint64': (0, (1 << 64) - 1), 'uint': (0, (1 << 64) - 1),
        'int8': (-128, 127), 'int16': (-32768, 32767), 'byte': (0, 255)}

def jdec(ex, st, tr, t, old):
    "(ok, value) of decoding a known tree into a variable of type t holding old"
    s, u = ex.tname(t), ex.U(t)
    k = u['k']
    if s in RAWT:
        return TRUE, bytes_slice(ex, st, (unemb(tr),))
    if tr[0] == 'emb':
        if len(tr[1]) == 1 and tr[1][0][0] in ('wire', 'wirei', 'optseg'): return jwire(ex, st, tr[1], t, old)
        raise Unsupported('decoding an embedded value')
    if k == 'ptr':
        if tr[0] == 'null': return TRUE, NIL
        if ex.tname(u['e']) == 'math/big.Int':
            if tr[0] != 'num': return FALSE, old
            if isinstance(old, Ptr):
                ex.store(st, old, tr[1]); return TRUE, old
            return TRUE, ex.newp(st, tr[1])
        if has(ex, t, 'UnmarshalJSON'): raise Unsupported('nested UnmarshalJSON')
        p = old if isinstance(old, Ptr) else ex.newp(st, ex.zero(u['e']))
        ok, v = jdec(ex, st, tr, u['e'], ex.load(st, p))
        ex.store(st, p, v)
        return ok, p
    if k == 'iface': return (TRUE, NIL) if tr[0] == 'null' else (FALSE, old)
    if tr[0] == 'null' and k != 'slice': return TRUE, old
    if s == 'math/big.Int': return (TRUE, tr[1]) if tr[0] == 'num' else (FALSE, old)
    if k == 'basic':
        n = u['name']
        if n in INTR:
            if tr[0] != 'num': return FALSE, old
            lo, hi = INTR[n]
            ok = And(Le(C(lo), tr[1]), Le(tr[1], C(hi)))
            return (ok, tr[1]) if ok is TRUE or ex.decide(st, ok) is True else (ok, ite(ok, tr[1], old))
        if n == 'string': return (TRUE, Str(tr[1])) if tr[0] == 'str' else (FALSE, old)
        if n == 'bool': return (TRUE, tr[1]) if tr[0] == 'bool' else (FALSE, old)
    if k == 'struct':
        if tr[0] != 'obj': return FALSE, old
        v = old
        oks = []
        fs = fields(ex, t)
        for key, sub_ in tr[1]:
            m = [x for x in fs if x[0] == key] or [x for x in fs if x[0].lower() == key.lower()]
            if not m: continue
            _, path, ft, _ = m[0]
            x = v
            for i in path: x = x[i]
            ok, nv = jdec(ex, st, sub_, ft, x)
            oks.append(ok)
            v = setp(v, path, nv)
        return And(*oks), v
    if k == 'slice':
        if tr[0] == 'null': return TRUE, NILSLICE
        e = u['e']
        if ex.tname(e) in ('byte', 'uint8'):
            return (TRUE, bytes_slice(ex, st, tr[1])) if tr[0] == 'b64' else (FALSE, old)
        if tr[0] == 'arr':
            oks, vs = [], []
            for x in tr[1]:
                ok, v = jdec(ex, st, x, e, ex.zero(e))
                oks.append(ok); vs.append(v)
            o = ex.new(st, Ar(vs))
            return And(*oks), Slc(o, C(0), C(len(vs)), C(len(vs)))
        if tr[0] == 'arrf' and ex.tname(e) in RAWT:
            b = bvar()
            o = ex.new(st, Fam(tr[1], b, ByTm(tm._subst_arg((unemb(tr[2]),), {BV(10 ** 6).id: b}, {}))))
            return TRUE, Slc(o, C(0), tr[1], tr[1])
        if tr[0] == 'arrf': raise Unsupported('decoding an array of symbolic length')
        return FALSE, old
    raise Unsupported(f'json into {s}')

def setp(v, path, x):
    l = list(v)
    l[path[0]] = x if len(path) == 1 else setp(v[path[0]], path[1:], x)
    return type(v)(l)

_lens = {}
def wlen(segs):
    k = repr(segs)
    if k not in _lens: _lens[k] = V(f'wirelen{len(_lens)}', 0, 1 << 40, 'len')
    return _lens[k]

def jwire(ex, st, segs, t, old, top=True):
    "decode bytes of unknown content"
    s, u = ex.tname(t), ex.U(t)
    k = u['k']
    ok = Bool('jsonok', s, segs) if top else TRUE
    if s in RAWT:
        return ok, Opt(Bool('jmissing', segs), bytes_slice(ex, st, segs))
    if k == 'ptr' and ex.tname(u['e']) == 'math/big.Int':
        return ok, Opt(Bool('jnull', segs), ex.newp(st, app('jnum', segs)))
    if k == 'basic':
        n = u['name']
        if n in INTR:
            lo, hi = INTR[n]
            nm = 'jint' + n
            if lo == 0: RANGEFN[nm] = hi + 1
            else: smt.APPAX[nm] = lambda t_, x, zi: [x >= lo, x <= hi]
            return ok, app(nm, segs)
        if n == 'string': return ok, Str((('jstr', segs),))
        if n == 'bool': return ok, Bool('jbool', segs)
    if k == 'struct':
        v = old
        for key, path, ft, _ in fields(ex, t):
            x = v
            for i in path: x = x[i]
            _, nv = jwire(ex, st, (('wire', segs, key),), ft, x, False)
            v = setp(v, path, nv)
        return ok, v
    if k == 'slice':
        e = u['e']
        if ex.tname(e) in ('byte', 'uint8'):
            return ok, Opt(Bool('jmissing', segs), bytes_slice(ex, st, (('b64of', segs),)))
        n = wlen(segs)
        b = bvar()
        if ex.tname(e) in RAWT:
            o = ex.new(st, Fam(n, b, ByTm((('wirei', segs, b),))))
            return ok, Slc(o, C(0), n, n)
        if ex.U(e)['k'] == 'ptr' and ex.tname(ex.U(e)['e']) == 'math/big.Int':
            raise Unsupported('decoding an array of numbers')
    raise Unsupported(f'json of unknown bytes into {s}')

@model('encoding/json.Unmarshal')
def _(ex, st, data, dst):
    segs = slice_segs(ex, st, data)
    if not isinstance(dst, Iface) or not isinstance(dst.val, Ptr): raise Unsupported('json.Unmarshal target')
    t = ex.U(dst.typ)['e']
    old = ex.load(st, dst.val)
    if has(ex, dst.typ, 'UnmarshalJSON'):
        return ex.call_fn(st, ex.prog.methods[dst.typ]['UnmarshalJSON'], [dst.val, data])
    given = TRUE
    if len(segs) == 1 and segs[0][0] == 'optseg': given, segs = Not(segs[0][1]), segs[0][2]
    if not segs: return ErrV(FALSE)
    if len(segs) == 1 and segs[0][0] == 'json': ok, v = jdec(ex, st, segs[0][1], t, old)
    elif len(segs) == 1 and segs[0][0] == 'dec': ok, v = jdec(ex, st, ('num', segs[0][1]), t, old)
    else: ok, v = jwire(ex, st, segs, t, old)
    ex.store(st, dst.val, v)
    return ErrV(And(given, ok))

@model('(*encoding/json.RawMessage).UnmarshalJSON', '(*encoding/json/jsontext.Value).UnmarshalJSON')
def _(ex, st, p, data):
    ex.store(st, p, bytes_slice(ex, st, slice_segs(ex, st, data)))
    return ErrV(TRUE)
@model('(encoding/json.RawMessage).MarshalJSON', '(encoding/json/jsontext.Value).MarshalJSON')
def _(ex, st, m): return Tup([m, ErrV(TRUE)])
