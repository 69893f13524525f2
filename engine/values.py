"""Run-time values of the symbolic executor."""
from terms import *

class Nil:
    def __repr__(self): return 'nil'
NIL = Nil()

class Ptr:
    __slots__ = ('oid', 'path')
    def __init__(self, oid, path=()):
        self.oid, self.path = oid, path
    def __eq__(self, o): return isinstance(o, Ptr) and o.oid == self.oid and o.path == self.path
    def __hash__(self): return hash((self.oid, self.path))
    def __repr__(self): return f"&{self.oid}{''.join('.' + str(p) for p in self.path)}"

class Iface:
    __slots__ = ('typ', 'val')
    def __init__(self, typ, val): self.typ, self.val = typ, val
    def __repr__(self): return f"iface<{self.typ}>({self.val})"

class Slc:
    __slots__ = ('oid', 'off', 'ln', 'cp')
    def __init__(self, oid, off, ln, cp): self.oid, self.off, self.ln, self.cp = oid, off, ln, cp
    def __repr__(self): return f"slice({self.oid},{self.off},{self.ln})"

NILSLICE = Slc(None, C(0), C(0), C(0))

class St(tuple):
    "struct value"

class Ar(tuple):
    "array value"

class Tup(tuple):
    "multiple results"

class Clo:
    __slots__ = ('fn', 'binds')
    def __init__(self, fn, binds=()): self.fn, self.binds = fn, binds

class Str:
    "string: a concatenation of segments"
    __slots__ = ('segs',)
    def __init__(self, segs):
        out = []
        for s in segs:
            if s[0] == 'lit' and s[1] == '': continue
            if s[0] == 'dec' and is_c(s[1]): s = ('lit', str(s[1].a[0]))
            if out and s[0] == 'lit' and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + s[1])
            else: out.append(s)
        self.segs = tuple(out)
    def lit(self):
        if not self.segs: return ''
        if len(self.segs) == 1 and self.segs[0][0] == 'lit': return self.segs[0][1]
        return None
    def __repr__(self): return 'str' + str(self.segs)

def lit(s): return Str((('lit', s),))

class El:
    "abstract group element: its discrete logarithm, or None before it is set"
    __slots__ = ('grp', 'val')
    def __init__(self, grp, val): self.grp, self.val = grp, val
    def __repr__(self): return f"El({self.grp.name},{self.val})"

class Fam:
    """contents of an array of symbolic length: the element at index i is the
    template with the bound variable replaced by i"""
    __slots__ = ('n', 'bv', 'tmpl')
    def __init__(self, n, bv, tmpl): self.n, self.bv, self.tmpl = n, bv, tmpl
    def __repr__(self): return f"Fam({self.n}; {self.bv} -> {self.tmpl})"

class BigTm:
    "template: pointer to a big integer (never written through)"
    __slots__ = ('val', 'own')
    def __init__(self, val, own='in'): self.val, self.own = val, own
    def __repr__(self): return f"big:{self.val}"

class ElTm:
    "template: an element of an abstract group (never written through)"
    __slots__ = ('grp', 'val', 'own')
    def __init__(self, grp, val, own='in'): self.grp, self.val, self.own = grp, val, own
    def __repr__(self): return f"el:{self.val}"

class ErrV:
    "an error value: nil exactly when the formula holds"
    __slots__ = ('isnil',)
    def __init__(self, isnil): self.isnil = isnil
    def __repr__(self): return f"err(nil iff {self.isnil})"

class Opt:
    "a pointer or slice that is nil exactly when the formula holds"
    __slots__ = ('isnil', 'val')
    def __init__(self, isnil, val): self.isnil, self.val = isnil, val
    def __repr__(self): return f"opt({self.isnil}; {self.val})"

class ArrW:
    "array contents inside a symbolic loop: a base with writes at symbolic indices"
    __slots__ = ('base', 'ws')
    def __init__(self, base, ws): self.base, self.ws = base, tuple(ws)

class Poison:
    "contents that are not known: what a loop left early has written, or what earlier calls have left"
    def __init__(self, why=None): self.why = why

class AppArr:
    "a slice that a symbolic loop grows by append: what one iteration has appended so far"
    __slots__ = ('key', 'ws')
    def __init__(self, key, ws): self.key, self.ws = key, tuple(ws)

class Bytes:
    """contents of a byte array made of segments: ('lit', bytes), ('be', X, w)
    (X big-endian in w bytes), ('bemin', X) (shortest), or opaque ones as in Str"""
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = tuple(segs)
    def __repr__(self): return f"bytes{self.segs}"

class Opq:
    "opaque value that is a function of its description"
    __slots__ = ('tag', 'args')
    def __init__(self, tag, args=()): self.tag, self.args = tag, args
    def __repr__(self): return f"opq:{self.tag}"

class Flt:
    __slots__ = ('k', 'v')
    def __init__(self, k, v): self.k, self.v = k, v

class MapV:
    "contents of a map object: concrete keys only"
    __slots__ = ('items',)
    def __init__(self, items=()): self.items = tuple(items)

class Grp:
    "an abstract prime-order group, as described by the group.Group contract"
    def __init__(self, name, qlo=2**250):
        self.name = name
        self.q = V('q' + name, qlo, None, 'order')
        self.p = V('p' + name, qlo, None, 'order')
        self.noid = self.poid = None
    def __repr__(self): return f"Grp({self.name})"

class GoPanic(Exception):
    "this path panics"

class Dead(Exception):
    "this path is infeasible"

class Unsupported(Exception):
    pass
