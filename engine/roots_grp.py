"""The concrete groups against the group contract (group.Element, group.Group).

Elements are made through the interface only (multiples of the generator, and
what the operations make of them), so no obligation names a representation.
"""
from roots import job
from spec import *
import groups as gr
import itertools

class G:
    def __init__(self, key, label, make):
        self.key, self.label, self.make = key, label, make
GROUPS = [
    ('P256', 'group.P256'), ('P384', 'group.P384'), ('R255', 'group.Ristretto255'), ('K1', 'group.SecP256k1'), ('ModP', 'group.NewModPGroup'),
]
ORDER = {k: gr.CURVES[k][0] for k in gr.CURVES}
FIELD = {k: gr.CURVES[k][1] for k in gr.CURVES}
ORDER['ModP'], FIELD['ModP'] = gr.SAFE[gr.RFC3072][0], gr.RFC3072

def make(c, key):
    "the group, as its constructor makes it"
    name = dict(GROUPS)[key]
    if key == 'ModP': args = [lit('RFC3526ModPGroup3072'), lit('%X' % gr.RFC3072), lit('2')]
    else: args = []
    c.P.find(name) or c.fn(name)
    outs = c.body(name, *args)
    if len(outs) != 1: raise Unsupported(f'{name}: {len(outs)} outcomes')
    c.st = outs[0][0]
    return outs[0][1]

def inv(c, st, x, meth, *args):
    return c.ex.invoke(st, x, meth, list(args), None)

def then(c, outs, fn):
    "run fn(st, v) on every outcome and collect its outcomes"
    r = []
    for s, v in outs:
        try: r += fn(s, v)
        except GoPanic: pass
    return r

def scale(c, st, g, v):
    "outcomes: the v-th multiple of the generator"
    return then(c, inv(c, st, g, 'Element'), lambda s, e: inv(c, s, e, 'BaseScale', c.ex.newp(s, v)))

def cases(key, name='a'):
    "every logarithm: zero or not"
    return [('zero', C(0)), ('nonzero', V(name, 1, ORDER[key] - 1))]
def pairs(c, key):
    "every pair of logarithms: (label, a, b, assumptions)"
    q = C(ORDER[key])
    a, b = V('a', 1, ORDER[key] - 1), V('b', 1, ORDER[key] - 1)
    return [('0, 0', C(0), C(0), ()), ('0, b', C(0), b, ()), ('a, 0', a, C(0), ()), ('a, a', a, a, (Not(EqM(add(a, a), C(0), q)),)),
            ('a, -a', a, neg(a), (Not(EqM(neg(a), C(0), q)), Not(EqM(add(a, a), C(0), q)))),
            ('a, b', a, b, (Not(EqM(a, b, q)), Not(EqM(add(a, b), C(0), q))))]
def val(c, key, name):
    return V(name, 1, ORDER[key] - 1)

# ways of making an element of logarithm v
def mk_scale(c, st, g, v): return scale(c, st, g, v)
def mk_sum(c, st, g, v):      # through an addition of the identity
    return then(c, scale(c, st, g, v), lambda s, e: then(c, inv(c, s, g, 'Identity'), lambda s2, i: then(c, inv(c, s2, g, 'Element'), lambda s3, r: inv(c, s3, r, 'Add', e, i))))
def mk_set(c, st, g, v):
    return then(c, scale(c, st, g, v), lambda s, e: then(c, inv(c, s, g, 'Element'), lambda s2, r: inv(c, s2, r, 'Set', e)))
def mk_json(c, st, g, v):
    def dec(s, e):
        return then(c, inv(c, s, e, 'MarshalJSON'), lambda s2, r: then(c, inv(c, s2, g, 'Element'), lambda s3, x: [(s4, x) for s4, err in inv(c, s3, x, 'UnmarshalJSON', r[0])]))
    return then(c, scale(c, st, g, v), dec)
MAKERS = {'multiple': mk_scale, 'sum': mk_sum, 'copy': mk_set, 'decoded': mk_json}

def const(c, st, g, which):
    return inv(c, st, g, which)

def is_val(c, name, st, g, x, v):
    "the element equals the v-th multiple of the generator, in both directions and in every encoding"
    for s, y in scale(c, st.fork(), g, v):
        for s2, b in inv(c, s.fork(), x, 'IsEqual', y): c.prove(name, b, s2)
        for s2, b in inv(c, s.fork(), y, 'IsEqual', x): c.prove(name + ' (symmetric)', b, s2)

def unchanged(c, name, st, g, ops):
    for i, (x, v) in enumerate(ops): is_val(c, f'{name}: operand {i} unchanged', st, g, x, v)

def same_handle(a, b):
    return isinstance(a, Iface) and isinstance(b, Iface) and same_val(a, b)

def op_job(key, title, weight=2):
    def d(fn):
        @job('C11', f'{key}: {title}', weight=weight)
        def _(c):
            g = make(c, key)
            fn(c, g, key)
            c.no_panic(title)
            c.frame(title)
        return fn
    return d

def receivers(c, st, g, ops):
    "fresh receiver and every aliasing of the receiver with an operand"
    out = [('fresh receiver', *o, None) for o in inv(c, st.fork(), g, 'Element')]
    out += [('generator receiver', *o, None) for o in inv(c, st.fork(), g, 'Generator')]
    for i, x in enumerate(ops): out.append((f'receiver is operand {i}', st.fork(), x, i))
    return out

def check_op(c, key, g, name, makers, vals, call, want, ass=(), alias=True, frozen=()):
    """operands made by `makers` with logarithms `vals`; the result must be `want`, be the
    receiver, and leave the other operands as they were, also when the receiver is written again"""
    states = [(c.st.fork(And(*ass)), [])]
    before = [c.st.heap[p.oid] for p in frozen]
    for m, v in zip(makers, vals):
        nxt = []
        for s, xs in states:
            for s2, x in m(c, s, g, v): nxt.append((s2, xs + [x]))
        states = nxt
    if not states: raise Unsupported('no operands')
    reached = 0
    for s0, xs in states:
        for rn, s1, r, ai in receivers(c, s0, g, xs):
            if ai is not None and not alias: continue
            for s2, ret in inv(c, s1, r, *call(xs, s1)):
                reached += 1
                nm = f'{name}, {rn}'
                if not same_handle(ret, r): c.obs.append(Ob(nm + ': returns the receiver', 'failed', 'exec', 0.0, 'another value is returned'))
                else: c.obs.append(Ob(nm + ': returns the receiver', 'proved', 'exec'))
                is_val(c, f'{nm}: result', s2, g, r, want)
                for p, v in zip(frozen, before): c.prove(nm + ': scalar unmodified', TRUE if s2.heap[p.oid] is v else Eq(s2.heap[p.oid], v), s2)
                others = [(x, v) for i, (x, v) in enumerate(zip(xs, vals)) if i != ai and not (ai is not None and same_handle(x, xs[ai]))]
                unchanged(c, nm, s2, g, others)
                # writing the receiver again must not reach the operands
                for s3, gen in inv(c, s2.fork(), g, 'Generator'):
                    for s4, _ in inv(c, s3.fork(), r, 'Set', gen): unchanged(c, nm + ', receiver set again', s4, g, others)
                    for s4, _ in inv(c, s3.fork(), r, 'Negate', r): unchanged(c, nm + ', receiver negated', s4, g, others)
                    if ai is not None or rn != 'fresh receiver': continue
                    # nor must decoding into it, and writing an operand again must not reach the result
                    for meth in ('JSON', 'Binary'):
                        for s4, b in inv(c, s3.fork(), gen, 'Marshal' + meth):
                            for s5, _ in inv(c, s4.fork(), r, 'Unmarshal' + meth, b[0]): unchanged(c, f'{nm}, decoded into the receiver ({meth})', s5, g, others)
                            for i, x in enumerate(xs):
                                for s5, _ in inv(c, s4.fork(), x, 'Unmarshal' + meth, b[0]): is_val(c, f'{nm}, decoded into operand {i} ({meth}): result', s5, g, r, want)
                    for i, x in enumerate(xs):
                        for m2, args in (('Negate', [x]), ('Set', [gen]), ('Add', [x, gen])):
                            for s4, _ in inv(c, s3.fork(), x, m2, *args): is_val(c, f'{nm}, {m2} on operand {i} afterwards: result', s4, g, r, want)
    c.obs.append(Ob(name + ' reachable', 'proved' if reached else 'failed', 'exec', 0.0, '' if reached else 'no execution returns'))

for key, _ in GROUPS:
    @op_job(key, 'orders and constants')
    def _(c, g, key):
        for m, want in (('N', ORDER[key]), ('P', FIELD[key])):
            for s, v in inv(c, c.st.fork(), g, m): c.prove_eq(f'{m}()', c.view(v, s), Big(want), s)
        for s, e in scale(c, c.st.fork(), g, val(c, key, 'a')):
            for m, want in (('GroupOrder', ORDER[key]), ('FieldOrder', FIELD[key])):
                for s2, v in inv(c, s.fork(), e, m): c.prove_eq(m, c.view(v, s2), Big(want), s2)
        for which, want in (('Generator', 1), ('Identity', 0)):
            for s, e in inv(c, c.st.fork(), g, which):
                is_val(c, which, s, g, e, C(want))
                # a second one is not affected by what is done to the first
                a = val(c, key, 'a')
                for s2, x in scale(c, s.fork(), g, a):
                    for meth, args in (('Set', [x]), ('Negate', [x]), ('Add', [x, x]), ('Scale', [x, c.ex.newp(s2, V('s'))]), ('BaseScale', [c.ex.newp(s2, V('s'))])):
                        for s3, _ in inv(c, s2.fork(), e, meth, *args):
                            for s4, e2 in inv(c, s3, g, which): is_val(c, f'{which} after {meth} on an earlier one', s4, g, e2, C(want))
                    for meth in ('JSON', 'Binary'):
                        for s3, b in inv(c, s2.fork(), x, 'Marshal' + meth):
                            for s4, _ in inv(c, s3, e, 'Unmarshal' + meth, b[0]):
                                for s5, e2 in inv(c, s4, g, which): is_val(c, f'{which} after decoding {meth} into an earlier one', s5, g, e2, C(want))
        for s, e in inv(c, c.st.fork(), g, 'Identity'):
            for s2, b in inv(c, s, e, 'IsIdentity'): c.prove('identity is recognised', b, s2)
        for s, e in inv(c, c.st.fork(), g, 'Generator'):
            for s2, b in inv(c, s, e, 'IsIdentity'): c.prove('generator is not the identity', Not(b), s2)
        if key == 'ModP':
            import sympy
            q, gg = gr.SAFE[gr.RFC3072]
            c.prove('the field order is a safe prime and 2 generates the subgroup', TRUE if sympy.isprime(q) and sympy.isprime(2 * q + 1) and pow(gg, q, gr.RFC3072) == 1 else FALSE)

    @op_job(key, 'random elements')
    def _(c, g, key):
        outs = inv(c, c.st.fork(), g, 'Random')
        c.prove('returns', TRUE if outs else FALSE)
        for s, e in outs:
            # closure: the result behaves as some multiple of the generator
            for s2, d in then(c, inv(c, s, g, 'Element'), lambda s1, r: inv(c, s1, r, 'Subtract', e, e)):
                is_val(c, 'x - x', s2, g, d, C(0))

    @op_job(key, 'equality and identity tests', 3)
    def _(c, g, key):
        q = C(ORDER[key])
        for l, a in cases(key):
            for n1, m1 in MAKERS.items():
                for s, x in m1(c, c.st.fork(), g, a):
                    for s1, r in inv(c, s.fork(), x, 'IsIdentity'): c.prove(f'IsIdentity ({n1}, {l})', Iff(r, TRUE if l == 'zero' else FALSE), s1)
                    for s1, r in inv(c, s.fork(), x, 'IsEqual', x): c.prove(f'IsEqual of an element and itself ({n1}, {l})', r, s1)
        for l, a, b, ass in pairs(c, key):
            for (n1, m1), (n2, m2) in itertools.product(MAKERS.items(), MAKERS.items()):
                for s, x in m1(c, c.st.fork(And(*ass)), g, a):
                    for s1, y in m2(c, s, g, b):
                        for s2, r in inv(c, s1, x, 'IsEqual', y): c.prove(f'IsEqual ({n1}, {n2}; {l})', r if l in ('0, 0', 'a, a') else Not(r), s2)

    @op_job(key, 'textual form is faithful', 3)
    def _(c, g, key):
        from lib import seq_eq
        for l, a, b, ass in pairs(c, key):
            for (n1, m1), (n2, m2) in itertools.product(MAKERS.items(), MAKERS.items()):
                for s, x in m1(c, c.st.fork(And(*ass)), g, a):
                    for s1, y in m2(c, s, g, b):
                        for s2, u in inv(c, s1, x, 'String'):
                            for s3, v in inv(c, s2, y, 'String'):
                                e = seq_eq(u.segs, v.segs)
                                c.prove(f'equal text exactly for equal elements ({n1}, {n2}; {l})', e if l in ('0, 0', 'a, a') else Not(e), s3)

    for n1, m1 in MAKERS.items():
        @op_job(key, f'Add ({n1})', 5)
        def _(c, g, key, n1=n1, m1=m1):
            for l, a, b, ass in pairs(c, key):
                check_op(c, key, g, f'Add ({l})', [m1, mk_scale], [a, b], lambda xs, s: ('Add', xs[0], xs[1]), add(a, b), ass)
                check_op(c, key, g, f'Add ({l}, operands swapped)', [mk_scale, m1], [a, b], lambda xs, s: ('Add', xs[0], xs[1]), add(a, b), ass)
                if l in ('0, 0', 'a, a'): check_op(c, key, g, f'Add of an element and itself ({l})', [m1], [a], lambda xs, s: ('Add', xs[0], xs[0]), add(a, a), ass)
        @op_job(key, f'Subtract ({n1})', 5)
        def _(c, g, key, n1=n1, m1=m1):
            for l, a, b, ass in pairs(c, key):
                check_op(c, key, g, f'Subtract ({l})', [mk_scale, m1], [a, b], lambda xs, s: ('Subtract', xs[0], xs[1]), sub(a, b), ass)
                if l in ('0, 0', 'a, a'): check_op(c, key, g, f'Subtract an element from itself ({l})', [m1], [a], lambda xs, s: ('Subtract', xs[0], xs[0]), C(0), ass)
        @op_job(key, f'Negate, Set, Scale ({n1})', 4)
        def _(c, g, key, n1=n1, m1=m1):
            k = V('k')
            kp = c.big(k)
            q = C(ORDER[key])
            for l, a in cases(key):
                check_op(c, key, g, f'Negate ({l})', [m1], [a], lambda xs, s: ('Negate', xs[0]), neg(a), () if l == 'zero' else (Not(EqM(neg(a), C(0), q)),))
                check_op(c, key, g, f'Set ({l})', [m1], [a], lambda xs, s: ('Set', xs[0]), a)
                for kl, kv, ass in (('zero', C(0), ()), ('one', C(1), ()), ('minus one', C(-1), ()), ('the order', q, ()),
                                    ('invertible', k, (Not(EqM(k, C(0), q)), Not(EqM(mul(a, k), C(0), q))) if l != 'zero' else ()), ('multiple of the order', mul(k, q), ())):
                    kq = c.big(kv, owner='in')
                    check_op(c, key, g, f'Scale ({l}, scalar {kl})', [m1], [a], lambda xs, s: ('Scale', xs[0], kq), mul(a, kv), ass, frozen=[kq])
    @op_job(key, 'BaseScale', 3)
    def _(c, g, key):
        k = V('k')
        q = C(ORDER[key])
        for kl, kv, ass in (('zero', C(0), ()), ('one', C(1), ()), ('nonzero', k, (Not(EqM(k, C(0), q)),))):
            kp = c.big(kv, owner='in')
            check_op(c, key, g, f'BaseScale ({kl})', [mk_scale], [kv], lambda xs, s: ('BaseScale', kp), kv, ass, frozen=[kp])
            for s, x in scale(c, c.st.fork(And(*ass)), g, add(kv, q)): is_val(c, 'scalars are taken modulo the order', s, g, x, kv)
    for which in ('Identity', 'Generator'):
        @op_job(key, f'operations with the {which.lower()}', 4)
        def _(c, g, key, which=which):
            a = val(c, key, 'a')
            w = C(1 if which == 'Generator' else 0)
            m = lambda c, st, g, v: inv(c, st, g, which)
            q = C(ORDER[key])
            ass = (Not(EqM(a, w, q)), Not(EqM(a, neg(w), q)), Not(EqM(neg(a), C(0), q)))
            for nm, mk1, mk2, v1, v2 in (('left', m, mk_scale, w, a), ('right', mk_scale, m, a, w), ('both', m, m, w, w)):
                check_op(c, key, g, f'Add, {which} {nm}', [mk1, mk2], [v1, v2], lambda xs, s: ('Add', xs[0], xs[1]), add(v1, v2), ass)
                check_op(c, key, g, f'Subtract, {which} {nm}', [mk1, mk2], [v1, v2], lambda xs, s: ('Subtract', xs[0], xs[1]), sub(v1, v2), ass)
            check_op(c, key, g, f'Negate, {which}', [m], [w], lambda xs, s: ('Negate', xs[0]), neg(w))
            check_op(c, key, g, f'Set, {which}', [m], [w], lambda xs, s: ('Set', xs[0]), w)
            k = V('k')
            kp = c.big(k)
            check_op(c, key, g, f'Scale, {which}', [m], [w], lambda xs, s: ('Scale', xs[0], kp), mul(w, k), (Not(EqM(k, C(0), q)),))
    if key != 'ModP':
        @op_job(key, 'hashing to the group')
        def _(c, g, key):
            from values import Str
            msg = Str((('opq', 'message'),))
            for s, e in inv(c, c.st.fork(), g, 'Element'):
                for s1, r1 in inv(c, s, e, 'MapToGroup', msg):
                    c.prove('no error', r1[1].isnil, s1)
                    for s2, e2 in inv(c, s1, g, 'Generator'):
                        for s3, r2 in inv(c, s2, e2, 'MapToGroup', msg):
                            for s4, b in inv(c, s3.fork(), r1[0], 'IsEqual', r2[0]): c.prove('the same element for the same message', b, s4)
                            for s4, g2 in inv(c, s3.fork(), g, 'Generator'): is_val(c, 'the generator is not affected', s4, g, g2, C(1))

for key, _ in GROUPS:
    @op_job(key, 'a group made twice is one group')
    def _(c, g, key):
        h = make(c, key)
        a, b = V('a', 1, ORDER[key] - 1), V('b', 1, ORDER[key] - 1)
        q = C(ORDER[key])
        s0 = c.st.fork(And(Not(EqM(a, b, q)), Not(EqM(add(a, b), C(0), q))))
        n = 0
        for s, x in mk_scale(c, s0, g, a):
            for s1, y in mk_scale(c, s, h, b):
                for s2, r in inv(c, s1.fork(), g, 'Element'):
                    for s3, _r in inv(c, s2, r, 'Add', x, y):
                        is_val(c, 'sum of elements of the two', s3, g, r, add(a, b)); n += 1
                        is_val(c, 'sum of elements of the two, in the other', s3, h, r, add(a, b))
                for s2, f in inv(c, s1.fork(), x, 'IsEqual', y): c.prove('other elements differ', Not(f), s2)
            for s1, y in mk_scale(c, s.fork(), h, a):
                for s2, f in inv(c, s1, x, 'IsEqual', y): c.prove('equal elements of the two', f, s2)
        c.prove('some execution returns', TRUE if n else FALSE)
