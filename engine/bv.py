"""Straight-line integer functions over machine words, as 64-bit vectors."""
import z3, time
from spec import Ob, Unsupported, Missing

def run_bv(P, f, args):
    "the value of a loop-free function of integers and booleans, as a z3 term"
    types = P.types
    def width(t):
        from exec import INT
        u = types[t]['U']
        return INT.get(u.get('name')) if u['k'] == 'basic' else None
    def operand(o, env):
        if isinstance(o, str): return env[o]
        if 'i' in o:
            w = width(o['t'])
            if w is None: raise Unsupported('constant')
            return z3.BitVecVal(int(o['i']), w[0])
        if 'b' in o: return z3.BoolVal(bool(o['b']))
        raise Unsupported(f'operand {o}')
    env0 = dict(zip(f.params, args))
    rets = []
    def go(b, prev, env, pc, d):
        if d > 200: raise Unsupported('loop')
        env = dict(env)
        phis = {}
        for ins in f.blocks[b]['i']:
            op = ins['op']
            if op == 'phi':
                phis[ins['r']] = operand(ins['edges'][f.blocks[b]['p'].index(prev)], env)
                continue
            env.update(phis)
            if op == 'return':
                rets.append((pc, operand(ins['xs'][0] if 'xs' in ins else ins['args'][0], env)))
                return
            if op == 'jump': return go(f.blocks[b]['s'][0], b, env, pc, d + 1)
            if op == 'if':
                c = operand(ins['x'], env)
                go(f.blocks[b]['s'][0], b, env, z3.And(pc, c), d + 1)
                go(f.blocks[b]['s'][1], b, env, z3.And(pc, z3.Not(c)), d + 1)
                return
            if op == 'bin':
                x, y = operand(ins['x'], env), operand(ins['y'], env)
                o = ins['o']
                sg = True
                xt = ins.get('xt')
                if xt is not None and width(xt): sg = width(xt)[1]
                m = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '&^': lambda: x & ~y, '==': lambda: x == y, '!=': lambda: x != y,
                     '<': lambda: x < y if sg else z3.ULT(x, y), '<=': lambda: x <= y if sg else z3.ULE(x, y),
                     '>': lambda: x > y if sg else z3.UGT(x, y), '>=': lambda: x >= y if sg else z3.UGE(x, y)}
                if o in ('<<', '>>'):
                    w = x.size()
                    yy = z3.Extract(w - 1, 0, y) if y.size() > w else z3.ZeroExt(w - y.size(), y) if y.size() < w else y
                    big = z3.UGE(y, z3.BitVecVal(w, y.size())) if y.size() >= 8 else z3.BoolVal(False)
                    if o == '<<': env[ins['r']] = z3.If(big, z3.BitVecVal(0, w), x << yy)
                    elif sg: env[ins['r']] = z3.If(big, x >> z3.BitVecVal(w - 1, w), x >> yy)
                    else: env[ins['r']] = z3.If(big, z3.BitVecVal(0, w), z3.LShR(x, yy))
                    continue
                if o in ('/', '%') and z3.is_bv_value(y) and y.as_long():
                    env[ins['r']] = (x / y if sg else z3.UDiv(x, y)) if o == '/' else (z3.SRem(x, y) if sg else z3.URem(x, y))
                    continue
                if o not in m: raise Unsupported(f'operator {o}')
                env[ins['r']] = m[o]()
                continue
            if op == 'un':
                x = operand(ins['x'], env)
                if ins['o'] == '-': env[ins['r']] = -x
                elif ins['o'] == '!': env[ins['r']] = z3.Not(x)
                elif ins['o'] == '^': env[ins['r']] = ~x
                else: raise Unsupported('unop')
                continue
            if op == 'convert':
                x = operand(ins['x'], env)
                w, v = width(ins['t']), width(ins.get('xt'))
                if w is None or v is None: raise Unsupported('convert')
                if w[0] == v[0]: env[ins['r']] = x
                elif w[0] < v[0]: env[ins['r']] = z3.Extract(w[0] - 1, 0, x)
                else: env[ins['r']] = z3.SignExt(w[0] - v[0], x) if v[1] else z3.ZeroExt(w[0] - v[0], x)
                continue
            if op == 'call':
                c = ins['call']
                nm = c['fn'].get('name', '') if isinstance(c.get('fn'), dict) else ''
                if 'OnesCount64' in nm:
                    x = operand(c['args'][0], env)
                    env[ins['r']] = sum((z3.ZeroExt(63, z3.Extract(i, i, x)) for i in range(64)), z3.BitVecVal(0, 64))
                    continue
                if nm.startswith('math/bits.') and nm.split('.')[-1] in ('Len64', 'TrailingZeros64', 'Len', 'TrailingZeros', 'LeadingZeros64', 'OnesCount'):
                    x = operand(c['args'][0], env)
                    k = nm.split('.')[-1]
                    b = lambda i: z3.Extract(i, i, x) == 1
                    if k == 'OnesCount': r = sum((z3.ZeroExt(63, z3.Extract(i, i, x)) for i in range(64)), z3.BitVecVal(0, 64))
                    elif k.startswith('Trail'):
                        r = z3.BitVecVal(64, 64)
                        for i in range(63, -1, -1): r = z3.If(b(i), z3.BitVecVal(i, 64), r)
                    else:
                        r = z3.BitVecVal(0, 64)
                        for i in range(64): r = z3.If(b(i), z3.BitVecVal(i + 1, 64), r)
                        if k.startswith('Lead'): r = 64 - r
                    env[ins['r']] = z3.simplify(r)
                    continue
                g = P.find(nm.split('/')[-1]) if nm else None
                if g is not None and g.blocks and nm.startswith('github.com/takakv'):
                    rs = run_bv(P, g, [operand(a, env) for a in c['args']])
                    r = rs[-1][1]
                    for q, v in rs[:-1]: r = z3.If(q, v, r)
                    env[ins['r']] = r
                    continue
            raise Unsupported(f'{op} in a bit-vector function')
    go(0, None, env0, z3.BoolVal(True), 0)
    return rets

def prove_power(c):
    f = c.fn('bulletproofs.IsPowerOfTwo')
    x = z3.BitVec('x', 64)
    t0 = time.time()
    rets = run_bv(c.P, f, [x])
    want = z3.Or(*[x == z3.BitVecVal(1 << k, 64) for k in range(63)])
    for pc, r in rets:
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(pc, r != want)
        st = str(s.check())
        d = ''
        if st == 'sat': d = f'x = {s.model()[x].as_signed_long()}' if s.model()[x] is not None else ''
        c.obs.append(Ob('IsPowerOfTwo(x) holds exactly for 2^0..2^62', 'proved' if st == 'unsat' else 'failed' if st == 'sat' else 'unsupported', 'z3 bit-vectors', time.time() - t0, d))
