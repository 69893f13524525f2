#!/usr/bin/env python3-vt
"""Compares the VC generator with Go: every function of selftest/selftest.go is
run by Go on sampled inputs, executed by the engine on the same numbers, and
executed once on symbols whose result is then evaluated on those numbers.
Exactly one path must apply and give Go's result (or Go's panic)."""
import os, sys, re, json, random, subprocess, shutil, tempfile, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
import check
import terms as tm
from spec import *

SRC = os.path.join(HERE, 'selftest', 'selftest.go')
NAMES = re.findall(r'^func (T\w+)\(a, b, c B, n int64\)', open(SRC).read(), re.M)

def cases(k=40, seed=1):
    r = random.Random(seed)
    small = [0, 1, -1, 2, 3, 5, -7, 8, 22, 23, 255, 256, -256, 1000003]
    def num():
        w = r.random()
        if w < .5: return r.choice(small)
        if w < .7: return r.randrange(-1 << 64, 1 << 64)
        if w < .8: return r.choice((1, -1)) * (1 << r.choice((31, 32, 63, 64))) + r.randrange(-1, 2)
        return r.randrange(-1 << 256, 1 << 256)
    ns = list(range(-8, 14)) + [31, 64, 127, 128, 255, 256, -129, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 63) - 1, -(1 << 63), (1 << 62), 0x7fffff00ff]
    return [(num(), num(), num(), r.choice(ns) if i >= len(ns) else ns[i]) for i in range(max(k, len(ns)))]

def real(d, cs):
    os.makedirs(os.path.join(d, 'zzselftest'))
    shutil.copy(SRC, os.path.join(d, 'zzselftest', 'selftest.go'))
    with open(os.path.join(d, 'zzselftest', 'main.go'), 'w') as f:
        f.write('package main\n\nimport ("encoding/json"; "math/big"; "os"; "fmt")\n\n')
        f.write('func get(s string) B { x, _ := new(big.Int).SetString(s, 10); return x }\n')
        f.write('func run(f func(a, b, c B, n int64) []B, c []string) (out []string) {\n defer func() { if e := recover(); e != nil { out = []string{"panic"} } }()\n')
        f.write(' out = []string{}\n for _, v := range f(get(c[0]), get(c[1]), get(c[2]), get(c[3]).Int64()) { if v == nil { out = append(out, "nil") } else { out = append(out, v.String()) } }\n return out }\n')
        f.write('func main() {\n var cs [][]string\n json.NewDecoder(os.Stdin).Decode(&cs)\n r := map[string][][]string{}\n fs := map[string]func(a, b, c B, n int64) []B{\n')
        for n in NAMES: f.write(f'  "{n}": {n},\n')
        f.write(' }\n for k, f := range fs { for _, c := range cs { r[k] = append(r[k], run(f, c)) } }\n s, _ := json.Marshal(r)\n fmt.Println(string(s)) }\n')
    p = subprocess.run(['go', 'run', './zzselftest'], cwd=d, env=check.GOENV, input=json.dumps([[str(x) for x in c] for c in cs]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode: raise SystemExit(p.stderr.decode()[-3000:])
    return json.loads(p.stdout)

class Skip(Exception): pass
class At(tm.Model):
    def __init__(self, env):
        super().__init__(1)
        self.env = env
    def var(self, name):
        if name in self.env: return self.env[name]
        raise Skip(f'variable {name}')
    def _ev(self, t):
        if t.op == 'app':
            a = [self.arg(x) for x in t.a[1:]]
            if t.a[0] == 'bitlen': return abs(a[0]).bit_length()
            if t.a[0] in ('belen', 'bytelen'): return (abs(a[0]).bit_length() + 7) // 8
            if t.a[0] == 'cmp': return (a[0] > a[1]) - (a[0] < a[1])
            if t.a[0] == 'popcnt64': return bin(a[0]).count('1')
            if t.a[0] == 'tz64': return (a[0] & -a[0]).bit_length() - 1 if a[0] else 64
            if t.a[0] in ('bit&', 'bit|', 'bit^', 'bit&^'):
                x, y = a[0], a[1]
                return {'bit&': x & y, 'bit|': x | y, 'bit^': x ^ y, 'bit&^': x & ~y}[t.a[0]]
            raise Skip(f'function {t.a[0]}')
        if t.op == 'div':
            d = self.ev(t.a[1])
            if d == 0: raise Skip('division by zero')
            q = self.ev(t.a[0]) // abs(d)
            return q if d > 0 else -q
        return super()._ev(t)
    def evf(self, f):
        if f.op == 'b': raise Skip(f'predicate {f.a[0]}')
        return super().evf(f)

def value(w, M):
    out = []
    n = M.ev(w.n)
    for i in range(n):
        x = w.get(C(i))
        if isinstance(x, tuple) and x and x[0] == 'opt': x = Null() if M.evf(x[1]) else x[2]
        out.append('nil' if isinstance(x, Null) else str(M.ev(x.t)))
    return out

def run(name, args, M):
    "[(pc, view or 'panic')]"
    c = Ctx(P)
    outs = c.body('zzselftest.' + name, *args(c))
    return c, [(s.pc, c.view(v, s)) for s, v in outs] + [(pc, 'panic') for pc, *_ in c.ex.panics]

def one(name):
    bad, uns, ok, note = [], 0, 0, ''
    sym = None
    try:
        c, sym = run(name, lambda c: [c.big('a'), c.big('b'), c.big('c'), V('n', -(1 << 63), (1 << 63) - 1)], None)
    except Unsupported as e: note = 'symbolic: ' + str(e)[:120]
    except Exception as e: bad.append(f'{name}: symbolic execution: {type(e).__name__} {e}')
    for i, cs in enumerate(CASES):
        want = REAL[name][i]
        try:
            c, outs = run(name, lambda c: [c.big(C(cs[0])), c.big(C(cs[1])), c.big(C(cs[2])), C(cs[3])], None)
            M = At({})
            got = [w if w == 'panic' else value(w, M) for pc, w in outs if all(M.evf(f) for f in pc)]
            got = [['panic'] if g == 'panic' else g for g in got]
            if got != [want]: bad.append(f'{name}{cs}: concrete {got}, Go {want}')
            else: ok += 1
        except (Unsupported, Skip) as e: uns += 1; note = note or 'concrete: ' + str(e)[:120]
        except tm.Blowup: uns += 1
        if sym is None: uns += 1; continue
        try:
            M = At(dict(a=cs[0], b=cs[1], c=cs[2], n=cs[3]))
            got = []
            for pc, w in sym:
                if not all(M.evf(f) for f in pc): continue
                got.append(['panic'] if w == 'panic' else value(w, M))
            if want == ['panic'] and got and got[0] == ['panic']: got = [['panic']]
            if got != [want]: bad.append(f'{name}{cs}: symbolic {got}, Go {want}')
            else: ok += 1
        except (Unsupported, Skip) as e: uns += 1; note = note or 'evaluation: ' + str(e)[:120]
        except tm.Blowup: uns += 1
    return name, ok, uns, bad, note

def main():
    global P, REAL, CASES
    CASES = cases()
    d = tempfile.mkdtemp(prefix='selftest.')
    try:
        subprocess.run(['cp', '-a', check.REPO + '/.', d], check=True)
        REAL = real(d, CASES)
        check.REPO = d
        path = os.path.join(d, 'ssa.json')
        if not check.dump(path): return 2
        P = Prog(path)
        tot = [0, 0]; bad = []
        with mp.Pool(8) as pool:
            for name, ok, uns, b, note in pool.imap_unordered(one, [n for n in NAMES if not sys.argv[1:] or n in sys.argv[1:]]):
                tot[0] += ok; tot[1] += uns; bad += b
                if uns or b: print(f'{name}: {ok} agree, {uns} without answer, {len(b)} differ {note}')
        for b in bad[:20]: print('DIFFERS', b[:400])
        print(f'{len(NAMES)} functions, {tot[0]} comparisons agree, {tot[1]} without answer, {len(bad)} differ')
        return 1 if bad else 0
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
