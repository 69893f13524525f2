"""Fiat-Shamir: the challenges are digests of unambiguous encodings of what they have to bind (C17)."""
import re
from roots import job
from spec import *
from lib import seq_eq, norm_segs
from roots_grp import GROUPS, ORDER, make, inv, cases, pairs, MAKERS, mk_scale
from roots_bp import BPT, MBT, IPT, IPPT, SPT, bp_struct, mbp_struct, sym_ipp, foreign, log2, setup, bits, val, elts
from contracts import hash_bp
from terms import inv as inv_
from roots_vp import SPF, VCT, emb, prom, groups, lens, mk_params, sym_sigma
import groups as gr

STATEMENT = 'P, c and the generators'
def covers(segs, g, t, deep=True):
    """the text contains the element with logarithm t (g None: the number t), either itself
    or through an earlier digest whose text contains it"""
    for s in segs:
        if g is not None and s[0] == 'el' and s[1] == g.val.name and EqM(s[2][0], t, g.val.q) is TRUE: return True
        if g is None and s[0] == 'dec' and Eq(s[1], t) is TRUE: return True
        if s[0] == 'rep' and covers(s[2], g, t, deep): return True
        if deep and s[0] in ('dec', 'dig', 'be', 'b'):
            h = digest_of(s[1])
            if h is not None and covers(h, g, t): return True
    return False
def digest_of(t):
    "the text whose digest the number is (possibly reduced modulo something)"
    while isinstance(t, T):
        if t.op == 'app' and t.a[0] == 'H': return t.a[1]
        if t.op == 'app' and t.a[0] == 'fba': t = t.a[1][0][1]
        elif t.op == 'mod': t = t.a[0]
        else: return None
def mentions(hs, g, t): return any(covers(x, g, t) for x in hs)

def ob(c, nm, ok, detail): c.obs.append(Ob(nm, 'proved' if ok else 'failed', 'transcript', 0.0, '' if ok else detail))

def unambiguous(c, nm, hs):
    """every transcript can be read in one way only: texts of elements delimit themselves
    (proved for each group), a number ends at the end or before something that is no digit"""
    for segs in {norm_segs(x) for x in hs}:
        ok = True
        for s, n in zip(segs, segs[1:]):
            if s[0] in ('dec', 'rep') and not (n[0] == 'el' or n[0] == 'lit' and not n[1][0].isdigit() or s[0] == 'rep'): ok = False
            if s[0] == 'dec' and n[0] == 'el': ok = False
        if any(s[0] not in ('el', 'dec', 'rep', 'lit', 'raw', 'be', 'dig', 'b') for s in segs): raise Unsupported('transcript form')
        ob(c, f'{nm}: transcripts can be read in one way only', ok, str(segs)[:300])

def staged(c, nm, hs, stages, first=()):
    """stages: (name, [(what, group or None, logarithm or number)]) in the order in which they are sent.
    A challenge is derived from the latest stage its transcript contains: the transcript has to
    contain all of that stage, and, itself or through earlier challenges, what was sent before
    in the same (sub-)argument. The inner-product argument is one of its own, for the statement
    P, c over its generators. Every stage has to be followed by a challenge."""
    ts = list(dict.fromkeys(norm_segs(x) for x in hs))
    seen = set()
    for segs in ts:
        has = [[covers(segs, g, t, False) for _, g, t in items] for _, items in stages]
        k = max((i for i, x in enumerate(has) if any(x)), default=None)
        if k is None: continue
        full = [covers(segs, g, t) for _, g, t in stages[k][1]]
        if not all(full) and any(used_in(segs, x) for x in ts): continue
        seen.add(k)
        for (what, g, t), f in zip(stages[k][1], full):
            ob(c, f'{nm}: each challenge after {stages[k][0]} depends on {what}', f, f'transcript {str(segs)[:200]}')
        start = max([i for i in range(k + 1) if stages[i][0] == STATEMENT], default=0)
        for j in range(start, k):
            ok = all(covers(segs, g, t) for _, g, t in stages[j][1])
            ob(c, f'{nm}: the challenge after {stages[k][0]} depends on the earlier {stages[j][0]}', ok, f'transcript {str(segs)[:200]}')
    for k, (name, _) in enumerate(stages):
        ob(c, f'{nm}: {name} is followed by a challenge', k in seen, f'{len(ts)} transcripts')
def used_in(segs, other):
    return any(s[0] in ('dec', 'dig', 'be', 'b') and (h := digest_of(s[1])) is not None and norm_segs(h) == segs for s in other)

def stages_of(c, g, N, T_, pr, ipp=None):
    e = lambda *p_: c.view(c.get(pr, T_, *p_)).t
    ip = () if T_ == IPT else ('InnerProductProof',)
    if T_ == MBT: vs = [(f'the commitment V{j + 1}', g, t) for j, t in enumerate(elts(c, c.get(pr, T_, 'Vs')))]
    else: vs = [('the commitment V', g, e('V'))] if T_ == BPT else []
    out = [] if T_ == IPT else [('A, S', vs + [('A', g, e('A')), ('S', g, e('S'))]), ('T1, T2', [('T1', g, e('T1')), ('T2', g, e('T2'))])]
    st = [('P', g, e(*ip, 'P')), ('the inner product', None, e(*ip, 'Cc'))]
    gs = elts(c, c.get(pr, T_, 'Params', 'Gg'))
    hs = elts(c, c.get(pr, T_, 'Params', 'Hh'))
    if T_ != IPT:
        y = hash_bp(*(Elt(g.val, t) for *_, t in out[0][1]))[0]
        hs = [mul(h, power(inv_(y, g.val.q), C(i))) for i, h in enumerate(hs)]
    st += [(f'generator g{i}', g, t) for i, t in enumerate(gs)] + [(f'generator h{i}', g, t) for i, t in enumerate(hs)]
    out.append((STATEMENT, st))
    L, R = (elts(c, c.get(pr, T_, *ip, k)) for k in 'LR')
    return out + [(f'round {j + 1}', [(f'L{j + 1}', g, l), (f'R{j + 1}', g, r)]) for j, (l, r) in enumerate(zip(L, R))]

def check_bp(c, nm, g, N, T_, pr, hs):
    staged(c, nm, hs, stages_of(c, g, N, T_, pr))
    unambiguous(c, nm, hs)
    if T_ != IPT: distinct(c, nm, hs, g, c.view(c.get(pr, T_, 'A')).t)

def verify_bp(N, m=None):
    def f(c):
        g = c.group()
        T_ = MBT if m else BPT
        ipp = sym_ipp(c, g, log2(N), foreign(c, g))
        pr = mbp_struct(c, g, N, m, ipp) if m else bp_struct(c, g, N, ipp)
        p = c.ex.newp(c.st, pr, 'in', 'proof')
        c.ex.hashes = []
        outs = c.call(f'(*{T_}).Verify', p)
        c.prove('some execution returns', TRUE if outs else FALSE)
        check_bp(c, f'range-proof verifier N={N}' if not m else f'aggregated verifier N={N} m={m}', g, N, T_, pr, list(c.ex.hashes))
    return f

def distinct(c, nm, hs, g, A):
    "the two challenges that follow A and S come from different transcripts"
    t = {norm_segs(x) for x in hs if mentions([x], g, A)}
    ob(c, f'{nm}: the challenges y and z are digests of different transcripts', len(t) >= 2, f'{len(t)} transcripts with A')

def prove_bp(N, m=None):
    def f(c):
        g, params = setup(c, N)
        T_ = MBT if m else BPT
        if m: a = c.slice([c.big(val(bits(N // m, f'v{j}_'))) for j in range(m)], 'secrets')
        else: a = c.big(val(bits(N)))
        c.ex.hashes = []
        for s, v in c.call('bulletproofs.MultiProve' if m else 'bulletproofs.Prove', a, params):
            if not smt.feasible(s.pc): continue
            c.st = s
            check_bp(c, f'range-proof prover N={N}' if not m else f'aggregated prover N={N} m={m}', g, N, T_, v[0], list(c.ex.hashes))
    return f
for N in (1, 2, 4, 8, 16, 32):
    job('C17', f'range-proof verifier N={N}', weight=N)(verify_bp(N))
    job('C17', f'range-proof prover N={N}', 'quick' if N <= 16 else 'thorough', weight=N)(prove_bp(N))
for N, m in [(n, k) for n in (1, 2, 4, 8, 16, 32) for k in (1, 2, 4, 8, 16, 32) if k <= n]:
    job('C17', f'aggregated verifier N={N} m={m}', weight=N)(verify_bp(N, m))
    job('C17', f'aggregated prover N={N} m={m}', 'quick' if N <= 16 else 'thorough', weight=N)(prove_bp(N, m))

def verify_ip(n):
    def f(c):
        g = c.group()
        pr = sym_ipp(c, g, log2(n), c.struct(IPPT, Gg=c.els(g, 'G', n), Hh=c.els(g, 'h', n), Uu=c.el(g, 'U'), GP=g))
        c.ex.hashes = []
        c.call('(bulletproofs.InnerProductProof).Verify', pr)
        check_bp(c, f'inner-product verifier n={n}', g, n, IPT, pr, list(c.ex.hashes))
    return f
def prove_ip(n):
    def f(c):
        g = c.group()
        G, Hv = c.els(g, 'G', n), c.els(g, 'h', n)
        params = c.struct(IPPT, Gg=G, Hh=Hv, Uu=c.el(g, 'U'), GP=g)
        c.ex.hashes = []
        for s, v in c.call('bulletproofs.proveInnerProduct', c.bigs('a', n), c.bigs('b', n), c.el(g, 'P'), c.big('Cc'), params):
            if not smt.feasible(s.pc): continue
            c.st = s
            check_bp(c, f'inner-product prover n={n}', g, n, IPT, v[0], list(c.ex.hashes))
    return f
for n in (1, 2, 4, 8, 16, 32):
    job('C17', f'inner-product verifier n={n}', weight=n)(verify_ip(n))
    job('C17', f'inner-product prover n={n}', 'quick', weight=n)(prove_ip(n))

@job('C17', 'consistency-proof verifier')
def _(c):
    gF, gE = groups(c)
    bx, bc, bg, bb = lens(c)
    params = mk_params(c, gF, gE, bx, bc, bg, bb, V('lo', 0, 65535), V('hi', 0, 65535))
    pr = sym_sigma(c, gF, gE, params)
    comm = c.struct(VCT, Y=c.el(gF, 'Y'), Xp=c.el(gF, 'Xp'), Xq1=c.el(gE, 'Xq1'), Xq2=c.el(gE, 'Xq2'))
    p = c.ex.newp(c.st, pr, 'in', 'proof')
    c.ex.hashes = []
    c.call('(*voteproof.SigmaProof).Verify', p, comm)
    hs = list(c.ex.hashes)
    e = lambda k: c.view(prom(c, pr, SPF, k)).t
    nm = 'consistency-proof verifier'
    stmt = [(f'the statement {k}', g, V(k)) for k, g in (('Y', gF), ('Xp', gF), ('Xq1', gE), ('Xq2', gE))]
    staged(c, nm, hs, [('the first message', stmt + [('W', gF, e('W')), ('Kp', gF, e('Kp')), ('Kq1', gE, e('Kq1')), ('Kq2', gE, e('Kq2'))])])
    unambiguous(c, nm, hs)

@job('C17', 'consistency-proof prover')
def _(c):
    gF, gE = groups(c)
    bx, bc, bg, bb = lens(c)
    for g in (gF, gE): c.st.pc += flat(Le(power(C(2), sub(bg, C(1))), g.val.q))
    params = mk_params(c, gF, gE, bx, bc, bg, bb, V('lo', 0, 65535), V('hi', 0, 65535))
    x, rp, r1, r2 = (c.big(k) for k in ('x', 'rp', 'r1', 'r2'))
    for s, v in c.call('voteproof.Prove', x, rp, r1, r2, params):
        if not smt.feasible(s.pc): continue
        hs = list(c.ex.hashes)
        c.st = s
        e = lambda k: c.view(prom(c, v, SPF, k)).t
        nm = 'consistency-proof prover'
        t, hF, hE = (lambda p: c.view(p).t), V('hF'), V('hE')
        stmt = [('the statement Y', gF, t(rp)), ('the statement Xp', gF, add(t(x), mul(t(rp), hF))),
                ('the statement Xq1', gE, add(t(x), mul(t(r1), hE))), ('the statement Xq2', gE, add(t(x), mul(t(r2), hE)))]
        staged(c, nm, hs, [('the first message', stmt + [('W', gF, e('W')), ('Kp', gF, e('Kp')), ('Kq1', gE, e('Kq1')), ('Kq2', gE, e('Kq2'))])])
        unambiguous(c, nm, hs)

# ---- the text of an element delimits itself --------------------------------------------

def lead(segs):
    "what is known of the beginning: ('bytes', first byte), or the separator structure"
    return segs

for key, _ in GROUPS:
    def f(c, key=key):
        g = make(c, key)
        forms = set()
        for l, a in cases(key):
            for mn, m in MAKERS.items():
                for s, x in m(c, c.st.fork(), g, a):
                    for s1, t in inv(c, s, x, 'String'):
                        if smt.feasible(s1.pc): forms.add(shape(t.segs))
        ok = prefix_free(forms)
        ob(c, f'{key}: the text of an element is never the beginning of another\'s', ok, f'forms {sorted(map(str, forms))[:4]}')
    job('C17', f'{key}: texts delimit themselves')(f)

def shape(segs):
    "the form of a text: its fixed characters, and the lengths or kinds of its fields"
    out = []
    for s in norm_segs(segs):
        if s[0] == 'lit':
            # digits of a fixed text count as any number
            for x in re.findall(r'[0-9]+|[^0-9]+', s[1]): out.append(('dec',) if x[0].isdigit() else ('lit', x))
        elif s[0] == 'raw': out.append((s[0], s[1]))
        elif s[0] == 'dec': out.append(('dec',))
        elif is_c(lib.seg_len(s)): out.append(('fix', lib.seg_len(s).a[0]))
        elif s[0] == 'cbin': out.append(('fix', 32 if s[1] == 'R255' else 1 + gr.CG[s[1]].w))
        else: out.append((s[0],))
    return tuple(out)

def prefix_free(forms):
    for f in forms:
        # a number must be followed by something that is no digit
        for i, s in enumerate(f):
            if s[0] == 'dec' and not (i + 1 < len(f) and f[i + 1][0] == 'lit' and not f[i + 1][1][0].isdigit()): return False
            if s[0] not in ('dec', 'lit', 'raw', 'fix'): raise Unsupported('text form')
    return all(f is h or apart(f, h) for f in forms for h in forms)

def apart(f, h):
    "no text of the one form is the beginning of a text of the other, unless the two are field by field the same"
    f, h = list(f), list(h)
    while f and h:
        a, b = f.pop(0), h.pop(0)
        if a[0] == b[0] == 'dec': continue              # something other than a digit follows
        if a[0] == b[0] and a[0] in ('lit', 'raw'):
            k = min(len(a[1]), len(b[1]))
            if a[1][:k] != b[1][:k]: return True
            if len(a[1]) > k: f.insert(0, (a[0], a[1][k:]))
            if len(b[1]) > k: h.insert(0, (b[0], b[1][k:]))
        elif a[0] == b[0] == 'fix' and a[1] == b[1]: continue
        elif {a[0], b[0]} == {'dec', 'lit'}:
            l = a if a[0] == 'lit' else b
            return not (l[1][0].isdigit() or l[1][0] == '-')
        else: return False
    return not f and not h
