#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]: decides one property of /repo's working tree.

1. translate /repo's current source to SSA (engine/ssadump, go/ssa);
2. verify the contracts of the helper functions against their bodies;
3. discharge the property's obligations, calls answered by the contracts in force;
   what does not go through that way is done again with the bodies inlined;
4. run the bounded Go harness of the property: it looks for a failing input of a
   failed obligation, checks the trusted contracts on samples, and stands in
   (labelled bounded) for an obligation the verifier cannot express.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import os, sys, json, time, subprocess, shutil, argparse, multiprocessing as mp, traceback, hashlib, tempfile, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
GOENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOTOOLCHAIN='local',
             PATH='/opt/veriftools/go1.27.3/bin:' + os.environ.get('PATH', '/usr/bin:/bin'))
GOENV.setdefault('HOME', '/root')
P = None
NPROC = min(8, os.cpu_count() or 1)

def log(*a): print(*a, flush=True)

def ssadump():
    src = os.path.join(HERE, 'engine', 'ssadump')
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)): h.update(open(os.path.join(src, f), 'rb').read())
    out = os.path.join(BUILD, 'ssadump-' + h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = f'{out}.{os.getpid()}'
        subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=src, env=GOENV, check=True)
        os.rename(tmp, out)
    return out

def dump(path):
    with open(path, 'wb') as f:
        r = subprocess.run([ssadump(), REPO], cwd=REPO, env=GOENV, stdout=f, stderr=subprocess.PIPE)
    if r.returncode:
        log('cannot translate /repo:', r.stderr.decode()[-3000:])
        return False
    return True

# ---- parallel tasks ---------------------------------------------------------------

def parallel(fn, tasks, limit, deadline):
    "[(task, result or None)]; each task in its own process, at most `limit` seconds"
    todo = list(tasks)
    res = {}
    live = {}
    from multiprocessing.connection import wait
    while todo or live:
        while todo and len(live) < NPROC:
            t = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(fn, t, b))
            p.start()
            b.close()
            live[a] = (t, p, time.time())
        for a in wait(list(live), 0.5):
            t, p, t0 = live.pop(a)
            try: res[t] = a.recv()
            except EOFError: res[t] = None
            a.close()
            p.join()
        now = time.time()
        for a in list(live):
            t, p, t0 = live[a]
            if now - t0 > limit or now > deadline:
                p.kill(); p.join(); a.close()
                del live[a]
                res[t] = None
        if now > deadline:
            for t in todo: res[t] = None
            todo = []
    return res

def child(fn, t, pipe):
    try: import resource; resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    try: r = fn(t)
    except BaseException:
        r = {'obs': [], 'err': traceback.format_exc(), 'kind': 'error'}
    try: pipe.send(r)
    finally: pipe.close()

def pack(c, err='', kind=''):
    import smt, terms
    ex = c.ex if c is not None else None
    if ex is not None and not kind:
        kept = [x for x in ex.frame if x[1] in P.globals or x[1] == 'package variable']
        if kept: err, kind = f'{kept[0][1]} keeps state between calls: written at {kept[0][2]}', 'unsupported'
    return {'obs': [o.j() for o in c.obs] if c is not None else [], 'err': err, 'kind': kind,
            'used': sorted(ex.used) if ex else [], 'inlined': sorted(ex.inlined) if ex else [], 'assumed': sorted(ex.assumed) if ex else [],
            'loops': getattr(ex, 'nloops', 0) if ex else 0, 'smt': dict(smt.STATS, pit=terms.PITS[0])}

def run_contract(name):
    import contracts, spec
    c = None
    try: c = contracts.verify(P, contracts.ALL[name])
    except spec.Missing as e: return pack(c, str(e), 'missing')
    except spec.Unsupported as e: return pack(c, str(e), 'unsupported')
    return pack(c)

def run_job(t):
    prop, title, inline = t
    import spec, roots, contracts
    fn = [f for tt, f, *_ in roots.JOBS[prop] if tt == title][0]
    c = None
    try:
        c = spec.Ctx(P, [] if inline else INFORCE)
        fn(c)
    except spec.Missing as e: return pack(c, str(e), 'missing')
    except spec.Unsupported as e: return pack(c, str(e), 'unsupported')
    except Exception: return pack(c, traceback.format_exc(), 'error')
    return pack(c)

def verdict(r):
    if r is None: return 'timeout'
    if any(o['status'] == 'failed' for o in r['obs']): return 'failed'
    if r['kind']: return r['kind']
    if any(o['status'] != 'proved' for o in r['obs']): return 'unsupported'
    if not r['obs']: return 'vacuous'
    return 'proved'

# ---- the bounded harness -------------------------------------------------------------

def harness(prop, tier, seed, timeout, fast=False):
    "{'ran', 'fails': [...], 'count', 'note'} of the property's Go harness"
    hd = os.path.join(HERE, 'harness')
    spec = json.load(open(os.path.join(hd, 'harness.json')))
    out = {'ran': False, 'fails': [], 'count': 0, 'notes': [], 'samples': []}
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        for k, (pkg, files) in enumerate(spec.get(prop, [])):
            rep = {}
            common = os.path.join(work, f'common{k}.go')
            name = 'main' if pkg == '.' else os.path.basename(pkg)
            txt = open(os.path.join(hd, 'common.go')).read().replace('package PKG', f'package {name}', 1)
            if name == 'group': txt = txt.replace('\tvzgroup "github.com/takakv/msc-poc/group"\n', '').replace('vzgroup.', '')
            open(common, 'w').write(txt)
            at = lambda f: os.path.normpath(os.path.join(REPO, pkg, 'verif_' + os.path.basename(f)[:-3] + '_test.go'))
            rep[at('common.go')] = common
            for f in files: rep[at(f)] = os.path.join(hd, f)
            if pkg == '.': rep[os.path.join(REPO, 'main_test.go')] = ''     # does not compile, and is not needed here
            ov = os.path.join(work, 'overlay.json')
            json.dump({'Replace': rep}, open(ov, 'w'))
            env = dict(GOENV, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SCRATCH=work)
            binp = os.path.join(work, 'h.test')
            r = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', binp, './' + pkg], cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode:
                out['notes'].append(f'harness for {pkg} does not build: {r.stderr[-1500:]}')
                continue
            try:
                r = subprocess.run([binp, '-test.run', f'^TestVerif{prop}$', '-test.v', f'-test.timeout={timeout}s'], cwd=os.path.join(REPO, pkg), env=env,
                                   capture_output=True, text=True, errors='replace', timeout=timeout + 20, stdin=subprocess.DEVNULL)
                txt, rc = r.stdout + r.stderr, r.returncode
            except subprocess.TimeoutExpired as e:
                txt, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
            out['ran'] = True
            for l in txt.splitlines():
                l = l.strip()
                if l.startswith('VERIF-FAIL '): out['fails'].append(l[11:])
                elif l.startswith('VERIF-COUNT '): out['count'] += int(l.split()[1])
                elif l.startswith('VERIF-SAMPLE '): out['samples'].append(l[13:])
                elif l.startswith('VERIF-KNOWN '): out.setdefault('known', []).append(l[12:])
            m = re.search(r'^(panic: (?!test timed out)|fatal error: )(.*)$(?s:.*?)created by github.com/takakv/msc-poc(?!\S*TestVerif)', txt, re.M)
            if rc not in (0, 'timeout') and m: out['fails'].append(f'crash outside the calling goroutine: {m.group(1)}{m.group(2)}')
            if rc not in (0,) and not out['fails']: out['notes'].append(f'harness for {pkg} ended with {rc}: {txt[-2500:]}')
            # code that starts goroutines is run again under the race detector: the outcome of a data race is any value
            if P is None or not any(i['op'] == 'go' for f in P.funcs.values() if f.pkg.startswith(P.module) for b in f.blocks for i in b['i']): continue
            r = subprocess.run(['go', 'test', '-c', '-race', '-vet=off', '-overlay', ov, '-o', binp, './' + pkg], cwd=REPO, env=dict(env, CGO_ENABLED='1'), capture_output=True, text=True)
            if r.returncode:
                out['notes'].append(f'no race detector: {r.stderr[-300:]}')
                continue
            try:
                r = subprocess.run([binp, '-test.run', f'^TestVerif{prop}$', f'-test.timeout={timeout}s'], cwd=os.path.join(REPO, pkg), env=dict(env, GORACE='halt_on_error=1'),
                                   capture_output=True, text=True, errors='replace', timeout=timeout + 20, stdin=subprocess.DEVNULL)
                txt = r.stdout + r.stderr
            except subprocess.TimeoutExpired as e: txt = ((e.stdout or b'') + (e.stderr or b'')).decode(errors='replace')
            m = re.search(r'WARNING: DATA RACE(?s:.*?)==================', txt)
            at = [l for l in re.findall(re.escape(os.path.realpath(REPO)) + r'/(\S+\.go:\d+)', m.group(0)) if 'verif_' not in l] if m else []
            if at: out['fails'].append(f'data race between {at[0]} and {at[-1]}')
    finally: shutil.rmtree(work, ignore_errors=True)
    return out

# ---- main ------------------------------------------------------------------------------

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = a.tier == 'thorough'
    deadline = t0 + (3600 if thorough else 560)
    prop = a.prop
    global P, INFORCE
    import prog, contracts, roots, props
    props.load()
    work = tempfile.mkdtemp(prefix='verif-ssa-')
    try:
        ok = dump(os.path.join(work, 'ssa.json'))
        if not ok: sys.exit(2)
        P = prog.Prog(os.path.join(work, 'ssa.json'))
    finally: shutil.rmtree(work, ignore_errors=True)

    # phase 1: contracts
    INFORCE = []
    cres = {}
    if prop in props.WITH_CONTRACTS:
        cres = parallel(run_contract, list(contracts.ALL), 120, deadline)
        for n, r in cres.items():
            v = verdict(r)
            if v == 'proved': INFORCE.append((P.expand(n), contracts.applier(contracts.ALL[n], None)))
            elif a.v or v != 'proved': log(f'contract {n}: {v}; its body is inlined instead')
    # phase 2: the property's obligations
    jobs = [(prop, t, False) for t, f, tier, w in sorted(roots.JOBS.get(prop, []), key=lambda x: -x[3]) if tier == 'quick' or thorough]
    if thorough and prop in props.WITH_CONTRACTS: jobs += [(prop, t, True) for t, f, tier, w in roots.JOBS[prop]]
    res = parallel(run_job, jobs, 1500 if thorough else 240, deadline)
    # phase 3: inlined, where contracts were in the way
    again = [(p, t, True) for (p, t, i), r in res.items() if not i and verdict(r) != 'proved' and INFORCE and (p, t, True) not in res]
    if again:
        r2 = parallel(run_job, again, 240, deadline)
        for k in again:
            v1, v2 = verdict(res[k[:2] + (False,)]), verdict(r2[k])
            log(f'{k[1]}: {v1} with contracts, {v2} inlined')
            if v2 in ('proved', 'failed') or v1 != 'failed': res[k[:2] + (False,)] = r2[k]
    if thorough:      # an inlined run that finishes one way settles what the composed run left open
        for k, r in list(res.items()):
            if k[2] and verdict(r) not in ('proved', 'failed') and verdict(res.get(k[:2] + (False,))) == 'proved':
                log(f'{k[1]}: inlined variant {verdict(r)}')
                del res[k]
    failed, open_, obs = [], [], []
    for k, r in sorted(res.items(), key=lambda x: x[0][1]):
        v = verdict(r)
        if a.v or v != 'proved': log(f'{k[1]}{" (inlined)" if k[2] else ""}: {v} ({len(r["obs"]) if r else 0} obligations) {(r or {}).get("err", "")[-1500:]}')
        if r:
            for o in r['obs']:
                obs.append(o)
                if o['status'] == 'failed': failed.append((k[1], o))
        if v not in ('proved', 'failed'): open_.append((k[1], v, ((r or {}).get('err') or next((o['name'] + ': ' + o['detail'] for o in (r or {'obs': []})['obs'] if o['status'] != 'proved'), ''))[-600:]))
    used = sorted({u for r in res.values() if r for u in r['used']})
    for n, r in cres.items():
        if r and P.expand(n) in used: obs += r['obs']

    # phase 4: bounded harness
    h = {'ran': False, 'fails': [], 'count': 0, 'notes': [], 'samples': []}
    if not a.no_harness: h = harness(prop, a.tier, seed, 1200 if thorough else 150)
    for n in h['notes']: log(n)

    selftest = None
    if thorough:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'engine', 'selftest.py')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        selftest = r.stdout.decode().strip().splitlines()[-1:] 

    # known findings
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    mine = [k for k in known['findings'] if k['property'] == prop]
    def is_known(text): return next((k for k in mine if k['match'] in text), None)
    shown = set()
    newf, newh = [], []
    for t, o in failed:
        k = is_known(f'{t}: {o["name"]}')
        if k: shown.add(k['id'])
        else: newf.append((t, o))
    for f in h['fails']:
        k = is_known(f)
        if k: shown.add(k['id'])
        else: newh.append(f)
    for k in mine:
        if k['id'] in shown: log(f'KNOWN-FINDING: property={prop} {k["what"]}')

    allr = [r for r in list(res.values()) + [cres[n] for n in cres if P.expand(n) in used] if r]
    assumed = sorted({x for r in allr for x in r['assumed']})
    inl = sorted({x for r in allr for x in r['inlined']})
    st = {}
    for r in allr:
        for k, v in r['smt'].items(): st[k] = round(st.get(k, 0) + v, 2)
    hows = {}
    for o in obs:
        if o['status'] == 'proved': hows[o['how']] = hows.get(o['how'], 0) + 1
    disch = sum(o['status'] == 'proved' for o in obs)
    short = P.shorten if hasattr(P, 'shorten') else (lambda x: x)
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': len(obs), 'discharged': disch, 'checker_cmd': f'python3-vt check.py {prop} --tier {a.tier}',
              'trusted_base': ['go/ssa (x/tools) as the translation of the Go source', 'the VC generator in /verif/engine (symbolic executor, term normaliser, loop invariant inference)', 'z3 4.x and cvc5 through their Python bindings'] + props.TRUST.get(prop, []),
              'obligations_by_back_end': hows, 'solver': st,
              'groups_of_obligations': len(res), 'open': [{'group': t, 'why': v, 'detail': d} for t, v, d in open_],
              'functions_under_contract': used, 'functions_executed_from_their_bodies': inl,
              'engine_selftest': selftest or 'thorough tier only',
              'loops_summarised': sum(r['loops'] for r in allr),
              'undischarged': [o['name'] + ': ' + o['detail'][:300] for o in obs if o['status'] != 'proved'][:20],
              'bounded_harness': {'label': 'bounded: samples only, never counted as proved', 'ran': h['ran'], 'cases': h['count'], 'failures': len(h['fails']), 'notes': [n[:400] for n in h['notes']], 'samples': h['samples'][:5]},
              'samples': [o['name'] + ' [' + o['how'] + ']' for o in obs[:: max(1, len(obs) // 8)]][:8],
          },
          'assumptions': [('contract proved from the body by C11: ' if x in props.PROVED_DEPS else 'assumed contract: ') + x for x in assumed] + props.ASSUME.get(prop, []) + props.ASSUME['*'],
          'wall_s': 0, 'violations': 0}
    bad = bool(newf or newh)
    ev['violations'] = len(newf) + len(newh)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    log(f'{prop}: {disch}/{len(obs)} obligations discharged in {len(res)} groups, {len(open_)} groups open, harness {h["count"]} cases, {ev["wall_s"]} s')
    if open_ and not bad: log('open groups are covered by the bounded harness only: ' + '; '.join(t for t, *_ in open_))
    if bad:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + '.txt')
        with open(path, 'w') as f:
            f.write(f'property {prop}, tier {a.tier}, seed {seed}\n')
            for x in newh: f.write(f'\nfailing input against the real code: {x}\n')
            if newh: f.write(f'\nreplay: VERIF_SEED={seed} python3-vt check.py {prop} --tier {a.tier}   (Go harness TestVerif{prop}, files in /verif/harness)\n')
            for t, o in newf: f.write(f'\nfailed obligation: {t}: {o["name"]}\n  decided by {o["how"]}\n  at {o["pos"]}\n  verifier output: {o["detail"]}\n')
            for t, v, d in open_: f.write(f'\nobligation without answer: {t}: {v} {d}\n')
        for t, o in newf[:5]: log(f'failed obligation: {t}: {o["name"]}: {o["detail"][:400]}')
        for x in newh[:5]: log(f'failing input: {x[:400]}')
        log(f'VIOLATION property={prop} replay={path}' + ('' if newh else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)

if __name__ == '__main__':
    try: main()
    except Exception:
        traceback.print_exc()
        sys.exit(2)
