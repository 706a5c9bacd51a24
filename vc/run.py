#!/usr/bin/env python3-vt
"""check runner:  run.py <property id> [quick|thorough]
   proof part   : every contract registered for the property is verified against /repo's current source
   native part  : search/replay harness compiled from /repo's current source (bounded, never counted as proof)"""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback, importlib, glob, re, shutil, signal, tempfile, resource
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'specs')); sys.setrecursionlimit(50000)
import front
REPO = front.REPO
EVD = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))

def modules_for(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'specs', '*.py'))):
        txt = open(f).read()
        m = re.search(r'^PROPS\s*=\s*(\(.*?\))', txt, re.M)
        if m and pid in eval(m.group(1)): out.append(os.path.basename(f)[:-3])
    return out

DEEP = 'deep'     # last attempt of the invariant search: more orders of instantiation before a candidate is dropped

def verify_one(job):
    """runs in a worker process: one function against its contract"""
    modname, ci, tu, budget, vals, _q = job
    import z3, engine
    from engine import Eng, Unsupported
    from discharge import discharge
    t0 = time.time()
    m = importlib.import_module(modname); c = m.CONTRACTS[ci]
    import sorts; sorts.ASMAP |= set(getattr(m, 'ASMAP', ())); sorts.BUFREC |= set(getattr(m, 'BUFREC', ()))
    res = dict(fn=c.q, mod=modname, status='', obligations=0, discharged={}, failed=[], undecided=[], seconds=0, solver_s=0, assumed=[], inlined=[], inv=[], note=c.note)
    def alarm(*a): raise TimeoutError('time budget of %ds used up' % budget)
    signal.signal(signal.SIGALRM, alarm); signal.alarm(int(budget))
    try:
        fs = pick(tu, c)
        if not fs: res['status'] = 'missing'; res['undecided'].append('function %s not found in the current source' % c.q); return res
        f = fs[0]; res['file'] = f['file'].replace(REPO + '/', ''); res['line'] = f['line']
        reg = {}
        for x in m.CONTRACTS: reg.setdefault(x.q, []).append(x)
        hk = '%s/%d/%s' % (modname, ci, c.q); hint = load_hints().get(hk)
        for attempt in ((hint, None, DEEP) if hint else (None, DEEP)):
            for k in ('failed', 'undecided'): res[k] = []
            res['discharged'] = {}
            e = Eng(tu, reg, None)
            if attempt is DEEP: e.deep = True
            elif attempt: e.hints = attempt
            if c.timeout: e.cand_to = c.timeout
            obl = e.verify(f, c)
            # vacuity guards
            if not obl: res['status'] = 'vacuous'; res['undecided'].append('no obligations generated'); return res
            if e.prove(e.reqs, z3.BoolVal(False), 3000): res['status'] = 'vacuous'; res['undecided'].append('contradictory precondition'); return res
            reach = False
            for pc, q in e.covers:
                if not e.prove(pc + q, z3.BoolVal(False), 2000): reach = True; break
            if not reach: res['status'] = 'vacuous'; res['undecided'].append('no exit of the function is reachable under the contract'); return res
            res['obligations'] = len(obl)
            seen = {}
            for o in obl:
                t1 = time.time(); st, be, sec, model = discharge(o.hyps, o.goal, 20, attempt is not None and attempt is not DEEP)
                res['solver_s'] += time.time() - t1
                if st == 'proved': res['discharged'][be] = res['discharged'].get(be, 0) + 1
                elif st in ('refuted', 'failed'): res['failed'].append(dict(name=o.name, line=o.line, fn=o.fn, status=st, model=model, goal=str(o.goal)[:1500]))
                else: res['undecided'].append('%s (line %s): solver gave up' % (o.name, o.line))
                if (attempt and attempt is not DEEP) and st != 'proved': break
            res['hinted'] = attempt is not None and attempt is not DEEP
            if not res['failed'] and not res['undecided']: break
        res['hints'] = [[k, sorted(v)] for k, v in e.lmemo.items()]; res['hk'] = hk
        res['solver_s'] += e.stats['solver_s']; res['inlined'] = sorted(e.used); res['assumed'] = sorted(e.assumed)
        res['inv'] = [[a, b, n] for a, b, n in e.invlog]
        res['status'] = 'failed' if res['failed'] else 'undecided' if res['undecided'] else 'proved'
    except Unsupported as x: res['status'] = 'unsupported'; res['undecided'].append('outside the verified subset: %s' % x)
    except TimeoutError as x: res['status'] = 'timeout'; res['undecided'].append(str(x))
    except Exception as x: res['status'] = 'error'; res['undecided'].append('contract does not fit the current code: %s: %s' % (type(x).__name__, str(x)[:300])); res['trace'] = traceback.format_exc()[-1500:]; os.environ.get('VC_V') and print(res['trace'], file=sys.stderr)
    finally:
        signal.alarm(0); res['seconds'] = round(time.time() - t0, 2)
    return res

def load_hints():
    """loop invariants that were found on the committed tree: a starting point of the invariant search, every one is an obligation again"""
    try: d = json.load(open(os.path.join(HERE, 'hints.json')))
    except Exception: return {}
    return {k: {tuple(tuple(x) for x in kk): set(v) for kk, v in vs} for k, vs in d.items()}
def save_hints(results):
    p = os.path.join(HERE, 'hints.json')
    try: d = json.load(open(p))
    except Exception: d = {}
    for r in results:
        if r['status'] == 'proved' and r.get('hints'): d[r['hk']] = [[list(map(list, k)), v] for k, v in r['hints']]
    with open(p, 'w') as f: f.write('{\n' + ',\n'.join(json.dumps(k) + ': ' + json.dumps(d[k]) for k in sorted(d)) + '\n}\n')
def pick(tu, c):
    return [f for f in tu['functions'] if f['q'] == c.q and (c.nparams is None or len(f['params']) == c.nparams) and (c.ptypes is None or c.ptypes([p['t'] for p in f['params']])) and (c.returns is None or True)]

def _worker(job, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try: q.put(verify_one(job))
    except BaseException as x: q.put(dict(fn='?', mod=job[0], status='error', obligations=0, discharged={}, failed=[], undecided=[repr(x)[:300]], seconds=0, solver_s=0, assumed=[], inlined=[], inv=[], note=''))

def run_jobs(jobs, par, hard, stop=None):
    out = []; pend = list(enumerate(jobs)); live = {}
    while pend or live:
        while pend and len(live) < par:
            i, j = pend.pop(0); q = mp.SimpleQueue(); p = mp.Process(target=_worker, args=(j, q)); p.start(); live[i] = (p, q, time.time(), j)
        if stop and stop.get('t') and time.time() > stop['t']: hard = 0      # a failing input is known: what is left stays undecided
        for i in list(live):
            p, q, t, j = live[i]
            if not q.empty(): out.append((i, q.get())); p.join(5); p.kill(); del live[i]
            elif not p.is_alive():
                if not q.empty(): out.append((i, q.get()))
                else: out.append((i, dict(fn=j[5], mod=j[0], status='error', obligations=0, discharged={}, failed=[], undecided=['verifier process died'], seconds=0, solver_s=0, assumed=[], inlined=[], inv=[], note='')))
                del live[i]
            elif time.time() - t > hard:
                p.kill(); p.join(); out.append((i, dict(fn=j[5], mod=j[0], status='timeout', obligations=0, discharged={}, failed=[], undecided=['verifier process exceeded its time' if hard else 'stopped: a failing input was found'], seconds=hard, solver_s=hard, assumed=[], inlined=[], inv=[], note=''))); del live[i]
        time.sleep(0.02)
    return [r for _, r in sorted(out, key=lambda x: x[0])]

# ---------------- native harness ----------------
def build_native(h, tmp):
    src = os.path.join(ROOT, 'harness', h + '.cc'); txt = open(src).read()
    srcs = []; extra = []
    for l in txt.split('\n')[:12]:
        if l.startswith('// SRC:'): srcs += l[7:].split()
        if l.startswith('// LIB:'): extra += l[7:].split()
    opt = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if 'noasan' not in extra else ['-O2']
    extra = [x for x in extra if x != 'noasan']
    objs = []; procs = []
    for s in [src] + srcs:
        p = s if s.startswith('/') else os.path.join(REPO, 'src', s); o = os.path.join(tmp, h + '_' + re.sub(r'\W', '_', os.path.relpath(p, '/')) + '.o')
        cc = 'gcc' if p.endswith('.c') else 'g++'
        fl = [f for f in front.cflags() if not (cc == 'gcc' and f.startswith('-std'))]
        objs.append(o); procs.append((p, subprocess.Popen([cc] + fl + opt + ['-I' + os.path.join(ROOT, 'harness'), '-c', p, '-o', o], stderr=subprocess.PIPE, text=True, errors='replace')))
    for p, x in procs:
        err = x.communicate()[1]
        if x.returncode: raise RuntimeError('cannot compile %s:\n%s' % (p, err[-3000:]))
    exe = os.path.join(tmp, h)
    r = subprocess.run(['g++'] + opt + objs + ['-o', exe] + extra + ['-lm', '-lpthread'], capture_output=True, text=True, errors='replace')
    if r.returncode: raise RuntimeError('cannot link harness:\n' + r.stderr[-3000:])
    return exe
def run_native(exe, h, seed, budget, replay, tmp):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0')
    d = tempfile.mkdtemp(dir=tmp)
    t0 = time.time()
    try: r = subprocess.run([exe, str(seed), str(budget), replay, d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 3 + 60, env=env, cwd=d)
    except subprocess.TimeoutExpired as x:
        return 'hang', 'harness did not finish within %ds' % (budget * 3 + 60), 0, time.time() - t0
    so = r.stdout.decode(errors='replace'); se = r.stderr.decode(errors='replace')
    m = re.findall(r'^CASES (\d+)(.*)$', so, re.M)
    if r.returncode == 0 and m: return 'ok', m[-1][1].strip(), int(m[-1][0]), time.time() - t0
    if r.returncode == 1 and 'FAIL:' in so: return 'fail', so[so.index('FAIL:'):][:4000], 0, time.time() - t0
    if r.returncode == 99 or 'AddressSanitizer' in se: return 'crash', 'memory error in the code under test:\n' + se[-6000:], 0, time.time() - t0
    if r.returncode < 0: return 'crash', 'the code under test died with signal %d\n%s' % (-r.returncode, se[-3000:]), 0, time.time() - t0
    return 'error', 'harness ended with code %d\n%s\n%s' % (r.returncode, so[-1500:], se[-1500:]), 0, time.time() - t0

def known(pid):
    p = os.path.join(ROOT, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\w+) id=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    os.makedirs(os.path.join(EVD, 'replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vc_' + pid + '_')
    try: rc = check(pid, tier, seed, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, t0, tmp):
    fbud = int(os.environ.get('VC_FBUD', 420 if tier == 'quick' else 1500))
    nbud = float(os.environ.get('VC_NBUD', 25 if tier == 'quick' else 150))
    hs = sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(ROOT, 'harness', pid + '*.cc')))
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(8); builds = {h: ex.submit(build_native, h, tmp) for h in hs}
    # proof part
    results = []; trusted = []; fe_err = []
    mods = modules_for(pid); tus = {}
    def exp(mn):
        m = importlib.import_module(mn); return front.export(**m.TU)
    front.plugin()
    for mn in mods: importlib.import_module(mn)       # in this thread: the modules build solver terms
    futs = {mn: ex.submit(exp, mn) for mn in mods}
    jobs = []
    for mn in mods:
        m = importlib.import_module(mn)
        try: tu = futs[mn].result()
        except Exception as x: fe_err.append(str(x)[:2000]); continue
        for ci, c in enumerate(m.CONTRACTS):
            if c.props and pid not in c.props: continue
            if c.trusted: trusted.append('%s (assumed contract) %s' % (c.q, c.note)); continue
            jobs.append((mn, ci, tu, fbud, None, c.q))
    jobs.sort(key=lambda j: -getattr(importlib.import_module(j[0]).CONTRACTS[j[1]], 'weight', 0))
    par = int(os.environ.get('VC_PAR', '8'))
    # native part, beside the proofs; a failing input ends them after a grace period
    stop = {}
    def nat(h):
        rp = os.path.join(EVD, 'replay', '%s-%s.txt' % (pid, h))
        if os.path.exists(rp): os.unlink(rp)
        try: exe = builds[h].result()
        except Exception as x: return None, rp, ('not built', str(x), 0, 0), 0
        b = nbud / max(1, len(hs)); r = run_native(exe, h, seed, b, rp, tmp)
        if r[0] in ('fail', 'crash', 'hang'): stop['t'] = time.time() + GRACE
        return exe, rp, r, b
    GRACE = 45 if tier == 'quick' else 600
    nats = {h: ex.submit(nat, h) for h in hs}
    results = run_jobs(jobs, par, fbud + 30, stop)
    if os.environ.get('VC_SAVEHINTS'): save_hints(results)
    for mn in mods:                                   # background lemmas a module relies on: valid formulas, proved here
        ck = getattr(importlib.import_module(mn), 'CHECKS', None)
        if ck:
            from discharge import discharge
            t1 = time.time(); n = 0; und = []
            for nm, g in ck:
                if discharge([], g, 60)[0] == 'proved': n += 1
                else: und.append('background lemma "%s" not proved' % nm)
            results.append(dict(fn='(background lemmas)', mod=mn, file='', status='undecided' if und else 'proved', obligations=len(ck), discharged={'z3': n}, failed=[], undecided=und, seconds=round(time.time() - t1, 2), solver_s=time.time() - t1, assumed=[], inlined=[], inv=[], note='lemmas over machine words, bit-vector solver'))
    # native part
    native = []; viol = None
    failed = [(r, f) for r in results for f in r['failed']]
    for h in hs:
        exe, rp, (st, det, n, sec), b = nats[h].result(); sd = seed
        if failed and exe and st == 'ok': b = nbud * 2; sd = seed + 1; st, det, n, sec = run_native(exe, h, sd, b, rp, tmp)      # an obligation fails: look longer for an input
        native.append(dict(harness=h, status=st, detail=det[:1500], cases=n, seconds=round(sec, 1)))
        if st in ('fail', 'crash', 'hang') and viol is None:
            with open(rp, 'w') as f: f.write(det + '\n\nreplay: harness/%s.cc compiled against the current sources of the repository, arguments: %d %g\n' % (h, sd, b))
            viol = rp
    if viol is None and failed:
        rp = os.path.join(EVD, 'replay', pid + '-obligations.txt')
        with open(rp, 'w') as f:
            f.write('Obligations that held on the verified tree and fail on the current source.\n')
            for r, o in failed: f.write('\nfunction %s (%s)\nobligation %s line %s: %s\ngoal: %s\nverifier output: %s\n' % (r['fn'], r.get('file'), o['name'], o['line'], o['status'], o['goal'], o['model'] or 'goal not derivable, no model printed'))
    nob = sum(r['obligations'] for r in results); dis = {}
    for r in results:
        for k, v in r['discharged'].items(): dis[k] = dis.get(k, 0) + v
    und = [(r['fn'], u) for r in results for u in r['undecided']]
    assumed = sorted({a for r in results for a in r['assumed']})
    proved = [r['fn'] for r in results if r['status'] == 'proved']
    cov = dict(obligations=nob, discharged=sum(dis.values()),
        checker_cmd='cd /verif && vc/run.py %s %s' % (pid, tier),
        trusted_base=TB + trusted + ['assumption used: ' + a for a in assumed],
        functions_under_contract=[dict(function=r['fn'], file=r.get('file'), line=r.get('line'), status=r['status'], obligations=r['obligations'], by=r['discharged'], seconds=r['seconds'], inlined=r['inlined'], note=r['note']) for r in results],
        backends=dis, solver_seconds=round(sum(r['solver_s'] for r in results), 1), functions_proved=len(proved), undecided=['%s: %s' % u for u in und] + fe_err,
        failed_obligations=['%s: %s' % (r['fn'], o['name']) for r, o in failed],
        loop_invariants=[dict(function=a, line=b, invariants=n) for r in results for a, b, n in r['inv']],
        bounded_part=[dict(n, label='bounded: exhaustive small scope + seeded random search against an independent oracle, not counted as proved') for n in native])
    m = manifest_entry(pid)
    ev = dict(property=pid, tier=tier, seed=seed, level=m.get('level', 'proof'), coverage=cov, wall_s=round(time.time() - t0, 1), violations=0)
    kn = known(pid)
    rc = 0
    for kid, txt in kn: print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    if viol: print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(viol, ROOT) if viol.startswith(ROOT) else viol)); rc = 1
    elif failed:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(rp, ROOT) if rp.startswith(ROOT) else rp)); rc = 1
    ev['violations'] = 1 if rc else 0
    ev['known_findings'] = [k for k, _ in kn]
    try:
        sch = json.load(open('/root/.vp/EVIDENCE.schema.json')); allowed = sch.get('properties', {})
        if sch.get('additionalProperties') is False: ev = {k: v for k, v in ev.items() if k in allowed}
    except Exception: pass
    json.dump(ev, open(os.path.join(EVD, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d functions under contract, %d proved, %d/%d obligations discharged %s; undecided %d; native %s; %.0fs' % (pid, tier, len(results), len(proved), sum(dis.values()), nob, dis, len(und), [(n['harness'], n['status'], n['cases']) for n in native], time.time() - t0))
    for r in results:
        if r['status'] != 'proved' or os.environ.get('VC_V'): print('  %-45s %-11s %5.1fs %s %s' % (r['fn'], r['status'], r['seconds'], [o['name'] + ' l.%s' % o['line'] for o in r['failed']][:6], r['undecided'][:3]))
    for n in native:
        if n['status'] != 'ok': print('  native', n['harness'], n['status'], n['detail'][:1500])
    for x in fe_err: print('  front end:', x[:500])
    return rc
TB = ['clang 18 front end (AST) and the AST exporter vc/frontend/exporter.cc', 'VC generator vc/engine.py and library models vc/stl.py (assumed contracts of the C++ standard library)',
      'z3 / cvc5', 'machine floats treated as reals; no NaN/infinity', 'signed overflow treated as mathematical; unsigned wrap-around modelled', 'container sizes below 2^31', 'references and pointers passed as distinct parameters do not alias', 'destructors have no effect on other objects; termination and exceptions not verified', 'memory allocation succeeds']
def manifest_entry(pid):
    try:
        for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']:
            if c['property'] == pid: return c
    except Exception: pass
    return {}
if __name__ == '__main__': main()
