"""Discharging obligations: z3 (several configurations), then cvc5.
   proved  - some back end derived the goal
   refuted - a model of hypotheses and negated goal exists
   failed  - the quantifier instances saturate without deriving the goal (the prover finished, it did not run out of time)
   unknown - every back end ran out of time"""
import z3, subprocess, time, tempfile, os
def to_smt2(hyps, goal):
    s = z3.Solver(); s.add(*hyps); s.add(z3.Not(goal)); return s.to_smt2()
def _z3(hyps, goal, ms, simple=False, **kw):
    s = z3.SimpleSolver() if simple else z3.Solver(); s.set('timeout', int(ms) * 3); s.set('rlimit', int(ms) * 1500)
    for k, v in kw.items(): s.set(k.replace('__', '.'), v)
    s.add(*hyps); s.add(z3.Not(goal))
    r = s.check()
    return r, s
def _cvc5(hyps, goal, sec):
    txt = to_smt2(hyps, goal)
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (sec * 1000), '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=sec + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired: return 'unknown'
    finally: os.unlink(f.name)
def discharge(hyps, goal, budget=20, fast=False):
    t0 = time.time(); T = lambda: time.time() - t0
    if z3.is_true(goal): return 'proved', 'simplifier', 0.0, None
    sat_ = False
    from engine import residue
    goal = residue(hyps, goal)
    if goal is None: return 'proved', 'assumption', 0.0, None
    r, s = _z3(hyps, goal, 2000, True, smt__mbqi=False, auto_config=False, smt__array__extensional=False)
    if r == z3.unsat: return 'proved', 'z3', T(), None
    r, s = _z3(hyps, goal, 3000, True, smt__mbqi=False, auto_config=False)
    if r == z3.unsat: return 'proved', 'z3', T(), None
    if r == z3.sat: return 'refuted', 'z3', T(), str(s.model())[:4000]
    why = s.reason_unknown(); sat_ = not any(w in why for w in ('cancel', 'timeout', 'resource', 'memout', 'interrupt'))
    r, s = _z3(hyps, goal, 3000, smt__mbqi=False, auto_config=False)
    if r == z3.unsat: return 'proved', 'z3', T(), None
    r, s = _z3(hyps, goal, 3000)
    if r == z3.unsat: return 'proved', 'z3', T(), None
    if r == z3.sat: return 'refuted', 'z3', T(), str(s.model())[:4000]
    c = _cvc5(hyps, goal, max(3, budget // 3))
    if c == 'unsat': return 'proved', 'cvc5', T(), None
    for kw in ({'smt__mbqi': False}, {'smt__random_seed': 7}):
        try: r, s = _z3(hyps, goal, budget * 1000 // 3, **kw)
        except z3.Z3Exception: continue
        if r == z3.unsat: return 'proved', 'z3', T(), None
        if r == z3.sat and 'smt__mbqi' not in kw: return 'refuted', 'z3', T(), str(s.model())[:4000]
    if sat_: return 'failed', 'z3', T(), 'z3: unknown (%s): all quantifier instances exhausted without a derivation; cvc5: %s' % (why, c)
    return 'unknown', '-', T(), None
