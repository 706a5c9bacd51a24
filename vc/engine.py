"""Verification-condition generator: path-wise symbolic execution of exported clang ASTs, loops cut at
inferred inductive invariants (Houdini over candidates), calls by contract / library model / inlining."""
import z3, sys, os, time, hashlib
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll, Exists
from sorts import *
from values import *
import stl

T_FEAS = 120      # ms
TRUE, FALSE = BoolVal(True), BoolVal(False)

def is_lit(t, b): return z3.is_true(t) if b else z3.is_false(t)

class Frame:
    n = 0
    def __init__(s, fn, this, cls):
        Frame.n += 1
        s.uid = Frame.n; s.fn = fn; s.this = this; s.cls = cls

class State:
    __slots__ = ('env', 'pc', 'q', 'frames', 'seen', 'dead', 'names')
    def __init__(s):
        s.env = {}; s.pc = []; s.q = []; s.frames = []; s.seen = set(); s.names = {}
    def copy(s):
        n = State(); n.env = dict(s.env); n.pc = list(s.pc); n.q = list(s.q); n.frames = list(s.frames); n.seen = set(s.seen); n.names = s.names
        return n
    def add(s, f):
        if z3.is_true(f): return s
        if has_q(f):
            s.q.append(f)
        else:
            s.pc.append(f)
        return s
    def once(s, key, facts):
        if key in s.seen: return
        s.seen.add(key)
        for f in facts: s.add(f)

_hx = {}
def has_ext(f):
    k = f.get_id()
    if k in _hx: return _hx[k][0]
    r = False; todo = [f]; vis = set()
    while todo:
        x = todo.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and x.num_args() and x.arg(0).sort().kind() in (z3.Z3_ARRAY_SORT, z3.Z3_DATATYPE_SORT): r = True; break
        todo += x.children()
    _hx[k] = (r, f)
    return r
_hq = {}
def has_q(f):
    k = f.get_id()
    if k in _hq: return _hq[k][0]
    r = False; todo = [f]; vis = set()
    while todo:
        x = todo.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        todo += x.children()
    _hq[k] = (r, f)
    return r

def arrsize(e):
    """extent of the fixed-size array an expression denotes, if any"""
    while isinstance(e, dict):
        t = e.get('t') or {}
        t = t.get('r', t)
        if isinstance(t, dict) and 'arr' in t: return t.get('n')
        if e.get('k') in ('cast', 'paren', 'icast') and 'e' in e: e = e['e']
        else: return None
    return None

class Obl:
    def __init__(s, name, hyps, goal, line, fn, kind): s.name, s.hyps, s.goal, s.line, s.fn, s.kind = name, hyps, goal, line, fn, kind

class Cand:
    def __init__(s, name, f): s.name = name; s.f = f
    def at(s, lv):
        try: r = s.f(lv)
        except (AttributeError, KeyError, IndexError, TypeError, z3.Z3Exception, Unsupported) as e: 
            if os.environ.get('VC_DEBUGC'): print('cand', s.name, repr(e)[:200])
            return None
        if r is None: return None
        if isinstance(r, bool): r = BoolVal(r)
        return r

class View:
    """what a specification sees of a state"""
    def __init__(s, eng, st): s._e = eng; s._s = st
    def _root(s, r):
        v = s._s.env[r]
        return s._val(v)
    def _val(s, v):
        if isinstance(v, Ref): return mkV(s._e.read(s._s, v.p))
        if isinstance(v, PtrTo):
            return mkV(s._e.read(s._s, v.p))
        if isinstance(v, z3.ExprRef): return mkV(v)
        return v
    @property
    def this(s): return s._val(s._e.top_this)
    def a(s, i): return s._root(s._e.top_args[i])

class Ctx(View):
    """current state + old (function entry) + ret"""
    def __init__(s, eng, st, old, ret=None):
        View.__init__(s, eng, st); s.old = View(eng, old)
        s.ret = mkV(ret) if isinstance(ret, z3.ExprRef) else (s._val(ret) if ret is not None else None); s.raw = ret
    def points(s, *steps):
        """the returned pointer or reference designates the given part of an object"""
        p = getattr(s.raw, 'p', None)
        if p is None: return BoolVal(False)
        st = list(p.steps) + ([('i', s.raw.idx)] if getattr(s.raw, 'idx', None) is not None else [])
        if len(st) != len(steps): return BoolVal(False)
        g = []
        for a, b in zip(st, steps):
            if a[0] == 'f':
                if a[1] != b: return BoolVal(False)
            else:
                if isinstance(b, str): return BoolVal(False)
                g.append(a[1] == b)
        return And(*g) if g else BoolVal(True)
    @property
    def isnull(s): return BoolVal(isinstance(s.raw, Null))

class LoopView(Ctx):
    def __init__(s, eng, st, old, entry):
        Ctx.__init__(s, eng, st, old); s.le = View(eng, entry); s._entry = entry
    def var(s, root): return s._root(root)
    def var0(s, root): return View(s._e, s._entry)._root(root)

class CallCtx:
    """contract at a call site: pre-state / post-state values of the callee's this and args"""
    class S:
        def __init__(s, this, args): s._t = this; s._a = args
        @property
        def this(s): return s._t
        def a(s, i): return s._a[i]
    def __init__(s, this0, args0, this1, args1, ret):
        s.old = CallCtx.S(this0, args0); s._t = this1; s._a = args1; s.ret = ret
    @property
    def this(s): return s._t
    def a(s, i): return s._a[i]

class Contract:
    def __init__(s, q, requires=None, ensures=None, modifies=(), invs=(), lemmas=None, nparams=None, cls=None, ptypes=None,
                 trusted=False, bounds=True, norm=False, returns=None, props=(), entry=None, timeout=None, inline=(), noninline=(), maxpaths=4000, havocargs=(), note='', hook=None, cands=None, ctor=False, unroll=(), mbqi=False, bits=False):
        s.__dict__.update(locals()); del s.__dict__['s']

class Eng:
    def __init__(self, tu, contracts, opts=None):
        self.tu = tu; self.fns = {f['key']: f for f in tu['functions']}
        self.types = Types(tu['records']); self.contracts = contracts
        self.obl = []; self.rec = True; self.dry = False; self.wlog = []
        self.used = set(); self.assumed = set(); self.stats = {'feas': 0, 'cand': 0, 'paths': 0, 'solver_s': 0.0}
        self.tmp = 0; self.loopctx = []; self.dropped = []; self.covers = []
        self.byq = {}
        for f in tu['functions']: self.byq.setdefault(f['q'], []).append(f)
        self.over = {}
        for r in tu['records'].values():
            for m in r['methods']:
                for o in m['over']: self.over.setdefault(o, []).append((r['name'], m['key']))
        self.cand_to = int(os.environ.get('VC_CANDMS', '1500'))

    mbqi = False; deep = bool(os.environ.get('VC_DEEP'))
    hints = {}
    # ---------- solver ----------
    def sat(self, fs, to=T_FEAS):
        self.stats['feas'] += 1
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', to * 10); s.set('rlimit', to * 1500)
        s.add(*fs)
        r = s.check()
        self.stats['solver_s'] += time.time() - t0
        return r
    def feasible(self, st):
        return self.sat(st.pc) != z3.unsat
    def prove(self, hyps, goal, to=None):
        if z3.is_true(goal): return True
        self.stats['cand'] += 1
        t0 = time.time()
        goal = residue(hyps, goal)
        if goal is None: return True
        if z3.is_and(goal) and has_q(goal): return all(self.prove(hyps, g, to) for g in goal.children())
        to = to or self.cand_to
        NX = {'smt.array.extensional': False}
        confs = [(z3.SimpleSolver, to // 2, NX), (z3.Solver, to // 2, NX), (z3.SimpleSolver, to // 2, {})]
        i = 0
        while i < len(confs):
            mk, ms, kw = confs[i]; i += 1
            s = mk(); s.set('timeout', ms * 6); s.set('rlimit', ms * 1500); s.set('smt.mbqi', self.mbqi); s.set('auto_config', False)
            for k, v in kw.items(): s.set(k, v)
            s.add(*hyps); s.add(Not(goal))
            r = s.check()
            if r == z3.unsat: break
            if r == z3.unknown and not saturated(s.reason_unknown()): continue
            if kw and i < 3 and (has_ext(goal) or self.con.norm): i = 2; continue      # equality of arrays may need extensionality
            break
        if r != z3.unsat and self.deep:          # instantiation is incomplete: other orders of the same hypotheses
            for sd in (1, 2):
                s = z3.SimpleSolver() if sd == 1 else z3.Solver(); s.set('timeout', to * 6); s.set('rlimit', to * 1500); s.set('smt.mbqi', False); s.set('auto_config', False); s.set('smt.random_seed', sd); s.set('smt.relevancy', 0 if sd == 1 else 2)
                s.add(Not(goal)); s.add(*reversed(hyps)); r = s.check()
                if r == z3.unsat: break
        if r == z3.unknown and self.con.mbqi:
            s = z3.Solver(); s.set('timeout', to * 3); s.set('rlimit', to * 750); s.add(*hyps); s.add(Not(goal)); r = s.check()
        self.stats['solver_s'] += time.time() - t0
        if os.environ.get('VC_SLOW') and time.time() - t0 > 0.5: 
            print('SLOW', r, s.reason_unknown() if r==z3.unknown else '', str(goal)[:300].replace('\n',' ')); open('/tmp/slow.smt2','w').write(s.to_smt2())
        return r == z3.unsat
    def qprove(self, st, goal):      # quick, quantifier-free
        if z3.is_true(goal): return True
        if z3.is_false(goal): return False
        return self.sat(st.pc + [Not(goal)], 80) == z3.unsat

    # ---------- obligations ----------
    def oblige(self, st, name, goal, e=None, kind='assert'):
        goal = z3.simplify(goal) if not has_q(goal) else goal
        if z3.is_true(goal): 
            if self.rec and not self.dry: self.obl.append(Obl(name, [], goal, (e or {}).get('l', 0), self.curname(st), kind))
            return
        if self.rec and not self.dry:
            self.obl.append(Obl(name, list(st.pc) + list(st.q), goal, (e or {}).get('l', 0), self.curname(st), kind))
        st.add(goal)      # continue under the assumption (it is checked)
    def curname(self, st): return st.frames[-1].fn['q'] if st.frames else ''
    def bounds(self, st, i, n, e, what):
        if self.con.bounds: self.oblige(st, 'bounds:' + what, And(0 <= i, i < n), e, 'bounds')
        else: self.assumed.add('index in bounds not checked in ' + self.con.q); st.add(And(0 <= i, i < n))

    # ---------- memory ----------
    def newroot(self, val, hint='t'):
        self.tmp += 1
        return ('%s#%d' % (hint, self.tmp), val)
    def temp(self, st, val, hint='t'):
        r, v = self.newroot(val, hint); st.env[r] = v
        return Ref(Path(r))
    def read(self, st, p):
        v = st.env[p.root]
        if isinstance(v, Ref): v = self.read(st, v.p)
        for k in p.steps:
            v = self.rstep(st, v, k)
        return v
    def rstep(self, st, v, k):
        if not isinstance(v, z3.ExprRef): 
            if isinstance(v, tuple) and k[0] == 'f': return v[0 if k[1] == 'first' else 1]
            raise Unsupported('read of %r' % (v,))
        if k[0] == 'f': return fld(v, k[1])
        if k[0] == 'i': return vsel(v, k[1])
        if k[0] == 'k': return z3.Select(mapvals(v), k[1])
        if k[0] == 'e':       # map entry at iteration position
            i = si(v.sort()); en, _ = enumf(i.key); key = k[2] if len(k) > 2 else en(mapdom(v), k[1])
            return si(i.ent).mk(key, z3.Select(mapvals(v), key))
        raise Unsupported('step')
    def write(self, st, p, val):
        for w in self.wlog: w.add(p.key())
        v = st.env[p.root]
        if isinstance(v, Ref):
            self.write(st, v.p.add(*p.steps), val); return
        st.env[p.root] = self.wstep(st, v, p.steps, val)
    def wstep(self, st, v, steps, val):
        if not steps: return val
        k = steps[0]
        if isinstance(v, tuple) and k[0] == 'f':
            j = 0 if k[1] == 'first' else 1
            l = list(v); l[j] = self.wstep(st, v[j], steps[1:], val); return tuple(l)
        if not isinstance(v, z3.ExprRef): raise Unsupported('write into %r' % (v,))
        if not isinstance(val, z3.ExprRef): raise Unsupported('storing %s' % type(val).__name__)
        if k[0] == 'f': return setfld(v, k[1], self.wstep(st, fld(v, k[1]), steps[1:], val))
        if k[0] == 'i': return vstore(v, k[1], self.wstep(st, vsel(v, k[1]), steps[1:], val))
        if k[0] == 'k':
            i = si(v.sort()); nv = self.wstep(st, z3.Select(mapvals(v), k[1]), steps[1:], val)
            return i.mk(mapdom(v), z3.Store(mapvals(v), k[1], nv), mapsize(v))
        if k[0] == 'e':
            i = si(v.sort()); en, _ = enumf(i.key); key = k[2] if len(k) > 2 else en(mapdom(v), k[1])
            if steps[1][0] == 'f' and steps[1][1] == 'second':
                nv = self.wstep(st, z3.Select(mapvals(v), key), steps[2:], val)
                return i.mk(mapdom(v), z3.Store(mapvals(v), key, nv), mapsize(v))
        raise Unsupported('write step')
    def facts(self, st, v, t):
        """range facts for a value of C++ type t that was read from memory"""
        if not isinstance(v, z3.ExprRef) or z3.is_int_value(v) or z3.is_rational_value(v): return
        s = v.sort()
        if s == I_:
            if t is None: return
            r = irange(strip_ref(t))
            if r is None: return
            key = ('r', v.get_id(), r)
            if key in st.seen: return
            st.seen.add(key); st.names.setdefault('keep', []).append(v)
            st.pc.append(And(v >= r[0], v <= r[1]))
            return
        i = si(s)
        if i is None: return
        if i.kind == 'vec':
            n = vlen(v)
            if not z3.is_int_value(n):
                key = ('n', n.get_id())
                if key in st.seen: return
                st.seen.add(key); st.names.setdefault('keep', []).append(n)
                st.pc.append(And(n >= 0, n < 2**31))
        elif i.kind in ('map', 'set'):
            n = mapsize(v)
            key = ('n', n.get_id())
            if key not in st.seen:
                st.seen.add(key); st.names.setdefault('keep', []).append(n); st.pc.append(And(n >= 0, n < 2**31))
    def havocval(self, st, v, hint='h'):
        if isinstance(v, z3.ExprRef):
            n = fresh(v.sort(), hint); self.facts(st, n, None); self.deepfacts(st, n); return n
        if isinstance(v, Iter):
            pos = fresh(I_, hint + '_it'); n = Iter(v.p, pos, v.kind, v.rev); return n
        if isinstance(v, PtrTo) and v.idx is not None: return PtrTo(v.p, fresh(I_, hint + '_ix'))
        if isinstance(v, (Opq, Fn, Ref)): return v
        raise Unsupported('havoc of %s' % type(v).__name__)
    def deepfacts(self, st, v):
        i = si(v.sort())
        if i is None: return
        if i.kind == 'vec':
            self.facts(st, v, None)
            if self.con.norm: self.normfact(st, v)
        elif i.kind == 'rec':
            ct = getattr(i, 'ct', {})
            for f in i.fields:
                self.deepfacts(st, fld(v, f))
                if i.fs[f] == I_ and f in ct: self.facts(st, fld(v, f), ct[f])
        elif i.kind in ('map', 'set'):
            self.facts(st, v, None)
            st.q += enum_axioms(mapdom(v), mapsize(v), i.key)
    def normfact(self, st, v):
        i = si(v.sort()); k = z3.Int('k!nm')
        st.q.append(ForAll([k], Implies(Or(k < 0, k >= vlen(v)), z3.Select(varr(v), k) == default(i.el)), patterns=[z3.Select(varr(v), k)]))

    # ---------- values ----------
    def rd(self, st, v, t=None):
        """glvalue -> value"""
        if isinstance(v, Ref):
            x = self.read(st, v.p)
            if isinstance(x, Ref): return self.rd(st, x, t)
            self.facts(st, x, t)
            return x
        return v
    def asz(self, st, v, t=None):
        v = self.rd(st, v, t)
        if isinstance(v, Fresh): return v.v
        if isinstance(v, PtrTo) and v.idx is not None and z3.is_int_value(v.idx) and v.idx.as_long() == 0: return self.read(st, v.p)
        if isinstance(v, Init):
            raise Unsupported('init list')
        if isinstance(v, tuple):
            a, b = [self.asz(st, x) for x in v]
            return si(pair(a.sort(), b.sort())).mk(a, b)
        if not isinstance(v, z3.ExprRef): raise Unsupported('value %s' % type(v).__name__)
        return v
    def toref(self, st, v):
        if isinstance(v, Ref): return v
        if isinstance(v, PtrTo):
            return Ref(v.p if v.idx is None else v.p.add(('i', v.idx)))
        return self.temp(st, v)
    def conv(self, st, v, t):
        """store value v into an object of C++ type t"""
        t = strip_ref(t) if t else t
        if isinstance(v, z3.ExprRef) and t is not None:
            s = self.types.sort(t)
            if s == B_ and v.sort() == I_: return v != 0
            if s == I_ and v.sort() == B_: return If(v, IntVal(1), IntVal(0))
            if s == R_ and v.sort() == I_: return z3.ToReal(v)
            if s == R_ and v.sort() == B_: return If(v, z3.RealVal(1), z3.RealVal(0))
            if s == I_ and v.sort() == R_: return trunc(v)
        return v
    def newvalue(self, st, t, hint='v', init=False):
        """uninitialised / symbolic value of type t"""
        s = self.types.sort(t)
        if s is None: return VOID
        if isopq(s) and 'rec' in t: return Opq(t['rec'])
        v = fresh(s, hint); self.facts(st, v, t)
        return v
    def wrap(self, st, v, t):
        r = irange(t)
        if r is None: return v
        v = z3.simplify(v)
        lo, hi = r; w = hi - lo + 1
        if z3.is_int_value(v):
            n = v.as_long(); return IntVal((n - lo) % w + lo)
        if self.qprove(st, And(v >= lo, v <= hi)): return v
        if lo == 0:
            return v % w
        return If(v > hi, v - w, If(v < lo, v + w, v))

    # ---------- expressions ----------
    def ev(self, e, st):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s %s (line %s)' % (e['k'], e.get('w', ''), e.get('l')))
        return m(e, st)
    def ev1(self, e, st):
        r = self.ev(e, st)
        if len(r) != 1: raise Unsupported('forking expression')
        return r[0]
    def evs(self, es, st):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s): nxt.append((s2, vs + [v]))
            out = nxt
        return out
    def each(self, e, st, f):
        out = []
        for s, v in self.ev(e, st):
            r = f(s, v)
            if isinstance(r, list): out += r
            else: out.append((s, r))
        return out
    def e_int(self, e, st):
        n = int(e['v'])
        return [(st, BoolVal(bool(n)) if e['t'].get('b') == 'bool' else IntVal(n))]
    def e_bool(self, e, st): return [(st, BoolVal(bool(e['v'])))]
    def e_flt(self, e, st):
        return [(st, z3.RealVal(flt(e['v'])))]
    def e_str(self, e, st):
        b = e['v'].encode(); v = default(vec(I_))
        arr = z3.K(I_, IntVal(0))
        for i, c in enumerate(b): arr = z3.Store(arr, i, IntVal(c if c < 128 else c - 256))
        return [(st, mkvec(vec(I_), IntVal(len(b)), arr))]
    def e_null(self, e, st): return [(st, NULL)]
    def e_zero(self, e, st):
        s = self.types.sort(e['t'])
        return [(st, default(s) if 'p' not in e['t'] else NULL)]
    def e_this(self, e, st):
        return [(st, PtrTo(st.frames[-1].this.p))]
    def e_ref(self, e, st):
        dk = e['dk']
        if dk in ('enum',): return [(st, IntVal(e['v']))]
        if dk == 'fn': return [(st, Fn(e['fn']))]
        if dk in ('glob', 'static'):
            if 'v' in e and e['t'].get('b') not in FLOATS: return [(st, BoolVal(bool(e['v'])) if e['t'].get('b') == 'bool' else IntVal(e['v']))]
            r = 'glob:' + e.get('q', e['n'])
            if r not in st.env:
                s = self.types.sort(e['t'])
                if s is None or isopq(s): st.env[r] = Opq(r)
                else: st.env[r] = z3.Const(r, s)
            return [(st, Ref(Path(r)))]
        r = '%s@%d.%d' % (e['n'], e['d'], st.frames[-1].uid)
        if r not in st.env: raise Unsupported('unbound variable ' + e['n'])
        v = st.env[r]
        if isinstance(v, Ref): return [(st, v)]
        return [(st, Ref(Path(r)))]
    def e_mem(self, e, st):
        def f(s, b):
            if isinstance(b, tuple):
                return b[0 if e['n'] == 'first' else 1]
            if e['arrow']:
                b = self.rd(s, b)
                if isinstance(b, Iter): b = self.deref(s, b, e)
                if isinstance(b, PtrTo): b = self.toref(s, b)
                elif not isinstance(b, Ref): raise Unsupported('-> on %s' % type(b).__name__)
            if isinstance(b, Ref):
                return Ref(b.p.add(('f', e['n'])))
            if isinstance(b, z3.ExprRef): return fld(b, e['n'])
            raise Unsupported('member of %s' % type(b).__name__)
        return self.each(e['base'], st, f)
    def deref(self, st, it, e=None):
        if it.kind == 'vec':
            pos = it.pos - 1 if it.rev else it.pos
            c = self.read(st, it.p); self.facts(st, c, None)
            self.bounds(st, pos, vlen(c), e, 'iterator')
            return Ref(it.p.add(('i', pos)))
        c = self.read(st, it.p)
        hint = getattr(it, 'pos', None)
        i = si(c.sort())
        self.enumax(st, c)
        kh = it.rev if isinstance(it.rev, tuple) else None     # (key, has) hint from find()
        if self.con.bounds:
            if kh: self.oblige(st, 'bounds:iterator', kh[1], e, 'bounds')
            else: self.oblige(st, 'bounds:iterator', And(it.pos >= 0, it.pos < mapsize(c)), e, 'bounds')
        else: st.add(kh[1] if kh else And(it.pos >= 0, it.pos < mapsize(c)))
        if it.kind == 'map':
            return Ref(it.p.add(('e', it.pos, kh[0]) if kh else ('e', it.pos)))
        en, _ = enumf(i.key)
        return kh[0] if kh else en(mapdom(c), it.pos)
    def enumax(self, st, c):
        d, n = mapdom(c), mapsize(c)
        st.names.setdefault('keep', []).append(d)
        try: ax = enum_axioms(d, n, si(c.sort()).key)
        except z3.Z3Exception:           # the set is a compound term that may not occur in a pattern: name it
            d2 = z3.FreshConst(d.sort(), 'dom'); st.names['keep'].append(d2)
            ax = [d2 == d] + list(enum_axioms(d2, n, si(c.sort()).key))
        st.once(('en', d.get_id(), n.get_id()), ax)
    def e_cast(self, e, st):
        ck = e['ck']
        def f(s, v):
            if ck == 'LValueToRValue':
                x = self.rd(s, v, e['t'])
                if 'p' in e['t'] and isinstance(x, z3.ExprRef) and si(x.sort()) is not None and si(x.sort()).kind == 'vec' and isinstance(v, Ref):
                    return PtrTo(v.p, IntVal(0))
                return x
            if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'): 
                if ck == 'BitCast' and isinstance(v, Fresh) and 'p' in e['t']: return v if e['t']['p'].get('rec') in BUFREC else self.retype(s, v, e['t'])
                return v
            if ck == 'ArrayToPointerDecay':
                if isinstance(v, Ref): return PtrTo(v.p, IntVal(0))
                return v
            if ck == 'NullToPointer': return NULL
            if ck == 'ToVoid': return VOID
            if ck == 'IntegralToBoolean': 
                v = self.rd(s, v); return v if v.sort() == B_ else unif(v)
            if ck in ('IntegralCast',):
                v = self.rd(s, v)
                if isinstance(v, z3.ExprRef) and v.sort() == B_: return If(v, IntVal(1), IntVal(0))
                src = irange(e['e']['t']); dst = irange(e['t'])
                if src and dst and (src[0] < dst[0] or src[1] > dst[1]): return self.wrap(s, v, e['t'])
                return v
            if ck == 'IntegralToFloating':
                v = self.rd(s, v)
                if v.sort() == B_: return If(v, z3.RealVal(1), z3.RealVal(0))
                return z3.ToReal(v)
            if ck == 'FloatingCast': return self.rd(s, v)
            if ck == 'FloatingToIntegral': return self.f2i(s, self.rd(s, v), e['t'])
            if ck == 'FloatingToBoolean': return self.rd(s, v) != 0
            if ck == 'PointerToBoolean':
                return self.ptrnonnull(s, self.rd(s, v))
            raise Unsupported('cast ' + ck)
        return self.each(e['e'], st, f)
    def retype(self, s, v, t):
        so = self.types.sort(t)
        if v.v.sort() == so: return v
        return Fresh(mkvec(so, vlen(v.v), z3.K(I_, default(si(so).el))))
    def f2i(self, st, v, t):
        r = trunc(v)
        n = fresh(I_, 'f2i'); rg = irange(t)
        st.add(n == r) if rg is None else st.add(Implies(And(r >= rg[0], r <= rg[1]), n == r))
        self.facts(st, n, t)
        return n
    def ptrnonnull(self, s, v):
        if isinstance(v, Null): return FALSE
        if isinstance(v, PtrTo) and s is not None and v.p.steps and BUFREC and v.idx is not None:
            x = self.read(s, v.p); r = fresh(B_, 'nonnull')
            if isinstance(x, z3.ExprRef) and si(x.sort()) and si(x.sort()).kind == 'vec': s.add(Implies(vlen(x) > 0, r)); return r
        if isinstance(v, (PtrTo, Fresh)): return TRUE
        if isinstance(v, z3.ExprRef):
            if v.sort() == opaque('ptr'): return v != z3.Const('nullptr', opaque('ptr'))
        raise Unsupported('pointer test')
    def e_un(self, e, st):
        op = e['op']
        if op in ('++', '--'):
            def f(s, l):
                if not isinstance(l, Ref): raise Unsupported('++ on value')
                v = self.rd(s, l, e['t'])
                d = 1 if op == '++' else -1
                if isinstance(v, PtrTo): n = PtrTo(v.p, v.idx + d)
                elif v.sort() == R_: n = v + d
                else: n = self.wrap(s, v + d, e['t'])
                self.write(s, l.p, n)
                return v if e['post'] else l
            return self.each(e['e'], st, f)
        def g(s, v):
            if op == '*':
                v = self.rd(s, v)
                if isinstance(v, Iter): return self.deref(s, v, e)
                if isinstance(v, PtrTo):
                    if v.idx is not None: self.bounds(s, v.idx, vlen(self.read(s, v.p)), e, 'pointer')
                    return self.toref(s, v)
                if isinstance(v, Fn): return v
                raise Unsupported('deref %s' % type(v).__name__)
            if op == '&':
                if isinstance(v, Ref):
                    if v.p.steps and v.p.steps[-1][0] == 'i': return PtrTo(Path(v.p.root, v.p.steps[:-1]), v.p.steps[-1][1])
                    return PtrTo(v.p)
                raise Unsupported('& of %s' % type(v).__name__)
            v = self.rd(s, v, e['e']['t'])
            if op == '!': return Not(self.tobool(v, s))
            if op == '-':
                return -v if v.sort() == R_ else self.wrap(s, -v, e['t'])
            if op == '+': return v
            if op == '~':
                if self.con.bits: return stl.bitop(self, s, '~', v, IntVal(0), e['t'])
                return self.wrap(s, -v - 1, e['t'])
            raise Unsupported('unary ' + op)
        if op == '&' and e['e'].get('k') == 'sub': e['e']['addr'] = True
        return self.each(e['e'], st, g)
    def tobool(self, v, st=None):
        if isinstance(v, z3.ExprRef):
            if v.sort() == B_: return v
            if v.sort() in (I_, R_): return v != 0
        if isinstance(v, (Null, PtrTo, Fresh)) or isinstance(v, z3.ExprRef): return self.ptrnonnull(st, v)
        if isinstance(v, Opq): return fresh(B_, 'opq')
        raise Unsupported('bool of %s' % type(v).__name__)
    def arith(self, st, op, a, b, t, e):
        if isinstance(a, PtrTo) or isinstance(b, PtrTo) or isinstance(a, Null) or isinstance(b, Null): return self.ptrop(st, op, a, b)
        if isinstance(a, Iter) or isinstance(b, Iter): return stl.iterop(self, st, op, a, b, e)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if op in ('==', '!=', '<', '>', '<=', '>='): return fresh(B_, 'opq')
            raise Unsupported('opaque operand')
        if a.sort() == B_ and b.sort() == B_ and op in ('==', '!='): return a == b if op == '==' else a != b
        if a.sort() == B_ and b.sort() == B_ and op in ('&', '|', '^'): return {'&': And, '|': Or, '^': z3.Xor}[op](a, b)
        if a.sort() == B_: a = If(a, IntVal(1), IntVal(0))
        if b.sort() == B_: b = If(b, IntVal(1), IntVal(0))
        if a.sort() == R_ and b.sort() == I_: b = z3.ToReal(b)
        if b.sort() == R_ and a.sort() == I_: a = z3.ToReal(a)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if a.sort() not in (I_, R_) : 
                if op == '==': return a == b
                if op == '!=': return a != b
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
        if a.sort() == R_:
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if self.con and getattr(self.con, 'divcheck', False): self.oblige(st, 'nonzero divisor', b != 0, e, 'div')
                return a / b
            raise Unsupported('real ' + op)
        if op in ('+', '-', '*'):
            v = a + b if op == '+' else a - b if op == '-' else a * b
            if op == '*' and not (z3.is_int_value(a) or z3.is_int_value(b)):
                self.assumed.add('integer multiplication treated as mathematical'); return v
            r = irange(t)
            if r and r[0] < 0: self.assumed.add('signed integer arithmetic treated as mathematical'); return z3.simplify(v)
            return self.wrap(st, v, t)
        if op in ('/', '%'):
            self.oblige(st, 'nonzero divisor', b != 0, e, 'div')
            r = irange(t)
            if r and r[0] == 0: return a / b if op == '/' else a % b
            if self.qprove(st, And(a >= 0, b > 0)): return a / b if op == '/' else a % b
            qt = If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
            return qt if op == '/' else a - b * qt
        if op in ('<<', '>>') and z3.is_int_value(b) and not self.con.bits:
            k = 2 ** b.as_long()
            return self.wrap(st, a * k, t) if op == '<<' else a / k
        if op in ('&', '|', '^', '<<', '>>'):
            if op == '&' and not self.con.bits and z3.is_int_value(b) and (b.as_long() + 1) & b.as_long() == 0: return a % (b.as_long() + 1)
            r = stl.bitop(self, st, op, a, b, t)
            return r
        raise Unsupported('operator ' + op)
    def ptrop(self, st, op, a, b):
        if op in ('==', '!='):
            if isinstance(a, Null) and isinstance(b, Null): r = TRUE
            elif isinstance(a, Null) or isinstance(b, Null):
                o = b if isinstance(a, Null) else a
                r = Not(self.ptrnonnull(st, o))
            elif isinstance(a, PtrTo) and isinstance(b, PtrTo):
                if a.p.root == b.p.root and a.p.steps == b.p.steps: r = TRUE if a.idx is None else a.idx == b.idx
                elif a.p.root != b.p.root: r = FALSE
                else: raise Unsupported('pointer comparison')
            else: raise Unsupported('pointer comparison')
            return r if op == '==' else Not(r)
        if isinstance(a, PtrTo) and a.idx is not None and isinstance(b, z3.ExprRef):
            if op == '+': return PtrTo(a.p, a.idx + b)
            if op == '-': return PtrTo(a.p, a.idx - b)
        raise Unsupported('pointer op ' + op)
    def e_bin(self, e, st):
        op = e['op']
        if op == '=':
            out = []
            for s, (r, l) in self.evs([e['b'], e['a']], st):
                if not isinstance(l, Ref): raise Unsupported('assign to %s' % type(l).__name__)
                self.assign(s, l, r, e['a']['t']); out.append((s, l))
            return out
        if op == ',':
            return [(s, vs[1]) for s, vs in self.evs([e['a'], e['b']], st)]
        if op in ('&&', '||'): return self.shortcircuit(e, st)
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st):
            a = self.rd(s, a, e['a']['t']); b = self.rd(s, b, e['b']['t'])
            out.append((s, self.arith(s, op, a, b, e['t'], e)))
        return out
    def assign(self, s, l, r, t):
        r = self.rd(s, r)
        if isinstance(r, Fresh): r = self.retype(s, r, t).v
        elif isinstance(r, Null):
            so = self.types.sort(t)
            r = default(so) if si(so) and si(so).kind == 'vec' and l.p.steps else (NULL if not l.p.steps else z3.Const('nullptr', opaque('ptr')))
        elif isinstance(r, Iter) and l.p.steps and l.p.steps[-1][0] == 'f' and t and t.get('rec', '').startswith('std::_Rb_tree'): r = r.pos
        elif isinstance(r, PtrTo) and r.idx is None and l.p.steps and l.p.steps[-1][0] == 'f' and t and 'p' in t and self.types.sort(t) == opaque('ptr'):
            r = self.ptrterm(s, r)
        elif isinstance(r, Opq) and l.p.steps and t and isrbiter(t): r = fresh(I_, 'iter')
        elif isinstance(r, (PtrTo, Iter)):
            if l.p.steps: raise Unsupported('pointer stored in an object')
        else: r = self.conv(s, r, t)
        self.write(s, l.p, r)
    def ptrterm(self, s, v):
        # the address of an object: one constant per path
        x = z3.Const('addr:%s:%s' % (v.p.root, v.p.steps), opaque('ptr')); s.add(x != z3.Const('nullptr', opaque('ptr'))); return x
    def shortcircuit(self, e, st):
        out = []
        isand = e['op'] == '&&'
        for s, a in self.ev(e['a'], st):
            a = self.tobool(self.rd(s, a))
            a = z3.simplify(a) if not has_q(a) else a
            if is_lit(a, not isand): out.append((s, a)); continue
            if is_lit(a, isand):
                for s2, b in self.ev(e['b'], s): out.append((s2, self.tobool(self.rd(s2, b))))
                continue
            g = a if isand else Not(a)
            s2 = s.copy(); s2.add(g)
            if not self.feasible(s2): out.append((s, a)); continue
            n0, q0, env0 = len(s2.pc), len(s2.q), dict(s2.env)
            rs = self.ev(e['b'], s2)
            if len(rs) == 1 and self.same_env(rs[0][0].env, env0) and rs[0][0].frames == s.frames:
                s3, b = rs[0]; b = self.tobool(self.rd(s3, b))
                for f in s3.pc[n0:]: s.add(Implies(g, f))
                for f in s3.q[q0:]: s.q.append(Implies(g, f))
                for r, v in s3.env.items():
                    if r not in s.env: s.env[r] = v
                out.append((s, And(a, b) if isand else Or(a, b)))
            else:
                s4 = s.copy(); s4.add(Not(g))
                if self.feasible(s4): out.append((s4, FALSE if isand else TRUE))
                for s3, b in rs: out.append((s3, self.tobool(self.rd(s3, b))))
        return out
    def same_env(self, a, b):
        for k, v in b.items():
            x = a.get(k)
            if x is v: continue
            if isinstance(x, z3.ExprRef) and isinstance(v, z3.ExprRef) and x.eq(v): continue
            return False
        return True
    def e_cas(self, e, st):
        op = e['op'][:-1]; out = []
        for s, (b, l) in self.evs([e['b'], e['a']], st):
            a = self.rd(s, l, e['a']['t']); b = self.rd(s, b, e['b']['t'])
            ct = e['ct']
            if isinstance(a, z3.ExprRef) and ct.get('b') in FLOATS and a.sort() == I_: a = z3.ToReal(a)
            v = self.arith(s, op, a, b, ct, e)
            if isinstance(v, z3.ExprRef):
                if v.sort() == R_ and self.types.sort(e['a']['t']) == I_: v = self.f2i(s, v, e['a']['t'])
                else: v = self.conv(s, v, e['a']['t'])
                if irange(ct) != irange(e['a']['t']) and v.sort() == I_: v = self.wrap(s, v, e['a']['t'])
            self.write(s, l.p, v); out.append((s, l))
        return out
    def e_cond(self, e, st):
        out = []
        for s, c in self.ev(e['c'], st):
            c = self.tobool(self.rd(s, c))
            a, b = self.branch(s, c)
            ra = self.ev(e['a'], a) if a else []; rb = self.ev(e['b'], b) if b else []
            for s1, v in ra + rb:
                if not (e.get('lv')): v = self.rd(s1, v)
                if isinstance(v, z3.ExprRef): v = self.conv(s1, v, e['t'])
                out.append((s1, v))
        return out
    def e_sub(self, e, st):
        out = []
        for s, (a, i) in self.evs([e['a'], e['i']], st):
            a = self.rd(s, a); i = self.rd(s, i)
            if isinstance(a, PtrTo):
                if a.idx is None: raise Unsupported('subscript of object pointer')
                j = a.idx + i if not (z3.is_int_value(a.idx) and a.idx.as_long() == 0) else i
                c = self.read(s, a.p)
                if not isinstance(c, z3.ExprRef) or si(c.sort()) is None or si(c.sort()).kind != 'vec': raise Unsupported('subscript')
                self.facts(s, c, None)
                n = arrsize(e['a'])
                if n is not None and z3.is_int_value(a.idx) and a.idx.as_long() == 0: self.bounds(s, j, IntVal(n), e, 'subscript')
                else: self.bounds(s, j, vlen(c) + 1 if e.get('addr') else vlen(c), e, 'subscript')
                out.append((s, Ref(a.p.add(('i', j)))))
            elif isinstance(a, z3.ExprRef) and si(a.sort()) and si(a.sort()).kind == 'vec':
                out.append((s, vsel(a, i)))
            else: raise Unsupported('subscript of %s' % type(a).__name__)
        return out
    def e_new(self, e, st):
        out = []
        if e.get('place') is not None:        # placement new: the object is built in place
            for s, (pl, v) in self.evs([e['place'], e['init']], st):
                pl = self.rd(s, pl)
                if not isinstance(pl, PtrTo) or pl.idx is None: raise Unsupported('placement new')
                self.bounds(s, pl.idx, vlen(self.read(s, pl.p)), e, 'placement new')
                self.write(s, pl.p.add(('i', pl.idx)), self.asz(s, v)); out.append((s, pl))
            return out
        if not e['array']: raise Unsupported('new')
        for s, n in self.ev(e['n'], st):
            n = self.rd(s, n); so = vec(self.types.sort(e['at']))
            if e.get('init') or 'rec' in e['at']: v = mkvec(so, n, z3.K(I_, default(si(so).el)))
            else: v = mkvec(so, n, fresh(ArraySort(I_, si(so).el), 'new'))
            out.append((s, Fresh(v)))
        return out
    def e_delete(self, e, st): return [(s, VOID) for s, _ in self.ev(e['e'], st)]
    def e_ilist(self, e, st):
        if not e['args'] and 'rec' not in e['t'] and 'arr' not in e['t']: return self.e_zero(e, st)
        out = []
        for s, vs in self.evs(e['args'], st):
            if 'arr' in e['t'] :
                so = self.types.sort(e['t']); arr = z3.K(I_, default(si(so).el))
                for i, v in enumerate(vs): arr = z3.Store(arr, i, self.conv(s, self.asz(s, v), e['t']['arr']))
                out.append((s, mkvec(so, IntVal(e['t'].get('n', len(vs))), arr)))
            elif 'rec' in e['t'] and e['t']['q'] in self.tu['records']:
                so = self.types.sort(e['t']); out.append((s, si(so).mk(*[self.asz(s, v) for v in vs])))
            elif len(vs) == 1: out.append((s, vs[0]))
            else: out.append((s, Init(vs)))
        return out
    def e_silist(self, e, st): return self.ev(e['e'], st)
    def e_icall(self, e, st): raise Unsupported('indirect call')
    def e_call(self, e, st):
        out = []
        if e['fn']['q'] == '__assert_fail': self.oblige(st, 'assertion holds', BoolVal(False), e); return []
        for s, vs in self.evs(e['args'], st): out += self.call(s, e['fn'], None, vs, e)
        return out
    def e_mcall(self, e, st):
        out = []
        for s, vs in self.evs([e['obj']] + e['args'], st):
            o = vs[0]
            if e['arrow']:
                o = self.rd(s, o)
                if isinstance(o, Iter): o = self.deref(s, o, e)
                elif isinstance(o, PtrTo): o = self.toref(s, o)
            out += self.call(s, e['fn'], o, vs[1:], e, novirt=e.get('novirt'))
        return out
    def e_ctor(self, e, st):
        fn = e['fn']
        if e.get('elid') and len(e['args']) == 1:
            return [(s, self.rd(s, v)) for s, v in self.ev(e['args'][0], st)]
        out = []
        for s, vs in self.evs(e['args'], st):
            out += self.construct(s, e, fn, vs)
        return out
    def construct(self, s, e, fn, vs):
        t = e['t']
        if t.get('rec', '').startswith(('std::', '__gnu_cxx::', 'picojson')) or t.get('rec', '').split('::')[0] in ASMAP:
            return stl.construct(self, s, e, fn, vs)
        c = self.find_contract(fn, ctor=True)
        if c and fn['q'] not in self.con.inline:
            v = self.newvalue(s, t, 'obj'); self.deepfacts(s, v); r = self.temp(s, v, 'obj')
            return [(s2, self.read(s2, r.p)) for s2, _ in self.apply(s, c, fn, r, vs, e)]
        if fn['key'] in self.fns:
            v = self.newvalue(s, t, 'obj')
            # class members are default-initialised, builtins stay arbitrary
            if isinstance(v, z3.ExprRef):
                v = self.defaults(s, t, v); self.deepfacts(s, v)
            r = self.temp(s, v, 'obj')
            return [(s2, self.read(s2, r.p)) for s2, _ in self.invoke(s, self.fns[fn['key']], r, vs, e)]
        if e.get('copy') and vs: return [(s, self.rd(s, vs[0]))]
        if e.get('triv') and not vs:
            v = self.newvalue(s, t, 'obj')
            if isinstance(v, z3.ExprRef): v = self.defaults(s, t, v, value=True)
            return [(s, v)]
        so = self.types.sort(t)
        if so is not None and isopq(so): return [(s, Opq(t.get('q', '?')))]
        raise Unsupported('constructor ' + fn['q'])
    def defaults(self, s, t, v, value=False):
        """member-wise default initialisation; members of class type get their default value"""
        i = si(v.sort())
        if i is None or i.kind != 'rec' or t.get('q') not in self.tu['records']: 
            return default(v.sort()) if i and i.kind in ('vec', 'map', 'set') else v
        for f, ft in self.types.fields(t['q']):
            fs = i.fs[f]; k = si(fs)
            if k and k.kind in ('vec', 'map', 'set') and 'rec' in ft: v = setfld(v, f, default(fs))
            elif k and k.kind == 'vec' and 'arr' in ft and 'n' in ft: v = setfld(v, f, mkvec(fs, IntVal(int(ft['n'])), fresh(ArraySort(I_, k.el), 'fld')))
            elif k and k.kind == 'rec':
                if ft.get('rec') == 'std::pair': v = setfld(v, f, default(fs))
                else:
                    d = self.defaults(s, ft, fresh(fs, 'fld')); c = self.nullary(ft.get('q'))
                    if c is not None and len(s.frames) < 10 and not self.find_contract({"q": c["q"], "pt": [p["t"] for p in c["params"]]}, ctor=True):
                        r = self.temp(s, d, 'obj')
                        try: rs = self.invoke(s, c, r, [], None)
                        except Unsupported: rs = []
                        if len(rs) == 1 and rs[0][0] is s: d = self.read(s, r.p)
                    v = setfld(v, f, d)
        return v
    def nullary(self, q):
        if getattr(self, '_nullary', None) is None:
            self._nullary = {f['cls'].get('q'): f for f in self.fns.values() if f.get('cls') and 'rec' in f['cls'] and not f.get('params') and f['q'].rsplit('::', 1)[-1] == f['cls']['rec'].rsplit('::', 1)[-1]}
        return self._nullary.get(q)

    # ---------- calls ----------
    def find_contract(self, fn, ctor=False):
        for c in self.contracts.get(fn['q'], ()):
            if c.nparams is not None and c.nparams != len(fn['pt']): continue
            if c.ptypes is not None and not c.ptypes(fn['pt']): continue
            return c
        return None
    def resolve(self, st, fn, this, novirt):
        key = fn['key']
        if fn.get('virt') and not novirt and self.dyncls:
            ks = self.over.get(key, [])
            # pick the override defined in the dynamic class chain
            chain = self.chain(self.dyncls)
            best = None
            cand = {k: c for c, k in self.all_over(key)}; 
            for c in chain:
                for k, cc in list(cand.items()) + [(key, None)]:
                    if cc == c: return k
            return key
        return key
    def all_over(self, key, seen=None):
        out = []
        for c, k in self.over.get(key, []):
            out.append((c, k)); out += self.all_over(k)
        return out
    def chain(self, cls):
        out = []; todo = [cls]
        while todo:
            c = todo.pop(0)
            r = self.tu['records'].get(c)
            if not r:
                r = next((x for x in self.tu['records'].values() if x['name'] == c), None)
            if not r: continue
            out.append(r['name']); todo += [b.get('q') for b in r['bases']]
        return out
    def call(self, s, fn, this, vs, e, novirt=False):
        q = fn['q']
        c = self.find_contract(fn)
        if c and q not in self.con.inline: return self.apply(s, c, fn, this, vs, e)
        r = stl.call(self, s, fn, this, vs, e)
        if r is not None:
            if isinstance(r, list): return r
            return [(s, r)]
        key = self.resolve(s, fn, this, novirt)
        if key in self.fns:
            f = self.fns[key]
            c = self.find_contract({'q': f['q'], 'pt': fn['pt']})
            if c and f['q'] not in self.con.inline: return self.apply(s, c, fn, this, vs, e)
            if len(s.frames) > 14: raise Unsupported('call depth at ' + q)
            if any(fr.fn['key'] == key for fr in s.frames): raise Unsupported('recursive call of ' + q)
            self.used.add(f['q'])
            th = None
            if this is not None: th = self.toref(s, this if not isinstance(this, PtrTo) else this)
            return self.invoke(s, f, th, vs, e)
        if q.endswith('::operator=') and len(vs) == 1 and this is not None:
            v = self.rd(s, vs[0])
            self.assign(s, this, v, fn.get('cls')); return [(s, this)]
        raise Unsupported('call of %s (line %s)' % (q, e.get('l')))
    def bind(self, s, fr, f, vs):
        roots = []
        ps = f['params']
        for i, p in enumerate(ps):
            r = '%s@%d.%d' % (p['n'], p['d'], fr.uid)
            v = vs[i] if i < len(vs) else None
            if v is None: raise Unsupported('missing argument')
            if 'r' in p['t']:
                if not isinstance(v, Ref):
                    if isinstance(v, z3.ExprRef): v = self.conv(s, v, p['t'])
                    v = self.temp(s, v, p['n'])
                s.env[r] = v
            else:
                v = self.rd(s, v, p['t'])
                if isinstance(v, z3.ExprRef): v = self.conv(s, v, p['t'])
                s.env[r] = v
            roots.append(r)
        return roots
    def invoke(self, s, f, this, vs, e):
        fr = Frame(f, this, f.get('cls'))
        s.frames = s.frames + [fr]
        self.bind(s, fr, f, vs)
        return self.body(s, f, fr)
    def body(self, s, f, fr):
        """run ctor initialisers and body; returns [(state, retval)] with the frame popped"""
        if not f.get('lids'): f['lids'] = True; number_loops(f)
        sts = [s]
        for ini in f.get('inits', []):
            nx = []
            for s1 in sts:
                if 'f' in ini:
                    for s2, v in self.ev(ini['e'], s1):
                        self.assign(s2, Ref(fr.this.p.add(('f', ini['f']))), v, ini['e']['t']); nx.append(s2)
                elif 'base' in ini:
                    ie = ini['e']
                    if ie and ie['k'] == 'ctor' and ie['fn']['key'] in self.fns:
                        for s2, a in self.evs(ie['args'], s1):
                            nx += [s3 for s3, _ in self.invoke(s2, self.fns[ie['fn']['key']], fr.this, a, ie)]
                    else: nx.append(s1)
                else: nx.append(s1)
            sts = nx
        out = []
        for s1 in sts:
            for s2, oc in self.ex(f['body'], s1):
                v = VOID
                if oc is not None and oc[0] == 'ret': v = oc[1]
                elif oc is not None and oc[0] == 'exit': continue
                s2.frames = s2.frames[:-1]
                out.append((s2, v))
        self.stats['paths'] += len(out)
        if len(out) > self.con.maxpaths: raise Unsupported('path explosion')
        return out
    def apply(self, s, c, fn, this, vs, e):
        """modular call: callee's contract"""
        self.used.add('contract ' + c.q)
        if c.hook: 
            r = c.hook(self, s, fn, this, vs, e)
            if r is not None: return r
        th = None
        if this is not None:
            th = self.toref(s, this)
        args = []
        for i, v in enumerate(vs):
            pt = fn['pt'][i] if i < len(fn['pt']) else None
            if pt and 'r' in pt and not isinstance(v, Ref):
                if isinstance(v, z3.ExprRef): v = self.conv(s, v, pt)
                v = self.temp(s, v, 'arg')
            elif not (pt and 'r' in pt):
                v = self.rd(s, v, pt)
                if isinstance(v, z3.ExprRef) and pt: v = self.conv(s, v, pt)
            args.append(v)
        def val(v):
            if v is None: return None
            if isinstance(v, Ref): x = self.read(s, v.p)
            elif isinstance(v, PtrTo): x = self.read(s, v.p)
            else: x = v
            if isinstance(x, z3.ExprRef): self.facts(s, x, None); return mkV(x)
            return x
        t0, a0 = val(th), [val(v) for v in args]
        if c.requires:
            for i, g in enumerate(norm_list(c.requires(CallCtx(t0, a0, t0, a0, None)))):
                self.oblige(s, 'pre of %s [%s]' % (c.q, g[0] or i), g[1], e, 'call-pre')
        for m in c.modifies:
            if m == 'this': tgt = th
            elif m.startswith('this.'): tgt = Ref(th.p.add(*[('f', x) for x in m.split('.')[1:]]))
            else:
                tgt = args[int(m[3:].split('.')[0])]
                if isinstance(tgt, PtrTo): tgt = Ref(tgt.p)
                for x in m.split('.')[1:]: tgt = Ref(tgt.p.add(('f', x)))
            self.write(s, tgt.p, self.havocval(s, self.read(s, tgt.p)))
        ret = VOID
        rt = fn.get('rt')
        if c.returns == 'this': ret = th
        elif c.returns and c.returns.startswith('arg'): ret = args[int(c.returns[3:])]
        elif rt and rt.get('b') != 'void':
            so = self.types.sort(rt)
            ret = fresh(so, 'ret'); self.facts(s, ret, rt); self.deepfacts(s, ret)
        t1, a1 = val(th), [val(v) for v in args]
        if c.ensures:
            rv = mkV(ret) if isinstance(ret, z3.ExprRef) else (val(ret) if isinstance(ret, Ref) else None)
            for _, g in norm_list(c.ensures(CallCtx(t0, a0, t1, a1, rv))): s.add(g)
        return [(s, ret)]

    # ---------- statements ----------
    def branch(self, st, c):
        if not has_q(c): c = z3.simplify(c)
        if z3.is_true(c): return st, None
        if z3.is_false(c): return None, st
        a = st.copy(); a.add(c); b = st; b2 = st.copy(); b2.add(Not(c))
        fa = self.feasible(a); fb = self.feasible(b2)
        return (a if fa else None), (b2 if fb else None)
    def ex(self, n, st):
        """-> [(state, outcome)]; outcome None | ('break',) | ('cont',) | ('ret',v) | ('exit',)"""
        if n is None: return [(st, None)]
        m = getattr(self, 's_' + n['k'], None)
        if m is None: raise Unsupported('statement %s %s (line %s)' % (n['k'], n.get('w', ''), n.get('l')))
        return m(n, st)
    def s_block(self, n, st): return self.seq(n['s'], st)
    def s_seq(self, n, st): return self.seq(n['s'], st)
    def seq(self, ss, st):
        live = [st]; out = []
        for x in ss:
            nx = []
            for s in live:
                for s2, oc in self.ex(x, s):
                    if oc is None: nx.append(s2)
                    else: out.append((s2, oc))
            live = self.merge_many(nx)
            if not live: break
        return [(s, None) for s in live] + out
    def merge_many(self, sts):
        if len(sts) <= self.mergecap: return sts
        r = sts
        while len(r) > self.mergecap:
            nx = []
            for i in range(0, len(r) - 1, 2):
                m = self.merge(r[i], r[i + 1])
                if m is None: return sts
                nx.append(m)
            if len(r) % 2: nx.append(r[-1])
            r = nx
        return r
    def merge(self, a, b):
        if a.frames != b.frames: return None
        n = 0
        while n < min(len(a.pc), len(b.pc)) and a.pc[n].eq(b.pc[n]): n += 1
        ca = And(*a.pc[n:]) if len(a.pc) > n else TRUE
        m = a.copy(); m.pc = a.pc[:n]
        cb = And(*b.pc[n:]) if len(b.pc) > n else TRUE
        g = fresh(B_, 'mg')
        m.pc.append(Implies(g, ca)); m.pc.append(Implies(Not(g), cb))
        k = 0
        while k < min(len(a.q), len(b.q)) and a.q[k].eq(b.q[k]): k += 1
        m.q = a.q[:k] + [Implies(g, x) for x in a.q[k:]] + [Implies(Not(g), x) for x in b.q[k:]]
        m.seen = a.seen & b.seen
        for r in set(a.env) | set(b.env):
            if r not in a.env or r not in b.env:
                m.env[r] = a.env.get(r, b.env.get(r)); continue
            x, y = a.env[r], b.env[r]
            if x is y: continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort():
                if x.eq(y): m.env[r] = x
                elif x.sort() in (I_, R_, B_): m.env[r] = If(g, x, y)
                else:
                    z = fresh(x.sort(), 'mrg'); m.pc.append(Implies(g, z == x)); m.pc.append(Implies(Not(g), z == y)); m.env[r] = z
            elif isinstance(x, Iter) and isinstance(y, Iter) and x.p.root == y.p.root and len(x.p.steps) == 0 == len(y.p.steps) and not isinstance(x.rev, tuple) and not isinstance(y.rev, tuple):
                m.env[r] = Iter(x.p, If(g, x.pos, y.pos), x.kind, x.rev)
            elif isinstance(x, Ref) and isinstance(y, Ref) and x.p.root == y.p.root and x.p.steps == y.p.steps: pass
            elif isinstance(x, (Opq, Fn)): pass
            else: return None
        return m
    def s_null(self, n, st): return [(st, None)]
    def s_expr(self, n, st):
        e = n['e']
        if e['k'] == 'call' and e['fn']['q'] in ('exit', 'abort', 'std::exit', '__assert_fail'): return [(st, ('exit',))]
        return [(s, None) for s, _ in self.ev(e, st)]
    def s_decl(self, n, st):
        sts = [st]
        for v in n['v']:
            nx = []
            for s in sts: nx += self.declare(v, s)
            sts = nx
        return [(s, None) for s in sts]
    def declare(self, v, st):
        r = '%s@%d.%d' % (v['n'], v['d'], st.frames[-1].uid)
        for w in self.wlog: w.add((r, ()))
        if v.get('static'): raise Unsupported('static local')
        if v['init'] is None:
            if 'p' in v['t']: st.env[r] = NULL
            else: st.env[r] = self.newvalue(st, v['t'], v['n'])
            return [st]
        out = []
        for s, x in self.ev(v['init'], st):
            if 'r' in v['t']:
                if isinstance(x, Ref): s.env[r] = x
                elif isinstance(x, (Iter,)): s.env[r] = x
                else: s.env[r] = self.temp(s, x, v['n'])
            else:
                x = self.rd(s, x, v['t'])
                if isinstance(x, Fresh): x = self.retype(s, x, v['t']).v if 'p' in v['t'] else x.v
                if isinstance(x, z3.ExprRef): x = self.conv(s, x, v['t'])
                if isinstance(x, z3.ExprRef) and 'p' in v['t'] and si(x.sort()) and si(x.sort()).kind == 'vec':
                    x = PtrTo(self.temp(s, x, v['n']).p, IntVal(0))
                s.env[r] = x
            out.append(s)
        return out
    def s_if(self, n, st):
        out = []
        pre = self.ex(n['init'], st) if n.get('init') else [(st, None)]
        for s0, _ in pre:
            if n.get('cv'):
                [s0] = self.declare(n['cv'], s0)
            for s, c in self.ev(n['c'], s0):
                c = self.tobool(self.rd(s, c))
                a, b = self.branch(s, c)
                if a is not None: out += self.ex(n['a'], a)
                if b is not None: out += self.ex(n['b'], b) if n.get('b') else [(b, None)]
        return out
    def s_ret(self, n, st):
        if n['e'] is None: return [(st, ('ret', VOID))]
        out = []
        rt = st.frames[-1].fn['rt']
        for s, v in self.ev(n['e'], st):
            if 'r' not in rt:
                v = self.rd(s, v, rt)
                if isinstance(v, z3.ExprRef): v = self.conv(s, v, rt)
            out.append((s, ('ret', v)))
        return out
    def s_break(self, n, st): return [(st, ('break',))]
    def s_cont(self, n, st): return [(st, ('cont',))]
    def s_do(self, n, st):
        out = []
        for s, oc in self.ex(n['body'], st):
            if oc is None or oc[0] == 'cont': out += self.s_for({'k': 'for', 'c': n['c'], 'body': n['body'], 'inc': None, 'init': None, 'l': n['l'], 'lid': n.get('lid')}, s)
            elif oc[0] == 'break': out.append((s, None))
            else: out.append((s, oc))
        return out
    def s_switch(self, n, st):
        items = []
        def flat(x):
            labs = []
            while x and x['k'] in ('case', 'default'):
                labs.append(x.get('cv') if x['k'] == 'case' else 'default'); x = x['s']
            items.append((labs, x))
        for x in (n['body']['s'] if n['body']['k'] == 'block' else [n['body']]): flat(x)
        out = []
        for s, v in self.ev(n['c'], st):
            v = self.rd(s, v); vals = [l for ls, _ in items for l in ls if l != 'default']
            entries = []
            for i, (ls, _) in enumerate(items):
                for l in ls:
                    entries.append((i, v == l if l != 'default' else And(*[v != w for w in vals])))
            if not any('default' in ls for ls, _ in items): entries.append((len(items), And(*[v != w for w in vals])))
            for i, c in entries:
                s2 = s.copy(); s2.add(c)
                if not self.feasible(s2): continue
                for s3, oc in self.seq([x for _, x in items[i:]], s2):
                    out.append((s3, None if oc and oc[0] == 'break' else oc))
        return out

    # ---------- loops ----------
    def s_for(self, n, st):
        out = []
        if n.get('init'):
            for s, oc in self.ex(n['init'], st): out += self.loop(n, s)
            return out
        return self.loop(n, st)
    def iterate(self, n, head):
        """one iteration from head: (back-edge states, exit states [(s,oc)])"""
        back, exits = [], []
        cs = self.ev(n['c'], head) if n.get('c') else [(head, TRUE)]
        for s, c in cs:
            c = self.tobool(self.rd(s, c))
            a, b = self.branch(s, c)
            if b is not None: exits.append((b, None))
            if a is None: continue
            for s2, oc in self.ex(n['body'], a):
                if oc is None or oc[0] == 'cont':
                    if n.get('inc'):
                        for s3, _ in self.ev(n['inc'], s2): back.append(s3)
                    else: back.append(s2)
                elif oc[0] == 'break': exits.append((s2, None))
                else: exits.append((s2, oc))
        return back, exits
    def havoc(self, pre, W):
        h = pre.copy()
        keys = sorted(W, key=lambda k: (len(k[1]), k))
        done = []
        for r, fs in keys:
            if r not in pre.env: continue
            if any(r == r2 and fs[:len(f2)] == f2 for r2, f2 in done): continue
            done.append((r, fs))
            p = Path(r, [('f', f) for f in fs])
            v = h.env[r]
            for f in fs: v = self.rstep(h, v, ('f', f))
            nv = self.havocval(h, v, r.split('@')[0].split('#')[0] + ''.join('.' + f for f in fs))
            t = self.rtype.get(r) if not fs else None
            if t and isinstance(nv, z3.ExprRef): self.facts(h, nv, t)
            h.env[r] = self.wstep(h, h.env[r], p.steps, nv)
        return h, done
    def canon(self, st, W):
        out = set()
        for r, fs in W:
            v = st.env.get(r)
            if isinstance(v, Ref):
                k = v.p.key(); out.add((k[0], k[1] + fs) if len(k[1]) == len(v.p.steps) else k)
            else: out.add((r, fs))
        return out
    def loop(self, n, pre):
        """memo: candidates dropped under the stronger assumptions of an earlier round of an enclosing loop stay dropped
        (only narrows the search; what survives is checked as obligations)"""
        if self.dry: return self.loop_(n, pre, None)
        oc = self.lord.setdefault(tuple(self.lstack), {})
        lid = n.get('lid', n['l'])
        o = oc[lid] = oc.get(lid, -1) + 1
        self.lstack.append((lid, o))
        try: return self.loop_(n, pre, tuple(self.lstack))
        finally: self.lstack.pop()
    def iter_(self, n, h):
        if not self.dry:
            k = tuple(self.lstack)
            for x in [x for x in self.lord if x[:len(k)] == k]: del self.lord[x]
        return self.iterate(n, h)
    def loop_(self, n, pre, mkey):
        nun = self.con.unroll
        # 1. write set
        W = set(); sv = (self.rec, self.dry); self.rec = False; was = self.dry; self.dry = True
        try:
            for it in range(8):
                log = set(); self.wlog.append(log)
                try:
                    h, _ = self.havoc(pre, W)
                    if os.environ.get('VC_TRACE'): print('dry', n['l'], it, len(pre.pc))
                    self.iterate(n, h)
                finally: self.wlog.pop()
                log = self.canon(pre, {k for k in log if k[0] in pre.env})
                if log <= W: break
                W |= log
        finally: self.rec, self.dry = sv
        for w in self.wlog: w |= W
        if self.dry:
            h, _ = self.havoc(pre, W)
            self.rec = False
            try: back, exits = self.iterate(n, h)
            finally: self.rec = sv[0]
            return exits if not self.drycut else exits
        # 2. candidates
        h, done = self.havoc(pre, W)
        cands = self.gen_cands(n, pre, h, done); nn = {}
        for c in cands:
            k = nn[c.name] = nn.get(c.name, 0) + 1
            if k > 1: c.name += '~%d' % k
        le = pre
        alive = []
        hy = dedup(pre.pc + pre.q)
        lv0 = LoopView(self, pre, self.entry, le)
        memo = self.lmemo.get(mkey)
        skip = self.rec and memo is not None
        for c in cands:
            if memo is not None and c.name not in memo: continue
            if skip: alive.append(c); continue
            g = c.at(lv0)
            if g is None: continue
            if self.prove(hy, g): alive.append(c)
            elif os.environ.get('VC_DEBUG'): print('   init-drop', n['l'], c.name); self.dumpq(hy, g, c.name, n['l'])
        sv = self.rec; self.rec = False
        rounds = 0
        while not skip:
            rounds += 1
            hh = h.copy(); lvh = LoopView(self, hh, self.entry, le)
            for c in alive:
                g = c.at(lvh)
                if g is not None: hh.add(g)
            try: back, _ = self.iter_(n, hh)
            except Unsupported: self.rec = sv; raise
            keep = list(alive)
            for b in back:
                lvb = LoopView(self, b, self.entry, le)
                if not keep: break
                bh = dedup(b.pc + b.q)
                gs = [(c, c.at(lvb)) for c in keep]
                nk = []
                for c, g in gs:
                    if g is None: continue
                    if self.prove(bh, g): nk.append(c)
                    elif os.environ.get('VC_DEBUG'):
                        print('   step-drop', n['l'], c.name)
                        self.dumpq(bh, g, c.name, n['l'])
                keep = nk
            if len(keep) == len(alive): break
            alive = keep
        if not skip: self.lmemo[mkey] = {c.name for c in alive}
        self.rec = sv
        if os.environ.get('VC_DEBUG'): print(' loop line', n['l'], 'writes', done, 'rounds', rounds, 'inv:', [c.name for c in alive])
        if self.rec: self.invlog.append((self.curname(pre), n['l'], [c.name for c in alive]))
        hh = h.copy(); lvh = LoopView(self, hh, self.entry, le)
        for c in alive:
            g = c.at(lvh)
            if g is not None: hh.add(g)
        back, exits = self.iter_(n, hh)
        if self.rec:      # the surviving candidates are obligations of their own (init + preservation)
            for c in alive:
                g = c.at(lv0)
                self.obl.append(Obl('inv-init:' + c.name, hy, g, n['l'], self.curname(pre), 'inv'))
                for b in back:
                    g = c.at(LoopView(self, b, self.entry, le))
                    if g is not None: self.obl.append(Obl('inv-step:' + c.name, dedup(b.pc + b.q), g, n['l'], self.curname(pre), 'inv'))
        return exits
    drycut = False
    def dumpq(self, hy, g, name, line):
        if os.environ.get('VC_DUMP') and os.environ['VC_DUMP'] in name:
            self.ndump = getattr(self, 'ndump', 0) + 1
            s = z3.Solver(); s.add(*hy); s.add(Not(g)); open('/tmp/dump_%s_%d.smt2' % (line, self.ndump), 'w').write(s.to_smt2())
            print('dumped', self.ndump, name)
    def scope_vars(self, st):
        """(root, name) of every local visible in the frames on the stack"""
        out = []; uids = {f.uid for f in st.frames}
        for r in st.env:
            if '@' not in r: continue
            u = int(r.rsplit('.', 1)[1])
            if u in uids: out.append(r)
        return out
    def gen_cands(self, n, pre, h, done):
        out = []
        mod = [r for r, fs in done if not fs]
        vars_ = self.scope_vars(pre)
        def isint(r):
            v = pre.env[r]; 
            if isinstance(v, Ref):
                try: v = self.read(pre, v.p)
                except Exception: return False
            return isinstance(v, z3.ExprRef) and v.sort() == I_
        # comparison atoms of the loop condition
        for j, (op, a, b) in enumerate(cond_atoms(n.get('c'))):
            def mk(a=a, b=b, op=op):
                def f(lv):
                    st = lv._s.copy(); sv = self.rec; self.rec = False; dv = self.dry; self.dry = True
                    try:
                        s1, x = self.ev1(a, st); x = self.rd(s1, x); s2, y = self.ev1(b, s1); y = self.rd(s2, y)
                    finally: self.rec = sv; self.dry = dv
                    if isinstance(x, Iter) and isinstance(y, Iter):
                        return x.pos <= y.pos
                    if not (isinstance(x, z3.ExprRef) and x.sort() == I_ and y.sort() == I_): return None
                    if op in ('<', '!='): return x <= y
                    if op == '<=': return x <= y + 1
                    if op == '>': return x >= y
                    if op == '>=': return x >= y - 1
                return f
            if op in ('<', '<=', '>', '>=', '!='): out.append(Cand('cond%d' % j, mk()))
        for r in mod:
            v = h.env.get(r)
            nm = r.split('@')[0].split('#')[0]
            if isinstance(v, z3.ExprRef) and v.sort() == I_:
                out.append(Cand(nm + '>=entry', lambda lv, r=r: lv.var(r) >= lv.var0(r)))
                out.append(Cand(nm + '<=entry', lambda lv, r=r: lv.var(r) <= lv.var0(r)))
                out.append(Cand(nm + '>=0', lambda lv, r=r: lv.var(r) >= 0))
            elif isinstance(v, Iter):
                out.append(Cand(nm + '.pos>=entry', lambda lv, r=r: lv._s.env[r].pos >= lv._entry.env[r].pos))
                out.append(Cand(nm + '.pos>=0', lambda lv, r=r: lv._s.env[r].pos >= 0))
                def lesz(lv, r=r):
                    it = lv._s.env[r]; c = self.read(lv._s, it.p)
                    return it.pos <= (vlen(c) if it.kind == 'vec' else mapsize(c))
                out.append(Cand(nm + '.pos<=size', lesz))
        for r, fs in done:
            p = Path(r, [('f', f) for f in fs])
            try: v = self.read(h, p)
            except Unsupported: continue
            if isinstance(v, z3.ExprRef): self.frame_cands(out, r.split('@')[0] + ''.join('.' + f for f in fs), p, v, 0)
        lvp = LoopView(self, pre, self.entry, pre)
        for spec in (self.con.invs or ()):
            name, holes, f = spec
            for combo in self.fill(holes, pre, vars_, done):
                nm = name + ('(' + ','.join(c.split('@')[0].split('#')[0] for c in combo) + ')' if combo else '')
                def g(lv, combo=combo, f=f):
                    hs = [Hole(lv, c) for c in combo]
                    r = f(lv, *hs)
                    if isinstance(r, (list, tuple)): r = And(*r)
                    return r
                out.append(Cand(nm, g))
        return out
    def frame_cands(self, out, nm, p, v, depth):
        i = si(v.sort())
        if i is None or depth > 3: return
        if i.kind == 'rec':
            for f in i.fields: self.frame_cands(out, nm + '.' + f, p.add(('f', f)), fld(v, f), depth + 1)
        elif i.kind == 'vec':
            def ln(lv, p=p): return vlen(self.read(lv._s, p)) == vlen(self.read(lv._entry, p))
            out.append(Cand(nm + '.len=entry', ln))
            e = si(i.el)
            if e and e.kind == 'vec':
                def ln2(lv, p=p):
                    k = z3.Int('k!fr'); a = self.read(lv._s, p); b = self.read(lv._entry, p)
                    return ForAll([k], vlen(vsel(a, k)) == vlen(vsel(b, k)), patterns=[vsel(a, k)])
                out.append(Cand(nm + '[].len=entry', ln2))
        elif i.kind == 'map':
            def dm(lv, p=p): return And(mapdom(self.read(lv._s, p)) == mapdom(self.read(lv._entry, p)), mapsize(self.read(lv._s, p)) == mapsize(self.read(lv._entry, p)))
            out.append(Cand(nm + '.dom=entry', dm))
    def fill(self, holes, pre, vars_, done):
        mod = {r for r, fs in done if not fs}
        def ok(h, r):
            v = pre.env[r]
            if isinstance(v, Ref):
                try: v = self.read(pre, v.p)
                except Exception: return False
            if callable(h): 
                try: return h(r, v, r in mod)
                except Exception: return False
            if h == 'I': return isinstance(v, z3.ExprRef) and v.sort() == I_
            if h == 'mI': return isinstance(v, z3.ExprRef) and v.sort() == I_ and r in mod
            if h == 'R': return isinstance(v, z3.ExprRef) and v.sort() == R_
            if h == 'B': return isinstance(v, z3.ExprRef) and v.sort() == B_
            if h == 'it': return isinstance(v, Iter)
            if h == 'vec': return isinstance(v, z3.ExprRef) and si(v.sort()) is not None and si(v.sort()).kind == 'vec'
            return isinstance(v, z3.ExprRef) and v.sort() == h
        combos = [()]
        for h in holes:
            combos = [c + (r,) for c in combos for r in vars_ if r not in c and ok(h, r)]
            if len(combos) > 400: combos = combos[:400]
        return combos

    # ---------- top level ----------
    def verify(self, f, con, cls=None):
        self.con = con; self.dyncls = cls or con.cls or (f.get('cls') or {}).get('q')
        self.lord = {}; self.lstack = []; self.lmemo = dict(self.hints)
        self.obl = []; self.invlog = []; self.mergecap = getattr(con, 'mergecap', 24); self.rtype = {}
        st = State()
        this = None
        if f.get('cls') and not f.get('static'):
            t = f['cls']
            if con.cls:
                r = self.tu['records'].get(con.cls) or next((x for x in self.tu['records'].values() if x['name'] == con.cls), None)
                nm = con.cls if con.cls in self.tu['records'] else next(k for k, x in self.tu['records'].items() if x['name'] == con.cls)
                t = {'rec': r['name'], 'q': nm}
                self.dyncls = nm
            v = self.types.sort(t)
            val = fresh(v, 'this')
            st.env['this'] = val
            this = Ref(Path('this'))
        fr = Frame(f, this, None); st.frames = [fr]
        self.top_this = this; self.top_args = []
        if this is not None:
            self.deepfacts(st, st.env['this'])
        for p in f['params']:
            r = '%s@%d.%d' % (p['n'], p['d'], fr.uid)
            t = p['t']; tt = strip_ref(t)
            if 'p' in tt and ('rec' in tt['p']):
                v = fresh(self.types.sort(tt['p']), p['n']); o = 'obj:' + p['n']; st.env[o] = v; self.facts(st, v, tt['p']); self.deepfacts(st, v)
                pv = PtrTo(Path(o))
                st.env[r] = pv
            elif 'r' in t:
                o = 'ref:' + p['n'] + str(p['d']); s = self.types.sort(tt)
                if isopq(s): st.env[o] = Opq(p['n'])
                else:
                    v = fresh(s, p['n']); st.env[o] = v; self.facts(st, v, tt); self.deepfacts(st, v)
                    self.rtype[o] = tt
                st.env[r] = Ref(Path(o))
            elif 'p' in tt and ('b' in tt['p'] and tt['p']['b'] != 'void'):
                v = fresh(self.types.sort(tt), p['n']); o = 'buf:' + p['n']; st.env[o] = v; self.deepfacts(st, v)
                st.env[r] = PtrTo(Path(o), IntVal(0))
            else:
                s = self.types.sort(t)
                if isopq(s): st.env[r] = Opq(p['n'])
                else:
                    v = fresh(s, p['n']); st.env[r] = v; self.facts(st, v, t); self.deepfacts(st, v)
                    self.rtype[r] = t
            self.top_args.append(r)
        if f.get('ctor') and this is not None:
            st.env['this'] = self.defaults(st, t if False else f['cls'], st.env['this'])
        self.entry = st.copy()
        c0 = Ctx(self, st, self.entry)
        if con.lemmas:
            for g in con.lemmas(c0): st.add(g)
        if con.requires:
            for _, g in norm_list(con.requires(c0)): st.add(g)
        self.entry = st.copy()
        self.reqs = list(st.pc) + list(st.q)
        if con.entry: con.entry(self, st)
        outs = self.body(st, f, fr)
        self.nexit = len(outs)
        for s, v in outs:
            if isinstance(v, tuple): v = self.asz(s, v)
            if isinstance(v, Fresh): v = v.v
            c = Ctx(self, s, self.entry, v if v is not VOID else None)
            if isinstance(v, z3.ExprRef): self.facts(s, v, f['rt'])
            self.covers.append((list(s.pc), list(s.q)))
            if con.ensures:
                for nm, g in norm_list(con.ensures(c)):
                    if str(nm).startswith('definition:'): self.assumed.add('%s: %s' % (con.q, nm)); continue   # ghost function defined as the result of this deterministic function
                    self.obl.append(Obl('post:' + str(nm), s.pc + s.q, g, f['line'], f['q'], 'post'))
        return self.obl

def number_loops(f):
    cnt = [0]
    def go(x):
        if isinstance(x, dict):
            if x.get('k') in ('for', 'while', 'do'): x['lid'] = '%s#%d' % (f['q'], cnt[0]); cnt[0] += 1
            for v in x.values(): go(v)
        elif isinstance(x, list):
            for v in x: go(v)
    go(f.get('body'))
def saturated(why): return not any(w in why for w in ('cancel', 'timeout', 'resource', 'memout', 'interrupt'))
def residue(hyps, goal):
    """the conjuncts of the goal that are not literally among the hypotheses (None: all are)"""
    def flat(fs, out):
        for f in fs:
            if z3.is_and(f): flat(f.children(), out)
            else: out.append(f)
        return out
    gs = flat([goal], [])
    if len(gs) == 1 and not z3.is_quantifier(gs[0]): return goal
    hs = {f.get_id() for f in flat(hyps, [])}
    rs = [g for g in gs if g.get_id() not in hs]
    if not rs: return None
    return goal if len(rs) == len(gs) else And(*rs)

def dedup(fs):
    seen = set(); out = []
    for f in fs:
        i = f.get_id()
        if i not in seen: seen.add(i); out.append(f)
    return out
class Hole:
    def __init__(s, lv, root): s.lv = lv; s.root = root
    @property
    def cur(s): return s.lv.var(s.root)
    @property
    def pre(s): return s.lv.var0(s.root)
    @property
    def pos(s): return s.lv._s.env[s.root].pos
    @property
    def it(s): return s.lv._s.env[s.root]

def norm_list(xs):
    if xs is None: return []
    if isinstance(xs, z3.ExprRef): xs = [xs]
    out = []
    for i, x in enumerate(xs):
        if isinstance(x, tuple): out.append((x[0], BoolVal(x[1]) if isinstance(x[1], bool) else x[1]))
        else: out.append((i, BoolVal(x) if isinstance(x, bool) else x))
    return out
def cond_atoms(e):
    if not e: return
    if e['k'] == 'cast' and e['ck'] in ('NoOp', 'IntegralToBoolean'): yield from cond_atoms(e['e']); return
    if e['k'] == 'bin':
        if e['op'] in ('&&', '||'):
            yield from cond_atoms(e['a']); yield from cond_atoms(e['b'])
        elif e['op'] in ('<', '<=', '>', '>=', '!='): yield (e['op'], e['a'], e['b'])
    elif e['k'] in ('call', 'mcall') and e['fn']['q'].endswith('operator!='):
        a = ([e['obj']] if e['k'] == 'mcall' else []) + e['args']
        yield ('!=', a[0], a[1])
def unif(v):
    """int -> bool, undoing bool -> int"""
    if v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0: return v.arg(0)
    return v != 0
def trunc(v): return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
def flt(s):
    from fractions import Fraction
    f = Fraction(s)
    return str(Fraction(float(s)) if abs(f) > 10**300 else f)
