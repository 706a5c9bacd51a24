"""Models of the C++ standard library (assumed contracts on dependencies)."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll, Exists, RealVal
from sorts import *
from values import *

TRUE = BoolVal(True)
log = z3.Function('log', R_, R_); exp = z3.Function('exp', R_, R_)
sqrt = z3.Function('sqrt', R_, R_); powf = z3.Function('pow', R_, R_, R_)
bitf = {}
STREAMS = ('basic_ostream', 'basic_istream', 'basic_ofstream', 'basic_ifstream', 'basic_ios', 'basic_stringstream', 'basic_ostringstream', 'basic_istringstream', 'ios_base', 'basic_iostream')

def log_axioms():
    x, y = z3.Reals('x!l y!l')
    return [ForAll([x], exp(x) > 0, patterns=[exp(x)]), ForAll([x], log(exp(x)) == x, patterns=[exp(x)]),
            ForAll([x], Implies(x > 0, exp(log(x)) == x), patterns=[log(x)]),
            ForAll([x, y], Implies(And(x > 0, y > 0, x <= y), log(x) <= log(y)), patterns=[z3.MultiPattern(log(x), log(y))]),
            ForAll([x, y], Implies(x <= y, exp(x) <= exp(y)), patterns=[z3.MultiPattern(exp(x), exp(y))]),
            log(RealVal(1)) == 0, exp(RealVal(0)) == 1]
BITNAMES = {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr', '~': 'not'}
def bitfn(op, w):
    n = 'bit_%s%d' % (BITNAMES[op], w)
    return bitf.setdefault(n, z3.Function(n, I_, I_, I_))
def bitop(eng, st, op, a, b, t):
    r = irange(t); w = (r[1] - r[0] + 1).bit_length() - 1 if r else 64
    sg = bool(r) and r[0] < 0
    if sg: a = a if z3.is_int_value(a) and a.as_long() >= 0 else a % 2**w; b = b if op in ('<<', '>>', '~') or z3.is_int_value(b) and b.as_long() >= 0 else b % 2**w
    if op in ('<<', '>>') and eng.con.bits: eng.oblige(st, 'shift amount within the width', And(b >= 0, b < w), {'l': 0}, 'shift')
    v = bitfn(op, w)(a, b); st.add(And(v >= 0, v < 2**w))
    if sg: v = If(v >= 2**(w-1), v - 2**w, v)
    if not eng.con.bits: eng.assumed.add('bitwise %s uninterpreted' % op)
    return v
BIT = z3.Function('bit', I_, I_, B_); LOWBIT = z3.Function('lowbit', I_, I_)
def bit_axioms(w=32, ops='&|^~<>'):
    """each of these is an obligation of its own, discharged over bit vectors (bit_lemmas)"""
    a, b, k, n = z3.Ints('a!b b!b k!b n!b'); F = lambda o: bitfn(o, w); inb = And(k >= 0, k < w); m = 2**w
    out = [ForAll([k], Not(BIT(IntVal(0), k)), patterns=[BIT(IntVal(0), k)]),
           ForAll([k], Implies(inb, BIT(IntVal(1), k) == (k == 0)), patterns=[BIT(IntVal(1), k)]), ForAll([k], Implies(inb, BIT(IntVal(m - 1), k)), patterns=[BIT(IntVal(m - 1), k)])]
    for o, f in (('&', And), ('|', Or), ('^', z3.Xor)):
        out.append(ForAll([a, b, k], Implies(inb, BIT(F(o)(a, b), k) == f(BIT(a, k), BIT(b, k))), patterns=[BIT(F(o)(a, b), k)]))
    out.append(ForAll([a, b, k], Implies(inb, BIT(F('~')(a, b), k) == Not(BIT(a, k))), patterns=[BIT(F('~')(a, b), k)]))
    out.append(ForAll([a, n, k], Implies(And(inb, n >= 0, n < w), BIT(F('<<')(a, n), k) == And(k >= n, BIT(a, k - n))), patterns=[BIT(F('<<')(a, n), k)]))
    out.append(ForAll([a, n, k], Implies(And(inb, n >= 0, n < w), BIT(F('>>')(a, n), k) == And(k + n < w, BIT(a, k + n))), patterns=[BIT(F('>>')(a, n), k)]))
    for o in '&': out.append(ForAll([a, b, k], Implies(And(inb, BIT(a, k), BIT(b, k)), BIT(F(o)(a, b), k)), patterns=[z3.MultiPattern(F(o)(a, b), BIT(a, k))])); out.append(ForAll([a, b], Implies(F(o)(a, b) != 0, And(LOWBIT(F(o)(a, b)) >= 0, LOWBIT(F(o)(a, b)) < w, BIT(F(o)(a, b), LOWBIT(F(o)(a, b))))), patterns=[F(o)(a, b)]))
    o = '<<'; out.append(ForAll([a, n, k], Implies(And(inb, n >= 0, n < w, k + n < w, BIT(a, k)), BIT(F(o)(a, n), k + n)), patterns=[z3.MultiPattern(F(o)(a, n), BIT(a, k))])); out.append(ForAll([a, b], Implies(And(b >= 0, b < w, F(o)(a, b) != 0), And(LOWBIT(F(o)(a, b)) >= 0, LOWBIT(F(o)(a, b)) < w, BIT(F(o)(a, b), LOWBIT(F(o)(a, b))))), patterns=[F(o)(a, b)]))
    return out
def bit_lemmas(w=32):
    """the bit axioms over machine words (bit vectors): valid formulas"""
    A, B, K, N = [z3.BitVec(x, w) for x in ('A!v', 'B!v', 'K!v', 'N!v')]; bt = lambda x, k: z3.Extract(0, 0, z3.LShR(x, k)) == 1; inb = z3.ULT(K, w); inn = z3.ULT(N, w); c = z3.BitVecVal
    return [('bits of zero', Implies(inb, Not(bt(c(0, w), K)))), ('bits of one', Implies(inb, bt(c(1, w), K) == (K == 0))), ('bits of all ones', Implies(inb, bt(c(-1, w), K))),
            ('bits of and', Implies(inb, bt(A & B, K) == And(bt(A, K), bt(B, K)))), ('bits of or', Implies(inb, bt(A | B, K) == Or(bt(A, K), bt(B, K)))), ('bits of xor', Implies(inb, bt(A ^ B, K) == z3.Xor(bt(A, K), bt(B, K)))),
            ('bits of not', Implies(inb, bt(~A, K) == Not(bt(A, K)))), ('bits of a left shift', Implies(And(inb, inn), bt(A << N, K) == And(z3.UGE(K, N), bt(A, K - N)))),
            ('bits of a right shift', Implies(And(inb, inn), bt(z3.LShR(A, N), K) == And(z3.ULT(K + N, w), bt(A, K + N)))),
            ('a non-zero word has a bit', Implies(And(*[Not(bt(A, c(k, w))) for k in range(w)]), A == 0)), ('words with equal bits are equal', Implies(And(*[bt(A, c(k, w)) == bt(B, c(k, w)) for k in range(w)]), A == B))]

def size_of(eng, st, it):
    c = eng.read(st, it.p); eng.facts(st, c, None)
    return vlen(c) if it.kind == 'vec' else mapsize(c)

def iterop(eng, st, op, a, b, e):
    if isinstance(a, Iter) and isinstance(b, Iter):
        if op in ('==', '!='):
            h = a.rev if isinstance(a.rev, tuple) else None; g = b.rev if isinstance(b.rev, tuple) else None
            if h is not None and getattr(b, 'rev', None) == 'end': r = Not(h[1])
            elif g is not None and getattr(a, 'rev', None) == 'end': r = Not(g[1])
            else: r = a.pos == b.pos
            return r if op == '==' else Not(r)
        if op == '-': return a.pos - b.pos
        return {'<': a.pos < b.pos, '>': a.pos > b.pos, '<=': a.pos <= b.pos, '>=': a.pos >= b.pos}[op]
    if isinstance(a, Iter) and isinstance(b, z3.ExprRef):
        return Iter(a.p, a.pos + b if op == '+' else a.pos - b, a.kind, a.rev if a.rev is True else False)
    raise Unsupported('iterator ' + op)

def kind(v):
    if isinstance(v, z3.ExprRef):
        i = si(v.sort()); return i.kind if i else None
    return None

def fresh_vec(eng, st, sort, n, cond):
    """new vec of length n whose element i satisfies cond(i, elem)"""
    a = fresh(z3.ArraySort(I_, si(sort).el), 'arr')
    k = z3.Int('k!fv')
    st.q.append(ForAll([k], cond(k, z3.Select(a, k)), patterns=[z3.Select(a, k)]))
    return mkvec(sort, n, a)

def veq(a, b):
    """equality of sequences"""
    i = si(a.sort())
    if a.eq(b): return TRUE
    na, nb = vlen(a), vlen(b)
    if z3.is_int_value(nb) or z3.is_int_value(na):
        n = nb if z3.is_int_value(nb) else na
        if n.as_long() <= 40:
            return And(na == nb, *[elem_eq(vsel(a, j), vsel(b, j)) for j in range(n.as_long())])
    k = z3.Int('k!eq')
    return And(na == nb, ForAll([k], Implies(And(0 <= k, k < na), elem_eq(vsel(a, k), vsel(b, k)))))
def elem_eq(x, y):
    if kind(x) == 'vec': return veq(x, y)
    if kind(x) == 'rec' and x.sort().name().startswith('Pair<'):
        return And(elem_eq(fld(x, 'first'), fld(y, 'first')), elem_eq(fld(x, 'second'), fld(y, 'second')))
    return x == y
def eq(eng, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported('tuple eq')
    if kind(a) == 'vec':
        if eng.con.norm: return a == b
        return veq(a, b)
    if kind(a) == 'rec' and a.sort().name().startswith('Pair<'): return And(eq(eng, fld(a, 'first'), fld(b, 'first')), eq(eng, fld(a, 'second'), fld(b, 'second')))
    return a == b
def lt(eng, a, b):
    if a.sort() in (I_, R_): return a < b
    if kind(a) == 'rec' and a.sort().name().startswith('Pair<'):
        x, y = fld(a, 'first'), fld(b, 'first')
        return Or(lt(eng, x, y), And(Not(lt(eng, y, x)), lt(eng, fld(a, 'second'), fld(b, 'second'))))
    raise Unsupported('ordering')

def construct(eng, s, e, fn, vs):
    t = e['t']; q = t['rec']; so = eng.types.sort(t)
    rv = [eng.rd(s, v) for v in vs]
    if q.startswith(('__gnu_cxx::__normal_iterator','__gnu_cxx::_Hashtable_')) or q.startswith('std::_') and q != 'std::_Bit_reference' or q == 'std::reverse_iterator' or ('::' in q and q.split('::')[0] in ASMAP):
        if rv:
            return [(s, rv[0] if isinstance(rv[0], Iter) else Opq(q))]
        return [(s, Opq(q))]
    if q == 'std::_Bit_reference': return [(s, vs[0])]
    if any(q.endswith(x) for x in STREAMS) or so is None or isopq(so): return [(s, Opq(q))]
    i = si(so)
    n = len(vs); pt = fn['pt']
    # allocator arguments
    while n and 'rec' in strip_ref(pt[n - 1]) and strip_ref(pt[n - 1])['rec'] == 'std::allocator': n -= 1
    rv = rv[:n]; pt = pt[:n]
    if n == 0: return [(s, default(so))]
    if n == 1 and isinstance(rv[0], z3.ExprRef) and rv[0].sort() == so: return [(s, rv[0])]
    if i.kind == 'vec':
        def isint(x): return isinstance(x, z3.ExprRef) and x.sort() == I_
        if n == 1 and isint(rv[0]): return [(s, mkvec(so, rv[0], z3.K(I_, default(i.el))))]
        if n == 2 and isint(rv[0]) and isinstance(rv[1], z3.ExprRef) :
            return [(s, fillv(eng, s, so, rv[0], eng.conv(s, rv[1], t['args'][0])))]
        if n == 2 and isinstance(rv[0], Iter) and isinstance(rv[1], Iter):
            return [(s, rangev(eng, s, so, rv[0], rv[1]))]
        if n == 1 and isinstance(rv[0], Init):
            a = z3.K(I_, default(i.el))
            for k, x in enumerate(rv[0].vals): a = z3.Store(a, k, eng.conv(s, eng.asz(s, x), t['args'][0]))
            return [(s, mkvec(so, IntVal(len(rv[0].vals)), a))]
        if n == 1 and isinstance(rv[0], PtrTo): return [(s, eng.read(s, rv[0].p))]
    if i.kind == 'rec' and q == 'std::pair':
        if n == 2:
            if all(isinstance(x, z3.ExprRef) for x in rv):
                a = eng.conv(s, rv[0], t['args'][0]); b = eng.conv(s, rv[1], t['args'][1])
                return [(s, i.mk(a, b))]
            return [(s, tuple(rv))]
        if n == 1:
            if isinstance(rv[0], z3.ExprRef):
                a, b = fld(rv[0], 'first'), fld(rv[0], 'second')
                return [(s, i.mk(eng.conv(s, a, t['args'][0]), eng.conv(s, b, t['args'][1])))]
            return [(s, rv[0])]
    if n == 1 and not isinstance(rv[0], z3.ExprRef) and i.kind in ('map', 'set'):
        return [(s, default(so))]
    if i.kind in ('map', 'set'): return [(s, default(so))] if not any(isinstance(x, (Iter, Init)) for x in rv) else _uns('ctor ' + q)
    raise Unsupported('std constructor %s/%d' % (q, n))
def _uns(m): raise Unsupported(m)
def fillv(eng, s, so, n, x):
    d = default(si(so).el)
    if x.eq(d) or z3.is_int_value(n): 
        if x.eq(d): return mkvec(so, n, z3.K(I_, d))
    return fresh_vec(eng, s, so, n, lambda k, y: y == If(And(0 <= k, k < n), x, d))
def rangev(eng, s, so, a, b):
    src = eng.read(s, a.p); n = b.pos - a.pos
    if a.kind != 'vec': raise Unsupported('range of map')
    eng.facts(s, src, None)
    if eng.con.bounds: eng.oblige(s, 'bounds:range', And(0 <= a.pos, a.pos <= b.pos, b.pos <= vlen(src)), None, 'bounds')
    else: s.add(And(0 <= a.pos, a.pos <= b.pos, b.pos <= vlen(src)))
    d = default(si(so).el)
    n = z3.simplify(n)
    if src.sort() != so: raise Unsupported('range of other type')
    return fresh_vec(eng, s, so, n, lambda k, y: y == If(And(0 <= k, k < n), vsel(src, a.pos + k), d))

def streamish(t):
    t = strip_ref(t) if t else None
    return bool(t) and 'rec' in t and any(t['rec'].endswith(x) for x in STREAMS)

def call(eng, s, fn, this, vs, e):
    """None: not modelled"""
    q = fn['q']
    name = q.rsplit('::', 1)[1] if '::' in q else q
    if this is not None and ASMAP and q.split('::')[0] in ASMAP:
        if name == 'findPtr': raise Unsupported('findPtr')
        if q.split('::')[0] in SEQKEY and name in ('insert', 'find') and q.count('::') == 1: return trie_method(eng, s, name, this, vs, e)
        return method(eng, s, fn, 'std::map::' + name, name, this, vs, e)
    if q in ('operator<<',) and streamish(fn['rt']): return vs[0]
    if q.startswith('std::') or q.startswith('__gnu_cxx') or this is not None and q.startswith('std'):
        if streamish(fn.get('rt')) and name not in ('getline',): return Opq('stream')
        if this is not None and streamish(fn.get('cls')):
            if name in ('operator!', 'eof', 'fail', 'good', 'is_open', 'operator bool'): return fresh(B_, 'io')
            return Opq('stream')
    if q in ('printf', 'fprintf', 'fflush', 'puts', 'putchar', 'fputs', 'perror', 'free', 'ctimer', 'fclose', 'exit'):
        if q == 'free': return VOID
        return fresh(I_, 'io')
    if this is None: return free(eng, s, fn, q, name, vs, e)
    if not (q.startswith('std::') or q.startswith('__gnu_cxx::')): return None
    return method(eng, s, fn, q, name, this, vs, e)

def free(eng, s, fn, q, name, vs, e):
    rv = [eng.rd(s, v) for v in vs]
    if q in ('calloc',):
        n = rv[0]; so = vec(I_)
        return Fresh(mkvec(so, n, z3.K(I_, IntVal(0))))
    if q in ('realloc', 'memmove', 'memset') and isinstance(rv[0], PtrTo) and BUFREC: return rawmem(eng, s, q, rv, e)
    if q in ('malloc',): raise Unsupported('malloc')
    if q in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', 'std::__detail::operator==', 'std::__detail::operator!='):
        a, b = rv
        if isinstance(a, Iter) or isinstance(b, Iter): return iterop(eng, s, name[-2:], a, b, e)
        if isinstance(a, Opq) or isinstance(b, Opq): return fresh(B_, 'opq')
        a, b = eng.asz(s, a), eng.asz(s, b)
        r = eq(eng, a, b)
        return r if name == 'operator==' else Not(r)
    if q in ('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=', '__gnu_cxx::operator<'):
        a, b = rv
        if isinstance(a, Iter): return iterop(eng, s, name[8:], a, b, e)
        a, b = eng.asz(s, a), eng.asz(s, b)
        if kind(a) == 'vec': return strlt(eng, s, a, b, name[8:])
        return {'<': lt(eng, a, b), '>': lt(eng, b, a), '<=': Not(lt(eng, b, a)), '>=': Not(lt(eng, a, b))}[name[8:]]
    if q in ('std::operator-', '__gnu_cxx::operator-') and isinstance(rv[0], Iter): return iterop(eng, s, '-', rv[0], rv[1], e)
    if q == 'std::operator+':
        a, b = rv
        if isinstance(a, Iter): return iterop(eng, s, '+', a, b, e)
        so = vec(I_)
        a = eng.asz(s, a); b = eng.asz(s, b)
        if a.sort() == I_: a = mkvec(so, IntVal(1), z3.Store(z3.K(I_, IntVal(0)), 0, a))
        if b.sort() == I_: b = mkvec(so, IntVal(1), z3.Store(z3.K(I_, IntVal(0)), 0, b))
        return concat(eng, s, a, b)
    if name in ('min', 'max') and q.startswith('std::') and len(rv) == 2:
        a, b = rv
        return If(b < a, b, a) if name == 'min' else If(a < b, b, a)
    if q == 'std::make_pair':
        if all(isinstance(x, z3.ExprRef) for x in rv):
            so = eng.types.sort(fn['rt']); a = fn['rt']['args']
            return si(so).mk(eng.conv(s, rv[0], a[0]), eng.conv(s, rv[1], a[1]))
        return tuple(rv)
    if q in ('std::move', 'std::forward'): return vs[0]
    if q == 'std::swap' and len(vs) == 2:
        a, b = rv
        eng.write(s, vs[0].p, b); eng.write(s, vs[1].p, a); return VOID
    if q in ('std::swap',): return None
    if name in ('log', 'logf', 'exp', 'sqrt', 'pow', 'fabs', 'abs', 'floor', 'ceil', 'isnan', 'isinf', 'fabsf', 'log10', 'round', 'expf', '__builtin_isnan', 'log1p') and (q.startswith('std::') or '::' not in q):
        x = rv[0]
        if x.sort() == I_ and name not in ('abs',): x = z3.ToReal(x)
        if name in ('log', 'logf'):
            s.once('logax', log_axioms()); eng.assumed.add('axioms of log/exp over the reals'); return log(x)
        if name in ('exp', 'expf'):
            s.once('logax', log_axioms()); eng.assumed.add('axioms of log/exp over the reals'); return exp(x)
        if name == 'log1p':
            s.once('logax', log_axioms()); return log(1 + x)
        if name == 'log10': return log(x) / log(RealVal(10))
        if name == 'sqrt':
            r = sqrt(x); s.add(Implies(x >= 0, And(r >= 0, r * r == x))); return r
        if name == 'pow': return powf(x, z3.ToReal(rv[1]) if rv[1].sort() == I_ else rv[1])
        if name in ('fabs', 'abs', 'fabsf'): return If(x >= 0, x, -x)
        if name == 'floor': return z3.ToReal(z3.ToInt(x))
        if name == 'ceil': return -z3.ToReal(z3.ToInt(-x))
        if name in ('isnan', 'isinf', '__builtin_isnan'): eng.assumed.add('no NaN/infinity'); return BoolVal(False)
    if name in ('atoi', 'atof', 'strtol', 'strtod', 'stoi', 'stod', 'rand', 'time', 'clock', 'strcmp', 'isspace', 'isdigit', 'isalpha', 'toupper', 'tolower', 'strlen') and ('::' not in q or q.startswith('std::')):
        so = eng.types.sort(fn['rt']); x0 = eng.read(s, rv[0].p) if rv and isinstance(rv[0], Ref) else rv[0] if rv else None
        if name in ('atoi', 'atof', 'strlen') and len(rv) == 1 and isinstance(x0, z3.ExprRef) and x0.sort() == vec(I_):      # a function of the characters
            eng.assumed.add('%s is a function of its text' % name)
            r = vlen(x0) if name == 'strlen' else z3.Function(name + '!value', vec(I_), so)(x0)
            eng.facts(s, r, fn['rt']); return r
        r = fresh(so, name); eng.facts(s, r, fn['rt'])
        if name in ('rand',): s.add(r >= 0)
        eng.assumed.add('result of %s arbitrary' % name)
        return r
    if q in ('srand', 'std::srand', 'printf', 'fprintf', 'fflush', 'std::fprintf', 'std::printf'): return VOID
    if q in ('std::distance',): return rv[1].pos - rv[0].pos
    if q == 'std::advance':
        it = rv[0]; eng.write(s, vs[0].p, Iter(it.p, it.pos + rv[1], it.kind, False)); return VOID
    if q in ('std::next', 'std::prev'):
        d = rv[1] if len(rv) > 1 else IntVal(1)
        return Iter(rv[0].p, rv[0].pos + d if q == 'std::next' else rv[0].pos - d, rv[0].kind, False)
    if q in ('std::reverse',) and isinstance(rv[0], Iter):
        p = rv[0].p; v = eng.read(s, p); a, b = rv[0].pos, rv[1].pos
        nv = fresh_vec(eng, s, v.sort(), vlen(v), lambda k, y: y == If(And(a <= k, k < b), vsel(v, a + b - 1 - k), vsel(v, k)))
        eng.write(s, p, nv); return VOID
    if q in ('std::sort', 'std::stable_sort') and isinstance(rv[0], Iter) and len(rv) == 2:
        p = rv[0].p; v = eng.read(s, p); a, b = rv[0].pos, rv[1].pos; n = vlen(v)
        if not (z3.is_true(z3.simplify(a == 0)) and (z3.is_true(z3.simplify(b == n)) or eng.qprove(s, b == n))): raise Unsupported('sort of a part')
        if si(v.sort()).kind != 'vec': raise Unsupported('sort')
        nv = fresh_vec(eng, s, v.sort(), n, lambda k, y: Implies(Or(k < 0, k >= n), y == default(si(v.sort()).el)))
        j, k = z3.Ints('j!so k!so'); f = countf(v.sort()); z = z3.Const('z!so', si(v.sort()).el)
        try: s.q.append(ForAll([j, k], Implies(And(0 <= j, j <= k, k < n), Not(lt(eng, vsel(nv, k), vsel(nv, j)))), patterns=[z3.MultiPattern(vsel(nv, j), vsel(nv, k))]))
        except Unsupported: pass
        s.q.append(ForAll([z], f(varr(nv), n, z) == f(varr(v), n, z), patterns=[f(varr(nv), n, z), f(varr(v), n, z)]))
        eng.write(s, p, nv); return VOID
    if q in ('std::fill',) and isinstance(rv[0], Iter):
        p = rv[0].p; v = eng.read(s, p); a, b = rv[0].pos, rv[1].pos; x = rv[2]
        nv = fresh_vec(eng, s, v.sort(), vlen(v), lambda k, y: y == If(And(a <= k, k < b), x, vsel(v, k)))
        eng.write(s, p, nv); return VOID
    return None

def bytesize(e):
    """the element size in a byte count: the sizeof factor of the expression"""
    if isinstance(e, dict):
        if 'szof' in e: return int(e['v'])
        if e.get('k') in ('bin',) and e.get('op') == '*': return bytesize(e['a']) or bytesize(e['b'])
        if e.get('k') in ('cast', 'paren'): return bytesize(e['e'])
    return None
def rawmem(eng, s, q, rv, e):
    k = bytesize(e['args'][-1])
    if k is None: raise Unsupported(q + ' without a sizeof factor')
    p = rv[0].p; o = eng.read(s, p); so = o.sort(); n = vlen(o); i0 = rv[0].idx; i = si(so)
    cnt = rv[-1] / k if not z3.is_int_value(rv[-1]) else IntVal(rv[-1].as_long() // k)
    eng.assumed.add('byte counts do not wrap around; %s copies objects whole' % q)
    if q == 'realloc':
        m = cnt; a = varr(o); f = fresh(z3.ArraySort(I_, i.el), 'mem'); j = z3.Int('j!ra')
        s.q.append(ForAll([j], z3.Select(f, j) == If(And(0 <= j, j < n, j < m), z3.Select(a, j), If(And(0 <= j, j < m), z3.Select(fresh(z3.ArraySort(I_, i.el), 'raw'), j), default(i.el))), patterns=[z3.Select(f, j)]))
        return Fresh(mkvec(so, m, f))
    if q == 'memset':
        eng.oblige(s, 'bounds:memset', And(0 <= i0, i0 + cnt <= n), e, 'bounds'); raw = fresh(z3.ArraySort(I_, i.el), 'raw')
        eng.write(s, p, fresh_vec(eng, s, so, n, lambda j, y: y == If(And(i0 <= j, j < i0 + cnt), z3.Select(raw, j), vsel(o, j)))); return VOID
    if not (isinstance(rv[1], PtrTo) and rv[1].p.root == p.root and rv[1].p.steps == p.steps): raise Unsupported('memmove between buffers')
    i1 = rv[1].idx
    eng.oblige(s, 'bounds:memmove', Implies(cnt > 0, And(0 <= i0, i0 + cnt <= n, 0 <= i1, i1 + cnt <= n)), e, 'bounds')
    nv = fresh_vec(eng, s, so, n, lambda j, y: y == If(And(i0 <= j, j < i0 + cnt), vsel(o, i1 + (j - i0)), vsel(o, j)))
    j = z3.Int('j!mv'); s.q.append(ForAll([j], Implies(And(i1 <= j, j < i1 + cnt), vsel(nv, i0 + (j - i1)) == vsel(o, j)), patterns=[vsel(o, j)]))
    eng.write(s, p, nv); return VOID
lex = {}
def strlt(eng, s, a, b, op):
    f = lex.setdefault(a.sort().name(), z3.Function('lexlt<%s>' % a.sort().name(), a.sort(), a.sort(), B_))
    eng.assumed.add('lexicographic order uninterpreted')
    return {'<': f(a, b), '>': f(b, a), '<=': Not(f(b, a)), '>=': Not(f(a, b))}[op]
def concat(eng, s, a, b):
    na, nb = vlen(a), vlen(b)
    if z3.is_int_value(nb) and nb.as_long() <= 32:
        arr = varr(a)
        for j in range(nb.as_long()): arr = z3.Store(arr, na + j, vsel(b, j))
        return mkvec(a.sort(), z3.simplify(na + nb), arr)
    eng.facts(s, a, None); eng.facts(s, b, None)
    d = default(si(a.sort()).el)
    return fresh_vec(eng, s, a.sort(), na + nb, lambda k, y: y == If(k < na, vsel(a, k), If(k < na + nb, vsel(b, k - na), d)))

def method(eng, s, fn, q, name, this, vs, e):
    # iterators
    obj = eng.rd(s, this) if not isinstance(this, Iter) else this
    if q in ('std::less::operator()', 'std::greater::operator()') and len(vs) == 2:
        x, y = eng.asz(s, vs[0]), eng.asz(s, vs[1])
        if kind(x) != 'vec': return lt(eng, x, y) if 'less' in q else lt(eng, y, x)
    if isinstance(obj, Opq):
        if name == 'operator=' and isinstance(this, Ref):
            v = eng.rd(s, vs[0]); eng.write(s, this.p, v); return this
        return Opq('opaque') if not (fn.get('rt') or {}).get('b') == 'bool' else fresh(B_, 'opq')
    if isinstance(obj, Iter):
        if name in ('operator*',): return eng.deref(s, obj, e)
        if name == 'operator->':
            r = eng.deref(s, obj, e)
            if isinstance(r, Ref): return PtrTo(r.p)
            return eng.temp(s, r) if not isinstance(r, Ref) else r
        if name in ('operator++', 'operator--'):
            d = 1 if name == 'operator++' else -1
            n = Iter(obj.p, obj.pos + d, obj.kind, obj.rev if obj.rev is True else False)
            if isinstance(this, Ref): eng.write(s, this.p, n)
            return obj if vs else (this if isinstance(this, Ref) else n)
        rv = [eng.rd(s, v) for v in vs]
        if name in ('operator!=', 'operator=='): return iterop(eng, s, name[-2:], obj, rv[0], e)
        if name == 'operator+' : return iterop(eng, s, '+', obj, rv[0], e)
        if name == 'operator-' : return iterop(eng, s, '-', obj, rv[0], e)
        if name in ('operator+=', 'operator-='):
            n = Iter(obj.p, obj.pos + rv[0] if name[8] == '+' else obj.pos - rv[0], obj.kind, obj.rev if obj.rev is True else False)
            eng.write(s, this.p, n); return this
        if name == 'operator=': eng.write(s, this.p, rv[0]); return this
        if name == 'operator[]': return eng.deref(s, Iter(obj.p, obj.pos + rv[0], obj.kind, False), e)
        if name == 'base': return Iter(obj.p, obj.pos, obj.kind, False)
        raise Unsupported('iterator method ' + name)
    if q.startswith('std::_Bit_reference'):
        if name == 'operator bool': return obj if isinstance(obj, z3.ExprRef) else eng.rd(s, obj)
        if name == 'operator=':
            v = eng.rd(s, vs[0]); eng.write(s, this.p, v if v.sort() == B_ else v != 0); return this
        if name == 'flip': eng.write(s, this.p, Not(obj)); return VOID
    if isinstance(obj, tuple):
        if name == 'operator=' : return None
        raise Unsupported('tuple method')
    if not isinstance(obj, z3.ExprRef):
        raise Unsupported('%s on %s' % (q, type(obj).__name__))
    k = kind(obj)
    if name.startswith('~'): return VOID
    if not isinstance(this, Ref): this = eng.temp(s, obj)
    if k == 'vec': return vec_method(eng, s, fn, q, name, this, obj, vs, e)
    if k in ('map', 'set'): return map_method(eng, s, fn, q, name, this, obj, vs, e, k)
    if k == 'rec' and name == 'operator=':
        v = eng.asz(s, vs[0])
        if v.sort() != obj.sort():
            i = si(obj.sort()); v = i.mk(*[eng_conv(eng, s, fld(v, f), i.fs[f]) for f in i.fields])
        eng.write(s, this.p, v); return this
    if name == 'swap' and k == 'rec':
        b = eng.rd(s, vs[0]); eng.write(s, this.p, b); eng.write(s, vs[0].p, obj); return VOID
    return None
def eng_conv(eng, s, v, so):
    if v.sort() == so: return v
    if so == R_ and v.sort() == I_: return z3.ToReal(v)
    if so == I_ and v.sort() == R_: return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    raise Unsupported('conv')

def vec_method(eng, s, fn, q, name, this, o, vs, e):
    i = si(o.sort()); n = vlen(o); eng.facts(s, o, None)
    elt = fn['cls'].get('args', [None])[0] if fn.get('cls') else None
    multi = q.startswith('std::multi') or q.startswith('std::priority')
    if multi: return multi_method(eng, s, fn, q, name, this, o, vs, e)
    def rv(j, t=None): return eng.rd(s, vs[j], t)
    def el(j):
        v = eng.asz(s, vs[j])
        if v.sort() != i.el and v.sort() in (I_, B_, R_): v = eng.conv(s, v, elt)
        return v
    p = this.p
    if name in ('size', 'length'): return n
    if name == 'empty': return n == 0
    if name == 'clear': eng.write(s, p, mkvec(o.sort(), IntVal(0), z3.K(I_, default(i.el)))); return VOID
    if name in ('push_back', 'emplace_back', 'push') or name == 'operator+=' and q.startswith('std::basic_string') and eng.asz(s, vs[0]).sort() == I_:
        x = el(0)
        eng.write(s, p, mkvec(o.sort(), z3.simplify(n + 1), z3.Store(varr(o), n, x)))
        return VOID if name != 'operator+=' else this
    if name == 'pop_back' or (name == 'pop' and q.startswith('std::stack')):
        if eng.con.bounds: eng.oblige(s, 'bounds:pop_back', n > 0, e, 'bounds')
        else: s.add(n > 0)
        eng.write(s, p, mkvec(o.sort(), z3.simplify(n - 1), z3.Store(varr(o), n - 1, default(i.el)))); return VOID
    if name in ('operator[]', 'at'):
        ix = rv(0)
        if q.startswith('std::basic_string') and name == 'operator[]':      # s[s.size()] reads the terminating zero
            eng.bounds(s, ix, n + 1, e, name); s.add(Implies(ix == n, z3.Select(varr(o), ix) == 0))
        else: eng.bounds(s, ix, n, e, name)
        return Ref(p.add(('i', ix)))
    if name == 'front' or (name == 'front' and q.startswith('std::queue')): eng.bounds(s, IntVal(0), n, e, 'front'); return Ref(p.add(('i', IntVal(0))))
    if name == 'back' or (name == 'top' and q.startswith('std::stack')): eng.bounds(s, IntVal(0), n, e, 'back'); return Ref(p.add(('i', z3.simplify(n - 1))))
    if name in ('begin', 'cbegin'): return Iter(p, IntVal(0), 'vec')
    if name in ('end', 'cend'): return Iter(p, n, 'vec')
    if name in ('reserve', 'shrink_to_fit'): return VOID
    if name in ('c_str', 'data'): return this
    if name == 'capacity': return n
    if name == 'resize':
        m = rv(0); x = el(1) if len(vs) > 1 else default(i.el)
        a = varr(o)
        nv = fresh_vec(eng, s, o.sort(), m, lambda k, y: y == If(And(0 <= k, k < m), If(k < n, z3.Select(a, k), x), default(i.el)))
        eng.write(s, p, nv); return VOID
    if name in ('operator=', 'assign'):
        if len(vs) == 1:
            v = eng.asz(s, vs[0])
            if v.sort() == I_: v = mkvec(o.sort(), IntVal(1), z3.Store(z3.K(I_, IntVal(0)), 0, v))
            if v.sort() != o.sort(): raise Unsupported('assign from other type')
            eng.write(s, p, v); return this if name == 'operator=' else VOID
        a, b = rv(0), rv(1)
        if isinstance(a, Iter): eng.write(s, p, rangev(eng, s, o.sort(), a, b)); return VOID
        eng.write(s, p, fillv(eng, s, o.sort(), a, el(1))); return VOID
    if name == 'swap':
        b = eng.rd(s, vs[0]); eng.write(s, p, b); eng.write(s, vs[0].p, o); return VOID
    if name in ('append', 'operator+='):
        if len(vs) == 1:
            eng.write(s, p, concat(eng, s, o, eng.asz(s, vs[0]))); return this
        if len(vs) == 2 and isinstance(rv(0), Iter): eng.write(s, p, concat(eng, s, o, rangev(eng, s, o.sort(), rv(0), rv(1)))); return this
    if name == 'push_front':
        x = el(0); eng.write(s, p, fresh_vec(eng, s, o.sort(), n + 1, lambda k, y: y == If(k == 0, x, vsel(o, k - 1)))); return VOID
    if name == 'pop_front' or (name == 'pop' and q.startswith('std::queue')):
        eng.bounds(s, IntVal(0), n, e, 'pop_front')
        eng.write(s, p, fresh_vec(eng, s, o.sort(), n - 1, lambda k, y: y == vsel(o, k + 1))); return VOID
    if name == 'insert':
        a = rv(0)
        if isinstance(a, Iter) and len(vs) == 2:
            x = el(1); ps = a.pos
            eng.oblige(s, 'bounds:insert', And(0 <= ps, ps <= n), e, 'bounds')
            if z3.is_true(z3.simplify(ps == n)): nv = mkvec(o.sort(), n + 1, z3.Store(varr(o), n, x))
            else: nv = fresh_vec(eng, s, o.sort(), n + 1, lambda k, y: y == If(k < ps, vsel(o, k), If(k == ps, x, vsel(o, k - 1))))
            eng.write(s, p, nv); return Iter(p, ps, 'vec')
        if isinstance(a, Iter) and len(vs) == 3 and isinstance(rv(1), Iter):
            r = rangev(eng, s, o.sort(), rv(1), rv(2)); ps = a.pos; m = vlen(r)
            eng.oblige(s, 'bounds:insert', And(0 <= ps, ps <= n), e, 'bounds')
            nv = fresh_vec(eng, s, o.sort(), n + m, lambda k, y: y == If(k < ps, vsel(o, k), If(k < ps + m, vsel(r, k - ps), vsel(o, k - m))))
            eng.write(s, p, nv); return Iter(p, ps, 'vec')
        if isinstance(a, Iter) and len(vs) == 3:
            m = rv(1); x = el(2); ps = a.pos
            eng.oblige(s, 'bounds:insert', And(0 <= ps, ps <= n), e, 'bounds')
            nv = fresh_vec(eng, s, o.sort(), n + m, lambda k, y: y == If(k < ps, vsel(o, k), If(k < ps + m, x, vsel(o, k - m))))
            eng.write(s, p, nv); return Iter(p, ps, 'vec')
    if name == 'erase':
        a = rv(0)
        if isinstance(a, Iter):
            b = rv(1) if len(vs) > 1 else None; ps = a.pos; m = b.pos - ps if b is not None else IntVal(1)
            eng.oblige(s, 'bounds:erase', And(0 <= ps, m >= 0, ps + m <= n), e, 'bounds')
            nv = fresh_vec(eng, s, o.sort(), n - m, lambda k, y: y == If(k < ps, vsel(o, k), vsel(o, k + m)))
            eng.write(s, p, nv); return Iter(p, ps, 'vec')
    if name == 'substr':
        a = rv(0); m = rv(1) if len(vs) > 1 else n
        eng.oblige(s, 'bounds:substr', And(0 <= a, a <= n), e, 'bounds')
        r = If(m < n - a, m, n - a)
        return fresh_vec(eng, s, o.sort(), r, lambda k, y: y == If(And(0 <= k, k < r), vsel(o, a + k), default(i.el)))
    if name == 'compare' and len(vs) == 1:
        r = fresh(I_, 'cmp'); b = eng.asz(s, vs[0]); s.add((r == 0) == eq(eng, o, b)); return r
    if name == 'find' and q.startswith('std::basic_string'):
        r = fresh(I_, 'find'); x = eng.asz(s, vs[0]); st0 = rv(1) if len(vs) > 1 and isinstance(rv(1), z3.ExprRef) else IntVal(0)
        npos = 2**64 - 1
        if x.sort() == I_:
            k = z3.Int('k!fd')
            s.add(Or(r == npos, And(st0 <= r, r < n, vsel(o, r) == x)))
            s.q.append(ForAll([k], Implies(And(st0 <= k, k < n, Or(r == npos, k < r)), vsel(o, k) != x)))
            return r
        eng.assumed.add('string::find(substring) arbitrary'); s.add(Or(r == npos, And(0 <= r, r <= n))); return r
    raise Unsupported('%s/%d' % (q, len(vs)))

CMPGT = ('greaterScore', 'std::greater')      # comparators known to order from high to low (greaterScore is under contract itself)
_ub = {}
def ubf(sort, key, gt):
    """position behind the last element that does not come after key in an ordered sequence"""
    return _ub.setdefault((sort.name(), gt), z3.Function('ub<%s>%s' % (sort.name(), 'g' if gt else 'l'), sort, key, I_))
def before_(gt, a, b): return a > b if gt else a < b
_ct = {}
def countf(sort):
    """number of positions below n holding x"""
    i = si(sort); return _ct.setdefault(sort.name(), z3.Function('cnt<%s>' % sort.name(), z3.ArraySort(I_, i.el), I_, i.el, I_))
def count_axioms(sort):
    i = si(sort); f = countf(sort); a = z3.Const('a!ct', z3.ArraySort(I_, i.el)); n, m = z3.Ints('n!ct m!ct'); x = z3.Const('x!ct', i.el)
    return [ForAll([a, x], f(a, 0, x) == 0, patterns=[f(a, 0, x)]),
            ForAll([a, n, m, x], Implies(And(n >= 0, m == n + 1), f(a, m, x) == f(a, n, x) + If(z3.Select(a, n) == x, 1, 0)), patterns=[z3.MultiPattern(f(a, n, x), f(a, m, x))])]
def multi_method(eng, s, fn, q, name, this, o, vs, e):
    """std::multimap / std::multiset: the sequence of its elements in order"""
    i = si(o.sort()); n = vlen(o); p = this.p; ismap = q.startswith('std::multimap')
    if q.startswith('std::priority'): return None
    if name == 'size': return n
    if name == 'empty': return n == 0
    if name == 'clear': eng.write(s, p, mkvec(o.sort(), IntVal(0), z3.K(I_, default(i.el)))); return VOID
    if name in ('begin', 'cbegin'): return Iter(p, IntVal(0), 'vec')
    if name in ('end', 'cend'): return Iter(p, n, 'vec')
    if name in ('operator=',): eng.write(s, p, eng.asz(s, vs[0])); return this
    a = fn['cls'].get('args', []) if fn.get('cls') else []
    cm = strip_ref(a[2 if ismap else 1]).get('rec') if len(a) > (2 if ismap else 1) else 'std::less'
    gt = cm in CMPGT
    cmpf = None
    if cm not in CMPGT and cm != 'std::less': cmpf = comparator(eng, s, cm, i.el if not ismap else si(i.el).fs['first'])
    if name in ('insert', 'emplace') and len(vs) == 1:
        x = eng.asz(s, eng.rd(s, vs[0]))
        if ismap and x.sort() != i.el: x = i_mkpair(eng, s, x, i.el)
        kx = fld(x, 'first') if ismap else x; ky = (lambda v: fld(v, 'first')) if ismap else (lambda v: v)
        if cmpf is None and kx.sort() not in (I_, R_): raise Unsupported('multimap key')
        k = z3.Int('k!mm'); j = z3.Int('j!mm')
        if cmpf is None: u = ubf(o.sort(), kx.sort(), gt)(o, kx); before = before_
        else:
            u = fresh(I_, 'ub'); before = lambda g, a, b: cmpf(a, b); a1, a2, a3 = (z3.Const('cmp!%d' % q, kx.sort()) for q in range(3))
            eng.oblige(s, 'the comparison of the container is a strict weak order', And(Not(cmpf(a1, a1)), Implies(And(cmpf(a1, a2), cmpf(a2, a3)), cmpf(a1, a3)), Implies(And(Not(cmpf(a1, a2)), Not(cmpf(a2, a3))), Not(cmpf(a1, a3)))), e, 'order')
        srt = ForAll([j, k], Implies(And(0 <= j, j <= k, k < n), Not(before(gt, ky(vsel(o, k)), ky(vsel(o, j))))), patterns=[z3.MultiPattern(vsel(o, j), vsel(o, k))])
        eng.oblige(s, 'elements of the ordered container are in order', srt, e, 'order')
        s.add(And(0 <= u, u <= n)); s.q.append(ForAll([k], Implies(And(0 <= k, k < n), (k >= u) == before(gt, kx, ky(vsel(o, k)))), patterns=[vsel(o, k)]))
        nv = fresh_vec(eng, s, o.sort(), n + 1, lambda k, y: y == If(k < u, vsel(o, k), If(k == u, x, vsel(o, k - 1))))
        s.q.append(ForAll([k], Implies(And(k >= u, k < n), vsel(nv, k + 1) == vsel(o, k)), patterns=[vsel(o, k)]))
        f = countf(o.sort()); z = z3.Const('z!mm', i.el)
        s.q.append(ForAll([z], f(varr(nv), n + 1, z) == f(varr(o), n, z) + If(z == x, 1, 0), patterns=[f(varr(nv), n + 1, z), f(varr(o), n, z)]))
        eng.write(s, p, nv); return Iter(p, u, 'vec')
    if name == 'erase' and len(vs) == 1:
        a0 = eng.rd(s, vs[0])
        if isinstance(a0, Iter):
            ps = a0.pos
            eng.oblige(s, 'bounds:erase', And(0 <= ps, ps < n), e, 'bounds')
            if z3.is_true(z3.simplify(ps == n - 1)) or eng.qprove(s, ps == n - 1): nv = mkvec(o.sort(), z3.simplify(n - 1), z3.Store(varr(o), n - 1, default(i.el)))
            else:
                nv = fresh_vec(eng, s, o.sort(), n - 1, lambda k, y: y == If(k < ps, vsel(o, k), vsel(o, k + 1)))
                k = z3.Int('k!mm'); s.q.append(ForAll([k], Implies(And(k > ps, k < n), vsel(nv, k - 1) == vsel(o, k)), patterns=[vsel(o, k)]))
            eng.write(s, p, nv); return Iter(p, ps, 'vec')
    if name == 'swap':
        b = eng.rd(s, vs[0]); eng.write(s, p, b); eng.write(s, vs[0].p, o); return VOID
    raise Unsupported('%s/%d' % (q, len(vs)))
def comparator(eng, s, cm, el):
    # the comparison functor's own code, as a term over two elements
    fs = [f for f in eng.fns.values() if f['q'] == cm + '::operator()' and len(f['params']) == 2]
    fs = [f for f in fs if eng.types.sort(strip_ref(f['params'][0]['t'])) == el]
    if not fs: raise Unsupported('comparator ' + str(cm))
    A, B = z3.Const('cmp!A', el), z3.Const('cmp!B', el)
    s2 = s.copy(); n0, q0 = len(s2.pc), len(s2.q)
    rs = eng.invoke(s2, fs[0], Opq(cm), [eng.temp(s2, A, 'cmp'), eng.temp(s2, B, 'cmp')], None)
    if len(rs) != 1: raise Unsupported('comparator ' + str(cm))
    r = eng.rd(rs[0][0], rs[0][1])
    if not isinstance(r, z3.ExprRef) or r.sort() != B_: raise Unsupported('comparator ' + str(cm))
    return lambda x, y: z3.substitute(r, (A, x), (B, y))
def i_mkpair(eng, s, x, el):
    j = si(el); return j.mk(eng_conv(eng, s, fld(x, 'first'), j.fs['first']), eng_conv(eng, s, fld(x, 'second'), j.fs['second']))

def trie_method(eng, s, name, this, vs, e):
    # sequence-keyed tree used as a map: insert also creates the nodes of the proper prefixes, holding default data
    p = this.p; o = eng.read(s, p); i = si(o.sort()); eng.facts(s, o, None)
    key = eng.asz(s, vs[0]); d = mapdom(o); has = And(vlen(key) > 0, z3.Select(d, key))
    if name == 'find':
        a, b = eng.branch(s, has)
        return ([(a, PtrTo(p.add(('k', key))))] if a is not None else []) + ([(b, NULL)] if b is not None else [])
    dat = eng.asz(s, vs[1])
    if dat.sort() != i.val: raise Unsupported('trie data')
    n = fresh(o.sort(), 'trie'); eng.facts(s, n, None)
    k = z3.Const('k!tr', i.key); j = z3.Int('j!tr')
    pre = And(vlen(k) > 0, vlen(k) <= vlen(key), ForAll([j], Implies(And(0 <= j, j < vlen(k)), vsel(k, j) == vsel(key, j)), patterns=[vsel(k, j)]))
    nd, od = z3.Select(mapdom(n), k), z3.Select(d, k); nv = z3.Select(mapvals(n), k); ov = z3.Select(mapvals(o), k)
    pats = [nd, od, nv, ov]
    s.q.append(ForAll([k], nd == Or(od, pre, k == key), patterns=[nd, od]))
    s.q.append(ForAll([k], nv == If(k == key, dat, If(od, ov, default(i.val))), patterns=[nv, ov]))
    s.add(z3.Select(mapdom(n), key)); s.add(z3.Select(mapvals(n), key) == dat); s.add(mapsize(n) >= mapsize(o))
    a, b = eng.branch(s, vlen(key) > 0)
    out = []
    if a is not None: eng.write(a, p, n); out.append((a, Opq('node')))
    if b is not None: out.append((b, NULL))
    return out

def map_method(eng, s, fn, q, name, this, o, vs, e, k):
    i = si(o.sort()); p = this.p
    eng.facts(s, o, None)
    sz = mapsize(o); d = mapdom(o)
    args = fn['cls'].get('args', [None, None]) if fn.get('cls') else [None, None]
    def key(j):
        v = eng.asz(s, vs[j])
        return eng.conv(s, v, args[0]) if v.sort() != i.key else v
    if name == 'size': return sz
    if name == 'empty':
        eng.enumax(s, o); return sz == 0
    if name == 'clear': eng.write(s, p, default(o.sort())); return VOID
    if name == 'count': return If(z3.Select(d, key(0)), IntVal(1), IntVal(0))
    if name == 'find':
        x = key(0); eng.enumax(s, o); has = z3.Select(d, x); en, ix = enumf(i.key)
        return Iter(p, If(has, ix(d, x), sz), k, (x, has))
    if name in ('begin', 'cbegin'):
        eng.enumax(s, o); return Iter(p, IntVal(0), k)
    if name in ('end', 'cend'):
        eng.enumax(s, o); return Iter(p, sz, k, 'end')
    if name == 'operator[]':
        x = key(0)
        has = z3.Select(d, x)
        nv = i.mk(z3.Store(d, x, True), z3.Store(mapvals(o), x, If(has, z3.Select(mapvals(o), x), default(i.val))), sz + If(has, 0, 1))
        h = z3.simplify(has)
        if eng.qprove(s, has): pass
        else: eng.write(s, p, nv)
        return Ref(p.add(('k', x)))
    if name == 'at':
        x = key(0); eng.oblige(s, 'bounds:at', z3.Select(d, x), e, 'bounds'); return Ref(p.add(('k', x)))
    if name in ('insert', 'emplace'):
        j = len(vs) - 1
        if len(vs) == 1 or (len(vs) == 2 and isinstance(eng.rd(s, vs[0]), Iter) and not isinstance(eng.rd(s, vs[1]), Iter)):
            v = eng.rd(s, vs[j])
            v = eng.asz(s, v)
            if k == 'map':
                x, y = fld(v, 'first'), fld(v, 'second')
                x, y = eng_conv(eng, s, x, i.key), eng_conv(eng, s, y, i.val)
                has = z3.Select(d, x)
                eng.write(s, p, i.mk(z3.Store(d, x, True), z3.Store(mapvals(o), x, If(has, z3.Select(mapvals(o), x), y)), sz + If(has, 0, 1)))
            else:
                x = eng_conv(eng, s, v, i.key); has = z3.Select(d, x); eng.write(s, p, setput(o, x))
            en, ix = enumf(i.key); o2 = eng.read(s, p); eng.enumax(s, o2)
            it = Iter(p, ix(mapdom(o2), x), k, (x, TRUE))
            return (it, Not(has)) if len(vs) == 1 else it
        raise Unsupported('range insert into map')
    if name == 'erase':
        v = eng.rd(s, vs[0])
        if len(vs) == 1 and isinstance(v, Iter):
            if isinstance(v.rev, tuple): x = v.rev[0]; g = v.rev[1]
            else:
                en, ix = enumf(i.key); x = en(d, v.pos); g = And(0 <= v.pos, v.pos < sz)
            eng.oblige(s, 'bounds:erase', g, e, 'bounds')
            eng.write(s, p, mapdel(o, x)); 
            return Iter(p, fresh(I_, 'er'), k)
        if len(vs) == 1:
            x = key(0); has = z3.Select(d, x); eng.write(s, p, mapdel(o, x)); return If(has, IntVal(1), IntVal(0))
    if name in ('operator=', 'assign'):
        v = eng.asz(s, vs[0]); eng.write(s, p, v); return this
    if name == 'swap':
        b = eng.rd(s, vs[0]); eng.write(s, p, b); eng.write(s, vs[0].p, o); return VOID
    if name in ('rehash', 'reserve', 'max_load_factor'): return VOID
    raise Unsupported('%s/%d' % (q, len(vs)))
