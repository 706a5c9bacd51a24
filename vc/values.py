"""Value wrappers used by the engine and by the specifications."""
import z3
from sorts import *

class Unsupported(Exception): pass

class Path:
    __slots__ = ('root', 'steps')
    def __init__(s, root, steps=()): s.root = root; s.steps = tuple(steps)
    def add(s, *st_): return Path(s.root, s.steps + st_)
    def key(s):   # frame key: root + leading field names
        out = []
        for k in s.steps:
            if k[0] == 'f': out.append(k[1])
            else: break
        return (s.root, tuple(out))
    def __repr__(s): return 'P(%s,%s)' % (s.root, s.steps)

class Ref:          # glvalue
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __repr__(s): return 'Ref' + repr(s.p)
class PtrTo:        # pointer to object (idx None) or into a buffer (idx term)
    __slots__ = ('p', 'idx')
    def __init__(s, p, idx=None): s.p = p; s.idx = idx
class Null: pass
NULL = Null()
class Fresh:        # freshly allocated buffer
    def __init__(s, v): s.v = v
class Iter:
    __slots__ = ('p', 'pos', 'kind', 'rev')
    def __init__(s, p, pos, kind, rev=False): s.p = p; s.pos = pos; s.kind = kind; s.rev = rev
class Opq:
    def __init__(s, what): s.what = what
class Init:
    def __init__(s, vals): s.vals = vals
class Fn:
    def __init__(s, fn): s.fn = fn
VOID = Opq('void')

class V:
    """Spec-level view of a composite term."""
    __slots__ = ('t', 'i')
    def __init__(s, t):
        object.__setattr__(s, 't', t); object.__setattr__(s, 'i', si(t.sort()))
    def __getattr__(s, f):
        i = s.i
        if i.kind == 'rec':
            if f in i.acc: return mkV(z3.simplify(i.acc[f](s.t)) if s.t.decl().eq(i.mk) else i.acc[f](s.t))
            raise AttributeError('%s has no field %s' % (i.sort.name(), f))
        if i.kind == 'vec':
            if f == 'len': return acc(i.len, s.t, 0)
            if f == 'arr': return acc(i.arr, s.t, 1)
        if i.kind == 'map':
            if f == 'dom': return acc(i.dom, s.t, 0)
            if f == 'vals': return acc(i.vals, s.t, 1)
            if f == 'size': return acc(i.size, s.t, 2)
        if i.kind == 'set':
            if f == 'dom': return acc(i.dom, s.t, 0)
            if f == 'size': return acc(i.size, s.t, 1)
        raise AttributeError('%s: %s' % (i.sort.name(), f))
    def __getitem__(s, k):
        if isinstance(k, V): k = k.t
        if s.i.kind == 'vec': return mkV(z3.Select(s.arr, k))
        if s.i.kind == 'map': return mkV(z3.Select(s.vals, k))
        raise KeyError
    def has(s, k):
        if isinstance(k, V): k = k.t
        return z3.Select(s.dom, k)
    def eq(s, o): return s.t == (o.t if isinstance(o, V) else o)

def acc(f, t, n):
    """accessor with constructor folding"""
    if z3.is_app(t) and t.num_args() > n and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return t.arg(n)
    return f(t)

def mkV(t):
    if t.sort() in (I_, R_, B_) or si(t.sort()) is None or si(t.sort()).kind == 'opq': return t
    return V(t)
def un(v): return v.t if isinstance(v, V) else v

_c = [0]
def fresh(sort, hint='v'):
    _c[0] += 1
    return z3.Const('%s!%d' % (hint, _c[0]), sort)

def fld(t, f):
    i = si(t.sort())
    return acc(i.acc[f], t, i.fields.index(f))
def setfld(t, f, v):
    i = si(t.sort())
    return i.mk(*[v if g == f else fld(t, g) for g in i.fields])
def vlen(t): return acc(si(t.sort()).len, t, 0)
def varr(t): return acc(si(t.sort()).arr, t, 1)
def mkvec(sort, n, a): return si(sort).mk(n, a)
def vsel(t, i): return z3.Select(varr(t), i)
def vstore(t, i, v): return mkvec(t.sort(), vlen(t), z3.Store(varr(t), i, v))

# enumeration of finite maps / sets (iteration order): enum(dom, i) and idx(dom, k)
_en = {}
def enumf(key):
    n = sname(key)
    if n not in _en:
        A = ArraySort(key, B_)
        _en[n] = (z3.Function('enum<%s>' % n, A, I_, key), z3.Function('idx<%s>' % n, A, key, I_))
    return _en[n]
def enum_axioms(dom, size, key):
    e, x = enumf(key)
    i = z3.Int('i!en'); k = z3.Const('k!en', key)
    return [size >= 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < size), z3.And(z3.Select(dom, e(dom, i)), x(dom, e(dom, i)) == i)), patterns=[e(dom, i)]),
            z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= x(dom, k), x(dom, k) < size, e(dom, x(dom, k)) == k)), patterns=[x(dom, k)]),
            z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= x(dom, k), x(dom, k) < size, e(dom, x(dom, k)) == k)), patterns=[z3.Select(dom, k)])]
def mapdom(t):
    i = si(t.sort()); return acc(i.dom, t, 0)
def mapsize(t):
    i = si(t.sort()); return acc(i.size, t, 2 if i.kind == 'map' else 1)
def mapvals(t): return acc(si(t.sort()).vals, t, 1)
def mapput(t, k, v):
    i = si(t.sort()); d = mapdom(t)
    return i.mk(z3.Store(d, k, True), z3.Store(mapvals(t), k, v), mapsize(t) + z3.If(z3.Select(d, k), 0, 1))
def setput(t, k):
    i = si(t.sort()); d = mapdom(t)
    return i.mk(z3.Store(d, k, True), mapsize(t) + z3.If(z3.Select(d, k), 0, 1))
def mapdel(t, k):
    i = si(t.sort()); d = mapdom(t); n = mapsize(t) - z3.If(z3.Select(d, k), 1, 0)
    if i.kind == 'map': return i.mk(z3.Store(d, k, False), z3.Store(mapvals(t), k, default(i.val)), n)
    return i.mk(z3.Store(d, k, False), n)
