"""C++ types -> SMT sorts.  Integers are mathematical integers with range facts, float/double are reals,
std containers are value datatypes, project classes are record datatypes (base fields flattened)."""
import z3
from z3 import IntSort, RealSort, BoolSort, ArraySort, Datatype, DeclareSort

class SI:
    def __init__(s, kind, sort, **kw):
        s.kind = kind; s.sort = sort; s.__dict__.update(kw)

SINFO = {}          # sort name -> SI
I_, R_, B_ = IntSort(), RealSort(), BoolSort()

def si(sort):
    return SINFO.get(sort.name()) if isinstance(sort, z3.SortRef) else None

def sname(s):
    return s.name() if s.kind() != z3.Z3_ARRAY_SORT else 'A' + sname(s.domain()) + sname(s.range())

_mk = {}
def vec(el):
    k = ('vec', sname(el))
    if k not in _mk:
        n = 'Vec<%s>' % sname(el)
        d = Datatype(n); d.declare('mk' + n, ('len' + n, I_), ('arr' + n, ArraySort(I_, el))); d = d.create()
        _mk[k] = d
        SINFO[n] = SI('vec', d, el=el, mk=d.constructor(0), len=d.accessor(0, 0), arr=d.accessor(0, 1))
    return _mk[k]

def pair(a, b):
    return rec('Pair<%s,%s>' % (sname(a), sname(b)), [('first', a), ('second', b)])

def rec(n, fields):
    k = ('rec', n)
    if k not in _mk:
        d = Datatype(n)
        fs = fields if fields else [('_', I_)]
        d.declare('mk' + n, *[(n + '.' + f, s) for f, s in fs]); d = d.create()
        _mk[k] = d
        SINFO[n] = SI('rec', d, fields=[f for f, _ in fs], fs=dict(fs), mk=d.constructor(0),
                      acc={f: d.accessor(0, i) for i, (f, _) in enumerate(fs)})
    return _mk[k]

def mp(k_, v_):
    k = ('map', sname(k_), sname(v_))
    if k not in _mk:
        n = 'Map<%s,%s>' % (sname(k_), sname(v_))
        d = Datatype(n); d.declare('mk' + n, ('dom' + n, ArraySort(k_, B_)), ('val' + n, ArraySort(k_, v_)), ('msz' + n, I_)); d = d.create()
        _mk[k] = d
        SINFO[n] = SI('map', d, key=k_, val=v_, mk=d.constructor(0), dom=d.accessor(0, 0), vals=d.accessor(0, 1), size=d.accessor(0, 2), ent=pair(k_, v_))
    return _mk[k]

def st(k_):
    k = ('set', sname(k_))
    if k not in _mk:
        n = 'Set<%s>' % sname(k_)
        d = Datatype(n); d.declare('mk' + n, ('dom' + n, ArraySort(k_, B_)), ('ssz' + n, I_)); d = d.create()
        _mk[k] = d
        SINFO[n] = SI('set', d, key=k_, mk=d.constructor(0), dom=d.accessor(0, 0), size=d.accessor(0, 1))
    return _mk[k]

def opaque(n):
    k = ('opq', n)
    if k not in _mk:
        d = DeclareSort('Opq<%s>' % n); _mk[k] = d
        SINFO['Opq<%s>' % n] = SI('opq', d, name=n)
    return _mk[k]

INTS = {'bool': None, 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
        'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1),
        'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1), 'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
        'wchar_t': (-2**31, 2**31 - 1)}
FLOATS = ('float', 'double', 'long double')

def irange(t):
    if t is None: return None
    if 'b' in t: return INTS.get(t['b'])
    if 'e' in t: return None
    return None

def strip_ref(t):
    return t['r'] if t and 'r' in t else t

VECS = {'std::vector', 'std::deque', 'std::list', 'std::basic_string', 'std::initializer_list', 'std::stack', 'std::queue'}
MAPS = {'std::map', 'std::unordered_map', '__gnu_cxx::hash_map'}
ASMAP = set()      # project classes used through their map interface in a contract module (their own contracts are another module)
SEQKEY = {'TrieVecs', 'Trie'}     # of ASMAP: keyed by a sequence of the key type
BUFREC = set()     # records whose pointers are buffers (raw arrays managed by the class itself) in a contract module
SETS = {'std::set', 'std::unordered_set'}

def isrbiter(t): return t.get('rec') in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator')

class Types:
    def __init__(s, records):
        s.records = records; s.stack = []; s.cache = {}; s.over = {}
    def sort(s, t):
        if t is None: return None
        if 'b' in t:
            b = t['b']
            if b == 'bool': return B_
            if b in FLOATS: return R_
            if b == 'void': return None
            return I_
        if 'e' in t: return I_
        if 'r' in t: return s.sort(t['r'])
        if 'arr' in t: return vec(s.sort(t['arr']))
        if 'p' in t:
            pt = t['p']
            if 'b' in pt and pt['b'] != 'void' or 'p' in pt or pt.get('rec') in BUFREC: 
                return vec(s.sort(pt))
            return opaque('ptr')
        if 'rec' in t:
            q = t['rec']; a = t.get('args', [])
            if t.get('q') in s.over: return s.over[t['q']]
            if q in VECS: return vec(s.sort(a[0]))
            if q in ASMAP and q in SEQKEY: return mp(vec(s.sort(a[0])), s.sort(a[1]))
            if q in MAPS or q in ASMAP: return mp(s.sort(a[0]), s.sort(a[1]))
            if q in SETS: return st(s.sort(a[0]))
            if q == 'std::pair': return pair(s.sort(a[0]), s.sort(a[1]))
            if q in ('std::multimap',): return vec(pair(s.sort(a[0]), s.sort(a[1])))
            if q in ('std::multiset', 'std::priority_queue'): return vec(s.sort(a[0]))
            if q == 'std::_Bit_reference': return B_
            n = t['q']
            if n in s.cache: return s.cache[n]
            if n in s.records:
                if n in s.stack: return opaque('rec:' + n)
                s.stack.append(n)
                fs = s.fields(n)
                s.stack.pop()
                r = rec(n, [(f, I_ if isrbiter(ft) else s.sort(ft)) for f, ft in fs])      # a stored tree iterator is its position
                si(r).ct = dict(fs)
                s.cache[n] = r
                return r
            return opaque(n)
        return opaque('x')
    def fields(s, n):
        out = []; r = s.records[n]
        for b in r['bases']:
            if b.get('q') in s.records: out += s.fields(b['q'])
        out += [(f['name'], f['t']) for f in r['fields']]
        seen = set(); o2 = []
        for f, t in out:
            if f not in seen: seen.add(f); o2.append((f, t))
        return o2

def default(sort):
    if sort == I_: return z3.IntVal(0)
    if sort == R_: return z3.RealVal(0)
    if sort == B_: return z3.BoolVal(False)
    i = si(sort)
    if i.kind == 'vec': return i.mk(z3.IntVal(0), z3.K(I_, default(i.el)))
    if i.kind == 'rec': return i.mk(*[default(i.fs[f]) for f in i.fields])
    if i.kind == 'map': return i.mk(z3.K(i.key, z3.BoolVal(False)), z3.K(i.key, default(i.val)), z3.IntVal(0))
    if i.kind == 'set': return i.mk(z3.K(i.key, z3.BoolVal(False)), z3.IntVal(0))
    return z3.Const('dflt_' + sort.name(), sort)
def isopq(s): return s is not None and s.kind() == z3.Z3_UNINTERPRETED_SORT
