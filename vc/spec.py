"""names available to the contract files"""
import z3
from z3 import *
from sorts import *
from values import *
from engine import Contract, Eng, Ctx
import stl
_n=[0]
_FA=z3.ForAll; _EX=z3.Exists
def _ite(t,seen):
    if t.get_id() in seen: return False
    seen.add(t.get_id())
    return (z3.is_app(t) and t.decl().kind()==z3.Z3_OP_ITE) or any(_ite(x,seen) for x in t.children())
def okpats(ps): return [p for p in ps if not _ite(p,set())]
def ForAll(vs,body,patterns=()):
    ps=okpats(patterns)
    return _FA(vs,body,patterns=ps) if ps else _FA(vs,body)
def bv(pfx='q'):
    _n[0]+=1; return z3.Int('%s!%d'%(pfx,_n[0]))
def forall_i(n,f,lo=0):
    k=bv(); return ForAll([k],Implies(And(lo<=k,k<n),f(k)))
def exists_i(n,f,lo=0):
    k=bv(); return Exists([k],And(lo<=k,k<n,f(k)))
def forall_v(sort,f,pat=None):
    _n[0]+=1; k=z3.Const('fv!%d'%_n[0],sort); return ForAll([k],f(k),patterns=[pat(k)] if pat else [])
def inr(i,n): return And(0<=i,i<n)
def forall2(*a): raise NotImplementedError
