from spec import *
import edvec
from edvec import *
PROPS=('P05',)
TU=dict(name='edstr',text='#include "EditDistForStr.cc"\ntemplate class _editDist<std::string>;\n')
PREF=4
_P={}
def PD(t,x,y,i):
    """ghost: least distance between the whole of y and one of the first i+1 prefixes of x"""
    a,b=un(x),un(y); s=a.sort().name()
    if s not in _P: _P[s]=Function('prefdist<%s>'%s,a.sort(),b.sort(),R_,R_,R_,R_,I_,R_)
    return _P[s](a,b,t.hitCost,t.insCost,t.substCost,t.delCost,i)
def pddef(t,x,y,i):
    d=DIST(t,x,y,i,y.len); p=PD(t,x,y,i-1)
    return PD(t,x,y,i)==If(i<=0,d,If(p<=d,p,d))
def val(t,x,y,use,i,j): return If(And(use,j==y.len),PD(t,x,y,i),DIST(t,x,y,i,j))
def pcells(t,x,y,use,dm,i,j,v,pi=None,pj=None,op=None,I=None,S=None,D=None,eq=None):
    at=lambda a,b: dm[a][b]
    dd=If(And(use,j==y.len),RealVal(0),D(i,j))
    r=[('origin',Implies(And(i==0,j==0),v==0)),
       ('not above substitution',Implies(And(i>0,j>0),v<=at(i-1,j-1)+S(i,j))),
       ('not above deletion',Implies(i>0,v<=at(i-1,j)+dd)),
       ('not above insertion',Implies(j>0,v<=at(i,j-1)+I(j)))]
    if op is None: return r+[('reached by some operation',Or(And(i==0,j==0),And(i>0,j>0,v==at(i-1,j-1)+S(i,j)),And(i>0,v==at(i-1,j)+dd),And(j>0,v==at(i,j-1)+I(j))))]
    nz=Or(i>0,j>0)
    return r+[('operation code',Implies(nz,Or(*[op==o for o in OPS+(PREF,)]))),
      ('diagonal operation',Implies(And(nz,Or(op==HIT,op==SUB)),And(i>0,j>0,pi==i-1,pj==j-1,v==at(i-1,j-1)+S(i,j)))),
      ('deletion',Implies(And(nz,op==DEL),And(i>0,Not(And(use,j==y.len)),pi==i-1,pj==j,v==at(i-1,j)+D(i,j)))),
      ('free deletion',Implies(And(nz,op==PREF),And(i>0,dd==0,pi==i-1,pj==j,v==at(i-1,j)))),
      ('insertion',Implies(And(nz,op==INS),And(j>0,pi==i,pj==j-1,v==at(i,j-1)+I(j)))),
      ('hit or substitution',Implies(And(i>0,j>0,Or(op==HIT,op==SUB)),(op==HIT)==eq(i,j)))]
def knownp(t,x,y,use,dm,i,j): return And(Implies(And(i>0,j>0),dm[i-1][j-1]==DIST(t,x,y,i-1,j-1)),Implies(i>0,dm[i-1][j]==val(t,x,y,use,i-1,j)),Implies(j>0,dm[i][j-1]==DIST(t,x,y,i,j-1)))
def shp(c,dm): return [f for _,f in shape(dm,c.a(0).len,c.a(1).len)]
use_=lambda c,k: c.a(k) if z3.is_bool(c.a(k)) else c.a(k)!=0
Q='EditDistForStr::'; k=UNI
pre=lambda c:[c.this.delCost>=0,lim(c.a(0)),lim(c.a(1)),c.a(4)>=0,c.a(4)<=c.a(0).len,c.a(5)>=0,c.a(5)<=c.a(1).len]+shp(c,c.a(2))
CONTRACTS=base(UNI)+[override('EditDistForStr',UNI),
  Contract(Q+'processMatrixCellPref',modifies=('arg6','arg7','arg8'),requires=pre,
    lemmas=lambda c:[distdef(k,c.this,c.a(0),c.a(1),c.a(4),c.a(5)),pddef(c.this,c.a(0),c.a(1),c.a(4)),pddef(c.this,c.a(0),c.a(1),c.a(4)-1)],
    ensures=lambda c:pcells(c.this,c.old.a(0),c.old.a(1),use_(c,3),c.old.a(2),c.old.a(4),c.old.a(5),c.ret,pi=c.a(6),pj=c.a(7),op=c.a(8),**k.of(c.this,c.old.a(0),c.old.a(1)))+
      [('the distance to the closest prefix',Implies(knownp(c.this,c.old.a(0),c.old.a(1),use_(c,3),c.old.a(2),c.old.a(4),c.old.a(5)),c.ret==val(c.this,c.old.a(0),c.old.a(1),use_(c,3),c.old.a(4),c.old.a(5))))])]
before=lambda i,j:(lambda a,b:Or(a<i,And(a==i,b<j)))
def pd(c,guard): 
    t,x,y,dm=c.this,c.a(0),c.a(1),c.m
    return ForAll([A_,B_2],Implies(And(A_>=0,B_2>=0,A_<=x.len,B_2<=y.len,guard(A_,B_2)),dm[A_][B_2]==val(t,x,y,use_(c,2),A_,B_2)),patterns=[Select(dm[A_].arr,B_2)])
class W:
    def __init__(s,c,m): s.c,s.m=c,m
    def __getattr__(s,n): return getattr(s.c,n)
isDM=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==DM
invs=[('rows done: distances',['I',isDM],lambda c,i,m:pd(W(c,m.cur),lambda a,b:a<i.cur)),('cells done: distances',['I','I',isDM],lambda c,i,j,m:pd(W(c,m.cur),before(i.cur,j.cur)))]
def bellp(c,dm,guard,idx,usei):
    t,x,y=c.this,c.a(0),c.a(1)
    f=pcells(t,x,y,use_(c,usei),dm,A_,B_2,dm[A_][B_2],**k.of(t,x,y))[idx]
    return ForAll([A_,B_2],Implies(And(A_>=0,B_2>=0,A_<=x.len,B_2<=y.len,guard(A_,B_2)),f[1]),patterns=[Select(dm[A_].arr,B_2)])
for idx,nm in enumerate(('origin','substitution','deletion','insertion','some operation')):
    invs+=[('rows done: '+nm,['I',isDM],lambda c,i,m,idx=idx:bellp(c,m.cur,lambda a,b:a<i.cur,idx,2)),('cells done: '+nm,['I','I',isDM],lambda c,i,j,m,idx=idx:bellp(c,m.cur,before(i.cur,j.cur),idx,2))]
invs+=[('shape %d'%n_,[isDM],lambda c,m,n_=n_:shape(m.cur,c.a(0).len,c.a(1).len)[n_][1]) for n_ in (0,1)]
every=lambda a,b:BoolVal(True)
isop=lambda x:Or(*[x==o for o in OPS])
cn=lambda v,o:CNT(v.arr,v.len,IntVal(o))
total=lambda t,f:TIMES(f(HIT),t.hitCost)+TIMES(f(INS),t.insCost)+TIMES(f(SUB),t.substCost)+TIMES(f(DEL),t.delCost)
isVU=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(I_)
oreq=lambda c:[c.this.delCost>=0,lim(c.a(0)),lim(c.a(1)),c.a(4)>=0,c.a(4)<=c.a(0).len,c.a(5)>=0,c.a(5)<=c.a(1).len]+shp(c,c.a(2))+[bellp(c,c.a(2),every,i,3) for i in range(5)]
back=[('second elements accounted for',[isVU],lambda c,o:And(c.a(5)>=0,cn(o.cur,HIT)+cn(o.cur,SUB)+cn(o.cur,INS)==c.old.a(5)-c.a(5))),
  ('first elements not exceeded',[isVU],lambda c,o:And(c.a(4)>=0,cn(o.cur,HIT)+cn(o.cur,SUB)+cn(o.cur,DEL)<=c.old.a(4)-c.a(4))),
  ('valid operations',[isVU],lambda c,o:ForAll([A_],Implies(And(A_>=0,A_<o.cur.len),isop(o.cur[A_])),patterns=[Select(o.cur.arr,A_)])),
  ('counts so far',[isVU],lambda c,o:And(*[cn(o.cur,x)>=0 for x in OPS])),
  ('costs of the operations',[isVU],lambda c,o:total(c.this,lambda x:cn(o.cur,x))==c.a(2)[c.old.a(4)][c.old.a(5)]-c.a(2)[c.a(4)][c.a(5)]),
  ('reversed part',['I',isVU,isVU],lambda c,i,o,a:And(i.cur>=0,i.cur<=a.cur.len,o.cur.len==i.cur,*[CNT(o.cur.arr,i.cur,IntVal(x))==CNT(a.cur.arr,a.cur.len,IntVal(x))-CNT(a.cur.arr,a.cur.len-i.cur,IntVal(x)) for x in OPS]))]
def opposts(c,o,n,m,tot,t):
    return [('hits, substitutions and insertions make the prefix',cn(o,HIT)+cn(o,SUB)+cn(o,INS)==m),('no more hits, substitutions and deletions than characters',cn(o,HIT)+cn(o,SUB)+cn(o,DEL)<=n),('counts times costs add up to the distance',total(t,lambda x:cn(o,x))==tot),('valid operations',ForAll([A_],Implies(And(A_>=0,A_<o.len),isop(o[A_])),patterns=[Select(o.arr,A_)]))]
CONTRACTS+=[Contract(Q+'obtainOperationsPref',modifies=('arg6',),lemmas=lambda c:ghost(),requires=oreq,invs=back,ensures=lambda c:opposts(c,c.a(6),c.old.a(4),c.old.a(5),c.a(2)[c.old.a(4)][c.old.a(5)],c.this))]
preq=lambda c:[c.this.delCost>=0,lim(c.a(0)),lim(c.a(1))]
def dpost(c,use): return [('the distance to the closest prefix is returned',c.ret==val(c.this,c.a(0),c.a(1),use,c.a(0).len,c.a(1).len))]
CONTRACTS+=[Contract(Q+'calculateEditDistPrefixOpsAux',modifies=('arg3',),requires=preq,invs=invs,ensures=lambda c:dpost(c,use_(c,2))+opposts(c,c.a(3),c.a(0).len,c.a(1).len,c.ret,c.this)),
  Contract(Q+'calculateEditDistPrefixOps',modifies=('arg2',),requires=preq,ensures=lambda c:dpost(c,BoolVal(True))+opposts(c,c.a(2),c.a(0).len,c.a(1).len,c.ret,c.this)),
  Contract(Q+'calculateEditDistPrefixOpsNoPrefDel',modifies=('arg2',),requires=preq,ensures=lambda c:dpost(c,BoolVal(False))+opposts(c,c.a(2),c.a(0).len,c.a(1).len,c.ret,c.this)),
  Contract(Q+'calculateEditDistPrefix',requires=preq,ensures=lambda c:dpost(c,BoolVal(True)))]
