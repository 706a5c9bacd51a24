from spec import *
PROPS=('P18',)
TU=dict(name='nbtab',text='#include "NbestTableNode.h"\n#include "NbestTransTable.h"\n#include <vector>\ntemplate class NbestTableNode<unsigned int>;\ntemplate class NbestTransTable<unsigned int,unsigned int>;\n')
C=[]; Q='NbestTableNode::'
PR=pair(R_,I_); MM=vec(PR); CNT=stl.countf(MM); UB=stl.ubf(MM,R_,True)
K,J=Ints('nk nj'); X=z3.Const('nx',PR)
T=lambda t:t.tableNodeMultiMap
def ordered(v): return ForAll([J,K],Implies(And(0<=J,J<=K,K<v.len),v[J].first>=v[K].first),patterns=[MultiPattern(Select(v.arr,J),Select(v.arr,K))])
def cnt(v,x,n=None): return CNT(v.arr,v.len if n is None else n,x)
def req(c): return [('best to worst',ordered(T(c.this)))]
def same(a,b,n): return ForAll([K],Implies(And(0<=K,K<n),un(a[K])==un(b[K])),patterns=[Select(a.arr,K),Select(b.arr,K)])
def inserted(c,e):
    o,n=T(c.old.this),T(c.this); u=UB(un(o),fld(e,'first'))
    return [('one element more',n.len==o.len+1),('best to worst',ordered(n)),
     ('placed behind the elements that are not worse',And(u>=0,u<=o.len,un(n[u])==e,ForAll([K],Implies(And(0<=K,K<o.len),(K<u)==(o[K].first>=fld(e,'first'))),patterns=[Select(o.arr,K)]))),
     ('elements before keep their place',ForAll([K],Implies(And(0<=K,K<u),un(n[K])==un(o[K])),patterns=[Select(n.arr,K),Select(o.arr,K)])),
     ('elements after move up by one',ForAll([K],Implies(And(u<=K,K<o.len),un(n[K+1])==un(o[K])),patterns=[Select(o.arr,K)])),
     ('all elements kept, the new one added',ForAll([X],cnt(n,X)==cnt(o,X)+If(X==e,1,0),patterns=[cnt(n,X)]))]
MK=si(PR).mk
C.append(Contract('greaterScore::operator()',ensures=lambda c:[('greater',c.ret==(c.a(0)>c.a(1)))]))
C.append(Contract(Q+'insert',nparams=2,modifies=('this',),requires=req,ensures=lambda c:inserted(c,MK(c.a(0),c.a(1)))))
C.append(Contract(Q+'insert',nparams=1,modifies=('this',),requires=req,ensures=lambda c:inserted(c,un(c.a(0)))))
C.append(Contract(Q+'getBestElem',requires=req,ensures=lambda c:[('the best element',Implies(T(c.this).len>0,And(c.ret==T(c.this)[0].second,ForAll([K],Implies(And(0<=K,K<T(c.this).len),T(c.this)[0].first>=T(c.this)[K].first),patterns=[Select(T(c.this).arr,K)]))))]))
C.append(Contract(Q+'getScoreOfBestElem',requires=req,ensures=lambda c:[('score of the best element',c.ret==If(T(c.this).len>0,T(c.this)[0].first,RealVal(0))),('no better score',ForAll([K],Implies(And(0<=K,K<T(c.this).len),c.ret>=T(c.this)[K].first),patterns=[Select(T(c.this).arr,K)]))]))
C.append(Contract(Q+'removeLastElement',modifies=('this',),requires=lambda c:req(c)+[('an element',T(c.this).len>0)],ensures=lambda c:[('one element less',T(c.this).len==T(c.old.this).len-1),('the others kept in order',same(T(c.this),T(c.old.this),T(c.this).len)),('best to worst',ordered(T(c.this)))]))
def pens(c):
    o,n=T(c.old.this),T(c.this); th=c.a(0)
    return [('a prefix of the old order',And(n.len<=o.len,n.len>=0)),('kept in order',same(n,o,n.len)),
     ('everything kept reaches the threshold',ForAll([K],Implies(And(0<=K,K<n.len),n[K].first>=th),patterns=[Select(n.arr,K)])),
     ('everything dropped is below the threshold',ForAll([K],Implies(And(n.len<=K,K<o.len),o[K].first<th),patterns=[Select(o.arr,K)])),('best to worst',ordered(n))]
def pinv():
    return [('prefix',[],lambda c:And(T(c.this).len<=T(c.le.this).len,T(c.this).len>=0)),('kept',[],lambda c:same(T(c.this),T(c.le.this),T(c.this).len)),('dropped',[],lambda c:ForAll([K],Implies(And(T(c.this).len<=K,K<T(c.le.this).len),T(c.le.this)[K].first<c.a(0)),patterns=[Select(T(c.le.this).arr,K)])),
            ('at the last',['it'],lambda c,i:i.cur.pos==T(c.this).len-1),('order',[],lambda c:ordered(T(c.this)))]
C.append(Contract(Q+'pruneGivenThreshold',modifies=('this',),requires=req,invs=pinv(),ensures=pens))
def vp(r,v,mod): return isinstance(v,z3.ExprRef) and v.sort()==MM and mod
def sinv():
    def copy(c,v,it): return And(v.cur.len==it.cur.pos,it.cur.pos<=T(c.this).len,it.cur.pos>=0,ForAll([K],Implies(And(0<=K,K<v.cur.len),un(v.cur[K])==un(T(c.this)[K])),patterns=[Select(v.cur.arr,K)]))
    def pad(c,v): return ForAll([K],Implies(Or(K<0,K>=v.cur.len),un(v.cur[K])==default(PR)),patterns=[Select(v.cur.arr,K)])
    def ins(c,v,i): return And(T(c.this).len==i.cur,ForAll([X],cnt(T(c.this),X)==CNT(v.cur.arr,i.cur,X),patterns=[cnt(T(c.this),X)]))
    return [('copied',[vp,'it'],copy),('nothing else',[vp],pad),('table kept',[],lambda c:un(c.this)==un(c.le.this)),
            ('in the table',[lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==MM,'mI'],ins),('order',[],lambda c:ordered(T(c.this)))]
C.append(Contract(Q+'stableSort',norm=True,modifies=('this',),requires=req,invs=sinv(),lemmas=lambda c:stl.count_axioms(MM),ensures=lambda c:[('same number of elements',T(c.this).len==T(c.old.this).len),('same elements',ForAll([X],cnt(T(c.this),X)==cnt(T(c.old.this),X),patterns=[cnt(T(c.this),X)])),('best to worst',ordered(T(c.this)))]))
C.append(Contract(Q+'size',ensures=lambda c:[('number of elements',c.ret==T(c.this).len)]))
C.append(Contract(Q+'clear',modifies=('this',),ensures=lambda c:[('empty',T(c.this).len==0)]))
R='NbestTransTable::'; TT=lambda t:t.tTableMap
C.append(Contract(R+'size',ensures=lambda c:[('number of keys',c.ret==TT(c.this).size)]))
C.append(Contract(R+'clear',modifies=('this',),ensures=lambda c:[('empty',And(TT(c.this).size==0,ForAll([K],Not(TT(c.this).has(K)),patterns=[Select(TT(c.this).dom,K)])))]))
CONTRACTS=C
