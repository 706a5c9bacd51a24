from spec import *
PROPS=('P20',)
BUFREC=('std::pair',)
TU=dict(name='ovec',text='#include "OrderedVector.h"\ntemplate class OrderedVector<unsigned int,int>;\n')
C=[]; Q='OrderedVector::'
J,K=Ints('oj ok'); PR=pair(I_,I_)
V_=lambda t:t.vec
def key(v,k): return v[k].first
def wf(t): return t.sizeVec==V_(t).len
def ordered(t): v=V_(t); return ForAll([J,K],Implies(And(0<=J,J<K,K<v.len),key(v,J)<key(v,K)),patterns=[MultiPattern(Select(v.arr,J),Select(v.arr,K))])
def inv(t): return [('size',wf(t)),('strictly in key order',ordered(t))]
def has(t,x): return Exists([K],And(0<=K,K<V_(t).len,key(V_(t),K)==x))
def absent(t,x): return ForAll([K],Implies(And(0<=K,K<V_(t).len),key(V_(t),K)!=x),patterns=[Select(V_(t).arr,K)])
def upto(a,b,n): return ForAll([K],Implies(And(0<=K,K<n),un(a[K])==un(b[K])),patterns=[Select(a.arr,K),Select(b.arr,K)])
DFL=default(PR)
C.append(Contract(Q+'OrderedVector',nparams=0,ctor=True,modifies=('this',),ensures=lambda c:[('empty',And(V_(c.this).len==0,wf(c.this)))]))
def fidx(c):
    v=V_(c.this); x=c.a(0); i=c.a(1)
    return [('inside the vector',And(i>=0,i<=v.len)),('found at its position',Implies(c.ret,And(i<v.len,key(v,i)==x))),
            ('not found: absent',Implies(Not(c.ret),absent(c.this,x))),
            ('all smaller keys come before',Implies(Not(c.ret),ForAll([K],Implies(And(0<=K,K<v.len),(K<i)==(key(v,K)<x)),patterns=[Select(v.arr,K)])))]
C.append(Contract(Q+'findIndex',modifies=('arg1',),requires=lambda c:inv(c.this),ensures=fidx,
  invs=[('bounds',['mI','mI'],lambda c,l,r:And(l.cur>=0,l.cur<=r.cur,r.cur<=V_(c.this).len)),
        ('smaller on the left',['mI'],lambda c,l:ForAll([K],Implies(And(0<=K,K<l.cur),key(V_(c.this),K)<c.a(0)),patterns=[Select(V_(c.this).arr,K)])),
        ('greater on the right',['mI'],lambda c,r:ForAll([K],Implies(And(K>=r.cur,K<V_(c.this).len),key(V_(c.this),K)>c.a(0)),patterns=[Select(V_(c.this).arr,K)]))]))
C.append(Contract(Q+'alloc',modifies=('this',),requires=lambda c:[('size',wf(c.this)),('byte count does not wrap',c.a(0)<2**32)],
  ensures=lambda c:[('new size',And(V_(c.this).len==c.a(0),wf(c.this))),('elements kept',upto(V_(c.this),V_(c.old.this),If(c.a(0)<V_(c.old.this).len,c.a(0),V_(c.old.this).len))),('new elements are default',ForAll([K],Implies(And(K>=V_(c.old.this).len,K<c.a(0)),un(V_(c.this)[K])==DFL),patterns=[Select(V_(c.this).arr,K)]))],
  invs=[('size of the buffer',[],lambda c:V_(c.this).len==V_(c.le.this).len),('old size',[],lambda c:c.this.sizeVec==c.le.this.sizeVec),('counter',['mI'],lambda c,i:And(i.cur>=0,Implies(i.cur>c.le.this.sizeVec,i.cur<=c.a(0)))),
        ('kept so far',[],lambda c:upto(V_(c.this),V_(c.le.this),If(c.a(0)<c.this.sizeVec,c.a(0),c.this.sizeVec))),('buffer untouched',[],lambda c:un(c.this)==un(c.le.this)),
        ('defaults so far',['mI'],lambda c,i:ForAll([K],Implies(And(K>=c.this.sizeVec,K<i.cur),un(V_(c.this)[K])==DFL),patterns=[Select(V_(c.this).arr,K)]))]))
def pushed(c,x,d,val=True):
    o,n=V_(c.old.this),V_(c.this)
    r=[('strictly in key order',ordered(c.this)),('size',wf(c.this)),
       ('the key is stored'+(' with its data' if val else ''),Exists([K],And(0<=K,K<n.len,key(n,K)==x,(n[K].second==d) if val else True,c.points('vec',K,'second')))),
       ('other entries kept',ForAll([K],Implies(And(0<=K,K<o.len,key(o,K)!=x),Exists([J],And(0<=J,J<n.len,un(n[J])==un(o[K])))),patterns=[Select(o.arr,K)])),
       ('nothing else added',ForAll([J],Implies(And(0<=J,J<n.len,key(n,J)!=x),Exists([K],And(0<=K,K<o.len,un(n[J])==un(o[K])))),patterns=[Select(n.arr,J)])),
       ('one element more only for a new key',And(Implies(absent(c.old.this,x),n.len==o.len+1),Implies(has(c.old.this,x),n.len==o.len)))]
    return r
C.append(Contract(Q+'push',modifies=('this',),requires=lambda c:inv(c.this),ensures=lambda c:pushed(c,c.a(0),c.a(1))))
C.append(Contract(Q+'insert',inline=(Q+'push',),modifies=('this',),requires=lambda c:inv(c.this),ensures=lambda c:pushed(c,c.a(0),c.a(1))))
C.append(Contract(Q+'operator[]',inline=(Q+'push',Q+'insert'),modifies=('this',),requires=lambda c:inv(c.this),ensures=lambda c:pushed(c,c.a(0),None,False)[:1]+pushed(c,c.a(0),None,False)[1:]))
C.append(Contract(Q+'findPtr',requires=lambda c:inv(c.this),ensures=lambda c:[('null only for absent keys',absent(c.this,c.a(0))) if z3.is_true(c.isnull) else ('the data of the key',Exists([K],And(0<=K,K<V_(c.this).len,key(V_(c.this),K)==c.a(0),c.points('vec',K,'second'))))]))
C.append(Contract(Q+'pop',modifies=('this',),requires=lambda c:inv(c.this),ensures=lambda c:[('one element less',V_(c.this).len==If(V_(c.old.this).len>0,V_(c.old.this).len-1,0)),('others kept',upto(V_(c.this),V_(c.old.this),V_(c.this).len))]+inv(c.this)))
C.append(Contract(Q+'clear',modifies=('this',),requires=lambda c:[('size',wf(c.this))],ensures=lambda c:[('empty',And(V_(c.this).len==0,wf(c.this)))]))
C.append(Contract(Q+'size',requires=lambda c:[('size',wf(c.this))],ensures=lambda c:[('number of elements',c.ret==V_(c.this).len)]))
C.append(Contract(Q+'empty',requires=lambda c:[('size',wf(c.this))],ensures=lambda c:[('empty?',c.ret==(V_(c.this).len==0))]))
C.append(Contract(Q+'top',requires=lambda c:inv(c.this)+[('an element',V_(c.this).len>0)],ensures=lambda c:[('last element',un(c.ret)==un(V_(c.this)[V_(c.this).len-1]))]))
C.append(Contract(Q+'operator=',modifies=('this',),returns='this',requires=lambda c:[('size',wf(c.this)),('size of the argument',wf(c.a(0))),('order',ordered(c.a(0)))],ensures=lambda c:[('same elements',And(V_(c.this).len==V_(c.a(0)).len,upto(V_(c.this),V_(c.a(0)),V_(c.this).len)))]+inv(c.this),
  invs=[('size',[],lambda c:And(V_(c.this).len==V_(c.a(0)).len,wf(c.this))),('copied so far',['mI'],lambda c,i:And(i.cur>=0,i.cur<=V_(c.this).len,upto(V_(c.this),V_(c.a(0)),i.cur)))]))
CONTRACTS=C
