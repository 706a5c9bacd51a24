from spec import *
PROPS=('P05',)
TU=dict(name='edvec',text='#include "EditDistForVec.h"\ntemplate class EditDistForVec<unsigned int>; template class _editDist<std::vector<unsigned int> >;\n')
HIT,INS,DEL,SUB=0,1,2,3
DM=vec(vec(R_)); A_,B_2=Ints('qa qb')
AI=ArraySort(I_,I_); AR=ArraySort(I_,R_)
CNT=Function('opcount',AI,IntSort(),IntSort(),IntSort())      # occurrences of operation c among the first n
SUM=Function('costsum',AR,IntSort(),R_)                        # sum of the first n costs
TIMES=Function('times',IntSort(),R_,R_)                        # n times a cost
kk,cc,nn,mm=Ints('lk lc ln lm'); ar=Const('la',AI); br=Const('lb',AR); rr=Const('lr',R_); vv=Int('lv'); wr=Const('lw',R_)
def ghost():
    """definitions by recursion of the ghost functions (and that they do not look past n)"""
    return [ForAll([ar,cc],CNT(ar,0,cc)==0,patterns=[CNT(ar,0,cc)]),
      ForAll([ar,nn,vv,mm,cc],Implies(And(nn>=0,mm>=0),And(Implies(mm==nn+1,CNT(Store(ar,nn,vv),mm,cc)==CNT(ar,nn,cc)+If(vv==cc,1,0)),Implies(mm<=nn,CNT(Store(ar,nn,vv),mm,cc)==CNT(ar,mm,cc)))),patterns=[CNT(Store(ar,nn,vv),mm,cc)]),
      ForAll([ar,nn,kk,cc],Implies(And(kk>=0,nn==kk+1),CNT(ar,nn,cc)==CNT(ar,kk,cc)+If(Select(ar,kk)==cc,1,0)),patterns=[MultiPattern(CNT(ar,nn,cc),Select(ar,kk))]),
      ForAll([br],SUM(br,0)==0,patterns=[SUM(br,0)]),
      ForAll([br,nn,wr,mm],Implies(And(nn>=0,mm>=0),And(Implies(mm==nn+1,SUM(Store(br,nn,wr),mm)==SUM(br,nn)+wr),Implies(mm<=nn,SUM(Store(br,nn,wr),mm)==SUM(br,mm)))),patterns=[SUM(Store(br,nn,wr),mm)]),
      ForAll([br,nn,kk],Implies(And(kk>=0,nn==kk+1),SUM(br,nn)==SUM(br,kk)+Select(br,kk)),patterns=[MultiPattern(SUM(br,nn),Select(br,kk))]),
      ForAll([rr],TIMES(0,rr)==0,patterns=[TIMES(0,rr)]),
      ForAll([nn,mm,rr],Implies(mm==nn+1,TIMES(mm,rr)==TIMES(nn,rr)+rr),patterns=[MultiPattern(TIMES(nn,rr),TIMES(mm,rr))])]
OPS=(HIT,INS,DEL,SUB)
def cells(c,n,m,dm,i,j,v,S,D,I,eq,pi=None,pj=None,op=None):
    """value of a distance matrix cell; with operation: also what the operation means"""
    at=lambda a,b: dm[a][b]
    r=[('origin',Implies(And(i==0,j==0),v==0)),
       ('not above substitution',Implies(And(i>0,j>0),v<=at(i-1,j-1)+S(i,j))),
       ('not above deletion',Implies(i>0,v<=at(i-1,j)+D(i,j))),
       ('not above insertion',Implies(j>0,v<=at(i,j-1)+I(j)))]
    if op is None:
        r+=[('reached by some operation',Or(And(i==0,j==0),And(i>0,j>0,v==at(i-1,j-1)+S(i,j)),And(i>0,v==at(i-1,j)+D(i,j)),And(j>0,v==at(i,j-1)+I(j))))]
    else:
        r+=[('operation code',Implies(Or(i>0,j>0),Or(*[op==x for x in OPS]))),
            ('diagonal operation',Implies(And(Or(i>0,j>0),Or(op==HIT,op==SUB)),And(i>0,j>0,pi==i-1,pj==j-1,v==at(i-1,j-1)+S(i,j)))),
            ('deletion',Implies(And(Or(i>0,j>0),op==DEL),And(i>0,pi==i-1,pj==j,v==at(i-1,j)+D(i,j)))),
            ('insertion',Implies(And(Or(i>0,j>0),op==INS),And(j>0,pi==i,pj==j-1,v==at(i,j-1)+I(j)))),
            ('hit or substitution',Implies(And(i>0,j>0,Or(op==HIT,op==SUB)),(op==HIT)==eq(i,j)))]
    return r
_D={}
def DIST(t,x,y,i,j):
    a,b=un(x),un(y); s=(a.sort().name(),b.sort().name())
    if s not in _D: _D[s]=Function('editdist<%s>'%s[0],a.sort(),b.sort(),R_,R_,R_,R_,I_,I_,R_)
    return _D[s](a,b,t.hitCost,t.insCost,t.substCost,t.delCost,i,j)
def distdef(k,t,x,y,i,j):
    d=lambda a,b:DIST(t,x,y,a,b); o=k.of(t,x,y); mn=lambda p,q:If(p<=q,p,q)
    return d(i,j)==If(And(i==0,j==0),0,If(i==0,d(i,j-1)+o['I'](j),If(j==0,d(i-1,j)+o['D'](i,j),mn(d(i-1,j-1)+o['S'](i,j),mn(d(i-1,j)+o['D'](i,j),d(i,j-1)+o['I'](j))))))
def known(t,x,y,dm,i,j):
    d=lambda a,b:DIST(t,x,y,a,b)
    return And(Implies(And(i>0,j>0),dm[i-1][j-1]==d(i-1,j-1)),Implies(i>0,dm[i-1][j]==d(i-1,j)),Implies(j>0,dm[i][j-1]==d(i,j-1)))
class K: # how an edit distance class charges: S(t,x,y,i,j) diagonal cost, D(t,x,i), I(t,y,j), equality of elements
    def __init__(s,S,D,I,eq,uniform): s.S,s.D,s.I,s.eq,s.uniform=S,D,I,eq,uniform
    def of(s,t,x,y): return dict(S=lambda i,j:s.S(t,x,y,i,j),D=lambda i,j:s.D(t,x,i),I=lambda j:s.I(t,y,j),eq=lambda i,j:s.eq(x,y,i,j))
def shape(dm,n,m): 
    d=If(n>m,n,m)
    return [('rows',dm.len==d+1),('columns',ForAll([A_],Implies(And(A_>=0,A_<=d),dm[A_].len==d+1),patterns=[Select(dm.arr,A_)]))]
def lim(x): return x.len<2**31-1
def bell(k,t,x,y,dm,guard,names=None):
    """every cell inside the guard obeys the recursion"""
    return [(nm,ForAll([A_,B_2],Implies(And(A_>=0,B_2>=0,A_<=x.len,B_2<=y.len,guard(A_,B_2)),f),patterns=[Select(dm[A_].arr,B_2)])) for nm,f in cells(None,x.len,y.len,dm,A_,B_2,dm[A_][B_2],**k.of(t,x,y))]
def base(k,cls='_editDist'):
    C=[]; q=cls+'::'
    pre=lambda c:[lim(c.a(0)),lim(c.a(1)),c.a(3)>=0,c.a(3)<=c.a(0).len,c.a(4)>=0,c.a(4)<=c.a(1).len]+[f for _,f in shape(c.a(2),c.a(0).len,c.a(1).len)]
    C.append(Contract(q+'processMatrixCell',trusted=True,note='pure virtual; every override is verified against the same contract',modifies=('arg5','arg6','arg7'),requires=pre,ensures=lambda c:cells(c,c.old.a(0).len,c.old.a(1).len,c.old.a(2),c.old.a(3),c.old.a(4),c.ret,pi=c.a(5),pj=c.a(6),op=c.a(7),**k.of(c.this,c.old.a(0),c.old.a(1)))+[('the edit distance when the neighbours are',Implies(known(c.this,c.old.a(0),c.old.a(1),c.old.a(2),c.old.a(3),c.old.a(4)),c.ret==DIST(c.this,c.old.a(0),c.old.a(1),c.old.a(3),c.old.a(4))))]))
    C.append(Contract(q+'initDm',modifies=('arg2',),requires=lambda c:[lim(c.a(0)),lim(c.a(1))],ensures=lambda c:shape(c.a(2),c.a(0).len,c.a(1).len)))
    C.append(Contract(q+'printDistMatrix',trusted=True,note='prints only',ensures=lambda c:[]))
    before=lambda i,j:(lambda a,b:Or(a<i,And(a==i,b<j)))
    def dists(t,x,y,dm,guard): return ForAll([A_,B_2],Implies(And(A_>=0,B_2>=0,A_<=x.len,B_2<=y.len,guard(A_,B_2)),dm[A_][B_2]==DIST(t,x,y,A_,B_2)),patterns=[Select(dm[A_].arr,B_2)])
    rows=lambda c,i:(lambda a,b:a<i.cur)
    dminv=[('rows done: distances',['I'],lambda c,i:dists(c.this,c.a(0),c.a(1),c.a(2),lambda a,b:a<i.cur)),('cells done: distances',['I','I'],lambda c,i,j:dists(c.this,c.a(0),c.a(1),c.a(2),before(i.cur,j.cur)))]
    def mk(idx):
        def full(c,i): return bell(k,c.this,c.a(0),c.a(1),c.a(2),lambda a,b:a<i.cur)[idx][1]
        def part(c,i,j): return bell(k,c.this,c.a(0),c.a(1),c.a(2),before(i.cur,j.cur))[idx][1]
        nm=cells(None,0,0,mkV(fresh(DM)),IntVal(0),IntVal(0),RealVal(0),lambda i,j:RealVal(0),lambda i,j:RealVal(0),lambda j:RealVal(0),None)[idx][0]
        return [('rows done: '+nm,['I'],full),('cells done: '+nm,['I','I'],part)]
    for idx in range(5): dminv+=mk(idx)
    dminv+=[('shape '+str(n_),[],lambda c,n_=n_:shape(c.a(2),c.a(0).len,c.a(1).len)[n_][1]) for n_ in (0,1)]
    every=lambda a,b:BoolVal(True)
    C.append(Contract(q+'calculateEditDistDm',modifies=('arg2',),requires=lambda c:[lim(c.a(0)),lim(c.a(1))],invs=dminv,
      ensures=lambda c:[(n_,f) for n_,f in shape(c.a(2),c.a(0).len,c.a(1).len)]+bell(k,c.this,c.a(0),c.a(1),c.a(2),every)+[('every cell is the distance of its prefixes',dists(c.this,c.a(0),c.a(1),c.a(2),every)),('last cell returned',c.ret==c.a(2)[c.a(0).len][c.a(1).len]),('the edit distance is returned',c.ret==DIST(c.this,c.a(0),c.a(1),c.a(0).len,c.a(1).len))]))
    C.append(Contract(q+'calculateEditDist',requires=lambda c:[lim(c.a(0)),lim(c.a(1))],ensures=lambda c:[('the edit distance is returned',c.ret==DIST(c.this,c.a(0),c.a(1),c.a(0).len,c.a(1).len))]))
    # operations
    isop=lambda x:Or(*[x==o for o in OPS])
    cost=lambda t,o:If(o==HIT,t.hitCost,If(o==INS,t.insCost,If(o==SUB,t.substCost,t.delCost)))
    cn=lambda v,o:CNT(v.arr,v.len,IntVal(o))
    total=lambda t,f:TIMES(f(HIT),t.hitCost)+TIMES(f(INS),t.insCost)+TIMES(f(SUB),t.substCost)+TIMES(f(DEL),t.delCost)
    isVU=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(I_)
    isVR=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(R_)
    K_=Int('qk')
    back=[('first elements accounted for',[isVU],lambda c,o:And(c.a(3)>=0,cn(o.cur,HIT)+cn(o.cur,SUB)+cn(o.cur,DEL)==c.old.a(3)-c.a(3))),
          ('second elements accounted for',[isVU],lambda c,o:And(c.a(4)>=0,cn(o.cur,HIT)+cn(o.cur,SUB)+cn(o.cur,INS)==c.old.a(4)-c.a(4))),
          ('valid operations',[isVU],lambda c,o:ForAll([K_],Implies(And(K_>=0,K_<o.cur.len),isop(o.cur[K_])),patterns=[Select(o.cur.arr,K_)])),
          ('as many costs as operations',[isVU,isVR],lambda c,o,s:o.cur.len==s.cur.len),
          ('costs so far',[isVR],lambda c,s:SUM(s.cur.arr,s.cur.len)==c.a(2)[c.old.a(3)][c.old.a(4)]-c.a(2)[c.a(3)][c.a(4)]),
          ('counts so far',[isVU],lambda c,o:And(*[cn(o.cur,x)>=0 for x in OPS])),
          # reversal
          ('reversed part',['I',isVU,isVU],lambda c,i,o,a:And(i.cur>=0,i.cur<=a.cur.len,o.cur.len==i.cur,*[CNT(o.cur.arr,i.cur,IntVal(x))==CNT(a.cur.arr,a.cur.len,IntVal(x))-CNT(a.cur.arr,a.cur.len-i.cur,IntVal(x)) for x in OPS])),
          ('reversed costs',['I',isVR,isVR],lambda c,i,o,a:And(i.cur>=0,i.cur<=a.cur.len,o.cur.len==i.cur,SUM(o.cur.arr,i.cur)==SUM(a.cur.arr,a.cur.len)-SUM(a.cur.arr,a.cur.len-i.cur)))]
    if k.uniform: back.append(('costs of the operations',[isVU],lambda c,o:total(c.this,lambda x:cn(o.cur,x))==c.a(2)[c.old.a(3)][c.old.a(4)]-c.a(2)[c.a(3)][c.a(4)]))
    opreq=lambda c:[lim(c.a(0)),lim(c.a(1)),c.a(3)>=0,c.a(3)<=c.a(0).len,c.a(4)>=0,c.a(4)<=c.a(1).len]+[f for _,f in shape(c.a(2),c.a(0).len,c.a(1).len)]+[f for _,f in bell(k,c.this,c.a(0),c.a(1),c.a(2),every)]
    def acct(c,f,n,m): return [('hits, substitutions and deletions are the first length',f(HIT)+f(SUB)+f(DEL)==n),('hits, substitutions and insertions are the second length',f(HIT)+f(SUB)+f(INS)==m)]
    C.append(Contract(q+'obtainOperations',modifies=('arg5','arg6'),lemmas=lambda c:ghost(),requires=opreq,invs=back,
      ensures=lambda c:acct(c,lambda x:cn(c.a(5),x),c.old.a(3),c.old.a(4))+[('valid operations',ForAll([K_],Implies(And(K_>=0,K_<c.a(5).len),isop(c.a(5)[K_])),patterns=[Select(c.a(5).arr,K_)])),('as many costs as operations',c.a(6).len==c.a(5).len),('costs add up to the distance',SUM(c.a(6).arr,c.a(6).len)==c.a(2)[c.old.a(3)][c.old.a(4)])]+([('counts times costs add up to the distance',total(c.this,lambda x:cn(c.a(5),x))==c.a(2)[c.old.a(3)][c.old.a(4)])] if k.uniform else [])))
    per=lambda c,v,n:And(v.len==4,*[v[IntVal(x)]==CNT(c.a(0).arr,n,IntVal(x)) for x in OPS])
    cinv=[('counts so far',['I',isVU],lambda c,i,v:And(i.cur>=0,i.cur<=c.a(0).len,per(c,v.cur,i.cur),*[And(v.cur[IntVal(x)]>=0,v.cur[IntVal(x)]<=i.cur) for x in OPS])),('filled',['I',isVU],lambda c,i,v:And(v.cur.len==i.cur,i.cur<=4,ForAll([K_],Implies(And(K_>=0,K_<i.cur),v.cur[K_]==0),patterns=[Select(v.cur.arr,K_)]))),('filled costs',['I',isVR],lambda c,i,v:And(v.cur.len==i.cur,i.cur<=4,ForAll([K_],Implies(And(K_>=0,K_<i.cur),v.cur[K_]==0),patterns=[Select(v.cur.arr,K_)])))]
    C.append(Contract(q+'countOpsGivenOpVec',modifies=('arg1',),lemmas=lambda c:ghost(),requires=lambda c:[c.a(0).len<2**31],invs=cinv,ensures=lambda c:[('counts per type',per(c.old,c.a(1),c.old.a(0).len))]))
    C.append(Contract(q+'obtainOpsAndOpCostsPerType',modifies=('arg2','arg3'),lemmas=lambda c:ghost(),requires=lambda c:[c.a(0).len<2**31,c.a(1).len==c.a(0).len,ForAll([K_],Implies(And(K_>=0,K_<c.a(0).len),isop(c.a(0)[K_])),patterns=[Select(c.a(0).arr,K_)])],
      invs=cinv+[('costs so far',['I'],lambda c,i:And(c.a(3).len==4,c.a(3)[0]+c.a(3)[1]+c.a(3)[2]+c.a(3)[3]==SUM(c.a(1).arr,i.cur)))],ensures=lambda c:[('counts per type',per(c.old,c.a(2),c.old.a(0).len)),('costs per type add up',And(c.a(3).len==4,c.a(3)[0]+c.a(3)[1]+c.a(3)[2]+c.a(3)[3]==SUM(c.old.a(1).arr,c.old.a(1).len)))]))
    C.append(Contract(q+'countOperations',modifies=('arg5','arg6'),lemmas=lambda c:ghost(),requires=opreq,ensures=lambda c:[('one count per type',c.a(5).len==4)]+acct(c,lambda x:c.a(5)[IntVal(x)],c.old.a(3),c.old.a(4))+[('one cost per type',c.a(6).len==4),('costs per type add up to the distance',c.a(6)[0]+c.a(6)[1]+c.a(6)[2]+c.a(6)[3]==c.a(2)[c.old.a(3)][c.old.a(4)])]+([('counts times costs add up to the distance',total(c.this,lambda x:c.a(5)[IntVal(x)])==c.a(2)[c.old.a(3)][c.old.a(4)])] if k.uniform else [])))
    arg={HIT:2,INS:3,SUB:4,DEL:5}
    C.append(Contract(q+'calculateEditDistOps',modifies=('arg2','arg3','arg4','arg5'),requires=lambda c:[lim(c.a(0)),lim(c.a(1))],ensures=lambda c:[('the edit distance is returned',c.ret==DIST(c.this,c.a(0),c.a(1),c.a(0).len,c.a(1).len))]+acct(c,lambda x:c.a(arg[x]),c.a(0).len,c.a(1).len)+([('counts times costs add up to the distance',total(c.this,lambda x:c.a(arg[x]))==c.ret)] if k.uniform else [])))
    return C
t0=lambda c:c.this
UNI=K(S=lambda t,x,y,i,j:If(un(x[i-1])==un(y[j-1]),t.hitCost,t.substCost),D=lambda t,x,i:t.delCost,I=lambda t,y,j:t.insCost,eq=lambda x,y,i,j:un(x[i-1])==un(y[j-1]),uniform=True)
def override(cls,k,**kw):
    return Contract(cls+'::processMatrixCell',lemmas=lambda c:[distdef(k,c.this,c.a(0),c.a(1),c.a(3),c.a(4))],modifies=('arg5','arg6','arg7'),requires=lambda c:[lim(c.a(0)),lim(c.a(1)),c.a(3)>=0,c.a(3)<=c.a(0).len,c.a(4)>=0,c.a(4)<=c.a(1).len]+[f for _,f in shape(c.a(2),c.a(0).len,c.a(1).len)],ensures=lambda c:cells(c,c.old.a(0).len,c.old.a(1).len,c.old.a(2),c.old.a(3),c.old.a(4),c.ret,pi=c.a(5),pj=c.a(6),op=c.a(7),**k.of(c.this,c.old.a(0),c.old.a(1)))+[('the edit distance when the neighbours are',Implies(known(c.this,c.old.a(0),c.old.a(1),c.old.a(2),c.old.a(3),c.old.a(4)),c.ret==DIST(c.this,c.old.a(0),c.old.a(1),c.old.a(3),c.old.a(4))))],**kw)
CONTRACTS=base(UNI)+[override('EditDistForVec',UNI)]
