from spec import *
import edvec
from edvec import *
from edstr import pcells,use_
PROPS=('P05',)
TU=dict(name='edws',text='#include "EditDistForVecString.cc"\ntemplate class _editDist<std::vector<std::string> >; template class EditDistForVec<std::string>;\n')
STR=vec(I_); VS=vec(STR); B_=BoolSort()
# word level costs: every letter of an inserted or deleted word counts, replacing a word costs the distance of the words
SUBW=Function('cost_of_replacing',STR,STR,R_,R_,R_,R_,R_); PSUBW=Function('cost_of_replacing_by_a_prefix',STR,STR,R_,R_,R_,R_,R_)
INSW=Function('cost_of_inserting',STR,R_,R_); DELW=Function('cost_of_deleting',STR,R_,R_)
costs=lambda t:(t.hitCost,t.insCost,t.substCost,t.delCost)
W=K(S=lambda t,x,y,i,j:SUBW(un(x[i-1]),un(y[j-1]),*costs(t)),D=lambda t,x,i:DELW(un(x[i-1]),t.delCost),I=lambda t,y,j:INSW(un(y[j-1]),t.insCost),eq=lambda x,y,i,j:un(x[i-1])==un(y[j-1]),uniform=False)
Q='EditDistForVecString::'
ISP=Function('begins_with',STR,STR,B_)   # first argument: the beginning
C=[override('EditDistForVecString',W)]; C[0].norm=True
b=base(W); C=[x for x in b]+C
for x in b: x.ptypes=lambda ts:'vector' in str(ts[0])
T=lambda name,**k: C.append(Contract(name,trusted=True,norm=True,**k))
def letters(f):
    w,r=Const('ww',STR),Const('wc',R_); return [ForAll([w,r],f(w,r)==r*ToReal(vlen(w)),patterns=[f(w,r)])]
for nm,f,fld_ in (('insertionCost',INSW,'insCost'),('deletionCost',DELW,'delCost')):
    C.append(Contract(Q+nm,norm=True,requires=lambda c:[c.a(0).len<2**31],lemmas=lambda c,f=f:letters(f),ensures=lambda c,f=f,fld_=fld_:[('every letter is charged',c.ret==f(un(c.a(0)),getattr(c.this,fld_)))]))
T(Q+'substitutionCost',note='counts times costs of the letter distance: proved in module edstr to be the distance',ensures=lambda c:[('definition: substitution cost',c.ret==SUBW(un(c.a(0)),un(c.a(1)),*costs(c.this)))])
T(Q+'prefSubstitutionCost',note='counts times costs of the letter prefix distance: proved in module edstr to be the distance',ensures=lambda c:[('definition: prefix substitution cost',c.ret==PSUBW(un(c.a(0)),un(c.a(1)),*costs(c.this)))])
T('StrProcUtils::isPrefix',note='verified in module strp (P22)',ensures=lambda c:[('definition: prefix',c.ret==ISP(un(c.a(0)),un(c.a(1))))])
T(Q+'cachedSubstCost',modifies=('arg2',),note='memoises substitutionCost (native)',ensures=lambda c:[('definition: substitution cost',c.ret==SUBW(un(c.old.a(0)),un(c.old.a(1)),*costs(c.this)))])
T(Q+'cachedPrefSubstCost',modifies=('arg2',),note='memoises prefSubstitutionCost (native)',ensures=lambda c:[('definition: prefix substitution cost',c.ret==PSUBW(un(c.old.a(0)),un(c.old.a(1)),*costs(c.this)))])
# distance of the first i words to the first j words of the prefix, the last prefix word perhaps incomplete
PDW=Function('prefix_distance_of_words',VS,VS,R_,R_,R_,R_,B_,B_,I_,I_,R_)
def KP(t,x,y,use,cpl):
    return dict(S=lambda i,j:If(And(j==y.len,Not(cpl)),PSUBW(un(x[i-1]),un(y[j-1]),*costs(t)),SUBW(un(x[i-1]),un(y[j-1]),*costs(t))),D=lambda i,j=None:DELW(un(x[i-1]),t.delCost),I=lambda j:INSW(un(y[j-1]),t.insCost),
      eq=lambda i,j:Or(un(x[i-1])==un(y[j-1]),And(Not(cpl),ISP(un(y[j-1]),un(x[i-1])))))
def pw(t,x,y,use,cpl,i,j): return PDW(un(x),un(y),*costs(t),use,cpl,i,j)
def pwdef(t,x,y,use,cpl,i,j):
    d=lambda a,b:pw(t,x,y,use,cpl,a,b); o=KP(t,x,y,use,cpl); mn=lambda p,q:If(p<=q,p,q); dd=If(And(use,j==y.len),RealVal(0),o['D'](i))
    return d(i,j)==If(And(i==0,j==0),0,If(i==0,d(i,j-1)+o['I'](j),If(j==0,d(i-1,j)+dd,mn(d(i-1,j-1)+o['S'](i,j),mn(d(i-1,j)+dd,d(i,j-1)+o['I'](j))))))
bl=lambda v: v if z3.is_bool(v) else v!=0
def pknown(t,x,y,use,cpl,dm,i,j):
    d=lambda a,b:pw(t,x,y,use,cpl,a,b)
    return And(Implies(And(i>0,j>0),dm[i-1][j-1]==d(i-1,j-1)),Implies(i>0,dm[i-1][j]==d(i-1,j)),Implies(j>0,dm[i][j-1]==d(i,j-1)))
def minpref(c,i,j,pi,pj,op):
    t,x,y,dm=c.this,c.old.a(0),c.old.a(1),c.old.a(2); cpl,use=bl(c.old.a(4)),bl(c.old.a(5))
    return pcells(t,x,y,use,dm,i,j,c.ret,pi=pi,pj=pj,op=op,**KP(t,x,y,use,cpl))+[('the distance to the prefix when the neighbours are',Implies(pknown(t,x,y,use,cpl,dm,i,j),c.ret==pw(t,x,y,use,cpl,i,j)))]
rows=lambda c,i,j:[c.a(2).len>i,c.a(2)[i].len>j,Implies(i>0,c.a(2)[i-1].len>j)]
C.append(Contract(Q+'processMatrixCellPref',norm=True,modifies=('arg3','arg8','arg9','arg10'),requires=lambda c:[lim(c.a(0)),lim(c.a(1)),c.a(6)>=0,c.a(6)<=c.a(0).len,c.a(7)>=0,c.a(7)<=c.a(1).len]+rows(c,c.a(6),c.a(7)),
  lemmas=lambda c:[pwdef(c.this,c.a(0),c.a(1),bl(c.a(5)),bl(c.a(4)),c.a(6),c.a(7))],
  ensures=lambda c:minpref(c,c.old.a(6),c.old.a(7),c.a(8),c.a(9),c.a(10))))

C.append(Contract(Q+'addBlankCharacters',norm=True,requires=lambda c:[lim(c.a(0)),ForAll([A_],Implies(And(0<=A_,A_<c.a(0).len),vlen(Select(c.a(0).arr,A_))<2**30),patterns=[Select(c.a(0).arr,A_)])],ensures=lambda c:[]))
T('StrProcUtils::lastCharIsBlank',note='verified in module strp (P22)',ensures=lambda c:[('definition: ends with a blank',c.ret==And(c.a(0).len>0,c.a(0)[c.a(0).len-1]==32))])
BARE=Function('without_last_blank',STR,STR)
T('StrProcUtils::removeLastBlank',note='verified in module strp (P22)',ensures=lambda c:[('definition: without the last blank',c.ret.t==BARE(un(c.a(0)))),c.ret.len<=c.a(0).len,c.ret.len>=0])
# ---- one more row of scores for one more word of the output
complete=lambda y:(lambda w:And(vlen(w)>0,vsel(w,vlen(w)-1)==32))(un(y[y.len-1]))
def yword(y,j): w=un(y[j]); return If(And(j+1==y.len,complete(y)),BARE(w),w)
def nextcell(c,r,j,n,m):
    '''score j of the row: n scores before, m words added'''
    y=c.a(1); p=c.a(2); t=c.this; w=yword(y,j-(n-m)); x=un(c.a(0)); last=j==n-1
    s=If(And(last,Not(complete(y))),PSUBW(x,w,*costs(t)),SUBW(x,w,*costs(t)))
    mn=lambda a,b:If(a<=b,a,b)
    return r==mn(p[j-1]+s,p[j]+DELW(x,t.delCost))
p_=Int('wp')
def newrow(c,r,old,p,y,upto):
    n,m=p.len,y.len; x=un(c.a(0)); t=c.this; mn=lambda a,b:If(a<=b,a,b)
    def w(j): return yword(y,j-(n-m))
    s=lambda j:If(And(j==n-1,Not(complete(y))),PSUBW(x,w(j),*costs(t)),SUBW(x,w(j),*costs(t)))
    at=lambda j:Select(r.arr,j)
    return And(ForAll([p_],Implies(And(0<=p_,p_<n-m),at(p_)==Select(old.arr,p_)),patterns=[at(p_)]),
       ForAll([p_],Implies(And(n-m<=p_,p_<upto),at(p_)==mn(mn(Select(p.arr,p_-1)+s(p_),Select(p.arr,p_)+DELW(x,t.delCost)),at(p_-1)+INSW(w(p_),t.insCost))),patterns=[at(p_)]))
PI,NI=1,3

short=lambda y:ForAll([A_],Implies(And(0<=A_,A_<y.len),vlen(Select(y.arr,A_))<2**30),patterns=[Select(y.arr,A_)])
ireq=lambda nw:(lambda c:[c.a(1).len>=1,c.a(1).len<2**30,c.a(2).len<2**30,c.a(2).len>c.a(1).len,c.a(nw).len==c.a(2).len-c.a(1).len,short(c.a(1)),c.a(0).len<2**30])
isVS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod
isVR=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(R_) and mod
isDM=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==DM and mod
def ypos(c,y,i):
    n,m=c.a(2).len,c.a(1).len
    return And(y.len==n-1,ForAll([p_],Implies(And(n-m-1<=p_,p_<n-m-1+i),Select(y.arr,p_)==Select(c.a(1).arr,p_-(n-m-1))),patterns=[Select(y.arr,p_)]),ForAll([p_],Implies(And(0<=p_,p_<y.len),vlen(Select(y.arr,p_))<2**30),patterns=[Select(y.arr,p_)]))
def rowis(dm,k,v,upto): return And(ForAll([p_],Implies(And(0<=p_,p_<upto),dm[k][p_]==Select(v.arr,p_)),patterns=[Select(dm[k].arr,p_)]))
def incr(nm,nw,ops,mod,invs=()):
    return Contract(Q+nm,norm=True,modifies=mod,requires=ireq(nw),invs=list(invs),
      ensures=lambda c:[('one score per position',c.a(nw).len==c.a(2).len),('known scores kept, each further one is the cheapest of replacing, deleting and inserting',newrow(c,c.a(nw),c.old.a(nw),c.a(2),c.a(1),c.a(2).len)),('one operation per word',c.a(ops).len==c.a(1).len)])
pk=lambda c:c.a(2).len-c.a(1).len
C.append(incr('incrEditDistPrefixCached',4,5,('arg3','arg4','arg5'),[
  ('prefix words placed',['I',isVS],lambda c,i,y:And(i.cur<=c.a(1).len,ypos(c,y.cur,i.cur))),
  ('row before copied',['I',isDM],lambda c,j,m:And(j.cur<=c.a(2).len,rowis(m.cur,0,c.a(2),j.cur))),
  ('row before',[isDM],lambda c,m:rowis(m.cur,0,c.a(2),c.a(2).len)),
  ('known scores copied',['I',isDM],lambda c,j,m:And(j.cur<=pk(c),rowis(m.cur,1,c.old.a(4),j.cur))),
  ('shape',[isDM],lambda c,m:And(m.cur.len>=2,m.cur[0].len==m.cur.len,m.cur[1].len==m.cur.len,m.cur.len>=c.a(2).len)),
  ('room',[],lambda c:And(c.a(4).len>=pk(c),c.a(4).len<=c.a(2).len)),
  ('full',[],lambda c:c.a(4).len==c.a(2).len),
  ('kept',[],lambda c:ForAll([p_],Implies(And(0<=p_,p_<pk(c)),Select(c.a(4).arr,p_)==Select(c.old.a(4).arr,p_)),patterns=[Select(c.a(4).arr,p_)])),
  ('row so far',['I'],lambda c,j:And(j.cur<=c.a(1).len,newrow(c,c.a(4),c.old.a(4),c.a(2),c.a(1),pk(c)+j.cur))),
  ('row in the matrix',['I',isDM],lambda c,j,m:rowis(m.cur,1,c.a(4),pk(c)+j.cur)),
  ('operations so far',['I'],lambda c,j:c.a(5).len==j.cur)]))
C.append(incr('incrEditDistPrefix',3,4,('arg3','arg4')))
# ---- the whole table for a prefix, the operations read from it
C.append(Contract(Q+'calculateEditDist',norm=True,requires=lambda c:[lim(c.a(0)),lim(c.a(1)),short(c.a(0)),short(c.a(1))],ensures=lambda c:[('the edit distance is returned',c.ret==DIST(c.this,c.a(0),c.a(1),c.a(0).len,c.a(1).len))]))
def bellp(t,x,y,use,cpl,dm,guard,idx):
    f=pcells(t,x,y,use,dm,A_,B_2,dm[A_][B_2],**KP(t,x,y,use,cpl))[idx]
    return ForAll([A_,B_2],Implies(And(A_>=0,B_2>=0,A_<=x.len,B_2<=y.len,guard(A_,B_2)),f[1]),patterns=[Select(dm[A_].arr,B_2)])
every=lambda a,b:BoolVal(True)
isop=lambda x:Or(*[x==o for o in OPS])
cn=lambda v,o:CNT(v.arr,v.len,IntVal(o))
isVU=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(I_)
isVR_=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(R_)
def oreq(c):
    t,x,y=c.this,c.a(0),c.a(1)
    return [lim(x),lim(y),c.a(5)>=0,c.a(5)<=x.len,c.a(6)>=0,c.a(6)<=y.len]+[f for _,f in shape(c.a(2),x.len,y.len)]+[bellp(t,x,y,bl(c.a(4)),bl(c.a(3)),c.a(2),every,i) for i in range(5)]
back=[('second elements accounted for',[isVU],lambda c,o:And(c.a(6)>=0,cn(o.cur,HIT)+cn(o.cur,SUB)+cn(o.cur,INS)==c.old.a(6)-c.a(6))),
  ('first elements not exceeded',[isVU],lambda c,o:And(c.a(5)>=0,cn(o.cur,HIT)+cn(o.cur,SUB)+cn(o.cur,DEL)<=c.old.a(5)-c.a(5))),
  ('valid operations',[isVU],lambda c,o:ForAll([A_],Implies(And(A_>=0,A_<o.cur.len),isop(o.cur[A_])),patterns=[Select(o.cur.arr,A_)])),
  ('counts so far',[isVU],lambda c,o:And(*[cn(o.cur,x)>=0 for x in OPS])),
  ('as many costs as operations',[isVU,isVR_],lambda c,o,s:o.cur.len==s.cur.len),
  ('costs so far',[isVR_],lambda c,s:SUM(s.cur.arr,s.cur.len)==c.a(2)[c.old.a(5)][c.old.a(6)]-c.a(2)[c.a(5)][c.a(6)]),
  ('reversed part',['I',isVU,isVU],lambda c,i,o,a:And(i.cur>=0,i.cur<=a.cur.len,o.cur.len==i.cur,*[CNT(o.cur.arr,i.cur,IntVal(x))==CNT(a.cur.arr,a.cur.len,IntVal(x))-CNT(a.cur.arr,a.cur.len-i.cur,IntVal(x)) for x in OPS])),
  ('reversed costs',['I',isVR_,isVR_],lambda c,i,o,a:And(i.cur>=0,i.cur<=a.cur.len,o.cur.len==i.cur,SUM(o.cur.arr,i.cur)==SUM(a.cur.arr,a.cur.len)-SUM(a.cur.arr,a.cur.len-i.cur)))]
def opposts(o,n,m):
    return [('hits, substitutions and insertions make the prefix',cn(o,HIT)+cn(o,SUB)+cn(o,INS)==m),('no more hits, substitutions and deletions than words',cn(o,HIT)+cn(o,SUB)+cn(o,DEL)<=n),('valid operations',ForAll([A_],Implies(And(A_>=0,A_<o.len),isop(o[A_])),patterns=[Select(o.arr,A_)]))]
T('EditDistForStr::calculateEditDistPrefixOps',modifies=('arg2',),note='verified in module edstr',ensures=lambda c:[])
C.append(Contract(Q+'obtainOperationsPref',norm=True,modifies=('arg7','arg8','arg9'),lemmas=lambda c:ghost(),requires=oreq,invs=back,
  ensures=lambda c:opposts(c.a(7),c.old.a(5),c.old.a(6))+[('as many costs as operations',c.a(9).len==c.a(7).len),('costs add up to the distance',SUM(c.a(9).arr,c.a(9).len)==c.a(2)[c.old.a(5)][c.old.a(6)])]))
def adapted(y):
    w=un(y[y.len-1]); return mkV(If(y.len==0,un(y),VS.constructor(0)(y.len,Store(y.arr,y.len-1,If(complete(y),BARE(w),w)))))
cplof=lambda y:Or(y.len==0,complete(y))
preq=lambda c:[lim(c.a(0)),lim(c.a(1)),short(c.a(0)),short(c.a(1))]
def dist(c,use): y=adapted(c.a(1)); return pw(c.this,c.a(0),y,use,cplof(c.a(1)),c.a(0).len,y.len)
before=lambda i,j:(lambda a,b:Or(a<i,And(a==i,b<j)))
def pd(c,dm,guard):
    x,y=c.a(0),adapted(c.a(1))
    return ForAll([A_,B_2],Implies(And(A_>=0,B_2>=0,A_<=x.len,B_2<=c.a(1).len,guard(A_,B_2)),dm[A_][B_2]==pw(c.this,x,y,bl(c.a(4)),cplof(c.a(1)),A_,B_2)),patterns=[Select(dm[A_].arr,B_2)])
isDM2=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==DM
pinv=[('rows done: distances',['I',isDM2],lambda c,i,m:pd(c,m.cur,lambda a,b:a<i.cur)),('cells done: distances',['I','I',isDM2],lambda c,i,j,m:pd(c,m.cur,before(i.cur,j.cur)))]
for idx,nm in enumerate(('origin','substitution','deletion','insertion','some operation')):
    pinv+=[('rows done: '+nm,['I',isDM2],lambda c,i,m,idx=idx:bellp(c.this,c.a(0),adapted(c.a(1)),bl(c.a(4)),cplof(c.a(1)),m.cur,lambda a,b:a<i.cur,idx)),('cells done: '+nm,['I','I',isDM2],lambda c,i,j,m,idx=idx:bellp(c.this,c.a(0),adapted(c.a(1)),bl(c.a(4)),cplof(c.a(1)),m.cur,before(i.cur,j.cur),idx))]
pinv+=[('shape %d'%n_,[isDM2],lambda c,m,n_=n_:shape(m.cur,c.a(0).len,c.a(1).len)[n_][1]) for n_ in (0,1)]
C.append(Contract(Q+'calculateEditDistPrefixOpsAux',norm=True,modifies=('arg2','arg3'),requires=preq,invs=pinv,lemmas=lambda c:ghost(),
  ensures=lambda c:[('the distance to the prefix is returned',c.ret==dist(c,bl(c.a(4))))]+opposts(c.a(2),c.a(0).len,c.a(1).len)))
C.append(Contract(Q+'calculateEditDistPrefixOps',norm=True,modifies=('arg2','arg3'),requires=preq,ensures=lambda c:[('the distance to the prefix is returned',c.ret==dist(c,BoolVal(True)))]+opposts(c.a(2),c.a(0).len,c.a(1).len)))
C.append(Contract(Q+'calculateEditDistPrefixOpsNoPrefDel',norm=True,modifies=('arg2','arg3'),requires=preq,ensures=lambda c:[('the distance to the prefix is returned',c.ret==dist(c,BoolVal(False)))]+opposts(c.a(2),c.a(0).len,c.a(1).len)))
C.append(Contract(Q+'calculateEditDistPrefix',norm=True,requires=preq,ensures=lambda c:[('the distance to the prefix is returned',c.ret==dist(c,BoolVal(True)))]))
CONTRACTS=C
