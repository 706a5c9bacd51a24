from spec import *
PROPS=('P04',)
TU=dict(name='bitsetmod',text='#include "Bitset.h"\ntemplate class Bitset<160>;\ntemplate bool operator< <160>(const Bitset<160>&,const Bitset<160>&);\ntemplate bool operator> <160>(const Bitset<160>&,const Bitset<160>&);\n')
N,NW=160,5
CHECKS=stl.bit_lemmas(32)
BIT=stl.BIT
k,p,j=Int('bk'),Int('bp'),Int('bj')
AI=ArraySort(I_,I_)
def at(s,x): return BIT(s.words[x/32],x%32)
def ata(arr,x): return BIT(Select(arr,x/32),x%32)
def wordq(c,f,new,old,extra=()):      # f(new word bit, old bits): for every word i and bit k
    return None
i_=Int('wi')
def bits(goal):       # for every word and every bit of it
    return ForAll([i_,k],Implies(And(i_>=0,i_<NW,k>=0,k<32),goal(i_,k)))
def W(s,i,b): return BIT(s.words[i],b)
wf=lambda s:And(s.words.len==NW)
ax=lambda c:stl.bit_axioms(32)
Q='Bitset::'; C=[]
def pos(i,b): return 32*i+b
def inv(new,old,f): return [('words done',['mI'],lambda c,i:And(i.cur>=0,i.cur<=NW,wf(new(c)))),
   ('done words',['mI'],lambda c,i:ForAll([i_,k],Implies(And(i_>=0,i_<i.cur,k>=0,k<32),f(c,i_,k)),patterns=[BIT(Select(new(c).words.arr,i_),k)])),
   ('other words',['mI'],lambda c,i:ForAll([i_],Implies(And(i_>=i.cur,i_<NW),new(c).words[i_]==old(c).words[i_]),patterns=[Select(new(c).words.arr,i_)]))]
T=lambda c:c.this; O=lambda c:c.old.this
def all_(c,f): return ForAll([i_,k],Implies(And(i_>=0,i_<NW,k>=0,k<32),f(c,i_,k)),patterns=[BIT(Select(c.this.words.arr,i_),k)])
def whole(q,nm,f,np,**kw):
    C.append(Contract(Q+q,nparams=np,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this)]+([wf(c.a(0))] if np else []),invs=inv(T,O,f),ensures=lambda c:[(nm,all_(c,f)),('size kept',wf(c.this))],**kw))
whole('reset','every bit is cleared',lambda c,i,b:Not(W(c.this,i,b)),0)
whole('set','every bit is set',lambda c,i,b:W(c.this,i,b),0)
whole('operator&=','bitwise and',lambda c,i,b:W(c.this,i,b)==And(W(c.old.this,i,b),W(c.a(0),i,b)),1)
whole('operator|=','bitwise or',lambda c,i,b:W(c.this,i,b)==Or(W(c.old.this,i,b),W(c.a(0),i,b)),1)
whole('operator^=','bitwise exclusive or',lambda c,i,b:W(c.this,i,b)==Xor(W(c.old.this,i,b),W(c.a(0),i,b)),1)
whole('operator=','the same bits',lambda c,i,b:W(c.this,i,b)==W(c.a(0),i,b),1)
def single(q,np,val,**kw):
    C.append(Contract(Q+q,nparams=np,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<N],ensures=lambda c:[('exactly that bit',all_(c,lambda c,i,b:W(c.this,i,b)==If(pos(i,b)==c.old.a(0),val(c),W(c.old.this,i,b)))),('size kept',wf(c.this))],**kw))
single('reset',1,lambda c:BoolVal(False)); single('set',2,lambda c:c.old.a(1)!=0)
C.append(Contract(Q+'test',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<N],ensures=lambda c:[('the bit at that position',c.ret==W(c.this,c.a(0)/32,c.a(0)%32))]))
eqw=lambda c:ForAll([i_],Implies(inr(i_,NW),c.this.words[i_]==c.a(0).words[i_]),patterns=[Select(c.this.words.arr,i_)])
eqi=[('equal so far',['mI'],lambda c,i:And(i.cur<=NW,ForAll([i_],Implies(inr(i_,i.cur),c.this.words[i_]==c.a(0).words[i_]),patterns=[Select(c.this.words.arr,i_)])))]
for q,pos_ in (('operator==',True),('operator!=',False)):
    C.append(Contract(Q+q,requires=lambda c:[wf(c.this),wf(c.a(0))],invs=eqi,ensures=lambda c,s=pos_:[('equality of the contents',c.ret==(eqw(c) if s else Not(eqw(c))))]))
def less(L,R,n=NW): return Exists([i_],And(inr(i_,NW),L.words[i_]<R.words[i_],ForAll([j],Implies(And(j>i_,j<NW),L.words[j]==R.words[j]),patterns=[Select(L.words.arr,j)])))
lti=[('equal above',['mI'],lambda c,i:And(i.cur>=0,i.cur<=NW,ForAll([i_],Implies(And(i_>=i.cur,i_<NW),c.a(0).words[i_]==c.a(1).words[i_]),patterns=[Select(c.a(0).words.arr,i_)])))]
C.append(Contract('operator<',ptypes=lambda ts:'Bitset' in str(ts),requires=lambda c:[wf(c.a(0)),wf(c.a(1))],invs=lti,ensures=lambda c:[('numeric order of the contents',c.ret==less(c.a(0),c.a(1)))]))
C.append(Contract('operator>',ptypes=lambda ts:'Bitset' in str(ts),requires=lambda c:[wf(c.a(0)),wf(c.a(1))],invs=lti,ensures=lambda c:[('numeric order of the contents',c.ret==less(c.a(1),c.a(0)))]))
def src(c,i,b): return pos(i,b)+c.old.a(0)
def shifted(c,i,b): return W(c.this,i,b)==And(src(c,i,b)<N,BIT(c.old.this.words[src(c,i,b)/32],src(c,i,b)%32))
isW=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==I_ and r in mod
C.append(Contract(Q+'operator>>=',modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<2**31],
  invs=inv(T,O,shifted)+[('mask',['mI','mI'],lambda c,i,w:And(w.cur>=0,w.cur<2**32,i.cur>=0,i.cur<32,i.cur<=c.old.a(0)%32,ForAll([k],Implies(And(k>=0,k<32),BIT(w.cur,k)==(k<i.cur)),patterns=[BIT(w.cur,k)])))],
  ensures=lambda c:[('every bit moves by the amount, zeros come in',all_(c,shifted)),('size kept',wf(c.this))]))
C.append(Contract(Q+'operator>>',requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<2**31],ensures=lambda c:[('every bit moves by the amount, zeros come in',ForAll([i_,k],Implies(And(i_>=0,i_<NW,k>=0,k<32),W(c.ret,i_,k)==And(src(c,i_,k)<N,BIT(c.this.words[src(c,i_,k)/32],src(c,i_,k)%32))),patterns=[BIT(Select(c.ret.words.arr,i_),k)]))]))
CNT=Function('bitcount',AI,IntSort(),IntSort())
def cntax(c):
    a=c.this.words.arr; m=Int('bm')
    return [CNT(a,0)==0,ForAll([j,m],Implies(And(j>=0,m==j+1),CNT(a,m)==CNT(a,j)+If(ata(a,j),1,0)),patterns=[MultiPattern(CNT(a,m),CNT(a,j))])]
sh=lambda j:stl.bitfn('<<',32)(IntVal(1),j)
C.append(Contract(Q+'count',bits=True,lemmas=lambda c:ax(c)+cntax(c),requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<=N],
  invs=[('position',['mI','mI'],lambda c,i,x:And(x.cur>=0,x.cur<=c.a(0),i.cur==x.cur/32)),
    ('mask',['mI','mI'],lambda c,w,x:And(w.cur>0,w.cur<2**32,BIT(w.cur,x.cur%32),ForAll([k],Implies(And(k>=0,k<32),BIT(w.cur,k)==(k==x.cur%32)),patterns=[BIT(w.cur,k)]))),
    ('counted so far',['mI','mI'],lambda c,n,x:And(n.cur==CNT(c.this.words.arr,x.cur),n.cur>=0,n.cur<=x.cur))],
  ensures=lambda c:[('the number of set bits among the first',c.ret==CNT(c.this.words.arr,c.a(0)))]))

def num(s): return sum([s.words[IntVal(i)]*IntVal(2**(32*i)) for i in range(NW)],IntVal(0))
R32=lambda s:[And(s.words[IntVal(i)]>=0,s.words[IntVal(i)]<2**32) for i in range(NW)]
C.append(Contract(Q+'Bitset',nparams=0,ctor=True,modifies=('this',),ensures=lambda c:[('every bit is cleared',ForAll([i_],Implies(inr(i_,NW),And(*[Not(W(c.this,i_,IntVal(b))) for b in range(0)])))),('size kept',wf(c.this)),('all words zero',ForAll([i_,k],Implies(And(i_>=0,i_<NW,k>=0,k<32),Not(W(c.this,i_,k))),patterns=[BIT(Select(c.this.words.arr,i_),k)]))]))
z0=lambda c,lo:ForAll([i_,k],Implies(And(i_>=lo,i_<NW,k>=0,k<32),Not(W(c.this,i_,k))),patterns=[BIT(Select(c.this.words.arr,i_),k)])
C.append(Contract(Q+'Bitset',nparams=1,ptypes=lambda ts:ts[0].get('b')=='unsigned int',ctor=True,modifies=('this',),ensures=lambda c:[('low word',c.this.words[IntVal(0)]==c.a(0)),('other bits cleared',z0(c,1)),('size kept',wf(c.this))]))
C.append(Contract(Q+'Bitset',nparams=1,ptypes=lambda ts:ts[0].get('b')=='unsigned long',ctor=True,modifies=('this',),ensures=lambda c:[('low words hold the value',c.this.words[IntVal(0)]+c.this.words[IntVal(1)]*2**32==c.old.a(0)),('other bits cleared',z0(c,2)),('size kept',wf(c.this))],
  invs=[('words of the value so far',['mI','mI'],lambda c,i,u:And(i.cur>=0,i.cur<=2,wf(c.this),u.cur>=0,c.old.a(0)==If(i.cur==0,u.cur,If(i.cur==1,c.this.words[IntVal(0)]+u.cur*2**32,c.this.words[IntVal(0)]+c.this.words[IntVal(1)]*2**32)),Implies(i.cur==1,u.cur<2**32))),('upper words clear',[],lambda c:z0(c,2))]))
C.append(Contract(Q+'to_uint',requires=lambda c:[wf(c.this)],ensures=lambda c:[('low word',c.ret==c.this.words[IntVal(0)])]))
C.append(Contract(Q+'to_ulong',requires=lambda c:[wf(c.this)]+R32(c.this),ensures=lambda c:[('value of the low 64 bits',c.ret==c.this.words[IntVal(0)]+c.this.words[IntVal(1)]*2**32)],
  invs=[('value so far',['mI','mI'],lambda c,i,r:And(i.cur>=0,i.cur<=2,r.cur==If(i.cur==2,0,If(i.cur==1,c.this.words[IntVal(1)],c.this.words[IntVal(0)]+c.this.words[IntVal(1)]*2**32))))]))
xw=Int('xw'); AND=stl.bitfn('&',32); TOP=IntVal(2**31); MAXW=IntVal(2**32-1)
_a=BitVec('A!v',32)
CHECKS+=[('the top bit',Implies(True,(_a&BitVecVal(2**31,32))==If(UGE(_a,BitVecVal(2**31,32)),BitVecVal(2**31,32),BitVecVal(0,32))))]
C.append(Contract(Q+'operator++',modifies=('this',),lemmas=lambda c:[ForAll([xw],Implies(And(xw>=0,xw<2**32),AND(xw,TOP)==If(xw>=TOP,TOP,IntVal(0))),patterns=[AND(xw,TOP)])],requires=lambda c:[wf(c.this)]+R32(c.this),
  invs=[('carried so far',['mI'],lambda c,i:And(i.cur>=0,i.cur<=NW,wf(c.this),*[If(i.cur>b,And(c.old.this.words[IntVal(b)]==MAXW,c.this.words[IntVal(b)]==0),c.this.words[IntVal(b)]==c.old.this.words[IntVal(b)]) for b in range(NW)]))],
  ensures=lambda c:[('the number increases by one (zero after the greatest)',num(c.this)==If(num(c.old.this)==2**(32*NW)-1,IntVal(0),num(c.old.this)+1)),('size kept',wf(c.this))]))
CONTRACTS=C
