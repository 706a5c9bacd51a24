from spec import *
import stl
PROPS=('P25',)
TU=dict(name='seglen',text='#include "SegLenTable.cc"\n#include "SrcSegmLenTable.cc"\n#include "TrgSegmLenTable.cc"\n#include "TrgCutsTable.cc"\n')
log,exp=stl.log,stl.exp
C=[]
MAX=101; SMALL=RealVal(-99999)
T,K_=Ints('st sk')
cnt=lambda t,a,b:t.segmLengthCount[a][b]
mar=lambda t,a:t.ksegmLengthCountMargin[a]
inr2=lambda:And(T>=0,T<MAX,K_>=0,K_<MAX)
pt=lambda t:[cnt(t,T,K_)]
def W(t): return And(ForAll([T,K_],Implies(inr2(),And(0<=cnt(t,T,K_),cnt(t,T,K_)<=mar(t,T))),patterns=pt(t)))
def div(c):
    x,y=cnt(c.this,c.a(0),c.a(1)),mar(c.this,c.a(0)); return [Implies(And(0<=x,x<=y,y>0),And(x/y>=0,x/y<=1))]
C.append(Contract('SegLenTable::pk_tlen',lemmas=div,requires=lambda c:[W(c.this)],ensures=lambda c:[('a probability',And(c.ret.x>=0,c.ret.x<=1)),('relative frequency',c.ret.x==If(And(c.a(0)<MAX,c.a(1)<MAX,mar(c.this,c.a(0))!=0),cnt(c.this,c.a(0),c.a(1))/mar(c.this,c.a(0)),0))]))
C.append(Contract('SegLenTable::incrCountOf_tlen',modifies=('this',),requires=lambda c:[c.a(0)<MAX],ensures=lambda c:[('margins',ForAll([T],Implies(inr(T,MAX),mar(c.this,T)==mar(c.old.this,T)+If(T==c.a(0),1,0)),patterns=[mar(c.this,T)])),('counts kept',ForAll([T,K_],Implies(inr2(),cnt(c.this,T,K_)==cnt(c.old.this,T,K_)),patterns=pt(c.this))),('stays well formed',Implies(W(c.old.this),W(c.this)))]))
C.append(Contract('SegLenTable::incrCountOf_tlenk',modifies=('this',),requires=lambda c:[c.a(0)<MAX,c.a(1)<MAX],ensures=lambda c:[('counts',ForAll([T,K_],Implies(inr2(),cnt(c.this,T,K_)==cnt(c.old.this,T,K_)+If(And(T==c.a(0),K_==c.a(1)),1,0)),patterns=pt(c.this))),('margins kept',ForAll([T],Implies(inr(T,MAX),mar(c.this,T)==mar(c.old.this,T)),patterns=[mar(c.this,T)])),
   ('stays well formed when the length was counted',Implies(And(W(c.old.this),cnt(c.old.this,c.a(0),c.a(1))+1<=mar(c.old.this,c.a(0))),W(c.this)))]))
def rows(v,m): return [('rows done',['I'],lambda c,i:ForAll([T,K_],Implies(And(T>=0,T<i.cur,K_>=0,K_<MAX),cnt(c.this,T,K_)==v),patterns=pt(c.this))),('margins done',['I'],lambda c,i:ForAll([T],Implies(And(T>=0,T<i.cur),mar(c.this,T)==m),patterns=[mar(c.this,T)])),
   ('cells done',['I','I'],lambda c,i,j:ForAll([K_],Implies(And(K_>=0,K_<j.cur),cnt(c.this,i.cur,K_)==v),patterns=[cnt(c.this,i.cur,K_)])),('margin done',['I'],lambda c,i:mar(c.this,i.cur)==m),
   ('other margins zero',['I'],lambda c,i:ForAll([T],Implies(And(T>=i.cur,T<MAX),mar(c.this,T)==0),patterns=[mar(c.this,T)])),('other margins zero (in row)',['I'],lambda c,i:ForAll([T],Implies(And(T>i.cur,T<MAX),mar(c.this,T)==0),patterns=[mar(c.this,T)]))]
zero=lambda c:[('no counts',ForAll([T,K_],Implies(inr2(),cnt(c.this,T,K_)==0),patterns=pt(c.this))),('no totals',ForAll([T],Implies(inr(T,MAX),mar(c.this,T)==0),patterns=[mar(c.this,T)])),('well formed',W(c.this))]
C.append(Contract('SegLenTable::clear',modifies=('this',),ensures=zero,invs=rows(0,0)))
C.append(Contract('SegLenTable::SegLenTable',modifies=('this',),ensures=zero))
C.append(Contract('SegLenTable::constantSegmLengthTable',modifies=('this',),ensures=lambda c:[('constant',ForAll([T,K_],Implies(inr2(),cnt(c.this,T,K_)==1),patterns=pt(c.this))),('constant totals',ForAll([T],Implies(inr(T,MAX),mar(c.this,T)==1),patterns=[mar(c.this,T)])),('well formed',W(c.this))],invs=rows(1,1)))
# --- source segment length: 1/n over the n positions left; geometric
def lgax(c): 
    n=ToReal(c.a(2))-ToReal(c.a(1)); r=RealVal
    return stl.log_axioms()+[log(r(1))==0,Implies(n>=1,log(n)>=0),Implies(n>=1,exp(-log(n))*n==1),log(r(101))>0,exp(-log(r(101)))*101==1]
un_=lambda c:If(c.a(2)==0,-log(RealVal(101)),If(c.a(1)>=c.a(2),SMALL,-log(ToReal(c.a(2))-ToReal(c.a(1)))))
C.append(Contract('SrcSegmLenTable::srcSegmLenLgProbUniform',lemmas=lgax,ensures=lambda c:[('uniform over the positions left',c.ret.x==un_(c)),('a log-probability',c.ret.x<=0),('masses of the admissible lengths sum to one',Implies(And(c.a(2)>0,c.a(1)<c.a(2)),exp(c.ret.x)*(ToReal(c.a(2))-ToReal(c.a(1)))==1))]))
from fractions import Fraction
P9=RealVal(Fraction(0.9)); Q9=RealVal(1-Fraction(0.9))
H=lambda n: log(P9)+ToReal(n)*log(Q9)
glem=lambda c:stl.log_axioms()+[log(P9)<0,log(Q9)<0,ForAll([T],Implies(T>=0,ToReal(T)*log(Q9)<=0))]
wrap=lambda x:x%(2**32)
C.append(Contract('SrcSegmLenTable::srcSegmLenLgProbGeom',lemmas=glem,ensures=lambda c:[('geometric in the length',c.ret.x==H(wrap(c.a(0)-c.a(1)))),('a log-probability',c.ret.x<=0)]))
C.append(Contract('SrcSegmLenTable::srcSegmLenLgProb',lemmas=lambda c:lgax(c)+glem(c),requires=lambda c:[Or(c.this.mode==1,c.this.mode==2)],ensures=lambda c:[('the model of the mode',c.ret.x==If(c.this.mode==1,un_(c),H(wrap(c.a(0)-c.a(1))))),('a log-probability',c.ret.x<=0)]))
C.append(Contract('SrcSegmLenTable::SrcSegmLenTable',modifies=('this',),ensures=lambda c:[('uniform by default',c.this.mode==1)]))
# --- target segment length
seg=lambda c,k:c.a(1)[k]
inside=lambda c:[c.a(0)<c.a(1).len,c.a(1)[c.a(0)].first<=c.a(2),c.a(2)-c.a(1)[c.a(0)].first<2**32-1]
def bound(c,g,upto,lo):   # g = nextGapStart
    return And(g<=c.a(2),ForAll([T],Implies(And(T>=0,T<upto,seg(c,T).first>lo),g<=seg(c,T).first),patterns=[seg(c,T)] if 0 else [Select(c.a(1).arr,T)]),Or(g==c.a(2),g>lo))
def wit(c,g,upto,lo): return Or(g==c.a(2),Exists([T],And(T>=0,T<upto,seg(c,T).first>lo,g==seg(c,T).first)))
GAP=Function('gap_width',I_,I_)
def gpost(c):   # exp(-result) is the width of the gap
    g=exp(-c.ret.x); lo=c.a(1)[c.a(0)].first; w=lambda p:ToReal(p-lo+1)
    return And(g>=1,g<=w(c.a(2)),ForAll([T],Implies(And(T>=0,T<c.a(0),seg(c,T).first>lo),g<=w(seg(c,T).first)),patterns=[Select(c.a(1).arr,T)]),Or(g==w(c.a(2)),Exists([T],And(T>=0,T<c.a(0),seg(c,T).first>lo,g==w(seg(c,T).first)))))
def glog(c): 
    g=Real('lgr'); return stl.log_axioms()+[ForAll([g],Implies(g>0,And(log(1/g)==-log(g),exp(-log(1/g))==g)),patterns=[log(1/g)]),ForAll([g],Implies(g>=1,log(g)>=0),patterns=[log(g)])]
C.append(Contract('TrgSegmLenTable::trgSegmLenLgProbUniform',lemmas=glog,requires=inside,ensures=lambda c:[('uniform over the gap up to the next translated segment',gpost(c)),('a log-probability',c.ret.x<=0)],
   invs=[('nearest start so far',['I','I'],lambda c,j,g:And(bound(c,g.cur,j.cur,c.a(1)[c.a(0)].first),wit(c,g.cur,j.cur,c.a(1)[c.a(0)].first)))]))
tlen=lambda c:wrap(wrap(c.a(1)[c.a(0)].second-c.a(1)[c.a(0)].first)+1)
def tw(c):
    return (c.a(1)[c.a(0)].second-c.a(1)[c.a(0)].first+1)%(2**32)
C.append(Contract('TrgSegmLenTable::trgSegmLenLgProbGeom',lemmas=glem,requires=lambda c:[c.a(0)<c.a(1).len],ensures=lambda c:[('geometric in the length difference',c.ret.x==H(If(tw(c)<c.a(3),c.a(3)-tw(c),tw(c)-c.a(3)))),('a log-probability',c.ret.x<=0)]))
C.append(Contract('TrgSegmLenTable::TrgSegmLenTable',modifies=('this',),ensures=lambda c:[('uniform by default, averages positive',And(c.this.mode==1,c.this.avgSrcSegmLen>0,c.this.avgTrgSegmLen>0))]))
# --- target cuts
cutok=lambda t:And(t.jumpOnePar>0,t.jumpOnePar<1,t.stopJumps>0,t.stopJumps<1,t.jumpOnePar+t.stopJumps==1)
ab=lambda x:If(x<0,-x,x)
C.append(Contract('TrgCutsTable::trgCutsLgProb',requires=lambda c:[cutok(c.this),c.a(0)>-2**31],lemmas=lambda c:stl.log_axioms()+[log(c.this.jumpOnePar)<0,log(c.this.stopJumps)<0,Implies(log(c.this.jumpOnePar)<0,ToReal(ab(c.a(0)))*log(c.this.jumpOnePar)<=0)],ensures=lambda c:[('geometric in the jump distance',c.ret.x==ToReal(ab(c.a(0)))*log(c.this.jumpOnePar)+log(c.this.stopJumps)),('a log-probability',c.ret.x<=0)]))
C.append(Contract('TrgCutsTable::TrgCutsTable',modifies=('this',),ensures=lambda c:[('default parameters sum to one',cutok(c.this))]))
CONTRACTS=C
