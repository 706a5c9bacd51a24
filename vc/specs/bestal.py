from spec import *
import stl
from specs import wam
PROPS=('P13',)
TU=dict(name='bestal',text='#include "IncrIbm1AligModel.cc"\n#include "IncrIbm2AligModel.cc"\n#include "_incrHmmAligModel.cc"\n#include "CachedHmmAligLgProb.cc"\n#include "WordAligMatrix.cc"\n#include "_incrHmmP0AligModel.cc"\n')
log=stl.log
C=[]
VI=vec(I_); VR=vec(R_); VVR=vec(VR); VVI=vec(VI)
I,J,K,S,T_,P=Ints('bi bj bk bs bt bp'); A=z3.Const('ba',VI); B=z3.Const('bb',VI)
el=lambda v,k:vsel(v,k); ln=lambda v:vlen(v)
PTS=Function('lexical_probability',I_,I_,R_); APR=Function('alignment_probability',I_,I_,I_,I_,R_)
NV=Function('with_null_word',VI,VI)
AL=Function('any_alignment',I_,I_)
# ---- models whose words are aligned independently
def family(nm,lg):
    """lg(ns,t,i,j): log-probability of aligning target word j with extended source position i"""
    MX=Function('best_word_'+nm,VI,VI,I_,R_); MW=Function('best_word_at_'+nm,VI,VI,I_,I_); SM=Function('best_sum_'+nm,VI,VI,I_,R_); SA=Function('any_sum_'+nm,VI,VI,I_,R_)
    def defs(ns,t):
        n,m=ln(ns),ln(t); inj=And(0<=J,J<m)
        return [ForAll([I,J],Implies(And(0<=I,I<n,inj),lg(ns,t,I,J)<=MX(ns,t,J)),patterns=[MultiPattern(el(ns,I),MX(ns,t,J))]),
                ForAll([J],Implies(And(inj,n>0),And(0<=MW(ns,t,J),MW(ns,t,J)<n,MX(ns,t,J)==lg(ns,t,MW(ns,t,J),J))),patterns=[MX(ns,t,J)]),
                SM(ns,t,0)==0,SA(ns,t,0)==0,
                ForAll([J,K],Implies(And(inj,K==J+1),SM(ns,t,K)==SM(ns,t,J)+MX(ns,t,J)),patterns=[MultiPattern(SM(ns,t,J),SM(ns,t,K))]),
                ForAll([J,K],Implies(And(inj,K==J+1),And(0<=AL(J),AL(J)<n,SA(ns,t,K)==SA(ns,t,J)+lg(ns,t,AL(J),J))),patterns=[MultiPattern(SA(ns,t,J),SA(ns,t,K))])]
    return MX,SM,SA,defs
lex=lambda ns,t,i,j:log(PTS(el(ns,i),el(t,j)))
M1=family('m1',lex)
M2=family('m2',lambda ns,t,i,j:lex(ns,t,i,j)+log(APR(j+1,ln(ns)-1,ln(t),i)))
pos=lambda c:[('positive parameters (logarithms of doubles)',ForAll([S,T_],log(PTS(S,T_))>=-1000,patterns=[log(PTS(S,T_))])),('positive alignment parameters',ForAll([S,T_,I,J],log(APR(S,T_,I,J))>=-1000,patterns=[log(APR(S,T_,I,J))]))]
LG={'m1':lex,'m2':lambda ns,t,i,j:lex(ns,t,i,j)+log(APR(j+1,ln(ns)-1,ln(t),i))}
def bestalig(q,fam,nm):
    MX,SM,SA,defs=fam; lg=LG[nm]
    def post(c,b,ns,t,n): return ForAll([J],Implies(And(0<=J,J<n),And(0<=b[J],b[J]<ln(ns),lg(ns,t,b[J],J)==MX(ns,t,J))),patterns=[Select(b.arr,J),MX(ns,t,J)])
    C.append(Contract(q,modifies=('arg2',),requires=lambda c:pos(c)+[c.a(0).len>0],lemmas=lambda c:defs(un(c.a(0)),un(c.a(1))),mbqi=False,
      ensures=lambda c:[('one entry per target word',c.a(2).len==c.a(1).len),('each word aligned with a best position, in range',post(c,c.a(2),un(c.a(0)),un(c.a(1)),c.a(1).len)),('log-probability of the best alignment',c.ret.x==SM(un(c.a(0)),un(c.a(1)),c.a(1).len)),('no alignment has a higher probability',SA(un(c.a(0)),un(c.a(1)),c.a(1).len)<=c.ret.x)],
      invs=[('entries',['I'],lambda c,j:c.a(2).len==j.cur),('best so far',['I'],lambda c,j:post(c,c.a(2),un(c.a(0)),un(c.a(1)),j.cur)),
            ('sum',['I',LPH],lambda c,j,s:s.cur.x==SM(un(c.a(0)),un(c.a(1)),j.cur)),('bound',['I',LPH],lambda c,j,s:SA(un(c.a(0)),un(c.a(1)),j.cur)<=s.cur.x),
            ('best position so far',['mI',LPH,'I'],inner2(lg))]))
def LPH(r,v,mod): return mod and isinstance(v,z3.ExprRef) and 'LgProb' in str(v.sort())
def inner2(lg):
    def f(c,i,mx,b):
        ns,t=un(c.a(0)),un(c.a(1)); j=c.a(2).len
        return And(Implies(i.cur>0,And(0<=b.cur,b.cur<i.cur,mx.cur.x==lg(ns,t,b.cur,j))),ForAll([I],Implies(And(0<=I,I<i.cur),lg(ns,t,I,j)<=mx.cur.x),patterns=[el(ns,I)]),Implies(i.cur==0,mx.cur.x<-100000))
    return f
C.append(Contract('IncrIbm1AligModel::pts',trusted=True,ensures=lambda c:[('definition: lexical probability',c.ret.x==PTS(c.a(0),c.a(1)))]))
C.append(Contract('IncrIbm2AligModel::aProb',trusted=True,ensures=lambda c:[('definition: alignment probability',c.ret.x==APR(c.a(0),c.a(1),c.a(2),c.a(3)))]))
bestalig('IncrIbm1AligModel::lexM1LpForBestAlig',M1,'m1')
bestalig('IncrIbm2AligModel::lexAligM2LpForBestAlig',M2,'m2')
def nullpost(c):
    v,r=c.a(0),c.ret
    return [('one entry more',r.len==v.len+1),('null word first',r[0]==0),('then the words',ForAll([K],Implies(And(0<=K,K<v.len),r[K+1]==v[K]),patterns=[Select(v.arr,K)]))]
C.append(Contract('BaseSwAligModel::addNullWordToWidxVec',ensures=lambda c:nullpost(c)+[('definition: null word extension',un(c.ret)==NV(un(c.a(0))))],
   invs=[('copied',['vec','I'],lambda c,v,i:And(v.cur.len==i.cur+1,v.cur[0]==0,ForAll([K],Implies(And(0<=K,K<i.cur),v.cur[K+1]==c.a(0)[K]),patterns=[Select(c.a(0).arr,K)])))]))
LEN=Function('length_logprob',I_,I_,R_); OK1=Function('length_ok_ibm',VI,B_)
C.append(Contract('IncrIbm1AligModel::sentLenLgProb',trusted=True,ensures=lambda c:[('definition: sentence length model',c.ret.x==LEN(c.a(0),c.a(1)))]))
C.append(Contract('IncrIbm1AligModel::sentenceLengthIsOk',ensures=lambda c:[('length limit',c.ret==And(c.a(0).len>0,c.a(0).len<=IBM_MAX))]))
C.append(Contract('IncrIbm1AligModel::logaProbIbm1',ensures=lambda c:[('uniform over the source positions',c.ret.x==-ToReal(c.a(1))*log(ToReal(c.a(0))+1))],invs=[('sum',['I',LPH],lambda c,j,s:s.cur.x==-ToReal(j.cur)*log(ToReal(c.a(0))+1))]))
wf,cell,CFREE=wam.wf,wam.cell,wam.CFREE
for x in wam.CONTRACTS:
    if x.q in('WordAligMatrix::init','WordAligMatrix::clear','WordAligMatrix::reset'): C.append(x)
    if x.q=='WordAligMatrix::putAligVec':
        x.ensures=lambda c:wam.pav(c)+[('aligned words are linked',ForAll([J],Implies(And(c.old.a(0).len==c.old.this.J,0<=J,J<c.this.J,c.old.a(0)[J]>0),cell(c.this,c.old.a(0)[J]-1,J)!=0),patterns=[Select(c.old.a(0).arr,J)]))]
        C.append(x)
def obtain(q,fam,nm,base,ok):
    MX,SM,SA,defs=fam; lg=LG[nm]
    def ens(c):
        m=c.a(2); s,t=c.a(0),c.a(1); ns,tt=NV(un(s)),un(t); o=ok(c)
        return [('dimensions',And(m.I==s.len,m.J==t.len)),
          ('every link is a best choice for its word',Implies(o,ForAll([I,J],Implies(And(0<=I,I<m.I,0<=J,J<m.J,cell(m,I,J)!=0),lg(ns,tt,I+1,J)==MX(ns,tt,J)),patterns=[cell(m,I,J)]))),
          ('at most one link per word',Implies(o,ForAll([I,K,J],Implies(And(0<=I,I<m.I,0<=K,K<m.I,0<=J,J<m.J,cell(m,I,J)!=0,cell(m,K,J)!=0),I==K),patterns=[MultiPattern(cell(m,I,J),cell(m,K,J))]))),
          ('unlinked words are best aligned with the null word',Implies(o,ForAll([J],Implies(And(0<=J,J<m.J,CFREE(m.matrix.t,J,m.I)),lg(ns,tt,0,J)==MX(ns,tt,J)),patterns=[MX(ns,tt,J)]))),
          ('log-probability of the returned alignment',Implies(o,c.ret.x==base(c)+SM(ns,tt,t.len))),
          ('no alignment has a higher probability',Implies(o,base(c)+SA(ns,tt,t.len)<=c.ret.x))]
    C.append(Contract(q,modifies=('arg2',),norm=False,requires=lambda c:pos(c)+[wf(c.a(2)),c.a(0).len<2**31,c.a(1).len<2**31],lemmas=lambda c:defs(NV(un(c.a(0))),un(c.a(1)))+wam.defs(c),mbqi=False,ensures=ens))
IBM_MAX=1024
obtain('IncrIbm1AligModel::obtainBestAlignment',M1,'m1',lambda c:LEN(c.a(0).len,c.a(1).len)-ToReal(c.a(1).len)*log(ToReal(c.a(0).len)+1),lambda c:And(c.a(0).len>0,c.a(1).len>0,c.a(0).len<=IBM_MAX,c.a(1).len<=IBM_MAX))
obtain('IncrIbm2AligModel::obtainBestAlignment',M2,'m2',lambda c:LEN(c.a(0).len,c.a(1).len),lambda c:BoolVal(True))
def scored(q,nm,base):
    lg=LG[nm]; SC=Function('alignment_score_'+nm,VI,VI,VI,I_,R_)
    g=lambda c:(un(c.a(0)),un(c.a(1)),un(c.a(2)))
    def defs(c):
        ns,t,a=g(c); return [SC(ns,t,a,0)==0,ForAll([J,K],Implies(And(0<=J,J<ln(a),K==J+1),SC(ns,t,a,K)==SC(ns,t,a,J)+lg(ns,t,el(a,J),J)),patterns=[MultiPattern(SC(ns,t,a,J),SC(ns,t,a,K))])]
    C.append(Contract(q,lemmas=defs,requires=lambda c:[c.a(0).len>0,c.a(0).len<2**31,c.a(1).len<2**31,c.a(2).len==c.a(1).len,ForAll([J],Implies(And(0<=J,J<c.a(2).len),And(0<=c.a(2)[J],c.a(2)[J]<c.a(0).len)),patterns=[Select(c.a(2).arr,J)])],
      ensures=lambda c:[('sum of the log-probabilities of the words as aligned',c.ret.x==base(c)+SC(*g(c),c.a(1).len))],
      invs=[('sum',['I',LPH],lambda c,j,s:s.cur.x==base(c)+SC(*g(c),j.cur))]))
scored('IncrIbm1AligModel::incrIBM1LgProb','m1',lambda c:LEN(c.a(0).len-1,c.a(1).len)-ToReal(c.a(1).len)*log(ToReal(c.a(0).len-1)+1))
scored('IncrIbm2AligModel::incrIBM2LgProb','m2',lambda c:LEN(c.a(0).len-1,c.a(1).len))
# ---- hidden Markov model: states 1..N (words, then one null word per source position)
LAP=Function('transition_logprob',I_,I_,I_,R_); LPT=Function('emission_logprob',I_,I_,R_); SLEN=Function('source_length',VI,I_)
D=Function('best_prefix',VI,VI,I_,I_,R_); DW=Function('best_predecessor',VI,VI,I_,I_,I_); SAL=Function('any_state_sequence_score',VI,VI,I_,R_); SMALL=RealVal(-99999)
def hdefs(ns,t):
    n,m=ln(ns),ln(t); sl=SLEN(ns); L=lambda i,j:LPT(el(ns,i-1),el(t,j-1)); A=lambda p,i:LAP(p,sl,i); st=lambda i:And(1<=i,i<=n); d=lambda i,j:D(ns,t,i,j)
    return [ForAll([I,P],A(P,I)<=0,patterns=[A(P,I)]),ForAll([S,T_],LPT(S,T_)<=0,patterns=[LPT(S,T_)]),
      ForAll([I],Implies(st(I),d(I,1)==A(0,I)+L(I,1)),patterns=[d(I,1)]),
      ForAll([I,J,P,K],Implies(And(st(I),st(P),2<=J,J<=m,K==J-1),And(d(I,J)>=SMALL,d(I,J)>=d(P,K)+A(P,I)+L(I,J))),patterns=[MultiPattern(d(I,J),d(P,K))]),
      ForAll([I,J],Implies(And(st(I),2<=J,J<=m),And(d(I,J)>=SMALL,Or(d(I,J)==SMALL,And(st(DW(ns,t,I,J)),d(I,J)==d(DW(ns,t,I,J),J-1)+A(DW(ns,t,I,J),I)+L(I,J))))),patterns=[d(I,J)]),
      ForAll([J],Implies(And(1<=J,J<=m),st(AL(J))),patterns=[AL(J)]),
      SAL(ns,t,1)==A(0,AL(1))+L(AL(1),1),ForAll([J,K],Implies(And(2<=J,J<=m,K==J-1),SAL(ns,t,J)==SAL(ns,t,K)+A(AL(K),AL(J))+L(AL(J),J)),patterns=[MultiPattern(SAL(ns,t,J),SAL(ns,t,K))])]
cel=lambda v,i,j:vsel(vsel(v,i),j)
def rect(v,n,m): return And(vlen(v)==n,ForAll([I],Implies(And(0<=I,I<n),vlen(vsel(v,I))==m),patterns=[vsel(v,I)]))
cl=lambda t:t.cachedLgProbs.t
def cached(t): v=cl(t); return ForAll([P,S,I],Implies(And(0<=P,P<vlen(v),0<=S,S<vlen(vsel(v,P)),0<=I,I<vlen(cel(v,P,S)),vsel(cel(v,P,S),I)<99),vsel(cel(v,P,S),I)==LAP(P,S,I)),patterns=[vsel(cel(v,P,S),I)])
def has(t,p,s,i): v=cl(t); return And(p<vlen(v),s<vlen(vsel(v,p)),i<vlen(cel(v,p,s)))
Q='CachedHmmAligLgProb::'
C.append(Contract(Q+'isDefined',ensures=lambda c:[('defined',c.ret==And(has(c.this,c.a(0),c.a(1),c.a(2)),vsel(cel(cl(c.this),c.a(0),c.a(1)),c.a(2))<99))]))
C.append(Contract(Q+'get',requires=lambda c:[has(c.this,c.a(0),c.a(1),c.a(2))],ensures=lambda c:[('value',c.ret==vsel(cel(cl(c.this),c.a(0),c.a(1)),c.a(2)))]))
def cput(c):
    v,o=cl(c.this),cl(c.old.this); p,s,i=c.a(0),c.a(1),c.a(2)
    return [('set',And(has(c.this,p,s,i),vsel(cel(v,p,s),i)==c.a(3))),('the others kept or undefined',ForAll([P,S,I],Implies(And(0<=P,P<vlen(v),0<=S,S<vlen(vsel(v,P)),0<=I,I<vlen(cel(v,P,S)),Not(And(P==p,S==s,I==i)),vsel(cel(v,P,S),I)<99),And(has(c.old.this,P,S,I),vsel(cel(v,P,S),I)==vsel(cel(o,P,S),I))),patterns=[vsel(cel(v,P,S),I)]))]
C.append(Contract(Q+'set_boundary_check',modifies=('this',),ensures=cput,invs=[('kept',[],lambda c:ForAll([P,S,I],Implies(And(0<=P,P<vlen(cl(c.this)),0<=S,S<vlen(vsel(cl(c.this),P)),0<=I,I<vlen(cel(cl(c.this),P,S)),vsel(cel(cl(c.this),P,S),I)<99),And(has(c.le.this,P,S,I),vsel(cel(cl(c.this),P,S),I)==vsel(cel(cl(c.le.this),P,S),I))),patterns=[vsel(cel(cl(c.this),P,S),I)])),
   ('grows',[],lambda c:vlen(cl(c.this))>=vlen(cl(c.le.this))),('row grows',[],lambda c:vlen(cl(c.this))>c.a(0)),('cell grows',[],lambda c:vlen(vsel(cl(c.this),c.a(0)))>c.a(1))]))
def kept(n,o):
    has2=lambda v,p,s,i:And(p<vlen(v),s<vlen(vsel(v,p)),i<vlen(cel(v,p,s)))
    v=cl(n); x=vsel(cel(v,P,S),I); return ForAll([P,S,I],Implies(And(0<=P,P<vlen(v),0<=S,S<vlen(vsel(v,P)),0<=I,I<vlen(cel(v,P,S)),x<99),And(has(o,P,S,I),x==vsel(cel(cl(o),P,S),I))),patterns=[x])
def keptb(n,o):
    v=cl(o); x=vsel(cel(v,P,S),I); return ForAll([P,S,I],Implies(And(0<=P,P<vlen(v),0<=S,S<vlen(vsel(v,P)),0<=I,I<vlen(cel(v,P,S))),And(has(n,P,S,I),x==vsel(cel(cl(n),P,S),I))),patterns=[x])
C.append(Contract(Q+'makeRoomGivenNSrcSentLen',modifies=('this',),requires=lambda c:[c.a(0)<2**31],ensures=lambda c:[('no value appears',kept(c.this,c.old.this)),('no value is lost',keptb(c.this,c.old.this))],invs=[('none new',[],lambda c:kept(c.this,c.old.this)),('none lost',[],lambda c:keptb(c.this,c.old.this))]))
C.append(Contract(Q+'clear',modifies=('this',),ensures=lambda c:[('empty',vlen(cl(c.this))==0)]))
HM='_incrHmmAligModel::'
C.append(Contract(HM+'logaProb',trusted=True,ensures=lambda c:[('definition: transition',c.ret.x==LAP(c.a(0),c.a(1),c.a(2))),('a log-probability',c.ret.x<=0)]))
C.append(Contract(HM+'logpts',trusted=True,ensures=lambda c:[('definition: emission',c.ret.x==LPT(c.a(0),c.a(1)))]))
C.append(Contract(HM+'getSrcLen',trusted=True,ensures=lambda c:[('definition: source length',c.ret==SLEN(un(c.a(0))))]))
def lexdone(c,j,i=None):
    v=un(c.a(2)); d=J<j if i is None else Or(J<j,And(J==j,I<i))
    return ForAll([I,J],Implies(And(1<=I,I<=c.a(0).len,1<=J,J<=c.a(1).len,d),cel(v,I,J)==LPT(c.a(0)[I-1],c.a(1)[J-1])),patterns=[cel(v,I,J)])
C.append(Contract(HM+'initCachedLexicalLps',modifies=('arg2',),requires=lambda c:[c.a(0).len<2**31,c.a(1).len<2**31],ensures=lambda c:[('table of the log-probabilities of the words',And(rect(un(c.a(2)),c.a(0).len+1,c.a(1).len+1),lexdone(c,c.a(1).len+1)))],
   invs=[('size',[],lambda c:rect(un(c.a(2)),c.a(0).len+1,c.a(1).len+1)),('columns',['I'],lambda c,j:lexdone(c,j.cur)),('column',['I','I'],lambda c,j,i:lexdone(c,j.cur,i.cur))]))
def vdone(c,V,PR,j,i=None):
    """columns before j, and rows before i of column j, are final; later columns are as initialised"""
    ns,t=un(c.a(0)),un(c.a(1)); n,m=ln(ns),ln(t); sl=SLEN(ns); d=J<j if i is None else Or(J<j,And(J==j,I<i))
    p=cel(PR,I,J); ok=And(cel(V,I,J)==D(ns,t,I,J),Implies(And(J>=2,D(ns,t,I,J)>SMALL),And(1<=p,p<=n,D(ns,t,I,J)==D(ns,t,p,J-1)+LAP(p,sl,I)+LPT(el(ns,I-1),el(t,J-1)))),0<=p,p<=n)
    return ForAll([I,J],Implies(And(1<=I,I<=n,1<=J,J<=m),If(d,ok,And(cel(V,I,J)==SMALL,p==0))),patterns=[cel(V,I,J),cel(PR,I,J)])
def vrows(c,V,PR,j,i,it):
    """row i of column j after the predecessors before it"""
    ns,t=un(c.a(0)),un(c.a(1)); n,m=ln(ns),ln(t); sl=SLEN(ns); v=cel(V,i,j); p=cel(PR,i,j); L=LPT(el(ns,i-1),el(t,j-1))
    return And(v>=SMALL,v<=D(ns,t,i,j),0<=p,p<it,Implies(v>SMALL,And(p>=1,v==D(ns,t,p,j-1)+LAP(p,sl,i)+L)),ForAll([P],Implies(And(1<=P,P<it),v>=D(ns,t,P,j-1)+LAP(P,sl,i)+L),patterns=[D(ns,t,P,j-1)]))
vv=lambda c:(un(c.a(3)),un(c.a(4)))
def rest(c,j,i):
    """everything but cell (i,j)"""
    V,PR=vv(c); ns,t=un(c.a(0)),un(c.a(1)); n,m=ln(ns),ln(t); sl=SLEN(ns); d=Or(J<j,And(J==j,I<i)); p=cel(PR,I,J)
    ok=And(cel(V,I,J)==D(ns,t,I,J),Implies(And(J>=2,D(ns,t,I,J)>SMALL),And(1<=p,p<=n,D(ns,t,I,J)==D(ns,t,p,J-1)+LAP(p,sl,I)+LPT(el(ns,I-1),el(t,J-1)))),0<=p,p<=n)
    return ForAll([I,J],Implies(And(1<=I,I<=n,1<=J,J<=m,Not(And(I==i,J==j))),If(d,ok,And(cel(V,I,J)==SMALL,p==0))),patterns=[cel(V,I,J),cel(PR,I,J)])
def lextab(c,x): v=x.cur; return And(rect(un(v),c.a(0).len+1,c.a(1).len+1),ForAll([I,J],Implies(And(1<=I,I<=c.a(0).len,1<=J,J<=c.a(1).len),cel(un(v),I,J)==LPT(c.a(0)[I-1],c.a(1)[J-1])),patterns=[cel(un(v),I,J)]))
C.append(Contract(HM+'viterbiAlgorithmCached',modifies=('arg2','arg3','arg4'),mbqi=False,requires=lambda c:[cached(c.a(2)),c.a(0).len<2**31,c.a(1).len<2**31,c.a(1).len>0],lemmas=lambda c:hdefs(un(c.a(0)),un(c.a(1))),
   ensures=lambda c:[('dimensions of the scores',rect(vv(c)[0],c.a(0).len+1,c.a(1).len+1)),('dimensions of the predecessors',rect(vv(c)[1],c.a(0).len+1,c.a(1).len+1)),('cache holds transition log-probabilities',cached(c.a(2))),('predecessors in range',predin(vv(c)[1],c.a(0).len,c.a(1).len)),('definition: scores',vv(c)[0]==VITM(un(c.a(0)),un(c.a(1)))),('definition: predecessors',vv(c)[1]==PREDM(un(c.a(0)),un(c.a(1)))),
      ('scores are those of the best prefixes, predecessors attain them',vdone(c,*vv(c),c.a(1).len+1)),('no state sequence has a higher score',SAL(un(c.a(0)),un(c.a(1)),c.a(1).len)<=cel(vv(c)[0],AL(c.a(1).len),c.a(1).len))],
   invs=[('size of scores',[],lambda c:rect(vv(c)[0],c.a(0).len+1,c.a(1).len+1)),('size of predecessors',[],lambda c:rect(vv(c)[1],c.a(0).len+1,c.a(1).len+1)),('cache',[],lambda c:cached(c.a(2))),('predecessors in range',[],lambda c:predin(vv(c)[1],c.a(0).len,c.a(1).len)),
      ('columns',['I'],lambda c,j:vdone(c,*vv(c),j.cur)),('any sequence',['I'],lambda c,j:Implies(j.cur>=2,SAL(un(c.a(0)),un(c.a(1)),j.cur-1)<=D(un(c.a(0)),un(c.a(1)),AL(j.cur-1),j.cur-1))),
      ('column',['I','I'],lambda c,j,i:vdone(c,*vv(c),j.cur,i.cur)),('cells but one',['I','I'],lambda c,j,i:rest(c,j.cur,i.cur)),('cell',['I','I','I'],lambda c,j,i,it:vrows(c,*vv(c),j.cur,i.cur,it.cur))]))
GNS,GT=z3.Const('ghost_ns',VI),z3.Const('ghost_t',VI)
RAWB=Function('traced_back',VVR,VVI,VI); SB=Function('state_sequence_score',VI,VI,VI,I_,R_); VITM=Function('viterbi_scores',VI,VI,VVR); PREDM=Function('viterbi_predecessors',VI,VI,VVI); EXT=Function('with_null_states',VI,VI)
def sbdefs(ns,t,b):
    sl=SLEN(ns); L=lambda i,j:LPT(el(ns,i-1),el(t,j-1)); f=lambda j:SB(ns,t,b,j)
    return [f(1)==LAP(0,sl,el(b,0))+L(el(b,0),1),ForAll([J,K],Implies(And(1<=J,J<ln(t),K==J+1),f(K)==f(J)+LAP(el(b,J-1),sl,el(b,J))+L(el(b,J),K)),patterns=[MultiPattern(f(J),f(K))])]
class Args:
    def __init__(s,*a): s.v=a
    def a(s,i): return mkV(s.v[i])
def matok(V,PR,ns,t): return [rect(V,ln(ns)+1,ln(t)+1),rect(PR,ln(ns)+1,ln(t)+1),vdone(Args(ns,t),V,PR,ln(t)+1),predin(PR,ln(ns),ln(t))]
def predin(PR,n,m): return ForAll([I,J],Implies(And(0<=I,I<=n,0<=J,J<=m),And(0<=cel(PR,I,J),cel(PR,I,J)<=n)),patterns=[cel(PR,I,J)])
gd=lambda b,j:D(GNS,GT,el(b,j-1),j)
def good(b): return Or(gd(b,ln(GT))>SMALL,ln(GT)==1)
def chain(b,lo):
    n,m=ln(GNS),ln(GT); sl=SLEN(GNS); e=lambda k:el(b,k)
    return And(ForAll([K],Implies(And(lo<=K,K<m),And(0<=e(K),e(K)<=n)),patterns=[e(K)]),
      ForAll([K],Implies(And(lo<=K,K<m,good(b)),And(1<=e(K),Or(K==0,D(GNS,GT,e(K),K+1)>SMALL))),patterns=[e(K)]),
      ForAll([K],Implies(And(lo<K,K<m,good(b)),D(GNS,GT,e(K),K+1)==D(GNS,GT,e(K-1),K)+LAP(e(K-1),sl,e(K))+LPT(el(GNS,e(K)-1),el(GT,K))),patterns=[e(K)]))
def best(b,n): return ForAll([I],Implies(And(1<=I,I<n),D(GNS,GT,I,ln(GT))<=gd(b,ln(GT))),patterns=[D(GNS,GT,I,ln(GT))])
bq=lambda c:un(c.a(2))
greq=lambda V,PR:[ln(GNS)>=1,ln(GT)>=1,ln(GNS)<2**31,ln(GT)<2**31]+matok(V,PR,GNS,GT)
C.append(Contract(HM+'bestAligGivenVitMatricesRaw',modifies=('arg2',),mbqi=False,requires=lambda c:greq(un(c.a(0)),un(c.a(1))),lemmas=lambda c:hdefs(GNS,GT),
   ensures=lambda c:[('one state per target word',c.a(2).len==ln(GT)),('log-probability of its last state',c.ret==gd(bq(c),ln(GT))),('ends in a best state',best(bq(c),ln(GNS)+1)),('every state is the best predecessor of the next',chain(bq(c),0)),('definition: back trace',bq(c)==RAWB(un(c.a(0)),un(c.a(1))))],
   invs=[('size',[],lambda c:c.a(2).len==ln(GT)),('score',['R'],lambda c,r:r.cur==gd(bq(c),ln(GT))),('best last state',['mI'],lambda c,i:And(best(bq(c),i.cur),1<=el(bq(c),ln(GT)-1),el(bq(c),ln(GT)-1)<=ln(GNS))),('best',[],lambda c:best(bq(c),ln(GNS)+1)),
         ('traced',['mI'],lambda c,j:chain(bq(c),j.cur-1)),('counter',['mI'],lambda c,j:And(1<=j.cur,j.cur<=ln(GT))),('row',['mI'],lambda c,i:i.cur<=ln(GNS)+1)]))
b3=lambda c:un(c.a(3)); raw=lambda c:RAWB(un(c.a(1)),un(c.a(2)))
C.append(Contract(HM+'bestAligGivenVitMatrices',modifies=('arg3',),mbqi=False,requires=lambda c:greq(un(c.a(1)),un(c.a(2))),lemmas=lambda c:hdefs(GNS,GT)+sbdefs(GNS,GT,raw(c)),
   ensures=lambda c:[('states traced back, null states as 0',And(c.a(3).len==ln(GT),ln(raw(c))==ln(GT),ForAll([K],Implies(And(0<=K,K<ln(GT)),And(0<=el(raw(c),K),el(raw(c),K)<=ln(GNS),c.a(3)[K]==If(el(raw(c),K)>c.a(0),0,el(raw(c),K)))),patterns=[Select(c.a(3).arr,K),el(raw(c),K)]))),
      ('log-probability of the states returned',Implies(good(raw(c)),c.ret==SB(GNS,GT,raw(c),ln(GT)))),('good',c.ret==gd(raw(c),ln(GT))),('best',best(raw(c),ln(GNS)+1)),('a word or a null state',Implies(good(raw(c)),ForAll([K],Implies(And(0<=K,K<ln(GT)),el(raw(c),K)>=1),patterns=[el(raw(c),K)])))],
   invs=[('null states',['I'],lambda c,j:And(c.a(3).len==ln(GT),ForAll([K],Implies(And(0<=K,K<ln(GT)),c.a(3)[K]==If(And(K<j.cur,el(raw(c),K)>c.a(0)),0,el(raw(c),K))),patterns=[Select(c.a(3).arr,K),el(raw(c),K)]))),
         ('score',['I'],lambda c,j:Implies(And(good(raw(c)),j.cur>=1),SB(GNS,GT,raw(c),j.cur)==gd(raw(c),j.cur)))]))
C.append(Contract(HM+'extendWithNullWord',ensures=lambda c:[('one null word per source word',c.ret.len==2*c.a(0).len),('the words first',ForAll([K],Implies(And(0<=K,K<c.a(0).len),c.ret[K]==c.a(0)[K]),patterns=[Select(c.ret.arr,K)])),('definition: extension',un(c.ret)==EXT(un(c.a(0))))],
   requires=lambda c:[c.a(0).len<2**30],invs=[('words',['vec','I'],lambda c,v,i:And(v.cur.len==c.a(0).len+i.cur,ForAll([K],Implies(And(0<=K,K<c.a(0).len),v.cur[K]==c.a(0)[K]),patterns=[Select(v.cur.arr,K)])))]))
C.append(Contract(HM+'sentenceLengthIsOk',ensures=lambda c:[('length limit',c.ret==And(c.a(0).len>0,c.a(0).len<=HMM_MAX))]))
C.append(Contract(HM+'sentLenLgProb',trusted=True,ensures=lambda c:[('definition: sentence length model',c.ret.x==LEN(c.a(0),c.a(1)))]))
C.append(Contract('SingleWordVocab::stringToSrcWordIndex',trusted=True)); HMM_MAX=200
def hens(c,m):
    s,t=c.a(0),c.a(1); o=And(s.len>0,s.len<=HMM_MAX,t.len>0,t.len<=HMM_MAX); r=RAWB(VITM(GNS,GT),PREDM(GNS,GT)); g=And(o,good(r)); L=LEN(s.len,t.len)
    return [('dimensions',And(m.I==s.len,m.J==t.len,wf(m))),('a word is linked exactly with the source word of its state',Implies(o,ForAll([I,J],Implies(And(0<=I,I<m.I,0<=J,J<m.J),(cell(m,I,J)!=0)==(el(r,J)==I+1)),patterns=[cell(m,I,J)]))),
       ('states of the extended sentence',Implies(g,ForAll([J],Implies(And(0<=J,J<t.len),And(1<=el(r,J),el(r,J)<=2*s.len)),patterns=[el(r,J)]))),
       ('log-probability of the states of the alignment',Implies(g,c.ret.x==L+SB(GNS,GT,r,t.len))),('no state sequence has a higher probability',Implies(o,L+SAL(GNS,GT,t.len)<=c.ret.x))]
hl=lambda c:[GNS==EXT(un(c.a(0))),GT==un(c.a(1))]+hdefs(GNS,GT)+sbdefs(GNS,GT,RAWB(VITM(GNS,GT),PREDM(GNS,GT)))
C.append(Contract(HM+'obtainBestAlignmentCached',modifies=('arg2','arg3'),mbqi=False,requires=lambda c:[wf(c.a(3)),cached(c.a(2)),c.a(0).len<2**30,c.a(1).len<2**30],lemmas=hl,ensures=lambda c:hens(c,c.a(3))+[('cache holds transition log-probabilities',cached(c.a(2)))]))
C.append(Contract(HM+'obtainBestAlignment',modifies=('arg2',),mbqi=False,requires=lambda c:[wf(c.a(2)),c.a(0).len<2**30,c.a(1).len<2**30],lemmas=hl,ensures=lambda c:hens(c,c.a(2))))
CONTRACTS=C
