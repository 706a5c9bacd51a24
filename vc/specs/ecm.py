from spec import *
PROPS=('P24',)
TU=dict(name='ecmmod',text='#include "_editDistBasedEcm.cc"\n#include "PfsmEcmForWg.cc"\n#include "NonPbEcModelForNbUcat.cc"\n#include "WgProcessorForAnlp.h"\n#include "EditDistForVecString.cc"\ntemplate class WgProcessorForAnlp<PfsmEcmForWg>;\n')
C=[]
STR=vec(I_); VS=vec(STR); AI=ArraySort(I_,I_); AS=ArraySort(I_,STR)
p_,q_,j_,n_=Ints('ep eq ej en'); O_=Const('eo',AI)
HIT,INS,DEL,SUB=0,1,2,3
# characters of the word / of the prefix that the first n operations consume
UX,UY=Function('used_of_the_output',AI,I_,I_),Function('used_of_the_prefix',AI,I_,I_)
def cnt():
    r=[]
    for f,g in ((UX,lambda o:Or(o==HIT,o==SUB,o==DEL)),(UY,lambda o:Or(o==HIT,o==SUB,o==INS))):
        r+=[ForAll([O_],f(O_,0)==0,patterns=[f(O_,0)]),ForAll([O_,n_],Implies(n_>=0,f(O_,n_+1)==f(O_,n_)+If(g(Select(O_,n_)),1,0)),patterns=[MultiPattern(f(O_,n_),Select(O_,n_))]),
            ForAll([O_,n_,q_],Implies(And(0<=n_,n_<=q_),And(f(O_,n_)>=0,f(O_,n_)<=f(O_,q_))),patterns=[MultiPattern(f(O_,n_),f(O_,q_))])]
    return r
def cnt():
    r=[]; m_=Int('em')
    for f,g in ((UX,lambda o:Or(o==HIT,o==SUB,o==DEL)),(UY,lambda o:Or(o==HIT,o==SUB,o==INS))):
        r+=[ForAll([O_],f(O_,0)==0,patterns=[f(O_,0)]),ForAll([O_,n_,m_],Implies(And(n_>=0,m_==n_+1),f(O_,m_)==f(O_,n_)+If(g(Select(O_,n_)),1,0)),patterns=[MultiPattern(f(O_,m_),Select(O_,n_))]),
            ForAll([O_,n_,q_],Implies(And(0<=n_,n_<=q_),And(f(O_,n_)>=0,f(O_,n_)<=f(O_,q_))),patterns=[MultiPattern(f(O_,n_),f(O_,q_))])]
    return r
E='_editDistBasedEcm::'
def valid(o,x,y):
    return [o.len<2**30,x.len<2**30,y.len<2**30,UY(o.arr,o.len)==y.len,UX(o.arr,o.len)<=x.len,
      ForAll([p_],Implies(And(0<=p_,p_<o.len),And(Select(o.arr,p_)>=0,Select(o.arr,p_)<=3,UX(o.arr,p_)>=0,UY(o.arr,p_)>=0,UX(o.arr,p_)+If(Select(o.arr,p_)!=INS,1,0)<=UX(o.arr,o.len),UY(o.arr,p_)+If(Select(o.arr,p_)!=DEL,1,0)<=UY(o.arr,o.len))),patterns=[Select(o.arr,p_)])]
h_=Int('eh')
hits=lambda o,x,y:ForAll([h_],Implies(And(0<=h_,h_<o.len,Select(o.arr,h_)==HIT),x[UX(o.arr,h_)]==y[UY(o.arr,h_)]),patterns=[Select(o.arr,h_)])
def pre(r,y,n): return ForAll([p_],Implies(And(0<=p_,p_<n),Select(r.arr,p_)==Select(y.arr,p_)),patterns=[Select(r.arr,p_)])
def rest(r,n,x,u,m): return ForAll([p_],Implies(And(n<=p_,p_<m),Select(r.arr,p_)==Select(x.arr,u+p_-n)),patterns=[Select(r.arr,p_)])
C.append(Contract(E+'correctWordGivenPrefOps',norm=True,modifies=('arg3',),lemmas=lambda c:cnt(),requires=lambda c:valid(c.a(0),c.a(1),c.a(2))+[hits(c.a(0),c.a(1),c.a(2))],
  invs=[('operations replayed',['I','I','I'],lambda c,i,j,k:And(k.cur>=0,k.cur<=c.a(0).len,i.cur==UX(c.a(0).arr,k.cur),j.cur==UY(c.a(0).arr,k.cur),c.a(3).len==j.cur,pre(c.a(3),c.a(2),j.cur))),
        ('rest kept',['I'],lambda c,i:And(i.cur>=UX(c.a(0).arr,c.a(0).len),i.cur<=c.a(1).len,c.a(3).len==c.a(2).len+i.cur-UX(c.a(0).arr,c.a(0).len),pre(c.a(3),c.a(2),c.a(2).len),rest(c.a(3),c.a(2).len,c.a(1),UX(c.a(0).arr,c.a(0).len),c.a(3).len)))],
  ensures=lambda c:[('starts with the prefix',And(c.a(3).len>=c.a(2).len,pre(c.a(3),c.a(2),c.a(2).len))),('followed by the rest of the word',And(c.a(3).len==c.a(2).len+c.a(1).len-UX(c.a(0).arr,c.a(0).len),rest(c.a(3),c.a(2).len,c.a(1),UX(c.a(0).arr,c.a(0).len),c.a(3).len)))]))
# ---- which part of the previous prefix can be reused
W='WgProcessorForAnlp::'
def same(c,i): a,b=c.this.previousPrefixVec,c.a(0); return And(Select(a.arr,i)==Select(b.arr,i),(i+1==a.len)==(i+1==b.len))
C.append(Contract(W+'getValidProcPrefixVec',norm=True,requires=lambda c:[c.a(0).len<2**30,c.this.previousPrefixVec.len<2**30],
  invs=[('common so far',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS],lambda c,i,r:And(r.cur.len==i.cur,i.cur<=c.this.previousPrefixVec.len,i.cur<=c.a(0).len,ForAll([p_],Implies(And(0<=p_,p_<i.cur),And(Select(r.cur.arr,p_)==Select(c.a(0).arr,p_),same(c,p_))),patterns=[Select(r.cur.arr,p_)])))],
  ensures=lambda c:[('the same words in the same role',And(c.ret.len<=c.a(0).len,c.ret.len<=c.this.previousPrefixVec.len,ForAll([p_],Implies(And(0<=p_,p_<c.ret.len),And(Select(c.ret.arr,p_)==Select(c.a(0).arr,p_),same(c,p_))),patterns=[Select(c.ret.arr,p_)]))),
    ('as many as possible',Or(c.ret.len==c.a(0).len,c.ret.len==c.this.previousPrefixVec.len,Not(same(c,c.ret.len))))]))
C.append(Contract(W+'getPrefixDiffVec',norm=True,requires=lambda c:[c.a(0).len<=c.a(1).len,c.a(1).len<2**30],
  invs=[('words added',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS],lambda c,i,r:And(i.cur<=c.a(1).len,r.cur.len==i.cur-c.a(0).len,rest(r.cur,0,c.a(1),c.a(0).len,r.cur.len)))],
  ensures=lambda c:[('the words that follow',And(c.ret.len==c.a(1).len-c.a(0).len,rest(c.ret,0,c.a(1),c.a(0).len,c.ret.len)))]))
# ---- whole translations: all words of the prefix, the last one perhaps incomplete, then the rest
c_=Int('ec')
lastw=lambda y:y[y.len-1]
blankend=lambda y:And(y.len>0,vsel(un(lastw(y)),vlen(un(lastw(y)))-1)==32)
def bare(w,l): return And(vlen(w)<=vlen(l),ForAll([c_],Implies(And(0<=c_,c_<vlen(w)),vsel(w,c_)==vsel(l,c_)),patterns=[vsel(w,c_)]),ForAll([c_],Implies(And(vlen(w)<=c_,c_<vlen(l)),vsel(l,c_)==32),patterns=[vsel(l,c_)]),Or(vlen(w)==0,vsel(w,vlen(w)-1)!=32))
def begins(w,l): return And(vlen(w)>=vlen(l),ForAll([c_],Implies(And(0<=c_,c_<vlen(l)),vsel(w,c_)==vsel(l,c_)),patterns=[vsel(w,c_)]))
def lastok(y,w): l=un(lastw(y)); return If(blankend(y),bare(w,l),begins(w,l))
def allwords(r,y,n): return And(ForAll([p_],Implies(And(0<=p_,p_<n,p_!=y.len-1),Select(r.arr,p_)==Select(y.arr,p_)),patterns=[Select(r.arr,p_)]),Implies(n>=y.len,Implies(y.len>0,lastok(y,Select(r.arr,y.len-1)))))
def sreq(c):
    o,ch,x,y=c.a(0).first,c.a(0).second,c.a(1),c.a(2)
    return valid(o,x,y)+[('words of the prefix',ForAll([p_],Implies(And(0<=p_,p_<y.len),And(vlen(Select(y.arr,p_))>0,vlen(Select(y.arr,p_))<2**30,Implies(p_<y.len-1,vsel(Select(y.arr,p_),vlen(Select(y.arr,p_))-1)!=32))),patterns=[Select(y.arr,p_)])),
      ('operations on the incomplete last word',ForAll([p_],Implies(And(0<=p_,p_<o.len,Select(o.arr,p_)==HIT,UY(o.arr,p_)==y.len-1,Not(blankend(y))),And(*(valid(ch,x[UX(o.arr,p_)],lastw(y))+[hits(ch,x[UX(o.arr,p_)],lastw(y))]))),patterns=[Select(o.arr,p_)]))]
isS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==STR
C.append(Contract(E+'correctStrGivenPrefOps',norm=True,modifies=('arg3',),lemmas=lambda c:cnt(),requires=sreq,
  invs=[('last word without blanks',[isS],lambda c,s:And(c.a(2).len>0,s.cur.len<=vlen(un(lastw(c.a(2)))),ForAll([c_],Implies(And(0<=c_,c_<s.cur.len),Select(s.cur.arr,c_)==vsel(un(lastw(c.a(2))),c_)),patterns=[Select(s.cur.arr,c_)]),ForAll([c_],Implies(And(s.cur.len<=c_,c_<vlen(un(lastw(c.a(2))))),vsel(un(lastw(c.a(2))),c_)==32),patterns=[vsel(un(lastw(c.a(2))),c_)]))),
        ('operations replayed',['I','I','I'],lambda c,i,j,k:And(k.cur>=0,k.cur<=c.a(0).first.len,i.cur==UX(c.a(0).first.arr,k.cur),j.cur==UY(c.a(0).first.arr,k.cur),c.a(3).len==j.cur,allwords(c.a(3),c.a(2),j.cur))),
        ('rest kept',['I'],lambda c,i:And(i.cur>=UX(c.a(0).first.arr,c.a(0).first.len),i.cur<=c.a(1).len,c.a(3).len==c.a(2).len+i.cur-UX(c.a(0).first.arr,c.a(0).first.len),allwords(c.a(3),c.a(2),c.a(2).len),rest(c.a(3),c.a(2).len,c.a(1),UX(c.a(0).first.arr,c.a(0).first.len),c.a(3).len)))],
  ensures=lambda c:[('starts with the prefix',And(c.a(3).len>=c.a(2).len,allwords(c.a(3),c.a(2),c.a(2).len))),('followed by the rest of the translation',And(c.a(3).len==c.a(2).len+c.a(1).len-UX(c.a(0).first.arr,c.a(0).first.len),rest(c.a(3),c.a(2).len,c.a(1),UX(c.a(0).first.arr,c.a(0).first.len),c.a(3).len)))]))
# ---- first row of scores: every prefix word is inserted, a blank that ends the last word does not count
P='StrProcUtils::'
BARE=Function('without_last_blank',STR,STR); INSC=Function('cost_of_inserting',STR,R_)
C.append(Contract(P+'lastCharIsBlank',trusted=True,norm=True,note='verified in module strp (P22)',ensures=lambda c:[('definition: ends with a blank',c.ret==And(c.a(0).len>0,c.a(0)[c.a(0).len-1]==32))]))
C.append(Contract(P+'removeLastBlank',trusted=True,norm=True,note='verified in module strp (P22)',ensures=lambda c:[('definition: without the last blank',c.ret.t==BARE(un(c.a(0))))]))
ES='EditDistForVecString::'
C.append(Contract(ES+'insertionCost',trusted=True,norm=True,note='number of letters times the insertion cost (native)',ensures=lambda c:[('definition: insertion cost',c.ret==INSC(un(c.a(0))))]))
def yw(y,j): w=un(y[j]); return If(And(j+1==y.len,vlen(w)>0,vsel(w,vlen(w)-1)==32),BARE(w),w)
def row(r,s,y,m): return And(ForAll([p_],Implies(And(0<=p_,p_<s.len),Select(r.arr,p_)==Select(s.arr,p_)),patterns=[Select(r.arr,p_)]),
   ForAll([p_],Implies(And(s.len<=p_,p_<m),Select(r.arr,p_)==If(p_>0,Select(r.arr,p_-1),RealVal(0))+INSC(yw(y,p_-s.len))),patterns=[Select(r.arr,p_)]))
C.append(Contract(ES+'incrEditDistPrefixFirstRow',norm=True,modifies=('arg2',),requires=lambda c:[c.a(0).len<2**30,c.a(1).len<2**30],
  invs=[('scores so far',['I'],lambda c,j:And(j.cur<=c.a(0).len,c.a(2).len==c.a(1).len+j.cur,row(c.a(2),c.a(1),c.a(0),c.a(2).len)))],
  ensures=lambda c:[('one score per word',c.a(2).len==c.a(1).len+c.a(0).len),('known scores kept, each further one adds an insertion',row(c.a(2),c.a(1),c.a(0),c.a(2).len))]))
G='PfsmEcmForWg::'
C.append(Contract(G+'extendInitialEsi',norm=True,modifies=('arg2',),requires=lambda c:[c.a(0).len<2**30,c.a(1).scrVec.len<2**30],
  ensures=lambda c:[('one score per word',c.a(2).scrVec.len==c.a(1).scrVec.len+c.a(0).len),('known scores kept, each further one adds an insertion',row(c.a(2).scrVec,c.a(1).scrVec,c.a(0),c.a(2).scrVec.len)),('operations kept',un(c.a(2).opIdVec)==un(c.old.a(2).opIdVec))]))
C.append(Contract(G+'obtainScrVecFromEsi',norm=True,requires=lambda c:[c.a(0).scrVec.len<2**30],
  invs=[('negated so far',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(R_) and mod],lambda c,i,r:And(i.cur<=c.a(0).scrVec.len,r.cur.len==i.cur,ForAll([p_],Implies(And(0<=p_,p_<i.cur),Select(r.cur.arr,p_)==-Select(c.a(0).scrVec.arr,p_)),patterns=[Select(r.cur.arr,p_)])))],
  ensures=lambda c:[('the costs negated',And(c.ret.len==c.a(0).scrVec.len,ForAll([p_],Implies(And(0<=p_,p_<c.ret.len),Select(c.ret.arr,p_)==-Select(c.a(0).scrVec.arr,p_)),patterns=[Select(c.ret.arr,p_)])))]))
C.append(Contract(G+'numberOfPosInEsi',requires=lambda c:[c.a(0).scrVec.len<2**30],ensures=lambda c:[('one per score',c.ret==c.a(0).scrVec.len)]))
def popped(n,o): return And(n.len==If(o.len>1,o.len-1,o.len),ForAll([p_],Implies(And(0<=p_,p_<n.len),Select(n.arr,p_)==Select(o.arr,p_)),patterns=[Select(n.arr,p_)]))
C.append(Contract(G+'removeLastPosFromEsi',norm=True,modifies=('arg0',),ensures=lambda c:[('last score removed',popped(c.a(0).scrVec,c.old.a(0).scrVec)),('last operation removed',popped(c.a(0).opIdVec,c.old.a(0).opIdVec))]))
# ---- a translation corrected as a whole
N='NonPbEcModelForNbUcat::'
C.append(Contract(N+'getLastOutSegm',norm=True,modifies=('arg2',),requires=lambda c:[c.a(1).len>=1,c.a(0).len<2**30,ForAll([p_],Implies(And(0<=p_,p_<c.a(1).len),And(c.a(1)[p_]>=0,c.a(1)[p_]<c.a(0).len)),patterns=[Select(c.a(1).arr,p_)])],
  invs=[('words so far',['I'],lambda c,i:And(i.cur>=left(c),Or(i.cur<=c.a(1)[c.a(1).len-1]+1,i.cur==left(c)),c.a(2).len==i.cur-left(c),rest(c.a(2),0,c.a(0),left(c),c.a(2).len)))],
  ensures=lambda c:[('the words after the last but one cut up to the last one',And(c.a(2).len==If(c.a(1)[c.a(1).len-1]+1>left(c),c.a(1)[c.a(1).len-1]+1-left(c),0),rest(c.a(2),0,c.a(0),left(c),c.a(2).len)))]))
left=lambda c:If(c.a(1).len==1,0,c.a(1)[c.a(1).len-2]+1)
C.append(Contract(N+'obtainVectorWithSegms',norm=True,requires=lambda c:[('one segment',And(c.a(1).len==1,c.a(1)[0]==c.a(0).len-1,c.a(0).len>=1)),c.a(0).len<2**30],
  invs=[('one segment',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(VS) and mod],lambda c,i,r:And(i.cur<=1,r.cur.len==i.cur,Implies(i.cur==1,And(r.cur[0].len==c.a(0).len,pre(r.cur[0],c.a(0),c.a(0).len))))),
        ('words so far',['I','I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod],lambda c,i,j,s:And(i.cur==0,j.cur<=c.a(0).len,s.cur.len==j.cur,pre(s.cur,c.a(0),j.cur)))],
  ensures=lambda c:[('the whole translation is the segment',And(c.ret.len==1,c.ret[0].len==c.a(0).len,pre(c.ret[0],c.a(0),c.a(0).len)))]))
CORR=Function('correction_of',VS,VS,VS)
for q in ('BaseErrorCorrectionModel::','PfsmEcm::'):
    C.append(Contract(q+'correctStrGivenPref',trusted=True,norm=True,modifies=('arg2',),note='edit script from calculateEditDistPrefixOps (native), replay proved',ensures=lambda c:[('definition: correction',c.a(2).t==CORR(un(c.a(0)),un(c.a(1)))),c.a(2).len<2**30]))
BA=Function('a_word_and_a_blank',STR,STR,B_)
def baax():
    u,v=Const('evu',STR),Const('evv',STR); w=Function('not_the_word_at',STR,STR,I_)
    return [ForAll([u,v,c_],Implies(And(BA(u,v),0<=c_,c_<vlen(v)),vsel(u,c_)==vsel(v,c_)),patterns=[MultiPattern(BA(u,v),vsel(u,c_)),MultiPattern(BA(u,v),vsel(v,c_))]),
            ForAll([u,v],Implies(BA(u,v),And(vlen(u)==vlen(v)+1,vsel(u,vlen(v))==32)),patterns=[BA(u,v)]),
            ForAll([u,v],Implies(Not(BA(u,v)),Or(vlen(u)!=vlen(v)+1,vsel(u,vlen(v))!=32,And(0<=w(u,v),w(u,v)<vlen(v),vsel(u,w(u,v))!=vsel(v,w(u,v))))),patterns=[BA(u,v)])]
def extC(c):
    a,b=Const('eva',VS),Const('evb',VS); d1=Function('differing_word_of',VS,VS,I_); o,y=un(c.this.outputSentVec),un(c.this.prefixVec); w_=Const('evw',STR); lw=un(lastw(c.this.prefixVec)); d2=Function('differing_letter_of',STR,STR,I_)
    return baax()+[ForAll([a,b],Or(CORR(a,b)==CORR(o,y),vlen(a)!=vlen(o),vlen(b)!=vlen(y),vsel(a,d1(a,o))!=vsel(o,d1(a,o)),vsel(b,d1(b,y))!=vsel(y,d1(b,y))),patterns=[CORR(a,b)]),
       ForAll([w_],Or(w_==lw,vlen(w_)!=vlen(lw),vsel(w_,d2(w_,lw))!=vsel(lw,d2(w_,lw))),patterns=[vlen(w_)])]
def fin(c,r):
    o,y=c.this.outputSentVec,c.this.prefixVec; k=CORR(un(o),un(y)); last=vlen(k)-1; lw=un(lastw(y)); kw=vsel(k,last)
    rb=And(vlen(k)==y.len,blankend(y),BA(lw,kw))
    return If(c.a(0).prefCuts.len==0,And(r.len==o.len,pre(r,o,o.len)),And(r.len==vlen(k),ForAll([p_],Implies(And(0<=p_,p_<vlen(k)),Or(Select(r.arr,p_)==vsel(k,p_),And(p_==last,rb,Select(r.arr,p_)==lw))),patterns=[Select(r.arr,p_)])))
C.append(Contract(N+'correctedSent',norm=True,modifies=(),lemmas=lambda c:extC(c),requires=lambda c:[('the whole translation is one segment',And(c.this.outputSentVec.len>=1,c.this.outputSentVec.len<2**30,c.this.sourceCuts.len==1,c.this.sourceCuts[0]==c.this.outputSentVec.len-1,c.this.outputSegmVec.len==1,c.this.outputSegmVec[0].len==c.this.outputSentVec.len,pre(c.this.outputSegmVec[0],c.this.outputSentVec,c.this.outputSentVec.len))),
    ('aligned with the whole prefix or with nothing',Or(And(c.a(0).prefCuts.len==0,c.a(0).transCuts.len==0),And(c.a(0).prefCuts.len==1,c.a(0).transCuts.len==1,c.a(0).transCuts[0]==c.this.outputSentVec.len-1,c.a(0).prefCuts[0]==c.this.prefixVec.len-1,c.this.prefixVec.len>=1,c.this.prefixVec.len<2**30))),
    ('words',ForAll([p_],Implies(And(0<=p_,p_<c.this.prefixVec.len),And(vlen(Select(c.this.prefixVec.arr,p_))>=1,vlen(Select(c.this.prefixVec.arr,p_))<2**30,ForAll([c_],Implies(Or(c_<0,c_>=vlen(Select(c.this.prefixVec.arr,p_))),vsel(Select(c.this.prefixVec.arr,p_),c_)==0),patterns=[vsel(Select(c.this.prefixVec.arr,p_),c_)]))),patterns=[Select(c.this.prefixVec.arr,p_)])),
    ('corrections have words',vlen(CORR(un(c.this.outputSentVec),un(c.this.prefixVec)))>=1)],
  invs=[('prefix words',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod],lambda c,j,s:And(j.cur<=c.this.prefixVec.len,s.cur.len==j.cur,pre(s.cur,c.this.prefixVec,j.cur))),
        ('no cut left',['I','I'],lambda c,i,l:And(i.cur<=1,l.cur==i.cur)),
        ('prefix cut',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod],lambda c,i,s:And(i.cur<=c.a(0).prefCuts.len,If(i.cur==0,s.cur.len==0,And(s.cur.len==c.this.prefixVec.len,pre(s.cur,c.this.prefixVec,s.cur.len))))),
        ('copied',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod,lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and not mod],lambda c,i,s,k:And(i.cur<=k.cur.len,s.cur.len==i.cur,pre(s.cur,k.cur,i.cur))),
        ('copied words',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod],lambda c,i,s:And(i.cur<=c.this.outputSentVec.len,s.cur.len==i.cur,pre(s.cur,c.this.outputSentVec,i.cur))),
        ('copied all',['I',lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod],lambda c,i,s:And(i.cur<=1,s.cur.len==If(i.cur==0,0,c.this.outputSentVec.len),pre(s.cur,c.this.outputSentVec,s.cur.len)))],
  ensures=lambda c:[('the correction of the last segment, the whole translation when nothing was typed',fin(c,c.ret))]))
CONTRACTS=C
