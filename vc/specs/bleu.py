from spec import *
PROPS=('P16',)
TU=dict(name='bleumod',text='#include "bleu.cc"\n#include "MiraBleu.cc"\n#include "chrf.cc"\n#include "MiraChrF.cc"\n#include "MiraWer.cc"\n#include "MiraGtm.cc"\n')
STR=vec(I_); VS=vec(STR); AS=ArraySort(I_,STR); AB=ArraySort(I_,B_)
C=[]
ii,jj,kk,nn,mm=Ints('gi gj gk gn gm'); sa,sb=Const('gsa',AS),Const('gsb',AS); ab=Const('gab',AB); vb=Const('gvb',B_); cl=Int('gcl')
TRUES=Function('trues',AB,IntSort(),IntSort())           # how many of the first n are true
def trues(): return [ForAll([ab],TRUES(ab,0)==0,patterns=[TRUES(ab,0)]),
  ForAll([ab,jj,vb,nn],Implies(And(jj>=0,nn>jj,Not(Select(ab,jj)),vb),TRUES(Store(ab,jj,vb),nn)==TRUES(ab,nn)+1),patterns=[TRUES(Store(ab,jj,vb),nn)]),
  ForAll([ab,jj,vb,nn],Implies(And(jj>=nn,nn>=0),TRUES(Store(ab,jj,vb),nn)==TRUES(ab,nn)),patterns=[TRUES(Store(ab,jj,vb),nn)]),
  ForAll([ab,jj,vb,nn],Implies(And(jj>=0,nn==jj+1),TRUES(Store(ab,jj,vb),nn)==TRUES(ab,jj)+If(vb,1,0)),patterns=[TRUES(Store(ab,jj,vb),nn)]),
  ForAll([ab,nn],Implies(nn>=0,And(TRUES(ab,nn)>=0,TRUES(ab,nn)<=nn)),patterns=[TRUES(ab,nn)])]
mx=lambda n,l: If(n>l,0,l-n+1)
def same(S,R,n): return And(S.len==R.len,ForAll([kk],Implies(inr(kk,S.len),un(S[kk])==un(R[kk])),patterns=[Select(S.arr,kk),Select(R.arr,kk)]))
isVB=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(B_)
ref,sys_,n_=lambda c:c.old.a(0),lambda c:c.old.a(1),lambda c:c.old.a(2)
rt=lambda c:mx(n_(c),ref(c).len); tt=lambda c:mx(n_(c),sys_(c).len)
eqg=lambda c,i,j,k:un(sys_(c)[i+k])==un(ref(c)[j+k])
SAME=lambda c:same(sys_(c),ref(c),None)
pinv=[('matched flags filled',['I',isVB],lambda c,i,m:And(m.cur.len==i.cur,i.cur<=rt(c),TRUES(m.cur.arr,i.cur)==0,ForAll([jj],Implies(inr(jj,i.cur),Not(m.cur[jj])),patterns=[Select(m.cur.arr,jj)]))),
  ('flags',[isVB],lambda c,m:m.cur.len==rt(c)),
  ('totals',[],lambda c:c.a(4)==tt(c)),
  ('matches counted',[isVB],lambda c,m:And(c.a(3)==TRUES(m.cur.arr,rt(c)))),
  ('matches below positions',['I'],lambda c,i:And(c.a(3)<=i.cur,c.a(3)>=0)),
  ('matches below next position',['I'],lambda c,i:And(c.a(3)<=i.cur+1,c.a(3)>=0)),
  ('match flag means equal so far',['I','I','I','B'],lambda c,i,j,k,b:Implies(b.cur,ForAll([kk],Implies(And(kk>=0,kk<k.cur),eqg(c,i.cur,j.cur,kk)),patterns=[Select(ref(c).arr,j.cur+kk)]))),
  ('identical: all earlier matched',['I',isVB],lambda c,i,m:Implies(IDENT,ForAll([jj],Implies(inr(jj,rt(c)),m.cur[jj]==(jj<i.cur)),patterns=[Select(m.cur.arr,jj)]))),
  ('identical: count',['I'],lambda c,i:Implies(IDENT,c.a(3)==i.cur)),
  ('identical: own position matches',['I','I','B'],lambda c,i,j,b:Implies(And(IDENT,i.cur==j.cur),b.cur)),
  ('identical: search not past',['I','I'],lambda c,i,j:Implies(IDENT,j.cur<=i.cur))]
MATCHES=Function('matches',VS,VS,IntSort(),IntSort())
IDENT=Bool('identical sentences')
C.append(Contract('prec_n',modifies=('arg3','arg4'),lemmas=lambda c:trues()+[IDENT==SAME(c)],requires=lambda c:[c.a(2)>=1,c.a(2)<2**31,c.a(0).len<2**31,c.a(1).len<2**31],invs=pinv,
  ensures=lambda c:[('n-grams of the output',c.a(4)==tt(c)),('no more matches than output n-grams',And(0<=c.a(3),c.a(3)<=tt(c))),('no more matches than reference n-grams',c.a(3)<=rt(c)),('identical output: all match',Implies(SAME(c),c.a(3)==tt(c))),('definition: matches of this output, reference and size',c.a(3)==MATCHES(un(ref(c)),un(sys_(c)),n_(c)))]))
log,exp=stl.log,stl.exp
# --- scores from sufficient statistics: [output length, reference length, (matches, n-grams) for n=1..4]
VU=vec(I_); AI=ArraySort(I_,I_)
xr=Real('bxr')
def mlog(x): return If(x==0,RealVal(-999999999),log(x))
def plog(m,t): return If(t==0,RealVal(0),mlog(ToReal(m)/ToReal(t)))
def bleu(st): 
    s=lambda k:st[IntVal(k)]
    bp=If(s(0)<s(1),exp(1-ToReal(s(1))/ToReal(s(0))),RealVal(1))
    return bp*exp((plog(s(2),s(3))+plog(s(4),s(5))+plog(s(6),s(7))+plog(s(8),s(9)))/4)
def logfacts(): return [ForAll([xr],Implies(And(xr>0,xr<=1),log(xr)<=0),patterns=[log(xr)]),log(RealVal(1))==0,exp(RealVal(0))==1,ForAll([xr],And(exp(xr)>0,Implies(xr<=0,exp(xr)<=1)),patterns=[exp(xr)])]
C.append(Contract('my_log',requires=lambda c:[c.a(0)>=0],ensures=lambda c:[('logarithm with a floor',c.ret==mlog(c.a(0)))]))
def wfs(st): return And(st.len==10,*[st[IntVal(k)]>=0 for k in range(10)],*[st[IntVal(2*k)]<=st[IntVal(2*k+1)] for k in range(1,5)])
Q='MiraBleu::'
def ratio(c):
    st=c.a(0); s=lambda k:st[IntVal(k)]; r=[]
    for k in range(1,5): r.append(Implies(And(s(2*k)>=0,s(2*k)<=s(2*k+1),s(2*k+1)>0),And(ToReal(s(2*k))/ToReal(s(2*k+1))>=0,ToReal(s(2*k))/ToReal(s(2*k+1))<=1,(ToReal(s(2*k))/ToReal(s(2*k+1))==1)==(s(2*k)==s(2*k+1)))))
    r.append(Implies(And(s(0)>0,s(0)<s(1)),ToReal(s(1))/ToReal(s(0))>=1))
    return r
isR=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==R_
def psum(st,n): 
    r=RealVal(0)
    for k in (4,3,2,1): r=If(n>k,plog(st[IntVal(2*k)],st[IntVal(2*k+1)]),RealVal(0))+r
    return r
BF=Function('bleuscore',*([IntSort()]*10),RealSort())
bfs=lambda f:BF(*[f(k) for k in range(10)])
C.append(Contract(Q+'scoreFromStats',lemmas=lambda c:logfacts()+ratio(c),requires=lambda c:[c.this.N_STATS==10,wfs(c.a(0))],
  invs=[('logarithms so far',['I',isR],lambda c,n,x:And(n.cur>=1,n.cur<=5,x.cur==psum(c.a(0),n.cur))),('not positive so far',[isR],lambda c,x:x.cur<=0)],
  ensures=lambda c:[('definition: score of these statistics',c.ret==bfs(lambda k:c.a(0)[IntVal(k)])),('brevity penalty times the geometric mean of the precisions',c.ret==bleu(c.a(0))),('between zero and one',Implies(Or(c.a(0)[0]>0,c.a(0)[1]==0),And(0<=c.ret,c.ret<=1))),('one for a full match of the same length',Implies(And(c.a(0)[0]>=c.a(0)[1],*[c.a(0)[IntVal(2*k)]==c.a(0)[IntVal(2*k+1)] for k in range(1,5)]),c.ret==1))]))

TOK=Function('tokens',STR,VS)
C.append(Contract('StrProcUtils::stringToStringVector',trusted=True,note='proved for P22; used here only as a function of the string',ensures=lambda c:[('t',un(c.ret)==TOK(un(c.a(0)))),('l',c.ret.len<2**30)]))
def stat(cand,refs,k):
    if k==0: return cand.len
    if k==1: return refs.len
    n=k//2
    return MATCHES(un(refs),un(cand),IntVal(n)) if k%2==0 else mx(IntVal(n),cand.len)
def isstat(st,cand,refs,plus=0): return [('statistic %d'%k,st[IntVal(k)]==stat(cand,refs,k)+plus) for k in range(10)]
small=lambda v:v.len<2**30
stinv=[('statistics so far',['I'],lambda c,n:And(n.cur>=1,n.cur<=5,c.a(2).len==2*n.cur,*[Implies(n.cur*2>k,And(c.a(2)[IntVal(k)]==stat(c.a(0),c.a(1),k),c.a(2)[IntVal(k)]>=0,c.a(2)[IntVal(k)]<=c.a(0).len if k!=1 else BoolVal(True),c.a(2)[IntVal(k)]<=c.a(2)[IntVal(k+1)] if k>1 and k%2==0 else BoolVal(True),Implies(IDST,c.a(2)[IntVal(k)]==c.a(2)[IntVal(k+1)]) if k>1 and k%2==0 else BoolVal(True))) for k in range(10)]))]
IDST=Bool('identical output and reference')
C.append(Contract(Q+'statsForSentence',modifies=('arg2',),lemmas=lambda c:[IDST==same(c.a(0),c.a(1),None)],requires=lambda c:[small(c.a(0)),small(c.a(1))],invs=stinv,
  ensures=lambda c:[('well formed statistics',wfs(c.a(2)))]+isstat(c.a(2),c.a(0),c.a(1))+[('no statistic above the output length',And(*[c.a(2)[IntVal(k)]<=c.a(0).len for k in range(10) if k!=1])),('identical: everything matches',Implies(same(c.a(0),c.a(1),None),And(*[c.a(2)[IntVal(2*k)]==c.a(2)[IntVal(2*k+1)] for k in range(1,5)])))]))
def fullst(f): 
    s=f
    bp=If(s(0)<s(1),exp(1-ToReal(s(1))/ToReal(s(0))),RealVal(1))
    return bp*exp((plog(s(2),s(3))+plog(s(4),s(5))+plog(s(6),s(7))+plog(s(8),s(9)))/4)
cnd=lambda c:mkV(TOK(un(c.a(0)))); rfs=lambda c:mkV(TOK(un(c.a(1))))
K_=Int('bk')
sinv=[('incremented so far',['I',isVU_],lambda c,i,v:And(v.cur.len==10,*[v.cur[IntVal(k)]==stat(cnd(c),rfs(c),k)+If(IntVal(k)<i.cur,1,0) for k in range(10)])) for isVU_ in [lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VU]]
C.append(Contract(Q+'sentScore',modifies=('arg2',),requires=lambda c:[c.this.N_STATS==10],invs=sinv,ensures=lambda c:[('score of the smoothed statistics',c.a(2)==fullst(lambda k:stat(cnd(c),rfs(c),k)+1)),('between zero and one',And(c.a(2)>=0,c.a(2)<=1)),('an output equal to its reference scores one',Implies(un(c.a(0))==un(c.a(1)),c.a(2)==1))]))

SUMST=Function('statsum',AS,AS,IntSort(),IntSort(),IntSort())
def tk(a,i): return mkV(TOK(Select(a,i)))
def sumax(a,b):
    r=[]
    for k in range(10):
        K=IntVal(k); st=lambda i:stat(tk(a,i),tk(b,i),k)
        r+=[SUMST(a,b,K,0)==0,ForAll([nn,mm],Implies(And(nn>=0,mm==nn+1),SUMST(a,b,K,mm)==SUMST(a,b,K,nn)+st(nn)),patterns=[MultiPattern(SUMST(a,b,K,mm),SUMST(a,b,K,nn))])]
    return r
def csum(c,k,n): return SUMST(c.a(0).arr,c.a(1).arr,IntVal(k),n)
IDALL=Bool('all outputs equal their references')
def sums(c,v,n): return And(v.len==10,*[v[IntVal(k)]==csum(c,k,n) for k in range(10)],*[v[IntVal(k)]>=0 for k in range(10)],*[v[IntVal(2*k)]<=v[IntVal(2*k+1)] for k in range(1,5)])
def csame(c): return ForAll([K_],Implies(inr(K_,c.a(0).len),un(c.a(0)[K_])==un(c.a(1)[K_])),patterns=[Select(c.a(0).arr,K_)])
isVU=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VU
cinv=[('sums over the sentences so far',['I',isVU],lambda c,i,v:And(i.cur<=c.a(0).len,sums(c,v.cur,i.cur))),
  ('identical sentences: all match so far',[isVU],lambda c,v:Implies(IDALL,And(v.cur[0]==v.cur[1],*[v.cur[IntVal(2*k)]==v.cur[IntVal(2*k+1)] for k in range(1,5)]))),
  ('sentence added so far',['I','I',isVU],lambda c,i,j,v:And(v.cur.len==10,i.cur>=0,i.cur<c.a(0).len,j.cur>=0,j.cur<=10,*[v.cur[IntVal(k)]==csum(c,k,i.cur)+If(IntVal(k)<j.cur,stat(tk(c.a(0).arr,i.cur),tk(c.a(1).arr,i.cur),k),0) for k in range(10)]))]
nowrap=lambda c:[And(*[ForAll([K_],Implies(And(K_>=0,K_<c.a(0).len),And(csum(c,k,K_)>=0,csum(c,k,K_)+stat(tk(c.a(0).arr,K_),tk(c.a(1).arr,K_),k)<2**32)),patterns=[csum(c,k,K_)]) for k in range(10)])]
C.append(Contract(Q+'corpusScore',modifies=('arg2',),note='assumes that the summed statistics stay below 2^32',lemmas=lambda c:sumax(c.a(0).arr,c.a(1).arr)+[IDALL==csame(c)],requires=lambda c:[c.this.N_STATS==10,c.a(0).len==c.a(1).len,c.a(0).len<2**31]+nowrap(c),invs=cinv,
  ensures=lambda c:[('score of the summed statistics',c.a(2)==fullst(lambda k:csum(c,k,c.a(0).len))),('between zero and one',Implies(Or(csum(c,0,c.a(0).len)>0,csum(c,1,c.a(0).len)==0),And(c.a(2)>=0,c.a(2)<=1))),('outputs equal to their references score one',Implies(csame(c),c.a(2)==1))]))
def bg(t): return And(t.N_STATS==10,t.backgroundBleu.len==10,*[t.backgroundBleu[IntVal(k)]>=0 for k in range(10)],*[t.backgroundBleu[IntVal(2*k)]<=t.backgroundBleu[IntVal(2*k+1)] for k in range(1,5)])
C.append(Contract(Q+'resetBackgroundCorpus',modifies=('this',),requires=lambda c:[c.this.N_STATS==10],ensures=lambda c:[('background well formed',bg(c.this)),('all ones',And(*[c.this.backgroundBleu[IntVal(k)]==1 for k in range(10)]))],
  invs=[('ones so far',['I'],lambda c,i:And(i.cur>=0,i.cur<=10,c.this.backgroundBleu.len==i.cur,c.this.N_STATS==10,*[Implies(i.cur>k,c.this.backgroundBleu[IntVal(k)]==1) for k in range(10)]))]))
C.append(Contract(Q+'updateBackgroundCorpus',modifies=('this',),requires=lambda c:[bg(c.this),wfs(c.a(0)),c.a(1)>=0,c.a(1)<=1],
  ensures=lambda c:[('background well formed',bg(c.this)),('decayed sum',And(*[c.this.backgroundBleu[IntVal(k)]==c.a(1)*c.old.this.backgroundBleu[IntVal(k)]+ToReal(c.a(0)[IntVal(k)]) for k in range(10)]))],
  invs=[('decayed so far',['I'],lambda c,i:And(i.cur>=0,i.cur<=10,c.this.backgroundBleu.len==10,c.this.N_STATS==10,*[c.this.backgroundBleu[IntVal(k)]==If(i.cur>k,c.a(1)*c.old.this.backgroundBleu[IntVal(k)]+ToReal(c.a(0)[IntVal(k)]),c.old.this.backgroundBleu[IntVal(k)]) for k in range(10)]))],
  lemmas=lambda c:[Implies(And(c.a(1)>=0,c.a(1)<=1),And(*[Implies(c.this.backgroundBleu[IntVal(k)]>=0,c.a(1)*c.this.backgroundBleu[IntVal(k)]>=0) for k in range(10)],*[Implies(c.this.backgroundBleu[IntVal(2*k)]<=c.this.backgroundBleu[IntVal(2*k+1)],c.a(1)*c.this.backgroundBleu[IntVal(2*k)]<=c.a(1)*c.this.backgroundBleu[IntVal(2*k+1)]) for k in range(1,5)]))]))

# --- word error rate
LEV=Function('levenshtein',AS,AS,IntSort(),IntSort(),IntSort())
mn2=lambda p,q:If(p<=q,p,q)
def lev(a,b): return [ForAll([nn],Implies(nn>=0,And(LEV(a,b,0,nn)==nn,LEV(a,b,nn,0)==nn)),patterns=[LEV(a,b,0,nn)]),ForAll([nn],Implies(nn>=0,LEV(a,b,nn,0)==nn),patterns=[LEV(a,b,nn,0)]),
  ForAll([nn,jj,kk,mm],Implies(And(nn>=0,jj>=0,kk==nn+1,mm==jj+1),LEV(a,b,kk,mm)==mn2(mn2(LEV(a,b,nn,mm)+1,LEV(a,b,kk,jj)+1),LEV(a,b,nn,jj)+If(un(Select(a,nn))==un(Select(b,jj)),0,1))),patterns=[MultiPattern(LEV(a,b,kk,mm),LEV(a,b,nn,jj))])]
L_=lambda c,i,j:LEV(c.old.a(0).arr,c.old.a(1).arr,i,j)
EDS=Bool('identical word sequences')
def rowq(v,i,n): return ForAll([kk],Implies(And(kk>=0,kk<n),v[kk]==i(kk)),patterns=[Select(v.arr,kk),i(kk)])
def rowb(v,i,n): return And(ForAll([kk],Implies(And(kk>=0,kk<n),v[kk]>=0),patterns=[Select(v.arr,kk)]),ForAll([kk],Implies(And(kk>=0,kk<n),v[kk]<=i+kk),patterns=[Select(v.arr,kk)]))
def row(c,v,i,n): return And(rowq(v,lambda k:L_(c,i,k),n),rowb(v,i,n))
einv=[('lengths kept',[isVU],lambda c,v:v.cur.len==c.old.a(1).len+1),
  ('first row so far',['I',isVU],lambda c,i,v:And(i.cur<=v.cur.len,ForAll([kk],Implies(inr(kk,i.cur),v.cur[kk]==kk),patterns=[Select(v.cur.arr,kk)]))),
  ('previous row',['I',isVU],lambda c,i,v:And(i.cur<=c.old.a(0).len,row(c,v.cur,i.cur,c.old.a(1).len+1))),
  ('current row so far',['I','I',isVU],lambda c,i,j,v:row(c,v.cur,i.cur+1,j.cur+1)),
  ('within the second sequence',['I'],lambda c,j:j.cur<=c.old.a(1).len),
  ('identical: zero on the diagonal',['I',isVU],lambda c,i,v:Implies(EDS,And(i.cur<=c.old.a(0).len,v.cur[i.cur]==0))),
  ('identical: zero on the diagonal of the current row',['I','I',isVU],lambda c,i,j,v:Implies(And(EDS,j.cur>i.cur),v.cur[i.cur+1]==0))]
C.append(Contract('MiraWer::ed',norm=True,requires=lambda c:[small(c.a(0)),small(c.a(1))],lemmas=lambda c:lev(c.a(0).arr,c.a(1).arr)+[EDS==same(c.a(0),c.a(1),None)],invs=einv,
  ensures=lambda c:[('the word edit distance',c.ret==L_(c,c.old.a(0).len,c.old.a(1).len)),('not negative',c.ret>=0),('no more than the words of both',c.ret<=c.old.a(0).len+c.old.a(1).len),('zero for identical sequences',Implies(same(c.old.a(0),c.old.a(1),None),c.ret==0))]))
W='MiraWer::'
edt=lambda c:LEV(cnd(c).arr,rfs(c).arr,cnd(c).len,rfs(c).len)
wsc=lambda c,x:If(rfs(c).len==0,RealVal(0),x)
C.append(Contract(W+'sentScore',modifies=('arg2',),ensures=lambda c:[('one minus edits per reference word',c.a(2)==wsc(c,1-ToReal(edt(c))/ToReal(rfs(c).len))),('never above one',c.a(2)<=1),('an output equal to its reference scores one',Implies(And(un(c.a(0))==un(c.a(1)),rfs(c).len>0),c.a(2)==1))],
  lemmas=lambda c:[Implies(And(edt(c)>=0,rfs(c).len>0),ToReal(edt(c))/ToReal(rfs(c).len)>=0)]))
C.append(Contract(W+'sentBackgroundScore',modifies=('arg2',),ensures=lambda c:[('reference words minus edits',c.a(2)==wsc(c,ToReal(rfs(c).len)-ToReal(edt(c))))],
  lemmas=lambda c:[Implies(rfs(c).len>0,(ToReal(edt(c))/ToReal(rfs(c).len))*ToReal(rfs(c).len)==ToReal(edt(c)))]))
SUML=Function('editsum',AS,AS,IntSort(),IntSort()); SUMW=Function('wordsum',AS,IntSort(),IntSort())
def sumlax(c):
    a,b=c.a(0).arr,c.a(1).arr; e=lambda i:LEV(tk(a,i).arr,tk(b,i).arr,tk(a,i).len,tk(b,i).len)
    return [SUML(a,b,0)==0,SUMW(b,0)==0,ForAll([nn,mm],Implies(And(nn>=0,mm==nn+1),SUML(a,b,mm)==SUML(a,b,nn)+e(nn)),patterns=[MultiPattern(SUML(a,b,mm),SUML(a,b,nn))]),ForAll([nn,mm],Implies(And(nn>=0,mm==nn+1),SUMW(b,mm)==SUMW(b,nn)+tk(b,nn).len),patterns=[MultiPattern(SUMW(b,mm),SUMW(b,nn))])]
def wlim(c):
    a,b=c.a(0).arr,c.a(1).arr; e=lambda i:LEV(tk(a,i).arr,tk(b,i).arr,tk(a,i).len,tk(b,i).len)
    return [ForAll([K_],Implies(And(K_>=0,K_<c.a(0).len),And(SUML(a,b,K_)+e(K_)<2**31)),patterns=[SUML(a,b,K_)]),ForAll([K_],Implies(And(K_>=0,K_<c.a(0).len),And(SUMW(b,K_)+tk(b,K_).len<2**31)),patterns=[SUMW(b,K_)])]
nl=lambda c:SUML(c.a(0).arr,c.a(1).arr,c.a(0).len); nw=lambda c:SUMW(c.a(1).arr,c.a(0).len)
C.append(Contract(W+'corpusScore',modifies=('arg2',),note='assumes that the summed edits and words stay below 2^31',requires=lambda c:[c.a(0).len==c.a(1).len,c.a(0).len<2**31]+wlim(c),
  lemmas=lambda c:sumlax(c)+[IDALL==csame(c)]+[Implies(And(nl(c)>=0,nw(c)>0),ToReal(nl(c))/ToReal(nw(c))>=0)],
  invs=[('edits so far',['I','I'],lambda c,i,n:And(i.cur<=c.a(0).len,n.cur==SUML(c.a(0).arr,c.a(1).arr,i.cur),n.cur>=0,Implies(IDALL,n.cur==0))),('words so far',['I','I'],lambda c,i,n:And(n.cur==SUMW(c.a(1).arr,i.cur),n.cur>=0))],
  ensures=lambda c:[('one minus the summed edits per summed reference word',c.a(2)==If(nw(c)==0,RealVal(0),1-ToReal(nl(c))/ToReal(nw(c)))),('never above one',c.a(2)<=1),('outputs equal to their references score one',Implies(And(csame(c),nw(c)>0),c.a(2)==1))]))

# --- character n-gram F-score
def CMATCH(a,b,n): return Function('charmatches',STR,STR,IntSort(),IntSort())(un(a),un(b),n)
crf,csy,cn_=lambda c:c.old.a(0),lambda c:c.old.a(1),lambda c:c.old.a(2)
crt=lambda c:mx(cn_(c),crf(c).len); cst=lambda c:mx(cn_(c),csy(c).len)
IDC=Bool('identical strings')
def cinvs(nm,S,R,st,rt):
    eq=lambda c,i,j,k:S(c)[i+k]==R(c)[j+k]
    return [(nm+'flags',[isVB],lambda c,m:m.cur.len==rt(c)),
      (nm+'matched flags filled',['mI',isVB],lambda c,i,m:And(m.cur.len==i.cur,i.cur<=rt(c),TRUES(m.cur.arr,i.cur)==0,ForAll([jj],Implies(inr(jj,i.cur),Not(m.cur[jj])),patterns=[Select(m.cur.arr,jj)]))),
      (nm+'matches counted',['mI',isVB],lambda c,x,m:x.cur==TRUES(m.cur.arr,rt(c))),
      (nm+'matches below positions',['mI','mI'],lambda c,x,i:And(x.cur<=i.cur,x.cur>=0,i.cur<=st(c))),
      (nm+'matches below next position',['mI','I'],lambda c,x,i:And(x.cur<=i.cur+1,x.cur>=0)),
      (nm+'identical: all earlier matched',['mI',isVB],lambda c,i,m:Implies(IDC,ForAll([jj],Implies(inr(jj,rt(c)),m.cur[jj]==(jj<i.cur)),patterns=[Select(m.cur.arr,jj)]))),
      (nm+'identical: count',['mI','mI'],lambda c,x,i:Implies(IDC,x.cur==i.cur)),
      (nm+'identical: final count',['mI'],lambda c,x:And(x.cur>=0,x.cur<=st(c),x.cur<=rt(c),Implies(IDC,x.cur==st(c)))),
      (nm+'identical: own position matches',['I','I','B'],lambda c,i,j,b:Implies(And(IDC,i.cur==j.cur),b.cur)),
      (nm+'identical: search not past',['I','mI'],lambda c,i,j:Implies(IDC,j.cur<=i.cur))]
C.append(Contract('count_ngrams',modifies=('arg3','arg4','arg5'),lemmas=lambda c:trues()+[IDC==And(crf(c).len==csy(c).len,ForAll([kk],Implies(inr(kk,crf(c).len),crf(c)[kk]==csy(c)[kk]),patterns=[Select(crf(c).arr,kk),Select(csy(c).arr,kk)]))],
  requires=lambda c:[c.a(2)>=1,c.a(2)<2**31,c.a(0).len<2**31,c.a(1).len<2**31],
  invs=cinvs('output side: ',csy,crf,cst,crt)+cinvs('reference side: ',crf,csy,crt,cst),
  ensures=lambda c:[('matches per output n-gram',c.a(3)==If(cst(c)==0,RealVal(1),ToReal(c.a(5))/ToReal(cst(c)))),('matches per reference n-gram',c.a(4)==If(crt(c)==0,RealVal(1),ToReal(c.a(5))/ToReal(crt(c)))),('no more matches than n-grams',And(c.a(5)>=0,c.a(5)<=cst(c),c.a(5)<=crt(c))),
    ('identical: all match',Implies(un(crf(c))==un(csy(c)),c.a(5)==cst(c))),('definition: matches of this output, reference and size',c.a(5)==CMATCH(crf(c),csy(c),cn_(c)))]))

JOIN=Function('joined',VS,STR)
C.append(Contract('StrProcUtils::stringVectorToString',trusted=True,note='used here only as a function of the word sequence',ensures=lambda c:[('t',un(c.ret)==JOIN(un(c.a(0)))),('l',c.ret.len<2**30)]))
def NS(x): return mkV(JOIN(TOK(un(x))))
nr,ns_=lambda c:NS(c.old.a(0)),lambda c:NS(c.old.a(1))
mn4=lambda x:If(x<4,x,IntVal(4))
def cm(c,k): return CMATCH(nr(c),ns_(c),IntVal(k))
def pt(c,k): return If(mx(IntVal(k),ns_(c).len)==0,RealVal(1),ToReal(cm(c,k))/ToReal(mx(IntVal(k),ns_(c).len)))
def rt_(c,k): return If(mx(IntVal(k),nr(c).len)==0,RealVal(1),ToReal(cm(c,k))/ToReal(mx(IntVal(k),nr(c).len)))
def sumto(f,c,n):
    r=RealVal(0)
    for k in range(1,5): r=r+If(n>=k,f(c,k),RealVal(0))
    return r
IDN=Bool('same text')
def chrfv(c):
    M=mn4(nr(c).len); P=sumto(pt,c,M)/ToReal(mn4(ns_(c).len)); R=sumto(rt_,c,M)/ToReal(M)
    return If(And(nr(c).len==0,ns_(c).len==0),RealVal(1),If(Or(nr(c).len==0,ns_(c).len==0),RealVal(0),If(Or(P==0,R==0),RealVal(0),10*(P*R/(9*P+R)))))
xp,xq=Real('xp'),Real('xq')
C.append(Contract('calculate_chrf',modifies=('arg2',),lemmas=lambda c:[IDN==(un(c.a(0))==un(c.a(1)))]+[Implies(And(cm(c,k)>=0,cm(c,k)<=m,m>0),And(ToReal(cm(c,k))/ToReal(m)>=0,ToReal(cm(c,k))/ToReal(m)<=1,Implies(cm(c,k)==0,ToReal(cm(c,k))/ToReal(m)==0),Implies(cm(c,k)==m,ToReal(cm(c,k))/ToReal(m)==1))) for k in range(1,5) for m in (mx(IntVal(k),ns_(c).len),mx(IntVal(k),nr(c).len))],
  invs=[('precisions so far',['mI',isR],lambda c,i,x:And(i.cur>=1,i.cur<=mn4(nr(c).len)+1,x.cur==sumto(pt,c,i.cur-1))),('recalls so far',['mI',isR],lambda c,i,x:x.cur==sumto(rt_,c,i.cur-1)),
    ('bounded precisions',['mI',isR],lambda c,i,x:And(x.cur>=0,x.cur<=ToReal(i.cur-1))),('bounded recalls',['mI',isR],lambda c,i,x:And(x.cur>=0,x.cur<=ToReal(If(i.cur-1<=ns_(c).len,i.cur-1,ns_(c).len)))),
    ('identical: all precision',['mI',isR],lambda c,i,x:Implies(IDN,x.cur==ToReal(i.cur-1)))],
  ensures=lambda c:[('F-score of average precision and recall of character n-grams',c.a(2)==chrfv(c)),('not negative',c.a(2)>=0),('never above one',c.a(2)<=1),('an output equal to its reference scores one',Implies(un(c.old.a(0))==un(c.old.a(1)),c.a(2)==1))]))

def chs(c,i): return CS(Select(c.old.a(0).arr,i),Select(c.old.a(1).arr,i))
CS=Function('chrfscore',STR,STR,RealSort())
def cax(c): 
    class X: pass
    return []
M_='MiraChrF::'
dfn=lambda g,s,r:('definition: score of this output and reference',r==CS(un(s),un(g)))
C.append(Contract(M_+'sentScore',modifies=('arg2',),ensures=lambda c:[('between zero and one',And(c.a(2)>=0,c.a(2)<=1)),('an output equal to its reference scores one',Implies(un(c.old.a(0))==un(c.old.a(1)),c.a(2)==1)),dfn(c.old.a(1),c.old.a(0),c.a(2))]))
SUMC=Function('chrfsum',AS,AS,IntSort(),RealSort())
def sumc(c):
    a,b=c.a(0).arr,c.a(1).arr
    return [SUMC(a,b,0)==0,ForAll([nn,mm],Implies(And(nn>=0,mm==nn+1),SUMC(a,b,mm)==SUMC(a,b,nn)+CS(Select(a,nn),Select(b,nn))),patterns=[MultiPattern(SUMC(a,b,mm),SUMC(a,b,nn))])]
csm=lambda c,n:SUMC(c.a(0).arr,c.a(1).arr,n)
C.append(Contract(M_+'corpusScore',modifies=('arg2',),requires=lambda c:[c.a(0).len==c.a(1).len,c.a(0).len>0,c.a(0).len<2**31],lemmas=lambda c:sumc(c)+[IDALL==csame(c)]+[Implies(And(csm(c,n)>=0,csm(c,n)<=ToReal(n)),And(csm(c,n)/ToReal(n)>=0,csm(c,n)/ToReal(n)<=1,Implies(csm(c,n)==ToReal(n),csm(c,n)/ToReal(n)==1))) for n in (c.a(0).len,)],
  invs=[('sum so far',['mI'],lambda c,i:And(i.cur<=c.a(0).len,c.a(2)==csm(c,i.cur),c.a(2)>=0,c.a(2)<=ToReal(i.cur),Implies(IDALL,c.a(2)==ToReal(i.cur))))],
  ensures=lambda c:[('average of the sentence scores',c.a(2)==csm(c,c.a(0).len)/ToReal(c.a(0).len)),('between zero and one',And(c.a(2)>=0,c.a(2)<=1)),('outputs equal to their references score one',Implies(csame(c),c.a(2)==1))]))
C.append(Contract(M_+'sentBackgroundScore',modifies=('arg2',),ensures=lambda c:[('score scaled by the reference words',c.a(2)==CS(un(c.old.a(0)),un(c.old.a(1)))*ToReal(rfs(c).len))]))
# --- BLEU of a sentence on top of the background counts
def trunc_(x): return ToInt(x)
def bst(c,k): return ToInt(ToReal(stat(cnd(c),rfs(c),k))+c.old.this.backgroundBleu[IntVal(k)])
C.append(Contract(Q+'sentBackgroundScore',modifies=('arg2','arg3'),requires=lambda c:[bg(c.this),*[c.this.backgroundBleu[IntVal(k)]<2**30 for k in range(10)]],
  invs=[('sums with the background so far',['mI',isVU],lambda c,i,v:And(i.cur>=0,i.cur<=10,v.cur.len==i.cur,*[Implies(i.cur>k,v.cur[IntVal(k)]==bst(c,k)) for k in range(10)]))],
  ensures=lambda c:isstat(c.a(3),cnd(c),rfs(c))+[('well formed statistics',wfs(c.a(3))),('score of the statistics plus the background, scaled',c.a(2)==bfs(lambda k:bst(c,k))*ToReal(bst(c,1)))]))
G='MiraGtm::'
def gst(st): return And(st.len==3,*[st[IntVal(k)]>=0 for k in range(3)],st[IntVal(0)]<=st[IntVal(1)],st[IntVal(0)]<=st[IntVal(2)])
def gsc(st):
    m,p,r=[ToReal(st[IntVal(k)]) for k in range(3)]
    return If(m==0,RealVal(0),2*((m/p)*(m/r))/(m/p+m/r))
C.append(Contract(G+'scoreFromStats',requires=lambda c:[gst(c.a(0)),c.this.beta==1],lemmas=lambda c:[Implies(And(c.a(0)[IntVal(0)]>0,c.a(0)[IntVal(0)]<=c.a(0)[IntVal(k)]),And(ToReal(c.a(0)[IntVal(0)])/ToReal(c.a(0)[IntVal(k)])>0,ToReal(c.a(0)[IntVal(0)])/ToReal(c.a(0)[IntVal(k)])<=1,Implies(c.a(0)[IntVal(0)]==c.a(0)[IntVal(k)],ToReal(c.a(0)[IntVal(0)])/ToReal(c.a(0)[IntVal(k)])==1))) for k in (1,2)],
  ensures=lambda c:[('F-score of matched precision and recall',c.ret==gsc(c.a(0))),('not negative',c.ret>=0),('never above one',c.ret<=1),('one when everything matches',Implies(And(c.a(0)[IntVal(0)]==c.a(0)[IntVal(1)],c.a(0)[IntVal(0)]==c.a(0)[IntVal(2)],c.a(0)[IntVal(0)]>0),c.ret==1))]))

GM=Function('gtmmatches',VS,VS,IntSort())
C.append(Contract(G+'statsForSentence',trusted=True,note='greedy cover of common word runs (array buffers, std::sort and std::set): checked natively against an oracle, its counts are assumed to stay within both lengths',modifies=('arg2',),requires=lambda c:[c.this.N_STATS==3],
  ensures=lambda c:[('counts',And(c.a(2).len==3,c.a(2)[0]==GM(un(c.a(0)),un(c.a(1))),c.a(2)[1]==c.a(0).len,c.a(2)[2]==c.a(1).len)),('w',gst(c.a(2)))]))
GF=lambda m,p,r:If(m==0,RealVal(0),2*((ToReal(m)/ToReal(p))*(ToReal(m)/ToReal(r)))/(ToReal(m)/ToReal(p)+ToReal(m)/ToReal(r)))
gm=lambda c:GM(un(cnd(c)),un(rfs(c)))
def glem(m,p,r): return [Implies(And(m>0,m<=k),And(ToReal(m)/ToReal(k)>0,ToReal(m)/ToReal(k)<=1)) for k in (p,r)]
C.append(Contract(G+'sentScore',modifies=('arg2',),requires=lambda c:[c.this.N_STATS==3,c.this.beta==1],ensures=lambda c:[('F-score of the matches',c.a(2)==GF(gm(c),cnd(c).len,rfs(c).len)),('between zero and one',And(c.a(2)>=0,c.a(2)<=1))]))
C.append(Contract(G+'sentBackgroundScore',modifies=('arg2',),requires=lambda c:[c.this.N_STATS==3,c.this.beta==1],ensures=lambda c:[('F-score of the matches, scaled by the reference words',c.a(2)==GF(gm(c),cnd(c).len,rfs(c).len)*ToReal(rfs(c).len))]))
SG=Function('gtmsum',AS,AS,IntSort(),IntSort(),IntSort())
def gv(a,b,i,k): return [GM(TOK(Select(a,i)),TOK(Select(b,i))),tk(a,i).len,tk(b,i).len][k]
def gax(a,b):
    r=[]
    for k in range(3): r+=[SG(a,b,IntVal(k),0)==0,ForAll([nn,mm],Implies(And(nn>=0,mm==nn+1),SG(a,b,IntVal(k),mm)==SG(a,b,IntVal(k),nn)+gv(a,b,nn,k)),patterns=[MultiPattern(SG(a,b,IntVal(k),mm),SG(a,b,IntVal(k),nn))])]
    return r
gs=lambda c,k,n:SG(c.a(0).arr,c.a(1).arr,IntVal(k),n)
C.append(Contract(G+'corpusScore',modifies=('arg2',),note='assumes that the summed statistics stay below 2^32',requires=lambda c:[c.this.N_STATS==3,c.this.beta==1,c.a(0).len==c.a(1).len,c.a(0).len<2**31]+[ForAll([K_],Implies(And(K_>=0,K_<c.a(0).len),And(gs(c,k,K_)+gv(c.a(0).arr,c.a(1).arr,K_,k)<2**32)),patterns=[gs(c,k,K_)]) for k in range(3)],lemmas=lambda c:gax(c.a(0).arr,c.a(1).arr),
  invs=[('sums over the sentences so far',['mI',isVU],lambda c,i,v:And(i.cur<=c.a(0).len,v.cur.len==3,*[v.cur[IntVal(k)]==gs(c,k,i.cur) for k in range(3)],gst(v.cur))),('sentence added so far',['I','I',isVU],lambda c,i,j,v:And(v.cur.len==3,i.cur>=0,i.cur<c.a(0).len,j.cur>=0,j.cur<=3,*[v.cur[IntVal(k)]==gs(c,k,i.cur)+If(IntVal(k)<j.cur,gv(c.a(0).arr,c.a(1).arr,i.cur,k),0) for k in range(3)]))],
  ensures=lambda c:[('F-score of the summed matches',c.a(2)==GF(*[gs(c,k,c.a(0).len) for k in range(3)])),('between zero and one',And(c.a(2)>=0,c.a(2)<=1))]))
CONTRACTS=C
