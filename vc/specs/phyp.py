from spec import *
PROPS=('P23',)
TU=dict(name='phypmod',text='#include "PhraseBasedTmHypRec.h"\n#include "PhraseBasedTmHyp.h"\ntemplate class PhraseBasedTmHypRec<PhrHypEqClassF>;\ntemplate class PhraseBasedTmHyp<PhrHypEqClassF>;\ntemplate class _phraseHypothesisRec<PhrScoreInfo,PhrHypEqClassF,PhrHypState>;\ntemplate class _phraseHypothesis<PhrScoreInfo,PhrHypEqClassF>;\n')
N,NW=160,5
CHECKS=stl.bit_lemmas(32)
BIT=stl.BIT
AI=ArraySort(I_,I_)
C=[]
# ---- sets of positions (as in the module of P07, for the size the decoders use)
k,x_=Int('bk'),Int('bx'); i_=Int('wi'); A_=Const('ba',AI)
TB=Function('position_in',AI,I_,B_)
tbax=[ForAll([A_,x_],TB(A_,x_)==BIT(Select(A_,x_/32),x_%32),patterns=[TB(A_,x_)])]
ax=lambda c:stl.bit_axioms(32)+tbax
wf=lambda s:s.words.len==NW
arr=lambda s:s.words.arr
def W(s,i,b): return BIT(s.words[i],b)
M=NW*32
def tbs(s,f): return ForAll([x_],Implies(And(x_>=0,x_<M),TB(arr(s),x_)==f(x_)),patterns=[TB(arr(s),x_)])
def bitset_contracts(test=False):
    r=[]
    def whole(q,nm,f,g,np):
        inv=[('words done',['mI'],lambda c,i:And(i.cur>=0,i.cur<=NW,wf(c.this))),
          ('done words',['mI'],lambda c,i:ForAll([i_,k],Implies(And(i_>=0,i_<i.cur,k>=0,k<32),f(c,i_,k)),patterns=[BIT(Select(c.this.words.arr,i_),k)])),
          ('other words',['mI'],lambda c,i:ForAll([i_],Implies(And(i_>=i.cur,i_<NW),c.this.words[i_]==c.old.this.words[i_]),patterns=[Select(c.this.words.arr,i_)]))]
        r.append(Contract('Bitset::'+q,nparams=np,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this)]+([wf(c.a(0))] if np else []),invs=inv,
          ensures=lambda c:[(nm,tbs(c.this,lambda x:g(c,x))),('size kept',wf(c.this))]))
    whole('reset','no position',lambda c,i,b:Not(W(c.this,i,b)),lambda c,x:BoolVal(False),0)
    whole('operator=','the same positions',lambda c,i,b:W(c.this,i,b)==W(c.a(0),i,b),lambda c,x:TB(arr(c.a(0)),x),1)
    for q,np,val in (('reset',1,lambda c:BoolVal(False)),('set',2,lambda c:c.old.a(1)!=0)):
        r.append(Contract('Bitset::'+q,nparams=np,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<N],ensures=lambda c,val=val:[('exactly that position',tbs(c.this,lambda x:If(x==c.old.a(0),val(c),TB(arr(c.old.this),x)))),('size kept',wf(c.this))]))
    if test: r.append(Contract('Bitset::test',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<M],ensures=lambda c:[('the position is in the set',c.ret==TB(arr(c.this),c.a(0)))]))
    r.append(Contract('Bitset::Bitset',nparams=0,ctor=True,modifies=('this',),bits=True,lemmas=ax,ensures=lambda c:[('no position',tbs(c.this,lambda x:BoolVal(False))),('size kept',wf(c.this))]))
    return r
C+=bitset_contracts()
# ---- coverage: a position is covered by the first n segments iff one of them contains it
n_,m_,p_,q_,j_=Ints('hn hm hp hq hj')
S=lambda d:d.sourceSegmentation
U=lambda d:d.targetSegmentCuts
T=lambda d:d.ntarget
_F={}
def F(nm,*dom):
    kk=(nm,)+tuple(map(str,dom))
    if kk not in _F: _F[kk]=Function(nm,*dom)
    return _F[kk]
def seg(a,k): return mkV(Select(a,k))
def inside(e,x): return And(x>=e.first,x<=e.second)
def CV(s,n,x): return F('covered',s.arr.sort(),I_,I_,B_)(s.arr,n,x)
def covax(s):
    srt=s.arr.sort(); a=Const('hsa',srt); f=F('covered',srt,I_,I_,B_); w=F('covering_segment',srt,I_,I_,I_)
    return [ForAll([a,n_,x_,p_],Implies(And(inr(p_,n_),inside(seg(a,p_),x_)),f(a,n_,x_)),patterns=[MultiPattern(f(a,n_,x_),Select(a,p_))]),
      ForAll([a,n_,x_],Implies(f(a,n_,x_),And(inr(w(a,n_,x_),n_),inside(seg(a,w(a,n_,x_)),x_))),patterns=[f(a,n_,x_)])]
# word j of the translation is in the target span of a segment that contains position x
def lo(u,k): return If(k>0,Select(u,k-1),0)
def both(a,u,k,x,j): return And(inside(seg(a,k),x),lo(u,k)<j,j<=Select(u,k))
def AL(d,n,x,j): return F('aligned',S(d).arr.sort(),U(d).arr.sort(),I_,I_,I_,B_)(S(d).arr,U(d).arr,n,x,j)
def alax(d):
    a=Const('hsa',S(d).arr.sort()); u=Const('hca',U(d).arr.sort()); f=F('aligned',a.sort(),u.sort(),I_,I_,I_,B_); w=F('aligning_segment',a.sort(),u.sort(),I_,I_,I_,I_)
    return [ForAll([a,u,n_,x_,j_,p_],Implies(And(inr(p_,n_),both(a,u,p_,x_,j_)),f(a,u,n_,x_,j_)),patterns=[MultiPattern(f(a,u,n_,x_,j_),Select(a,p_))]),
      ForAll([a,u,n_,x_,j_],Implies(f(a,u,n_,x_,j_),And(inr(w(a,u,n_,x_,j_),n_),both(a,u,w(a,u,n_,x_,j_),x_,j_))),patterns=[f(a,u,n_,x_,j_)])]
# data made by extensions: a cut per segment, cuts in order up to the last word, segments made of different positions
def wfd(d):
    s,u,t=S(d),U(d),T(d)
    return [('a cut per segment',u.len==s.len),('sizes',And(s.len<N,t.len>=1,t.len<2**31)),
      ('segments',ForAll([p_],Implies(inr(p_,s.len),And(1<=s[p_].first,s[p_].first<=s[p_].second,s[p_].second<N)),patterns=[Select(s.arr,p_)])),
      ('no position in two segments',ForAll([p_,q_],Implies(And(0<=p_,p_<q_,q_<s.len),Or(s[p_].second<s[q_].first,s[q_].second<s[p_].first)),patterns=[MultiPattern(Select(s.arr,p_),Select(s.arr,q_))])),
      ('cuts in order',ForAll([p_,q_],Implies(And(0<=p_,p_<=q_,q_<u.len),And(0<=u[p_],u[p_]<=u[q_],u[q_]<t.len)),patterns=[MultiPattern(Select(u.arr,p_),Select(u.arr,q_))])),
      ('the last cut is the last word',If(u.len>0,u[u.len-1]==t.len-1,t.len==1))]
D=lambda c:c.this.data
n=lambda c:S(D(c)).len
def keyis(f,s,k): return And(wf(f),tbs(f,lambda x:CV(s,k,x)))
isBS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort().name().startswith('Bitset')
def eqv(a,b): return un(a)==un(b)
def span(c,k): u=U(D(c)).arr; return lo(u,k),Select(u,k)
def hyp(Q):
    def H(q,**kw):
        kw.setdefault('requires',lambda c:wfd(D(c))); kw.setdefault('nparams',0); C.append(Contract(Q+q,**kw))
    H('isAligned',nparams=1,lemmas=lambda c:covax(S(D(c))),requires=lambda c:wfd(D(c))+[c.a(0)>=0],invs=[('not covered so far',['mI'],lambda c,h:And(h.cur>=0,h.cur<=n(c),ForAll([p_],Implies(inr(p_,h.cur),Not(inside(S(D(c))[p_],c.a(0)))),patterns=[Select(S(D(c)).arr,p_)])))],
      ensures=lambda c:[('covered by a segment',c.ret==CV(S(D(c)),n(c),c.a(0)))])
    H('areAligned',nparams=2,lemmas=lambda c:alax(D(c)),requires=lambda c:wfd(D(c))+[c.a(0)>=0,c.a(1)>=0,c.a(0)<2**31,c.a(1)<2**31],
      invs=[('not aligned so far',['mI'],lambda c,h:And(h.cur>=0,h.cur<=n(c),ForAll([p_],Implies(inr(p_,h.cur),Not(both(S(D(c)).arr,U(D(c)).arr,p_,c.a(0),c.a(1)))),patterns=[Select(S(D(c)).arr,p_)])))],
      ensures=lambda c:[('the word belongs to the target span of a segment with the position',c.ret==AL(D(c),n(c),c.a(0),c.a(1)))])
    H('getTrgTransForSrcPhr',nparams=2,modifies=('arg1',),
      invs=[('before',['mI','mI','B'],lambda c,h,k,b:And(h.cur>=0,h.cur<=n(c),Implies(b.cur,And(inr(k.cur,h.cur),eqv(S(D(c))[k.cur],c.a(0)))),Implies(Not(b.cur),ForAll([p_],Implies(inr(p_,h.cur),Not(eqv(S(D(c))[p_],c.a(0)))),patterns=[Select(S(D(c)).arr,p_)])))),
        ('words so far',['mI','I'],lambda c,h,k:(lambda l,e:And(inr(k.cur,n(c)),h.cur>=l,h.cur<=e,c.a(1).len==h.cur-l,ForAll([j_],Implies(inr(j_,c.a(1).len),c.a(1)[j_]==T(D(c))[l+j_+1]),patterns=[Select(c.a(1).arr,j_)])))(*span(c,k.cur)))],
      ensures=lambda c:[('the words of the target span',ForAll([p_],Implies(And(inr(p_,n(c)),eqv(S(D(c))[p_],c.a(0))),(lambda l,e:And(c.a(1).len==e-l,ForAll([j_],Implies(inr(j_,c.a(1).len),c.a(1)[j_]==T(D(c))[l+j_+1]),patterns=[Select(c.a(1).arr,j_)])))(*span(c,p_))),patterns=[Select(S(D(c)).arr,p_)])),
        ('none for other spans',Implies(ForAll([p_],Implies(inr(p_,n(c)),Not(eqv(S(D(c))[p_],c.a(0)))),patterns=[Select(S(D(c)).arr,p_)]),c.a(1).len==0))])
    H('getKey',lemmas=lambda c:covax(S(D(c))),
      invs=[('segments before',['mI',isBS],lambda c,h,b:And(h.cur>=0,h.cur<=n(c),keyis(b.cur,S(D(c)),h.cur))),
        ('positions before',['mI','I',isBS],lambda c,h,g,b:And(inr(g.cur,n(c)),h.cur>=S(D(c))[g.cur].first,h.cur<=S(D(c))[g.cur].second+1,wf(b.cur),tbs(b.cur,lambda x:Or(CV(S(D(c)),g.cur,x),And(S(D(c))[g.cur].first<=x,x<h.cur)))))],
      ensures=lambda c:[('exactly the covered positions',keyis(c.ret,S(D(c)),n(c)))])
    H('getPhraseAlign',nparams=2,modifies=('arg0','arg1'),ensures=lambda c:[('segments and cuts',And(eqv(c.a(0),S(D(c))),eqv(c.a(1),U(D(c)))))])
    H('getPartialTrans',ensures=lambda c:[('the translation',eqv(c.ret,T(D(c))))])
    H('partialTransLength',ensures=lambda c:[('words after the empty one',c.ret==T(D(c)).len-1)])
    H('getData',requires=None,ensures=lambda c:[('the data',eqv(c.ret,D(c)))])
    H('setData',requires=None,nparams=1,modifies=('this.data',),ensures=lambda c:[('the data',eqv(D(c),c.old.a(0)))])
# number of positions in the first n segments
def SL(s,n): return F('positions_in_segments',s.arr.sort(),I_,I_)(s.arr,n)
def slax(s):
    a=Const('hsa',s.arr.sort()); f=F('positions_in_segments',a.sort(),I_,I_)
    return [ForAll([a],f(a,0)==0,patterns=[f(a,0)]),ForAll([a,n_,m_],Implies(And(n_>=0,m_==n_+1),f(a,m_)==f(a,n_)+seg(a,n_).second-seg(a,n_).first+1),patterns=[MultiPattern(f(a,m_),f(a,n_))])]
hyp('_phraseHypothesisRec::'); hyp('_phraseHypothesis::')
C.append(Contract('PhraseBasedTmHypRec::getHypState',nparams=0,lemmas=lambda c:covax(S(D(c))),requires=lambda c:wfd(D(c)),ensures=lambda c:[('length of the translation',c.ret.trglen==T(D(c)).len-1),('end of the last segment',c.ret.endLastSrcPhrase==If(n(c)>0,S(D(c))[n(c)-1].second,0)),('coverage',keyis(c.ret.sourceWordsAligned,S(D(c)),n(c)))]))
CONTRACTS=C
