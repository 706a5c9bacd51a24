from spec import *
from specs import phyp as P
from specs.phyp import *
PROPS=('P23',)
TU=dict(src='stack_dec/PhrLocalSwLiTm.cc')
CHECKS=stl.bit_lemmas(32)
# the number of positions of the segments is the number of covered positions: step of the induction over the positions, for one more segment
a,b,f,e,x,cn,cm=Ints('ia ib if ie ix icn icm')
clamp=lambda m,f,e:If(m<f,0,If(m>e,e-f+1,m-f+1))
CHECKS=CHECKS+[('covered positions counted by segment: base',Implies(And(1<=f,f<=e),clamp(IntVal(0),f,e)==0)),
  ('covered positions counted by segment: step',Implies(And(1<=f,f<=e,x>=0,cm==cn+clamp(x,f,e)),cm+If(Or(Bool('cov'),And(f<=x+1,x+1<=e)),1,0)==cn+If(Bool('cov'),1,0)+clamp(x+1,f,e))==Not(And(Bool('cov'),f<=x+1,x+1<=e,1<=f,f<=e,x>=0,cm==cn+clamp(x,f,e)))),
  ('covered positions counted by segment: all positions',Implies(And(1<=f,f<=e,e<=x),clamp(x,f,e)==e-f+1))]
def contracts(CLS,PB):
    C=[c for c in bitset_contracts(True)[-2:] if c.q=='Bitset::test']
    Q=CLS+'::'
    isN=lambda n:lambda r,v,mod:isinstance(v,z3.ExprRef) and n in v.sort().name().lower()
    isg=isN('pair'); isD=isN('phrhypdata')
    def H(q,**kw): C.append(Contract(Q+q,**kw))
    d0=lambda c:c.a(0)
    SRC=lambda c:c.this.pbtmInputVars.srcSentVec.len
    H('nullHypothesisHypData',ensures=lambda c:[('no segment and the empty word only',And(S(c.ret).len==0,U(c.ret).len==0,T(c.ret).len==1)),])
    H('numberOfUncoveredSrcWordsHypData',requires=lambda c:wfd(d0(c))+[SRC(c)<2**31,SL(S(d0(c)),S(d0(c)).len)<=SRC(c)],lemmas=lambda c:slax(S(d0(c))),
      invs=[('counted so far',['mI','mI'],lambda c,h,e:And(h.cur>=0,h.cur<=S(d0(c)).len,e.cur>=0,e.cur==SL(S(d0(c)),h.cur),e.cur<=h.cur*P.N))],ensures=lambda c:[('positions in no segment',c.ret==SRC(c)-SL(S(d0(c)),S(d0(c)).len))])
    H('isCompleteHypData',requires=lambda c:wfd(d0(c))+[SRC(c)<2**31,SL(S(d0(c)),S(d0(c)).len)<=SRC(c)],ensures=lambda c:[('complete iff the segments have every position',c.ret==(SL(S(d0(c)),S(d0(c)).len)==SRC(c)))])
    d3=lambda c:c.a(3); o3=lambda c:c.old.a(3); tp=lambda c:c.old.a(2)
    old_=lambda a,b,n:ForAll([p_],Implies(inr(p_,n),un(a[p_])==un(b[p_])),patterns=[Select(a.arr,p_)])
    newseg=lambda c:And(1<=c.a(0),c.a(0)<=c.a(1),c.a(1)<P.N,ForAll([p_],Implies(inr(p_,S(d3(c)).len),Or(S(d3(c))[p_].second<c.a(0),c.a(1)<S(d3(c))[p_].first)),patterns=[Select(S(d3(c)).arr,p_)]))
    H('extendHypDataIdx',requires=lambda c:wfd(d3(c))+[newseg(c),S(d3(c)).len<P.N-1,c.a(2).len<2**30,T(d3(c)).len<2**30],modifies=('arg3',),lemmas=lambda c:covax(S(d3(c))),
      invs=[('words so far',['mI'],lambda c,h:And(h.cur>=0,h.cur<=tp(c).len,T(d3(c)).len==T(o3(c)).len+h.cur,old_(T(d3(c)),T(o3(c)),T(o3(c)).len),ForAll([p_],Implies(And(p_>=T(o3(c)).len,p_<T(d3(c)).len),T(d3(c))[p_]==tp(c)[p_-T(o3(c)).len]),patterns=[Select(T(d3(c)).arr,p_)]))),
         ('segments kept',[],lambda c:And(un(S(d3(c)))==un(S(o3(c))),un(U(d3(c)))==un(U(o3(c)))))],
      ensures=lambda c:[('the words are appended',And(T(d3(c)).len==T(o3(c)).len+tp(c).len,old_(T(d3(c)),T(o3(c)),T(o3(c)).len),ForAll([p_],Implies(And(p_>=T(o3(c)).len,p_<T(d3(c)).len),T(d3(c))[p_]==tp(c)[p_-T(o3(c)).len]),patterns=[Select(T(d3(c)).arr,p_)]))),
         ('the segment is appended',And(S(d3(c)).len==S(o3(c)).len+1,old_(S(d3(c)),S(o3(c)),S(o3(c)).len),S(d3(c))[S(o3(c)).len].first==c.old.a(0),S(d3(c))[S(o3(c)).len].second==c.old.a(1))),
         ('the cut is appended',And(U(d3(c)).len==U(o3(c)).len+1,old_(U(d3(c)),U(o3(c)),U(o3(c)).len))),
         ('exactly the positions of the segment become covered',ForAll([x_],CV(S(d3(c)),S(d3(c)).len,x_)==Or(CV(S(o3(c)),S(o3(c)).len,x_),And(c.old.a(0)<=x_,x_<=c.old.a(1))),patterns=[CV(S(d3(c)),S(d3(c)).len,x_)]))]+wfd(d3(c)))
    dd=lambda c:c.a(0); oo=lambda c:c.old.a(0); K=lambda c:U(oo(c)).len
    prev=lambda c:If(K(c)>1,U(oo(c))[K(c)-2],0)
    H('obtainPredecessorHypData',requires=lambda c:wfd(dd(c)),modifies=('arg0',),
      invs=[('words left',['mI',isD],lambda c,h,d:And(h.cur>=0,T(d.cur).len>=1,T(d.cur).len-h.cur==prev(c)+1,T(d.cur).len<=T(oo(c)).len,old_(T(d.cur),T(oo(c)),T(d.cur).len),un(S(d.cur))==un(S(oo(c))),un(U(d.cur))==un(U(oo(c)))))],
      ensures=lambda c:[('there is one iff there are words',c.ret==(T(oo(c)).len>1)),('nothing changes without one',Implies(Not(c.ret),un(dd(c))==un(oo(c)))),
        ('the last segment, its cut and its words are removed',Implies(c.ret,And(S(dd(c)).len==S(oo(c)).len-1,old_(S(dd(c)),S(oo(c)),S(dd(c)).len),U(dd(c)).len==K(c)-1,old_(U(dd(c)),U(oo(c)),K(c)-1),T(dd(c)).len==prev(c)+1,old_(T(dd(c)),T(oo(c)),T(dd(c)).len))))]+[(a,Implies(c.ret,b)) for a,b in wfd(dd(c))])
    H('getLastSrcPosCoveredHypData',requires=lambda c:wfd(d0(c)),ensures=lambda c:[('end of the last segment',c.ret==If(S(d0(c)).len>0,S(d0(c))[S(d0(c)).len-1].second,0))])
    # ---- gaps: the maximal runs of uncovered positions
    SLEN=Int('source_length'); 
    C.append(Contract('BaseSmtModel::nullHypothesisHypData',trusted=True,note=CLS+'::nullHypothesisHypData is verified; virtual call',ensures=lambda c:[('definition: no segment',S(c.ret).len==0)]))
    C.append(Contract('BasePbTransModel::numberOfUncoveredSrcWordsHypData',trusted=True,note=CLS+'::numberOfUncoveredSrcWordsHypData is verified; virtual call; the sentence length is a ghost constant',ensures=lambda c:[('definition: length of the source sentence',Implies(S(c.a(0)).len==0,c.ret==SLEN)),('definition: sentence length',And(SLEN>=0,SLEN<P.N))]))
    tb=lambda c,x:TB(arr(c.a(0)),x)
    NG=Function('gaps_up_to',AI,I_,I_)
    ngax=lambda A:[NG(A,0)==0,ForAll([n_,m_],Implies(And(n_>=0,m_==n_+1),NG(A,m_)==NG(A,n_)+If(And(Not(TB(A,m_)),Or(n_==0,TB(A,n_))),1,0)),patterns=[MultiPattern(NG(A,m_),NG(A,n_))])]
    def gapsok(c,g,upto,op,first):     # g: gaps ending before upto; op: a gap that starts at first is open
        e=lambda p:g[p]
        return And(ForAll([p_],Implies(inr(p_,g.len),And(1<=e(p_).first,e(p_).first<=e(p_).second,e(p_).second<upto,Or(e(p_).first==1,tb(c,e(p_).first-1)),Or(e(p_).second==SLEN,tb(c,e(p_).second+1)))),patterns=[Select(g.arr,p_)]),
          ForAll([p_,x_],Implies(And(inr(p_,g.len),e(p_).first<=x_,x_<=e(p_).second),Not(tb(c,x_))),patterns=[MultiPattern(Select(g.arr,p_),tb(c,x_))]),
          ForAll([p_,q_],Implies(And(0<=p_,p_<q_,q_<g.len),e(p_).second+1<e(q_).first),patterns=[MultiPattern(Select(g.arr,p_),Select(g.arr,q_))]),
          ForAll([p_,q_,x_],Implies(And(0<=p_,q_==p_+1,q_<g.len,e(p_).second<x_,x_<e(q_).first),tb(c,x_)),patterns=[MultiPattern(Select(g.arr,p_),Select(g.arr,q_),tb(c,x_))]),
          ForAll([x_],Implies(And(1<=x_,x_<upto,Or(g.len==0,x_<e(0).first),Or(g.len>0,Not(op),x_<first)),tb(c,x_)),patterns=[tb(c,x_)]),
          ForAll([x_],Implies(And(1<=x_,x_<upto,Or(g.len==0,e(g.len-1).second<x_),Or(Not(op),x_<first)),tb(c,x_)),patterns=[tb(c,x_)]),
          g.len==NG(arr(c.a(0)),upto-1)-If(op,1,0))
    gp=lambda c:c.a(1)
    isKey=lambda ts:'Bitset' in str(ts)
    C.append(Contract(PB+'::extract_gaps',ptypes=isKey,requires=lambda c:[wf(c.a(0))],modifies=('arg1',),lemmas=lambda c:ngax(arr(c.a(0))),
      invs=[('gaps so far',['mI','B',isg],lambda c,h,b,g:And(1<=h.cur,h.cur<=SLEN+1,gp(c).len<h.cur,gapsok(c,gp(c),h.cur,b.cur,g.cur.first),
           Implies(b.cur,And(1<=g.cur.first,g.cur.first<h.cur,Or(g.cur.first==1,tb(c,g.cur.first-1)),ForAll([x_],Implies(And(g.cur.first<=x_,x_<h.cur),Not(tb(c,x_))),patterns=[tb(c,x_)]),Or(gp(c).len==0,gp(c)[gp(c).len-1].second+1<g.cur.first))),
           Implies(And(Not(b.cur),h.cur>1),tb(c,h.cur-1))))],
      ensures=lambda c:[('the maximal runs of uncovered positions, in order: part %d'%i,q) for i,q in enumerate(gapsok(c,gp(c),SLEN+1,BoolVal(False),IntVal(0)).children())]))
    C.append(Contract(PB+'::get_num_gaps',requires=lambda c:[wf(c.a(0))],lemmas=lambda c:ngax(arr(c.a(0))),
      invs=[('gaps so far',['mI','mI','B'],lambda c,h,r,b:And(1<=h.cur,h.cur<=SLEN+1,r.cur>=0,r.cur<h.cur,r.cur==NG(arr(c.a(0)),h.cur-1)-If(b.cur,1,0),Implies(h.cur>1,b.cur==Not(tb(c,h.cur-1))),Implies(h.cur==1,Not(b.cur))))],
      ensures=lambda c:[('number of maximal runs of uncovered positions',c.ret==NG(arr(c.a(0)),SLEN))]))
    return C
CONTRACTS=contracts('PhrLocalSwLiTm','_phraseBasedTransModel')
