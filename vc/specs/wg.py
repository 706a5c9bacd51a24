from spec import *
import stl
from values import enumf
log=stl.log
PROPS=('P06',)
TU=dict(src='error_correction/WordGraph.cc')
C=[]; S,K,W,J,F0=Ints('ws wk ww wj first_arc_out')
SMALL=RealVal(-999999999); VR=vec(R_)
A=lambda t:t.wordGraphArcs
def NP(t,k): return Not(t.arcsPruned[k])
def p_(t,k): return A(t)[k].predStateIndex
def s_(t,k): return A(t)[k].succStateIndex
ak=lambda t,k:Select(A(t).arr,k)
N=lambda t:A(t).len; NS=lambda t:t.wordGraphStates.len
arc=lambda k,t:And(0<=k,k<N(t))
def base(t): return And(t.arcsPruned.len==N(t),N(t)<2**31,NS(t)<2**31,ForAll([K],Implies(arc(K,t),And(0<=p_(t,K),p_(t,K)<NS(t),0<=s_(t,K),s_(t,K)<NS(t))),patterns=[ak(t,K)]),
    ForAll([K],Implies(t.finalStateSet.has(K),And(0<=K,K<NS(t))),patterns=[t.finalStateSet.has(K)]))
# the arcs are given in topological order: a state left by an arc is not entered by that arc or by a later one
def topo(t): return ForAll([J,K],Implies(And(0<=J,J<=K,K<N(t)),p_(t,J)!=s_(t,K)),patterns=[MultiPattern(ak(t,J),ak(t,K))])
def lists(t):
    st=lambda s:t.wordGraphStates[s]; inl=lambda l,k:And(0<=k,k<l.len)
    return ForAll([S,K],Implies(And(0<=S,S<NS(t)),And(Implies(inl(st(S).arcsToPredStates,K),And(arc(st(S).arcsToPredStates[K],t),s_(t,st(S).arcsToPredStates[K])==S)),Implies(inl(st(S).arcsToSuccStates,K),And(arc(st(S).arcsToSuccStates[K],t),p_(t,st(S).arcsToSuccStates[K])==S)))),
        patterns=[Select(st(S).arcsToPredStates.arr,K),Select(st(S).arcsToSuccStates.arr,K)])
def wf(t): return [('indices in range',base(t)),('arc lists of the states hold arcs of the state',lists(t))]
Q='WordGraph::'
def add(q,**k):
    k.setdefault('requires',lambda c:wf(c.this)); C.append(Contract(Q+q,**k))
# ---- arc lists
add('stateIsFinal',requires=None,ensures=lambda c:[('final',c.ret==c.this.finalStateSet.has(c.a(0)))])
add('arcPruned',requires=lambda c:[arc(c.a(0),c.this),c.this.arcsPruned.len==N(c.this)],ensures=lambda c:[('mark',c.ret==c.this.arcsPruned[c.a(0)])])
add('empty',requires=None,ensures=lambda c:[('no arcs',c.ret==(N(c.this)==0))])
add('getArcIndexRange',requires=lambda c:[N(c.this)<2**31],ensures=lambda c:[('all arcs',Implies(N(c.this)>0,And(c.ret.first==0,c.ret.second==N(c.this)-1)))])
add('wordGraphArcId2WordGraphArc',requires=None,ensures=lambda c:[('the arc',Implies(And(0<=c.a(0),c.a(0)<N(c.this)),un(c.ret)==ak(c.this,c.a(0))))])
VI=vec(I_); VB=vec(B_); CNT=Function('arcs_not_pruned',VI,VB,I_,I_); XL=z3.Const('wl',VI); XP=z3.Const('wp',VB)
cntax=[ForAll([XL,XP],CNT(XL,XP,0)==0,patterns=[CNT(XL,XP,0)]),ForAll([XL,XP,J,K],Implies(And(0<=J,K==J+1),CNT(XL,XP,K)==CNT(XL,XP,J)+If(vsel(XP,vsel(XL,J)),0,1)),patterns=[MultiPattern(CNT(XL,XP,J),CNT(XL,XP,K))])]
def filt(t,l,o,n):
    ct=lambda j:CNT(un(l),t.arcsPruned.t,j)
    return [('number of arcs of the state that are not pruned',o.len==ct(n)),('they are listed in order',ForAll([J],Implies(And(0<=J,J<n,NP(t,l[J])),And(0<=ct(J),ct(J)<o.len,o[ct(J)]==l[J])),patterns=[Select(l.arr,J)])),
            ('no pruned arc is listed',ForAll([K],Implies(And(0<=K,K<o.len),And(arc(o[K],t),NP(t,o[K]))),patterns=[Select(o.arr,K)]))]
def ids(q,f):
    lst=lambda c:getattr(c.this.wordGraphStates[c.a(0)],f); end={'arcsToPredStates':s_,'arcsToSuccStates':p_}[f]
    own=lambda c:('arcs of the state',ForAll([K],Implies(And(0<=K,K<c.a(1).len),end(c.this,c.a(1)[K])==c.a(0)),patterns=[Select(c.a(1).arr,K)]))
    add(q,modifies=('arg1',),mbqi=False,requires=lambda c:wf(c.this)+[0<=c.a(0)],lemmas=lambda c:cntax,ensures=lambda c:[('a state without arcs',Implies(c.a(0)>=NS(c.this),c.a(1).len==0))]+[(a,Implies(c.a(0)<NS(c.this),b)) for a,b in filt(c.this,lst(c),c.a(1),lst(c).len)+[own(c)]],
      invs=[(a,['it'],(lambda i:lambda c,it:filt(c.this,lst(c),c.a(1),it.pos)[i][1])(i)) for i,a in enumerate(('number','listed','not pruned'))]+[('own',[],lambda c:own(c)[1])])
ids('getArcIdsToPredStates','arcsToPredStates')
ids('getArcIdsToSuccStates','arcsToSuccStates')
# ---- scores
SW=Function('weighted_components',VR,VR,I_,R_)
def swdef(w,v): return [SW(w,v,0)==0,ForAll([J,K],Implies(And(0<=J,K==J+1),SW(w,v,K)==SW(w,v,J)+vsel(w,J)*vsel(v,J)),patterns=[MultiPattern(SW(w,v,J),SW(w,v,K))])]
XV=z3.Const('wx',VR)
def swax(w): return [ForAll([XV],SW(w,XV,0)==0,patterns=[SW(w,XV,0)]),ForAll([XV,J,K],Implies(And(0<=J,K==J+1),SW(w,XV,K)==SW(w,XV,J)+vsel(w,J)*vsel(XV,J)),patterns=[MultiPattern(SW(w,XV,J),SW(w,XV,K))])]
SCV=lambda t:t.scrCompsVec
def appl(t,w): return And(w.len>0,w.len==t.compWeights.len,ForAll([K],Implies(And(0<=K,K<SCV(t).len),SCV(t)[K].len==w.len),patterns=[Select(SCV(t).arr,K)]))
APP=Function('weights_applicable',vec(vec(R_)),I_,VR,B_)
ap=lambda t,w:APP(SCV(t).t,t.compWeights.len,un(w))
add('checkIfAltWeightsAppliable',requires=lambda c:[SCV(c.this).len<2**31],
  ensures=lambda c:[('applicable only if every arc has one component per weight',Implies(c.ret,appl(c.this,c.a(0)))),('and always then',Implies(appl(c.this,c.a(0)),c.ret)),('definition: applicable',c.ret==ap(c.this,c.a(0)))],
  invs=[('so far',['B','I'],lambda c,b,i:Implies(b.cur,And(c.a(0).len==c.this.compWeights.len,ForAll([K],Implies(And(0<=K,K<i.cur),SCV(c.this)[K].len==c.a(0).len),patterns=[Select(SCV(c.this).arr,K)])))),
        ('or not',['B','I'],lambda c,b,i:Implies(And(Not(b.cur),c.a(0).len==c.this.compWeights.len),BoolVal(False)))])
def SC(t,k,w): return If(ap(t,w),SW(un(w),un(SCV(t)[k]),w.len),A(t)[k].arcScore)
OKA=Function('arc_usable',I_,B_)      # not pruned and not excluded
def used(t,k,exc): return And(NP(t,k),Not(exc.has(k)))
def first(t,hyp): return ForAll([K],Implies(And(arc(K,t),p_(t,K)==hyp),And(0<=F0,F0<=K,p_(t,F0)==hyp)),patterns=[ak(t,K)])
LNK=Function('best_arc_of_state',I_,I_)
def ini(t,hyp): return If(hyp==0,t.initialStateScore,RealVal(0))
def bell(t,prev,acc,exc,w,n): return ForAll([K],Implies(And(0<=K,K<n,used(t,K,exc),acc(p_(t,K)),SC(t,K,w)+prev(p_(t,K))>SMALL),And(acc(s_(t,K)),prev(s_(t,K))>=SC(t,K,w)+prev(p_(t,K)))),patterns=[ak(t,K)])
def att(t,prev,acc,best,exc,w,n,hyp): return ForAll([S],Implies(And(0<=S,S<NS(t),S!=hyp,acc(S)),And(prev(S)>SMALL,Exists([W],And(0<=W,W<n,used(t,W,exc),s_(t,W)==S,un(best(S))==ak(t,W),acc(p_(t,W)),prev(S)==SC(t,W,w)+prev(p_(t,W)))))),patterns=[prev(S)])
rng=lambda t,s:And(0<=s,s<NS(t))
def sub(v): return lambda s:v[s]
def isb(r,v,m): return z3.is_expr(v) and v.sort()==vec(B_) and m
VA=None
def isarcs(r,v,m): return z3.is_expr(v) and 'WordGraphArc' in v.sort().name() and v.sort().name().startswith('vec') and m
def isprev(r,v,m): return z3.is_expr(v) and v.sort()==VR and m
accof=lambda prev,hyp:(lambda s:Or(s==hyp,prev(s)>SMALL))
def pinv():
    g=lambda c:(c.this,c.a(1),c.a(2),c.a(0))
    PV=lambda c:sub(c.a(3)); BV=lambda c:sub(c.a(4)); AC=lambda c:accof(PV(c),c.a(0))
    return [('size of scores',[],lambda c:c.a(3).len==NS(c.this)),('size of arcs',[],lambda c:c.a(4).len==NS(c.this)),
      ('accessible states',[isb],lambda c,a:And(a.cur.len==NS(c.this),ForAll([S],Implies(rng(c.this,S),a.cur[S]==AC(c)(S)),patterns=[PV(c)(S)]))),
      ('start',[],lambda c:PV(c)(c.a(0))==ini(c.this,c.a(0))),
      ('never below',[],lambda c:ForAll([S],Implies(rng(c.this,S),PV(c)(S)>=SMALL),patterns=[PV(c)(S)])),
      ('arcs so far',['mI'],lambda c,k:bell(c.this,PV(c),AC(c),c.a(1),c.a(2),k.cur)),
      ('attained',['mI'],lambda c,k:att(c.this,PV(c),AC(c),BV(c),c.a(1),c.a(2),k.cur,c.a(0))),
      ('after an arc out of the start',['mI'],lambda c,k:ForAll([S],Implies(And(rng(c.this,S),S!=c.a(0),PV(c)(S)>SMALL),And(0<=F0,F0<k.cur,p_(c.this,F0)==c.a(0))),patterns=[PV(c)(S)])),
      ('weights',['R','mI'],lambda c,r,i:r.cur==SW(un(c.a(2)),un(SCV(c.this)[KC]),i.cur))]
KC=Int('ghost_arc')
def PREVW(t,hyp,exc,w):
    a=[A(t).t,t.arcsPruned.t,NS(t),t.initialStateScore,hyp,exc.dom,SCV(t).t,t.compWeights.len,un(w)]
    return mkV(Function('prev_scores_with_weights',*[x.sort() for x in map(lambda x:IntVal(x) if isinstance(x,int) else x,a)],VR)(*a))
def prevpost(c,e,w,P,B,hyp):
    t=c.this; PV,BV=sub(P),sub(B); AC=accof(PV,hyp); z=N(t)==0
    return [('definition: scores',P.t==PREVW(t,hyp,e,w).t),('no weights',Implies(And(Not(z),w.len==0),Not(ap(t,w)))),('no arcs',Implies(z,And(P.len==0,B.len==0))),('sizes',Implies(Not(z),And(P.len==NS(t),B.len==NS(t)))),('score of the start',Implies(Not(z),PV(hyp)==ini(t,hyp))),
      ('no state scores less than any path into it',Implies(Not(z),bell(t,PV,AC,e,w,N(t)))),('every score is attained by an existing arc',Implies(Not(z),att(t,PV,AC,BV,e,w,N(t),hyp))),('unreached states have the lowest score',Implies(Not(z),ForAll([S],Implies(rng(t,S),PV(S)>=SMALL),patterns=[PV(S)])))]
SETI=None
def preq(c,hyp): return wf(c.this)+[('topological order',topo(c.this)),('start in the graph',Or(N(c.this)==0,rng(c.this,hyp))),('score of the start',ini(c.this,hyp)>SMALL),SCV(c.this).len==N(c.this)]
add('calcPrevScoresWeights',modifies=('arg3','arg4'),mbqi=False,requires=lambda c:preq(c,c.a(0)),lemmas=lambda c:[first(c.this,c.a(0))]+swax(un(c.a(2))),ensures=lambda c:prevpost(c,c.a(1),c.a(2),c.a(3),c.a(4),c.a(0)),invs=pinv()[:-1]+[
   ('weights',['R','mI',lambda r,v,m:not m and z3.is_expr(v) and v.sort()==I_],lambda c,r,i,k:And(r.cur==SW(un(c.a(2)),un(SCV(c.this)[k.cur]),i.cur)))])
EW=Function('no_weights',B_)
def PREVF(t,hyp,exc):
    f=Function('prev_scores_of',A(t).t.sort(),t.arcsPruned.t.sort(),I_,R_,I_,exc.dom.sort(),VR); return f(A(t).t,t.arcsPruned.t,NS(t),t.initialStateScore,hyp,exc.dom)
def RESTF(t):
    f=Function('rest_scores_of',A(t).t.sort(),t.arcsPruned.t.sort(),I_,R_,t.finalStateSet.dom.sort(),VR); return f(A(t).t,t.arcsPruned.t,NS(t),t.initialStateScore,t.finalStateSet.dom)
add('calcPrevScores',modifies=('arg2','arg3'),mbqi=False,requires=lambda c:preq(c,c.a(0)),ensures=lambda c:[('definition: previous scores',un(c.a(2))==PREVF(c.this,c.a(0),c.a(1)))]+prevpost(c,c.a(1),mkV(mkvec(VR,IntVal(0),z3.K(I_,RealVal(0)))),c.a(2),c.a(3),c.a(0)))
# ---- scores towards the final states
en,enx=enumf(I_)
def fin0(t,f,v,lo,pos=None): return ForAll([K],Implies(And(t.finalStateSet.has(K),BoolVal(True) if pos is None else enx(t.finalStateSet.dom,K)<pos),f(K)==v),patterns=[t.finalStateSet.has(K),f(K)])
clip=lambda x:If(x<SMALL,SMALL,x)
def rback(t,R,lo,cl): return ForAll([K],Implies(And(lo<=K,K<N(t),NP(t,K)),R(p_(t,K))>=cl(A(t)[K].arcScore+R(s_(t,K)))),patterns=[ak(t,K)])
def ratt(t,R,lo,v,cl): return ForAll([S],Implies(rng(t,S),Or(R(S)==SMALL,And(t.finalStateSet.has(S),R(S)==v),Exists([W],And(lo<=W,W<N(t),NP(t,W),p_(t,W)==S,R(S)==cl(A(t)[W].arcScore+R(s_(t,W))))))),patterns=[R(S)])
def rfin(t,R,v): return ForAll([K],Implies(t.finalStateSet.has(K),R(K)>=v),patterns=[t.finalStateSet.has(K)])
def isset(r,v,m): return z3.is_expr(v)
def rest(q,o,v,cl,floor):
    RV=lambda c:sub(c.a(0))
    lo=lambda c:ForAll([S],Implies(rng(c.this,S),RV(c)(S)>=SMALL),patterns=[RV(c)(S)])
    add(q,modifies=('arg0',),mbqi=False,requires=lambda c:wf(c.this)+[('topological order',topo(c.this)),('score of final states',v(c.this)>SMALL)],
      ensures=lambda c:[('size',c.a(0).len==NS(c.this)),('final states',rfin(c.this,RV(c),v(c.this))),('no path to a final state scores more',rback(c.this,RV(c),0,cl)),('attained by an arc or a final state',ratt(c.this,RV(c),0,v(c.this),cl))]+([('never below',lo(c))] if floor else [])+([('definition: rest scores',un(c.a(0))==RESTF(c.this))] if o else []),
      invs=[('size',[],lambda c:c.a(0).len==NS(c.this)),('final states so far',['it'],lambda c,it:ForAll([S],Implies(rng(c.this,S),RV(c)(S)==If(And(c.this.finalStateSet.has(S),enx(c.this.finalStateSet.dom,S)<it.pos),v(c.this),SMALL)),patterns=[RV(c)(S)])),
        ('final states',['mI'],lambda c,i:rfin(c.this,RV(c),v(c.this))),('arcs so far',['mI'],lambda c,i:rback(c.this,RV(c),N(c.this)-i.cur,cl)),('attained',['mI'],lambda c,i:ratt(c.this,RV(c),N(c.this)-i.cur,v(c.this),cl)),('never below',[],lo)])
rest('calcRestScores',1,lambda t:t.initialStateScore,clip,True)
rest('obtainNbSearchHeurInfo',0,lambda t:RealVal(0),lambda x:x,True)
# ---- best path
def okb(t,P,B,hyp):
    return [('sizes',And(P.len==NS(t),B.len==NS(t))),('start',rng(t,hyp)),('stored arcs',ForAll([S],Implies(And(rng(t,S),S!=hyp,P[S]>SMALL),And(B[S].succStateIndex==S,rng(t,B[S].predStateIndex),Or(B[S].predStateIndex==hyp,P[B[S].predStateIndex]>SMALL))),patterns=[Select(P.arr,S),Select(B.arr,S)])),('score of the start',P[hyp]>SMALL)]
nofin0=lambda t:('the initial state is not final',Not(t.finalStateSet.has(0)))
def bpost(c,hyp,P,B,V):
    t=c.this; f=t.finalStateSet; fa=lambda lo,hi,body,pats:ForAll([K],Implies(And(lo<=K,K<hi),body),patterns=pats); v=lambda k:V[k]
    return [('no final state scores more',ForAll([S],Implies(f.has(S),P[S]<=c.ret),patterns=[f.has(S)])),
      ('no path',Implies(c.ret==SMALL,V.len==0)),('lowest score',c.ret>=SMALL),
      ('ends in a final state with that score',Implies(V.len>0,And(f.has(v(0).succStateIndex),P[v(0).succStateIndex]==c.ret))),
      ('only the start',Implies(And(V.len==0,c.ret>SMALL),And(f.has(hyp),P[hyp]==c.ret))),
      ('stored arcs of reached states',fa(0,V.len,And(rng(t,v(K).succStateIndex),v(K).succStateIndex!=hyp,P[v(K).succStateIndex]>SMALL,un(v(K))==un(B[v(K).succStateIndex])),[Select(V.arr,K)])),
      ('connected',ForAll([K,J],Implies(And(0<=K,J==K+1,J<V.len),v(J).succStateIndex==v(K).predStateIndex),patterns=[MultiPattern(Select(V.arr,K),Select(V.arr,J))])),
      ('starts in the start',Implies(V.len>0,v(V.len-1).predStateIndex==hyp))]
def binv():
    g=lambda c:(c.this,c.a(1),c.a(2),c.a(3)); isR=lambda r,v,m:z3.is_expr(v) and v.sort()==R_
    def best(c,it,sc,st):
        t,P,B,V=g(c); f=t.finalStateSet
        return And(sc.cur>=SMALL,ForAll([S],Implies(And(f.has(S),enx(f.dom,S)<it.pos),P[S]<=sc.cur),patterns=[f.has(S)]),Or(And(st.cur==0,sc.cur==SMALL),And(f.has(st.cur),P[st.cur]==sc.cur,sc.cur>SMALL)))
    def trace(c,idx,sc):
        t,P,B,V=g(c); f=t.finalStateSet; hyp=c.a(0); v=lambda k:V[k]
        return And(rng(t,idx.cur),Or(idx.cur==hyp,P[idx.cur]>SMALL),Implies(V.len==0,And(f.has(idx.cur),P[idx.cur]==sc.cur)),Implies(V.len>0,And(f.has(v(0).succStateIndex),P[v(0).succStateIndex]==sc.cur,v(V.len-1).predStateIndex==idx.cur)))
    def arcs(c):
        t,P,B,V=g(c); hyp=c.a(0); v=lambda k:V[k]
        return ForAll([K],Implies(And(0<=K,K<V.len),And(rng(t,v(K).succStateIndex),v(K).succStateIndex!=hyp,P[v(K).succStateIndex]>SMALL,un(v(K))==un(B[v(K).succStateIndex]))),patterns=[Select(V.arr,K)])
    def conn(c):
        V=c.a(3); return ForAll([K,J],Implies(And(0<=K,J==K+1,J<V.len),V[J].succStateIndex==V[K].predStateIndex),patterns=[MultiPattern(Select(V.arr,K),Select(V.arr,J))])
    return [('best so far',['it',isR,'mI'],best),('traced',['mI',isR],trace),('arcs',[],arcs),('connected',[],conn),('done at the start',['B','mI'],lambda c,b,i:Implies(b.cur,i.cur==c.a(0)))]
add('bestPathFromFinalStateToIdxAux',modifies=('arg3',),mbqi=False,requires=lambda c:wf(c.this)+okb(c.this,c.a(1),c.a(2),c.a(0))+[nofin0(c.this)],ensures=lambda c:bpost(c,c.a(0),c.a(1),c.a(2),c.a(3)),invs=binv())
# the path found, in terms of the graph: every arc exists, may be used and extends the score of its predecessor
SG=Function('best_score',I_,R_)   # ghost: score of every state
def pathpost(c,w,V,hyp):
    t=c.this; e=c.a(1); f=t.finalStateSet; v=lambda k:V[k]
    PV=sub(PREVW(t,hyp,e,w)); AC=accof(PV,hyp)
    return [('no path from the start scores more',And(bell(t,PV,AC,e,w,N(t)),PV(hyp)==ini(t,hyp))),('no final state scores more',ForAll([S],Implies(f.has(S),PV(S)<=c.ret),patterns=[f.has(S)])),
      ('no path',Implies(c.ret==SMALL,V.len==0)),('from the start to a final state with the score returned',Implies(V.len>0,And(f.has(v(0).succStateIndex),PV(v(0).succStateIndex)==c.ret,v(V.len-1).predStateIndex==hyp))),
      ('the arcs are connected',ForAll([K,J],Implies(And(0<=K,J==K+1,J<V.len),v(J).succStateIndex==v(K).predStateIndex),patterns=[MultiPattern(Select(V.arr,K),Select(V.arr,J))])),
      ('every arc exists, may be used and gives the score of its state',ForAll([K],Implies(And(0<=K,K<V.len),Exists([W],And(arc(W,t),used(t,W,e),un(v(K))==ak(t,W),PV(s_(t,W))==SC(t,W,w)+PV(p_(t,W))))),patterns=[Select(V.arr,K)]))]
add('bestPathFromFinalStateToIdxWeights',modifies=('arg3',),mbqi=False,requires=lambda c:preq(c,c.a(0))+[('some arc',N(c.this)>0),nofin0(c.this)],ensures=lambda c:pathpost(c,c.a(2),c.a(3),c.a(0)))
EMPTYW=mkV(mkvec(VR,IntVal(0),z3.K(I_,RealVal(0))))
add('bestPathFromFinalStateToIdx',modifies=('arg2',),mbqi=False,requires=lambda c:preq(c,c.a(0))+[('some arc',N(c.this)>0),nofin0(c.this)],ensures=lambda c:pathpost(c,EMPTYW,c.a(2),c.a(0)))
# ---- pruning
PP=Function('position_in_state',I_,I_)
def complete(t):
    l=lambda k:t.wordGraphStates[s_(t,k)].arcsToPredStates
    return ('every arc is listed at its state',ForAll([K],Implies(arc(K,t),And(0<=PP(K),PP(K)<l(K).len,l(K)[PP(K)]==K)),patterns=[ak(t,K)]))
def below(t,P,R,bt): return lambda k:P[p_(t,k)]+A(t)[k].arcScore+R[s_(t,k)]-t.initialStateScore<bt
def logt(th): return If(th==0,SMALL,log(th))
def isbest(t,P,b): f=t.finalStateSet; return And(b>=SMALL,ForAll([S],Implies(f.has(S),P[S]<=b),patterns=[f.has(S)]))
NOEX=lambda: None
def PVRV(o): return mkV(PREVF(o,IntVal(0),mkV(si(o.finalStateSet.t.sort()).mk(z3.K(I_,BoolVal(False)),IntVal(0))))),mkV(RESTF(o))
def prunepost(c,th):
    o,n=c.old.this,c.this; b=Real('best_hyp')
    PV,RV=PVRV(o)
    dec=ForAll([K],Implies(arc(K,o),n.arcsPruned[K]==below(o,PV,RV,b+logt(th))(K)),patterns=[ak(o,K),Select(n.arcsPruned.arr,K)])
    AC=accof(sub(PV),IntVal(0))
    bl=ForAll([K],Implies(And(arc(K,o),NP(o,K),AC(p_(o,K)),A(o)[K].arcScore+PV[p_(o,K)]>SMALL),And(AC(s_(o,K)),PV[s_(o,K)]>=A(o)[K].arcScore+PV[p_(o,K)])),patterns=[ak(o,K)])
    return [('graph kept',And(un(A(n))==un(A(o)),un(n.wordGraphStates)==un(o.wordGraphStates),un(n.finalStateSet)==un(o.finalStateSet),n.initialStateScore==o.initialStateScore,n.arcsPruned.len==N(n))),
      ('no path from the start scores more',And(PV[0]==o.initialStateScore,bl)),('no path to a final state scores more',And(rfin(o,sub(RV),o.initialStateScore),rback(o,sub(RV),0,clip))),
      ('an arc is pruned exactly when the best path through it scores below the best path plus the logarithm of the threshold',ForAll([b],Implies(And(isbest(o,PV,b),Or(b==SMALL,Exists([S],And(o.finalStateSet.has(S),PV[S]==b)))),dec)))]
isVR=lambda r,v,m:z3.is_expr(v) and v.sort()==VR
isR=lambda r,v,m:z3.is_expr(v) and v.sort()==R_
PREVV=Function('prev_scores_of',VR,B_)
def prq(c): return preq(c,IntVal(0))+[('some state',NS(c.this)>0),('some arc',N(c.this)>0),complete(c.this),('threshold',Or(c.a(0)==-1,c.a(0)>=0))]
def pinvs():
    P=lambda c:c.loc('prevScores')
    TH=lambda c:c.a(0)
    ok=lambda c,P,R,b,m:And(P.cur.len==NS(c.this),R.cur.len==NS(c.this))
    def kept(c): o,n=c.old.this,c.this; return And(n.arcsPruned.len==N(o),un(A(n))==un(A(o)))
    isu=lambda r,v,m:not m and z3.is_expr(v) and v.sort()==VR
    isru=lambda r,v,m:not m and z3.is_expr(v) and v.sort()==R_
    fl=lambda r,v,m:z3.is_expr(v) and v.sort()==R_
    def dec(cond):
        def f(c,b,h,*it):
            o,n=c.old.this,c.this; bl=below(o,*PVRV(o),b.cur+logt(c.a(0)))
            return ForAll([K],Implies(And(arc(K,o),cond(o,K,h.cur,*[x.pos for x in it])),n.arcsPruned[K]==bl(K)),patterns=[ak(o,K),Select(n.arcsPruned.arr,K)])
        return f
    def best(c,b,it):
        f=c.this.finalStateSet; P=PVRV(c.old.this)[0]
        return And(b.cur>=SMALL,ForAll([S],Implies(And(f.has(S),enx(f.dom,S)<it.pos),P[S]<=b.cur),patterns=[f.has(S)]),Or(b.cur==SMALL,Exists([S],And(f.has(S),P[S]==b.cur))))
    return [('kept',[],kept),('best so far',['R','it'],best),('decided',[isru,'I'],dec(lambda o,k,h:s_(o,k)<h)),('decided in state',[isru,'I','it'],dec(lambda o,k,h,p:And(s_(o,k)==h,PP(k)<p)))]
add('pruneArcsToPredStates',modifies=('this.arcsPruned',),mbqi=False,requires=lambda c:prq(c)+[c.a(0)>=0],ensures=lambda c:prunepost(c,c.a(0)),invs=pinvs())
add('prune',modifies=('this.arcsPruned',),mbqi=False,requires=prq,ensures=lambda c:[('unlimited density: nothing is pruned',Implies(c.a(0)==-1,And(c.ret==0,ForAll([K],Implies(arc(K,c.this),NP(c.this,K)),patterns=[Select(c.this.arcsPruned.arr,K)]))))]+[(a,Implies(c.a(0)!=-1,b)) for a,b in prunepost(c,c.a(0))],
   invs=[('unmarked',['I'],lambda c,i:And(c.this.arcsPruned.len==N(c.this),ForAll([K],Implies(And(0<=K,K<i.cur),NP(c.this,K)),patterns=[Select(c.this.arcsPruned.arr,K)])))])
# ---- building graphs
def listed(t): return ForAll([K],Implies(arc(K,t),And(Exists([J],And(0<=J,J<t.wordGraphStates[s_(t,K)].arcsToPredStates.len,t.wordGraphStates[s_(t,K)].arcsToPredStates[J]==K)),Exists([J],And(0<=J,J<t.wordGraphStates[p_(t,K)].arcsToSuccStates.len,t.wordGraphStates[p_(t,K)].arcsToSuccStates[J]==K)))),patterns=[ak(t,K)])
def mx(a,b): return If(a>=b,a,b)
def added(c,comp):
    o,n=c.old.this,c.this; p,q=c.old.a(0),c.old.a(1); m=N(o); lst=lambda t,f,x:getattr(t.wordGraphStates[x],f)
    def lp(f,at): 
        ol=lambda x:If(x<NS(o),lst(o,f,x).len,0)
        return And(ForAll([S],Implies(rng(n,S),lst(n,f,S).len==ol(S)+If(S==at,1,0)),patterns=[Select(n.wordGraphStates.arr,S)]),
           ForAll([S,K],Implies(And(rng(n,S),0<=K,K<ol(S)),lst(n,f,S)[K]==lst(o,f,S)[K]),patterns=[Select(lst(n,f,S).arr,K)]),lst(n,f,at)[ol(at)]==m)
    return [('one arc more',N(n)==m+1),('the new arc',And(p_(n,m)==p,s_(n,m)==q,A(n)[m].arcScore==c.old.a(3),un(A(n)[m].words)==un(c.old.a(2)),NP(n,m),n.arcsPruned.len==m+1)),
       ('the others are kept',ForAll([K],Implies(And(0<=K,K<m),And(ak(n,K)==ak(o,K),n.arcsPruned[K]==o.arcsPruned[K])),patterns=[ak(n,K)])),
       ('states',NS(n)==mx(NS(o),mx(p,q)+1)),('listed at the state it enters',lp('arcsToPredStates',q)),('listed at the state it leaves',lp('arcsToSuccStates',p)),
       ('score components',And(SCV(n).len==m+1,SCV(n)[m].len==0 if comp is None else un(SCV(n)[m])==un(comp),ForAll([K],Implies(And(0<=K,K<m),un(SCV(n)[K])==un(SCV(o)[K])),patterns=[Select(SCV(n).arr,K)]))),
       ('final states kept',un(n.finalStateSet)==un(o.finalStateSet)),('weights kept',And(un(n.compWeights)==un(o.compWeights),n.initialStateScore==o.initialStateScore)),('arc lists of the states hold arcs of the state',lists(n)),('indices in range',ForAll([K],Implies(arc(K,n),And(rng(n,p_(n,K)),rng(n,s_(n,K)))),patterns=[ak(n,K)]))]
def areq(c): return [base(c.this),lists(c.this),And(0<=c.a(0),c.a(0)<2**31-2,0<=c.a(1),c.a(1)<2**31-2),SCV(c.this).len==N(c.this),N(c.this)<2**31-2]
aninv=[('states kept',[],lambda c:And(NS(c.this)>=NS(c.le.this),NS(c.this)<=mx(NS(c.le.this),mx(c.a(0),c.a(1))+1),ForAll([S],Implies(And(0<=S,S<NS(c.this)),If(S<NS(c.le.this),un(c.this.wordGraphStates[S])==un(c.le.this.wordGraphStates[S]),And(c.this.wordGraphStates[S].arcsToPredStates.len==0,c.this.wordGraphStates[S].arcsToSuccStates.len==0))),patterns=[Select(c.this.wordGraphStates.arr,S)]))),
   ('the rest kept',[],lambda c:And(un(A(c.this))==un(A(c.le.this)),un(c.this.arcsPruned)==un(c.le.this.arcsPruned),un(SCV(c.this))==un(SCV(c.le.this)),un(c.this.finalStateSet)==un(c.le.this.finalStateSet)))]
add('addArc',modifies=('this',),mbqi=False,requires=areq,ensures=lambda c:added(c,None),invs=aninv)
add('addArcWithScrComps',modifies=('this',),mbqi=False,requires=areq,ensures=lambda c:added(c,c.old.a(4)),invs=[('components kept',[],lambda c:And(un(SCV(c.this))==un(SCV(c.le.this)),SCV(c.this).len==N(c.this)))])
add('addFinalState',modifies=('this',),requires=None,ensures=lambda c:[('final',ForAll([S],c.this.finalStateSet.has(S)==Or(S==c.old.a(0),c.old.this.finalStateSet.has(S)),patterns=[c.this.finalStateSet.has(S)])),('graph kept',And(un(A(c.this))==un(A(c.old.this)),un(c.this.wordGraphStates)==un(c.old.this.wordGraphStates),un(c.this.arcsPruned)==un(c.old.this.arcsPruned)))])
add('hypIsComplete',requires=lambda c:[ForAll([K],Implies(And(0<=K,K<c.a(0).len),arc(c.a(0)[K],c.this)),patterns=[Select(c.a(0).arr,K)])],ensures=lambda c:[('ends in a final state',c.ret==And(c.a(0).len>0,c.this.finalStateSet.has(s_(c.this,c.a(0)[c.a(0).len-1]))))])
# ---- weights
def swp(w): return Function('weighted_sum',w.t.sort(),VR,I_,R_)
def swpax(w): f=swp(w); return [ForAll([XV],f(w.t,XV,0)==0,patterns=[f(w.t,XV,0)]),ForAll([XV,J,K],Implies(And(0<=J,K==J+1),f(w.t,XV,K)==f(w.t,XV,J)+w[J].second*vsel(XV,J)),patterns=[MultiPattern(f(w.t,XV,J),f(w.t,XV,K))])]
def resc(c,n,o,w,k): 
    return ForAll([K],Implies(arc(K,o),And(p_(n,K)==p_(o,K),s_(n,K)==s_(o,K),un(A(n)[K].words)==un(A(o)[K].words),
      A(n)[K].arcScore==If(And(K<k,K<SCV(o).len,SCV(o)[K].len==w.len),swp(w)(w.t,un(SCV(o)[K]),w.len),A(o)[K].arcScore))),patterns=[ak(n,K)])
def rpost(c): return [('the same arcs',N(c.this)==N(c.old.this)),('arcs with one component per weight score the weighted sum, the others keep their score',resc(c,c.this,c.old.this,c.old.a(0),N(c.old.this))),('components kept',un(SCV(c.this))==un(SCV(c.old.this)))]
add('rescoreArcsGivenWeights',modifies=('this.wordGraphArcs',),mbqi=False,requires=lambda c:[N(c.this)<2**31,c.a(0).len<2**31],lemmas=lambda c:swpax(c.a(0)),ensures=rpost,
  invs=[('arcs',['I'],lambda c,k:And(N(c.this)==N(c.old.this),resc(c,c.this,c.old.this,c.a(0),k.cur))),
    ('size',[],lambda c:N(c.this)==N(c.old.this)),
    ('arc',['I','I'],lambda c,k,i:And(ForAll([K],Implies(And(arc(K,c.this),K!=k.cur),ak(c.this,K)==ak(c.le.this,K)),patterns=[ak(c.this,K)]),p_(c.this,k.cur)==p_(c.le.this,k.cur),s_(c.this,k.cur)==s_(c.le.this,k.cur),un(A(c.this)[k.cur].words)==un(A(c.le.this)[k.cur].words),A(c.this)[k.cur].arcScore==swp(c.a(0))(c.a(0).t,un(SCV(c.this)[k.cur]),i.cur)))])
add('setCompWeights',modifies=('this',),requires=lambda c:[N(c.this)<2**31,c.a(0).len<2**31],ensures=lambda c:rpost(c)+[('weights',un(c.this.compWeights)==un(c.old.a(0)))])
# ---- reachable and useful states
def RV_(v): return lambda s:v[s]
def reach(t,R,n): return ForAll([K],Implies(And(0<=K,K<n,NP(t,K),R[p_(t,K)]),R[s_(t,K)]),patterns=[ak(t,K)])
def rch(t,R,n): return ForAll([S],Implies(And(rng(t,S),R[S]),Or(S==0,Exists([W],And(0<=W,W<n,NP(t,W),s_(t,W)==S,R[p_(t,W)])))),patterns=[Select(R.arr,S)])
add('obtainStatesReachableFromInit',modifies=('arg0',),mbqi=False,requires=lambda c:wf(c.this)+[topo(c.this)],ensures=lambda c:[('size',c.a(0).len==NS(c.this)),('the initial state',Implies(NS(c.this)>0,c.a(0)[0])),('closed under arcs',reach(c.this,c.a(0),N(c.this))),('only through arcs',rch(c.this,c.a(0),N(c.this)))],
  invs=[('initial',['I'],lambda c,i:And(c.a(0).len==i.cur,ForAll([S],Implies(And(0<=S,S<i.cur),Not(c.a(0)[S])),patterns=[Select(c.a(0).arr,S)]))),('size',[],lambda c:c.a(0).len==NS(c.this)),('start',[],lambda c:Implies(NS(c.this)>0,c.a(0)[0])),('closed',['I'],lambda c,k:reach(c.this,c.a(0),k.cur)),('only',['I'],lambda c,k:rch(c.this,c.a(0),k.cur))])
def REACHF(t):
    f=Function('reachable_from_start',A(t).t.sort(),t.arcsPruned.t.sort(),I_,VB); return mkV(f(A(t).t,t.arcsPruned.t,NS(t)))
C[-1].ensures=(lambda e:lambda c:e(c)+[('definition: reachable states',un(c.a(0))==un(REACHF(c.this)))])(C[-1].ensures)
def ent(t,s): l=t.wordGraphStates[s].arcsToPredStates; return CNT(un(l),t.arcsPruned.t,l.len)>0
def ufin(t,U): return ForAll([K],Implies(And(t.finalStateSet.has(K),ent(t,K)),U[K]),patterns=[t.finalStateSet.has(K)])
def ucl(t,U,lo): return ForAll([K],Implies(And(lo<=K,K<N(t),NP(t,K),REACHF(t)[p_(t,K)],U[s_(t,K)]),U[p_(t,K)]),patterns=[ak(t,K)])
def uonly(t,U,lo): return ForAll([S],Implies(And(rng(t,S),U[S]),Or(And(t.finalStateSet.has(S),ent(t,S)),Exists([W],And(lo<=W,W<N(t),NP(t,W),p_(t,W)==S,REACHF(t)[S],U[s_(t,W)])))),patterns=[Select(U.arr,S)])
def remap(t,U,M,n,x): return And(ForAll([S],M.has(S)==And(0<=S,S<n,U[S]),patterns=[M.has(S)]),ForAll([S],Implies(And(0<=S,S<n,U[S]),And(0<=M[S],M[S]<x)),patterns=[Select(M.vals,S)]),ForAll([S,K],Implies(And(0<=S,S<K,K<n,U[S],U[K]),M[S]<M[K]),patterns=[MultiPattern(Select(M.vals,S),Select(M.vals,K))]))
add('obtainUsefulStates',modifies=('arg0','arg1'),mbqi=False,requires=lambda c:wf(c.this)+[topo(c.this),NS(c.this)>0],lemmas=lambda c:cntax,
  ensures=lambda c:[('size',c.a(0).len==NS(c.this)),('final states entered by an arc',ufin(c.this,c.a(0))),('closed under arcs out of reachable states',ucl(c.this,c.a(0),0)),('only those',uonly(c.this,c.a(0),0)),('useful states are renumbered one to one in order',remap(c.this,c.a(0),c.a(1),NS(c.this),NS(c.this)))],
  invs=[('initial',['I'],lambda c,i:And(c.a(0).len==i.cur,ForAll([S],Implies(And(0<=S,S<i.cur),Not(c.a(0)[S])),patterns=[Select(c.a(0).arr,S)]))),('size',[],lambda c:c.a(0).len==NS(c.this)),
    ('finals',['it'],lambda c,it:ForAll([S],Implies(rng(c.this,S),c.a(0)[S]==And(c.this.finalStateSet.has(S),ent(c.this,S),enx(c.this.finalStateSet.dom,S)<it.pos)),patterns=[Select(c.a(0).arr,S)])),
    ('entered',[],lambda c:ufin(c.this,c.a(0))),('closed',['mI'],lambda c,i:ucl(c.this,c.a(0),N(c.this)-i.cur)),('only',['mI'],lambda c,i:uonly(c.this,c.a(0),N(c.this)-i.cur)),
    ('flag',['mI','B'],lambda c,j,b:And(Not(b.cur),j.cur==0)),
    ('renumbered',['mI','mI'],lambda c,i,x:And(remap(c.this,c.a(0),c.a(1),i.cur,x.cur),x.cur<=i.cur))])
# ---- what the contracts give for whole paths
P_,R_2,SC_=[Function(x,I_,R_) for x in('path_prev','path_rest','path_arc')]; Q_=Function('path_prefix',I_,R_); U_=Function('path_suffix',I_,R_); n_,k_=Ints('path_len path_pos'); ini_,best_,lt_,tot=Reals('initial_score best_hyp log_threshold path_total')
CHECKS=[('no path into a state scores more than its previous score (induction over the path)',Implies(And(P_(k_)>=Q_(k_),Q_(k_+1)==Q_(k_)+SC_(k_),Implies(SC_(k_)+P_(k_)>SMALL,P_(k_+1)>=SC_(k_)+P_(k_)),Q_(k_+1)>SMALL),P_(k_+1)>=Q_(k_+1))),
  ('no path to a final state scores more than the rest score (induction over the path)',Implies(And(R_2(k_+1)>=U_(k_+1)+ini_,U_(k_)==SC_(k_)+U_(k_+1),R_2(k_)>=If(SC_(k_)+R_2(k_+1)<SMALL,SMALL,SC_(k_)+R_2(k_+1))),R_2(k_)>=U_(k_)+ini_)),
  ('an arc of a path within the threshold of the best one is kept',Implies(And(P_(k_)>=Q_(k_),R_2(k_+1)>=U_(k_+1)+ini_,tot==Q_(k_)+SC_(k_)+U_(k_+1),tot>=best_+lt_),Not(P_(k_)+SC_(k_)+R_2(k_+1)-ini_<best_+lt_)))]
CONTRACTS=C
