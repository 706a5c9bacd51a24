from spec import *
PROPS=('P15',)
TU=dict(name='tmetamod',text='#include "PhrScoreInfo.h"\n#include "TranslationMetadata.h"\n#include "JsonTranslationMetadata.h"\ntemplate class TranslationMetadata<PhrScoreInfo>;\ntemplate class JsonTranslationMetadata<PhrScoreInfo>;\n')
C=[]
STR=vec(I_); VS=vec(STR); AS=ArraySort(I_,STR)
k_,j_,n_,x_,a_,b_,p_,q_,w_=Ints('tk tj tn tx ta tb tp tq tw')
M=lambda c:c.this.srcPhrTransMap
SRC=lambda c:c.this.srcSentVec
_F={}
def F(nm,*dom):
    kk=(nm,)+tuple(map(str,dom))
    if kk not in _F: _F[kk]=Function(nm,*dom)
    return _F[kk]
# the words t of a sentence stand in the words u from position o on
def MT(t,n,u,o): return F('words_stand_at',AS,I_,AS,I_,B_)(t,n,u,o)
T_,U_=Const('tt',AS),Const('tu',AS)
def mtax():
    f=F('words_stand_at',AS,I_,AS,I_,B_); w=F('first_difference',AS,I_,AS,I_,I_)
    return [ForAll([T_,n_,U_,a_,j_],Implies(And(f(T_,n_,U_,a_),0<=j_,j_<n_),Select(T_,j_)==Select(U_,a_+j_)),patterns=[MultiPattern(f(T_,n_,U_,a_),Select(T_,j_))]),
            ForAll([T_,n_,U_,a_],Implies(Not(f(T_,n_,U_,a_)),And(0<=w(T_,n_,U_,a_),w(T_,n_,U_,a_)<n_,Select(T_,w(T_,n_,U_,a_))!=Select(U_,a_+w(T_,n_,U_,a_)))),patterns=[f(T_,n_,U_,a_)])]
# the first segment that contains a position
PS=pair(I_,I_); ASG=ArraySort(I_,PS); AI=ArraySort(I_,I_)
S_=Const('ts',ASG); L_=Const('tl',AI)
def inside(e,x): return And(mkV(e).first<=x,x<=mkV(e).second)
FI=Function('segment_of',ASG,I_,I_,I_)
fiax=[ForAll([S_,n_,x_],Implies(n_>=0,And(0<=FI(S_,n_,x_),FI(S_,n_,x_)<=n_,Implies(FI(S_,n_,x_)<n_,inside(Select(S_,FI(S_,n_,x_)),x_)))),patterns=[FI(S_,n_,x_)]),
      ForAll([S_,n_,x_,p_],Implies(And(0<=p_,p_<n_,inside(Select(S_,p_),x_)),FI(S_,n_,x_)<=p_),patterns=[MultiPattern(FI(S_,n_,x_),Select(S_,p_))])]
def lo(u,k): return If(k>0,Select(u,k-1),0)
# a constraint (span and its translation) is violated by a list of segments, cuts and words
def viol(first,second,t,ss,cu,w):
    f=FI(ss.arr,ss.len,first); sg=ss[f]
    return And(f<ss.len,Not(And(sg.first==first,sg.second==second,vlen(t)==Select(cu.arr,f)-lo(cu.arr,f),MT(varr(t),vlen(t),w.arr,lo(cu.arr,f)))))
wfs=lambda ss,cu,w:[cu.len==ss.len,ForAll([p_,q_],Implies(And(0<=p_,p_<=q_,q_<cu.len),And(cu[p_]>=0,cu[p_]<=cu[q_])),patterns=[MultiPattern(Select(cu.arr,p_),Select(cu.arr,q_))]),
   ForAll([p_],Implies(And(0<=p_,p_<cu.len),And(cu[p_]>=0,cu[p_]<=w.len)),patterns=[Select(cu.arr,p_)]),w.len<2**31]
KP=Const('tkey',PS)
def contracts(CLS,js):
    def H(q,**kw): C.append(Contract(CLS+'::'+q,norm=True,**kw))
    H('getSrcSentVec',ensures=lambda c:[('the plain sentence',c.ret.t==un(SRC(c)))])
    H('getTransForSrcPhr',ensures=lambda c:[('the translation given for the span, none otherwise',If(M(c).has(un(c.a(0))),c.ret.t==un(M(c)[un(c.a(0))]),c.ret.len==0))])
    H('getConstrainedSrcPhrases',invs=[('listed so far',['it',lambda r,v,mod:isinstance(v,z3.ExprRef) and 'Set' in v.sort().name()],lambda c,it,r:ForAll([KP],r.cur.has(KP)==And(M(c).has(KP),enumf(PS)[1](M(c).dom,KP)<it.cur.pos),patterns=[r.cur.has(KP)]))],
      ensures=lambda c:[('exactly the spans of the constraints',ForAll([KP],c.ret.has(KP)==M(c).has(KP),patterns=[c.ret.has(KP)]))])
    over=lambda c,k:And(un(c.a(0))is not None,mkV(k).first<=c.a(0).second,mkV(k).second>=c.a(0).first)
    def AF(c): return F('affected',M(c).dom.sort(),I_,I_,B_)(M(c).dom,c.a(0).first,c.a(0).second)
    def afax(c):
        d=M(c).dom.sort(); D=Const('td',d); f=F('affected',d,I_,I_,B_); w=F('affecting',d,I_,I_,PS); ov=lambda k:And(mkV(k).first<=b_,mkV(k).second>=a_)
        return [ForAll([D,a_,b_,KP],Implies(And(Select(D,KP),ov(KP)),f(D,a_,b_)),patterns=[MultiPattern(f(D,a_,b_),Select(D,KP))]),
                ForAll([D,a_,b_],Implies(f(D,a_,b_),And(Select(D,w(D,a_,b_)),ov(w(D,a_,b_)))),patterns=[f(D,a_,b_)])]
    H('srcPhrAffectedByConstraint',lemmas=afax,invs=[('no overlap so far',['it'],lambda c,it:ForAll([KP],Implies(And(M(c).has(KP),enumf(PS)[1](M(c).dom,KP)<it.cur.pos),Not(And(mkV(KP).first<=c.a(0).second,mkV(KP).second>=c.a(0).first))),patterns=[M(c).has(KP)]))],
      ensures=lambda c:[('iff some constraint shares a position with the span',c.ret==AF(c))])
    V=lambda c:viol(c.a(0).first,c.a(0).second,un(c.a(1)),c.a(2),c.a(3),c.a(4))
    H('transViolatesSrcPhrConstraint',requires=lambda c:wfs(c.a(2),c.a(3),c.a(4)),lemmas=lambda c:mtax()+fiax,
      invs=[('not yet found',['I','B'],lambda c,h,b:And(h.cur<=c.a(2).len,Implies(h.cur<c.a(2).len,Not(b.cur)),ForAll([p_],Implies(And(0<=p_,p_<h.cur),Not(inside(Select(c.a(2).arr,p_),c.a(0).first))),patterns=[Select(c.a(2).arr,p_)]))),
            ('segment',['B'],lambda c,b:Not(b.cur)),
            ('equal so far',['I'],lambda c,h:And(h.cur<=c.a(1).len,ForAll([p_],Implies(And(0<=p_,p_<h.cur),Select(c.a(1).arr,p_)==Select(c.a(4).arr,lo(c.a(3).arr,FI(c.a(2).arr,c.a(2).len,c.a(0).first))+p_)),patterns=[Select(c.a(1).arr,p_)])))],
      ensures=lambda c:[('violated iff the first position is in another segment or in one translated otherwise',c.ret==V(c))])
    def AV(c): return F('some_violation',M(c).dom.sort(),M(c).vals.sort(),ASG,I_,AI,AS,B_)(M(c).dom,M(c).vals,c.a(0).arr,c.a(0).len,c.a(1).arr,c.a(2).arr)
    def avax(c):
        m=M(c); f=AV(c); w=Const('violated',PS); vi=lambda k:viol(mkV(k).first,mkV(k).second,Select(m.vals,k),c.a(0),c.a(1),c.a(2))
        return [ForAll([KP],Implies(And(m.has(KP),vi(KP)),f),patterns=[m.has(KP)]),Implies(f,And(m.has(w),vi(w)))]
    vk=lambda c,k:viol(mkV(k).first,mkV(k).second,Select(M(c).vals,k),c.a(0),c.a(1),c.a(2))
    H('transViolatesSrcPhrConstraints',requires=lambda c:wfs(c.a(0),c.a(1),c.a(2)),lemmas=lambda c:fiax+avax(c),
      invs=[('none violated so far',['it'],lambda c,it:ForAll([KP],Implies(And(M(c).has(KP),enumf(PS)[1](M(c).dom,KP)<it.cur.pos),Not(vk(c,KP))),patterns=[M(c).has(KP)]))],
      ensures=lambda c:[('iff some constraint is violated',c.ret==AV(c))])
    H('translationSatisfiesConstraints',requires=lambda c:wfs(c.a(0),c.a(1),c.a(2)),ensures=lambda c:[('iff no constraint is violated',c.ret==Not(AV(c)))])
    H('clear',modifies=('this',),ensures=lambda c:[('no word',SRC(c).len==0),('no constraint',ForAll([KP],Not(M(c).has(KP)),patterns=[M(c).has(KP)]))])
contracts('TranslationMetadata',False); contracts('JsonTranslationMetadata',True)
# ---- JSON: the phrases are looked for from left to right
J='JsonTranslationMetadata::'
SPLIT=Function('words_of',STR,VS)
C.append(Contract('StrProcUtils::stringToStringVector',trusted=True,norm=True,note='verified in module strp (P22)',ensures=lambda c:[('definition: the words of the line',c.ret.t==SPLIT(un(c.a(0))))]))
blank=lambda x:Or(x==32,x==9)
C.append(Contract(J+'containsOnlyWhitespaces',norm=True,invs=[('blanks so far',['I'],lambda c,i:And(i.cur<=c.a(0).len,ForAll([p_],Implies(And(0<=p_,p_<i.cur),blank(c.a(0)[p_])),patterns=[Select(c.a(0).arr,p_)])))],
  ensures=lambda c:[('only blanks',Implies(c.ret,ForAll([p_],Implies(And(0<=p_,p_<c.a(0).len),blank(c.a(0)[p_])),patterns=[Select(c.a(0).arr,p_)]))),('something else',Implies(Not(c.ret),Exists([p_],And(0<=p_,p_<c.a(0).len,Not(blank(c.a(0)[p_]))))))]))
C.append(Contract(J+'isPhraseInSentence',norm=True,lemmas=lambda c:mtax(),requires=lambda c:[c.a(1)+c.a(0).len<2**31,SRC(c).len<2**31],
  invs=[('equal so far',['I'],lambda c,i:And(i.cur<=c.a(0).len,ForAll([p_],Implies(And(0<=p_,p_<i.cur),Select(c.a(0).arr,p_)==Select(SRC(c).arr,c.a(1)+p_)),patterns=[Select(c.a(0).arr,p_)])))],
  ensures=lambda c:[('iff the words of the phrase stand at the position',c.ret==Or(c.a(0).len==0,And(c.a(1)+c.a(0).len<=SRC(c).len,MT(c.a(0).arr,c.a(0).len,SRC(c).arr,c.a(1)))))]))
def addok(c,upto):
    tr=c.a(0); K=mkV(KP); sp=lambda w,f:SPLIT(un(getattr(mkV(Select(tr.arr,w)),f)))
    return ForAll([KP],Implies(M(c).has(KP),And(1<=K.first,K.first<=K.second,K.second<=upto,
       Exists([w_],And(0<=w_,w_<tr.len,vlen(sp(w_,'first'))==K.second-K.first+1,MT(varr(sp(w_,'first')),vlen(sp(w_,'first')),SRC(c).arr,K.first-1),Select(M(c).vals,KP)==sp(w_,'second')),patterns=[Select(tr.arr,w_)]))),patterns=[M(c).has(KP)])
KQ=Const('tkey2',PS)
def apart(c): return ForAll([KP,KQ],Implies(And(M(c).has(KP),M(c).has(KQ)),Or(KP==KQ,mkV(KP).second<mkV(KQ).first,mkV(KQ).second<mkV(KP).first)),patterns=[MultiPattern(M(c).has(KP),M(c).has(KQ))])
C.append(Contract(J+'addTranslations',norm=True,modifies=('this',),requires=lambda c:[('no constraint yet',ForAll([KP],Not(M(c).has(KP)),patterns=[M(c).has(KP)])),SRC(c).len<2**30,c.a(0).len<2**30,
    ('phrases with words',ForAll([p_],Implies(And(0<=p_,p_<c.a(0).len),And(vlen(SPLIT(un(c.a(0)[p_].first)))>=1,vlen(SPLIT(un(c.a(0)[p_].first)))<2**30)),patterns=[Select(c.a(0).arr,p_)]))],
  invs=[('sentence kept',[],lambda c:un(SRC(c))==un(c.old.this.srcSentVec)),('pairs',['mI'],lambda c,i:And(i.cur>=0,i.cur<=c.a(0).len)),('constraints so far',['mI'],lambda c,i:And(i.cur>=0,i.cur<=SRC(c).len,addok(c,i.cur))),('apart',[],apart)],
  ensures=lambda c:[('sentence kept',un(SRC(c))==un(c.old.this.srcSentVec)),('every constraint is a pair of the metadata at its words',addok(c,SRC(c).len)),('constraints do not overlap',apart(c))]))
# ---- XML
X='TranslationMetadata::'
STAG,ETAG=Function('start_tag',STR,STR),Function('end_tag',STR,STR)
def tag(r,a,pre): n=len(pre); return And(r.len==a.len+n+1,*[r[i]==ord(ch) for i,ch in enumerate(pre)],r[r.len-1]==ord('>'),ForAll([p_],Implies(And(n<=p_,p_<r.len-1),r[p_]==a[p_-n]),patterns=[Select(r.arr,p_)]))
for nm,fn,pre in (('Start',STAG,'<'),('End',ETAG,'</')):
    C.append(Contract(X+'obtain%sTag'%nm,norm=True,requires=lambda c:[c.a(0).len<2**30],ensures=lambda c,fn=fn,pre=pre:[('the name in brackets',tag(c.ret,c.a(0),pre)),('definition: tag',c.ret.t==fn(un(c.a(0))))]))
def lit(s):
    a=z3.K(I_,IntVal(0))
    for i,ch in enumerate(s): a=Store(a,i,IntVal(ord(ch)))
    return si(STR).mk(IntVal(len(s)),a)
PH,SS,TT=lit('phr_pair_annot'),lit('src_segm'),lit('trg_segm')
# tokens at cur: start of pair, start of source, ls words, end of source, start of target, lt words, end of target, end of pair
def shape(c,ls,lt,cur):
    t=c.a(0); tk=lambda i:Select(t.arr,i)
    return And(ls>=1,lt>=1,cur+ls+lt+5<t.len,tk(cur)==STAG(PH),tk(cur+1)==STAG(SS),tk(cur+2+ls)==ETAG(SS),tk(cur+3+ls)==STAG(TT),tk(cur+4+ls+lt)==ETAG(TT),tk(cur+5+ls+lt)==ETAG(PH),
      ForAll([p_],Implies(And(cur+2<=p_,p_<cur+2+ls),tk(p_)!=ETAG(SS)),patterns=[tk(p_)]),ForAll([p_],Implies(And(cur+4+ls<=p_,p_<cur+4+ls+lt),tk(p_)!=ETAG(TT)),patterns=[tk(p_)]))
def part(v,t,o,n): return And(v.len==n,ForAll([p_],Implies(And(0<=p_,p_<n),Select(v.arr,p_)==Select(t.arr,o+p_)),patterns=[Select(v.arr,p_)]))
ls_,lt_=Ints('tls tlt')
PAIR=F('pair_of_segments_at',AS,I_,I_,I_,I_,B_)
def WE(u,o,v,a,n): return F('same_words',AS,I_,AS,I_,I_,B_)(u,o,v,a,n)
def weax():
    f=F('same_words',AS,I_,AS,I_,I_,B_); w=F('different_word',AS,I_,AS,I_,I_,I_)
    return [ForAll([T_,b_,U_,a_,n_,j_],Implies(And(f(T_,b_,U_,a_,n_),b_<=j_,j_<b_+n_),Select(T_,j_)==Select(U_,a_+j_-b_)),patterns=[MultiPattern(f(T_,b_,U_,a_,n_),Select(T_,j_))]),
      ForAll([T_,b_,U_,a_,n_],Implies(Not(f(T_,b_,U_,a_,n_)),And(b_<=w(T_,b_,U_,a_,n_),w(T_,b_,U_,a_,n_)<b_+n_,Select(T_,w(T_,b_,U_,a_,n_))!=Select(U_,a_+w(T_,b_,U_,a_,n_)-b_))),patterns=[f(T_,b_,U_,a_,n_)])]
isVS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and mod
cur=lambda c:c.old.a(1)
nb=lambda c,lo,hi,w:ForAll([p_],Implies(And(lo<=p_,p_<hi),Select(c.a(0).arr,p_)!=ETAG(w)),patterns=[Select(c.a(0).arr,p_)])
C.append(Contract(X+'constraintFound',norm=True,modifies=('arg2','arg3','arg4'),requires=lambda c:[c.a(0).len<2**30],
  invs=[('source words',['mI',isVS],lambda c,i,v:And(i.cur==cur(c)+2+v.cur.len,i.cur<=c.a(0).len,part(v.cur,c.a(0),cur(c)+2,v.cur.len),nb(c,cur(c)+2,i.cur,SS))),
        ('target words',['mI',isVS,lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and not mod],lambda c,i,v,s:And(i.cur==cur(c)+4+s.cur.len+v.cur.len,i.cur<=c.a(0).len,part(v.cur,c.a(0),cur(c)+4+s.cur.len,v.cur.len),nb(c,cur(c)+4+s.cur.len,i.cur,TT)))],
  ensures=lambda c:[('a pair of segments stands there',Implies(c.ret,And(shape(c,c.a(2).len,c.a(3).len,cur(c)),c.a(4)==cur(c)+5+c.a(2).len+c.a(3).len,part(c.a(2),c.a(0),cur(c)+2,c.a(2).len),part(c.a(3),c.a(0),cur(c)+4+c.a(2).len,c.a(3).len)))),
     ('none does',Implies(Not(c.ret),ForAll([ls_,lt_],Not(shape(c,ls_,lt_,cur(c)))))),
     ('definition: the pair',Implies(c.ret,And(PAIR(c.a(0).arr,c.a(0).len,cur(c),c.a(2).len,c.a(3).len),cur(c)+c.a(2).len+c.a(3).len+5<c.a(0).len,c.a(2).len>=1,c.a(3).len>=1)))]))
# tags of the object
TG=lambda c:c.this.xmlTagSet
xs=Const('tx_s',STR)
def wftags(c): return ForAll([xs],Implies(TG(c).has(xs),And(vlen(xs)>=2,vlen(xs)<2**30,vsel(xs,0)==ord('<'),vsel(xs,vlen(xs)-1)==ord('>'),ForAll([p_],Implies(And(0<=p_,p_<vlen(xs)-1),And(vsel(xs,p_)!=ord('>'),vsel(xs,p_)!=32)),patterns=[vsel(xs,p_)]),ForAll([p_],Implies(Or(p_<0,p_>=vlen(xs)),vsel(xs,p_)==0),patterns=[vsel(xs,p_)]))),patterns=[TG(c).has(xs)])
def extS(c):
    y=Const('tx_y',STR); d=F('differing_character',STR,STR,I_)
    return [ForAll([xs,y],Or(Not(TG(c).has(xs)),xs==y,vlen(xs)!=vlen(y),vsel(xs,d(xs,y))!=vsel(y,d(xs,y))),patterns=[MultiPattern(TG(c).has(xs),TG(c).has(y))])]
def stands(c,x): return And(c.old.a(1)+vlen(x)<=c.a(0).len,ForAll([p_],Implies(And(0<=p_,p_<vlen(x)),vsel(x,p_)==c.a(0)[c.old.a(1)+p_]),patterns=[vsel(x,p_)]),ForAll([p_],Implies(And(c.old.a(1)<=p_,p_<c.old.a(1)+vlen(x)),vsel(x,p_-c.old.a(1))==c.a(0)[p_]),patterns=[Select(c.a(0).arr,p_)]))
isS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==STR and mod
i0=lambda c:c.old.a(1)
C.append(Contract(X+'xmlTag',norm=True,modifies=('arg2',),lemmas=lambda c:extS(c),requires=lambda c:[('tags',wftags(c)),c.a(1)<c.a(0).len,c.a(0).len<2**30],
  invs=[('characters so far',['mI',isS],lambda c,i,s:And(i.cur>=i0(c)+1,i.cur<=c.a(0).len,s.cur.len==i.cur-i0(c),ForAll([p_],Implies(And(0<=p_,p_<s.cur.len),Select(s.cur.arr,p_)==Select(c.a(0).arr,i0(c)+p_)),patterns=[Select(s.cur.arr,p_)]),
      ForAll([p_],Implies(And(i0(c)<p_,p_<i.cur),And(c.a(0)[p_]!=ord('>'),c.a(0)[p_]!=32)),patterns=[Select(c.a(0).arr,p_)])))],
  ensures=lambda c:[('a tag ends there',Implies(c.ret,And(i0(c)<c.a(2),c.a(2)<c.a(0).len,c.a(0)[c.a(2)]==ord('>'),Exists([xs],And(TG(c).has(xs),vlen(xs)==c.a(2)-i0(c)+1,stands(c,xs)),patterns=[TG(c).has(xs)])))),
     ('no tag stands there',Implies(Not(c.ret),ForAll([xs],Implies(TG(c).has(xs),Not(stands(c,xs))),patterns=[TG(c).has(xs)])))]))
C.append(Contract(X+'TranslationMetadata',ctor=True,norm=True,modifies=('this',),ensures=lambda c:[('exactly the six tags',ForAll([xs],TG(c).has(xs)==Or(*[xs==f(w) for f in (STAG,ETAG) for w in (PH,SS,TT)]),patterns=[TG(c).has(xs)])),('tags',wftags(c)),('no constraint',ForAll([KP],Not(M(c).has(KP)),patterns=[M(c).has(KP)]))]))
TOK=Function('blanks_around_tags',STR,STR)
C.append(Contract(X+'tokenizeSrcSentence',trusted=True,norm=True,note='bounded: native',ensures=lambda c:[('definition: blanks around tags',c.ret.t==TOK(un(c.a(0)))),c.ret.len<2**30]))
toks=lambda c:SPLIT(TOK(un(c.old.a(0))))
def xok(c):
    K=mkV(KP); t=toks(c); ls=K.second-K.first+1; lt=vlen(Select(M(c).vals,KP))
    return ForAll([KP],Implies(M(c).has(KP),And(1<=K.first,K.first<=K.second,K.second<=SRC(c).len,
      Exists([w_,ls_,lt_],And(0<=w_,PAIR(varr(t),vlen(t),w_,ls_,lt_),ls_==ls,lt_==lt,WE(SRC(c).arr,K.first-1,varr(t),w_+2,ls_),WE(varr(Select(M(c).vals,KP)),0,varr(t),w_+4+ls_,lt_)),patterns=[PAIR(varr(t),vlen(t),w_,ls_,lt_)]))),patterns=[M(c).has(KP)])
isVSn=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VS and not mod
C.append(Contract(X+'obtainTransConstraints',norm=True,modifies=('this',),requires=lambda c:[c.a(0).len<2**30,vlen(toks(c))<2**30],lemmas=lambda c:weax(),
  invs=[('constraints so far',[],xok),('apart',[],apart),('position',['mI'],lambda c,i:And(i.cur>=0,SRC(c).len<=i.cur,i.cur<=vlen(toks(c)))),
        ('tokens',[isVSn],lambda c,v:v.cur.t==toks(c)),
        ('end',['B','mI'],lambda c,b,i:And(i.cur>=0,Implies(Not(b.cur),i.cur<vlen(toks(c))))),
        ('words of the segment',['mI','I',isVSn],lambda c,j,s,v:And(j.cur>=0,j.cur<=v.cur.len,s.cur>=1,SRC(c).len==s.cur-1+j.cur,ForAll([p_],Implies(And(s.cur-1<=p_,p_<s.cur-1+j.cur),Select(SRC(c).arr,p_)==Select(v.cur.arr,p_-s.cur+1)),patterns=[Select(SRC(c).arr,p_)]))),
        ('before the segment',['I'],lambda c,s:ForAll([KP],Implies(M(c).has(KP),mkV(KP).second<s.cur),patterns=[M(c).has(KP)]))],
  ensures=lambda c:[('every constraint is a pair of segments of the sentence at the positions of its words',xok(c)),('constraints do not overlap',apart(c))]))

CONTRACTS=C
