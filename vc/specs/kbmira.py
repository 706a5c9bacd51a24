from spec import *
PROPS=('P17',)
TU=dict(name='kbmira',src='stack_dec/KbMiraLlWu.cc')
C=[]
AR=ArraySort(I_,R_); VR=vec(R_)
DOT=Function('dotproduct',AR,AR,IntSort(),R_)
xa,xb=Const('dxa',AR),Const('dxb',AR); N_,K_=Ints('dn dk')
def ghost(): return [ForAll([xa,xb],DOT(xa,xb,0)==0,patterns=[DOT(xa,xb,0)]),
  ForAll([xa,xb,N_,K_],Implies(And(K_>=0,N_==K_+1),DOT(xa,xb,N_)==DOT(xa,xb,K_)+Select(xa,K_)*Select(xb,K_)),patterns=[MultiPattern(DOT(xa,xb,N_),DOT(xa,xb,K_))])]
import sys
BIG=RealVal(str(int(sys.float_info.max)))
def dot(w,row): return DOT(w.arr,row.arr,w.len)
S_=z3.StringSort() if 0 else None
FIN=Bool('scores_stay_finite')      # assumption on machine arithmetic: scores and qualities are finite doubles
NOTE='assumes that scores and qualities stay finite doubles'
def wellformed(c,nb,sc,w): return [FIN,nb.len==sc.len,nb.len>=1,nb.len<2**32,w.len<2**32,ForAll([N_],Implies(inr(N_,sc.len),sc[N_].len==w.len),patterns=[Select(sc.arr,N_)])]
def finite(sc,w): return Implies(FIN,ForAll([N_],Implies(inr(N_,sc.len),dot(w,sc[N_])>-BIG),patterns=[Select(sc.arr,N_)]))
up=lambda n,f,sc: ForAll([N_],Implies(And(N_>=0,N_<n),f(N_)),patterns=[Select(sc.arr,N_)])
sco=('score so far',['I','I','R'],lambda c,n,k,s:s.cur==DOT(WV(c).arr,SC(c)[n.cur].arr,k.cur))
q='KbMiraLlWu::'
# --- model-best
WV=lambda c:c.a(0)
SC=lambda c:c.a(2)
C.append(Contract(q+'MaxTranslation',modifies=('arg3',),note=NOTE,lemmas=lambda c:ghost()+[finite(c.a(2),c.a(0))],requires=lambda c:wellformed(c,c.a(1),c.a(2),c.a(0)),
  invs=[('score so far',['I','I','R'],lambda c,n,k,s:s.cur==DOT(c.a(0).arr,c.a(2)[n.cur].arr,k.cur)),
        ('best so far',['I','R'],lambda c,n,s:up(n.cur,lambda m:dot(c.a(0),c.a(2)[m])<=s.cur,c.a(2))),
        ('attained',['I','R'],lambda c,n,s:If(n.cur==0,s.cur==-BIG,Exists([N_],And(N_>=0,N_<n.cur,s.cur==dot(c.a(0),c.a(2)[N_]),un(c.a(3))==un(c.a(1)[N_])))))],
  ensures=lambda c:[('a best scoring candidate is chosen',Exists([N_],And(inr(N_,c.a(1).len),un(c.a(3))==un(c.a(1)[N_]),ForAll([K_],Implies(inr(K_,c.a(2).len),dot(c.a(0),c.a(2)[K_])<=dot(c.a(0),c.a(2)[N_])),patterns=[Select(c.a(2).arr,K_)]))))]))
CONTRACTS=C
STR=vec(I_); VU=vec(I_)
QUAL=Function('quality',STR,STR,R_); STAT=Function('qualitystats',STR,STR,VU)
B='BaseMiraScorer::'
C+=[Contract(B+'sentBackgroundScore',trusted=True,note='scorer plug-in: any quality that depends on candidate, reference and the unchanged background only',modifies=('arg2','arg3'),ensures=lambda c:[('q',c.a(2)==QUAL(un(c.a(0)),un(c.a(1)))),('s',un(c.a(3))==STAT(un(c.a(0)),un(c.a(1))))]),
  Contract(B+'resetBackgroundCorpus',trusted=True,note='scorer plug-in',ensures=lambda c:[]),
  Contract(B+'updateBackgroundCorpus',trusted=True,note='scorer plug-in',ensures=lambda c:[]),
  Contract(B+'corpusScore',trusted=True,note='scorer plug-in: any value',modifies=('arg2',),ensures=lambda c:[]),
  Contract(B+'sentScore',trusted=True,note='scorer plug-in: any value',modifies=('arg2',),ensures=lambda c:[])]
def hf(sgn,n,c,total,row,q,sc,st=None):
    """total/row/q/sc are those of the best candidate among the first n for  score + sgn*quality"""
    Q=lambda m:QUAL(un(c.a(1)[m]),un(c.a(0))); D=lambda m:dot(c.a(3),c.a(2)[m])
    val=lambda m:D(m)+sgn*Q(m)
    att=Exists([N_],And(N_>=0,N_<n,total==val(N_),q==Q(N_),sc==D(N_),row.len==c.a(2)[N_].len,row.len==c.a(3).len,*([st==STAT(un(c.a(1)[N_]),un(c.a(0)))] if st is not None else []),ForAll([K_],Implies(inr(K_,row.len),row[K_]==c.a(2)[N_][K_]),patterns=[Select(row.arr,K_)])))
    return up(n,lambda m:val(m)<=total,c.a(2)),att
H=lambda c:c.a(4)
def hope(c,n,tot): return hf(1,n,c,tot,H(c).hopeFeatures,H(c).hopeQuality,H(c).hopeScore,un(H(c).hopeQualityStats))
def fear(c,n,tot): return hf(-1,n,c,tot,H(c).fearFeatures,H(c).fearQuality,H(c).fearScore)
def finv(nm,f,i): 
    if i==0: return ('best %s so far'%nm,['I','R'],lambda c,n,s:f(c,n.cur,s.cur)[0])
    return ('%s attained'%nm,['I','R'],lambda c,n,s:If(n.cur==0,s.cur==-BIG,f(c,n.cur,s.cur)[1]))
frow=lambda nm:('%s features copied'%nm,['I','I'],lambda c,n,k:And(getattr(H(c),nm).len==k.cur,ForAll([K_],Implies(inr(K_,k.cur),getattr(H(c),nm)[K_]==c.a(2)[n.cur][K_]),patterns=[Select(getattr(H(c),nm).arr,K_)])))
def hlem(c):
    Q=lambda m:QUAL(un(c.a(1)[m]),un(c.a(0))); D=lambda m:dot(c.a(3),c.a(2)[m])
    return ghost()+[finite(c.a(2),c.a(3)),Implies(FIN,ForAll([N_],Implies(inr(N_,c.a(2).len),And(D(N_)+Q(N_)>-BIG,D(N_)-Q(N_)>-BIG)),patterns=[Select(c.a(2).arr,N_)]))]
C.append(Contract(q+'HopeFear',modifies=('arg4',),note=NOTE,lemmas=hlem,requires=lambda c:wellformed(c,c.a(1),c.a(2),c.a(3)),
  invs=[('score so far',['I','I','R'],lambda c,n,k,s:s.cur==DOT(c.a(3).arr,c.a(2)[n.cur].arr,k.cur)),finv('hope',hope,0),finv('hope',hope,1),finv('fear',fear,0),finv('fear',fear,1),frow('hopeFeatures'),frow('fearFeatures')],
  ensures=lambda c:[('features of one candidate',And(H(c).hopeFeatures.len==c.a(3).len,H(c).fearFeatures.len==c.a(3).len))]+[(a+' '+b,f(c,c.a(2).len,H(c).__getattr__(a+'Score')+(1 if a=='hope' else -1)*H(c).__getattr__(a+'Quality'))[i]) for a,f in (('hope',hope),('fear',fear)) for i,b in enumerate(('maximises over the candidates','is one of the candidates'))]))
p_,q_=Ints('dp dq')
def perm(v,n): return [('indices in range',ForAll([p_],Implies(inr(p_,n),And(0<=v[p_],v[p_]<n)),patterns=[Select(v.arr,p_)])),('no index twice',ForAll([p_,q_],Implies(And(inr(p_,n),inr(q_,n),p_!=q_),v[p_]!=v[q_]),patterns=[MultiPattern(Select(v.arr,p_),Select(v.arr,q_))])) ]
C.append(Contract(q+'sampleWoReplacement',modifies=('arg1',),requires=lambda c:[c.a(0)<2**31,c.a(1).len==c.a(0)],
  invs=[('identity',['I'],lambda c,k:ForAll([p_],Implies(And(p_>=0,p_<k.cur),c.a(1)[p_]==p_),patterns=[Select(c.a(1).arr,p_)])),('size',[],lambda c:c.a(1).len==c.a(0)),('in range',[],lambda c:perm(c.a(1),c.a(0))[0][1]),('no index twice',[],lambda c:perm(c.a(1),c.a(0))[1][1])],
  ensures=lambda c:[('size kept',c.a(1).len==c.a(0))]+perm(c.a(1),c.a(0))))

isVR=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==VR
def uinv(wi): return [('as many weights as features',[isVR],lambda c,v:v.cur.len==c.a(wi).len),('constructed so far',['I',isVR],lambda c,k,v:v.cur.len==k.cur)]
def rows(sc,n): return ForAll([K_],Implies(inr(K_,sc.len),sc[K_].len==n),patterns=[Select(sc.arr,K_)])
C.append(Contract(q+'update',modifies=('arg4',),note=NOTE,invs=uinv(3),requires=lambda c:[FIN,c.a(1).len==c.a(2).len,c.a(1).len>=1,c.a(1).len<2**32,c.a(3).len<2**32,rows(c.a(2),c.a(3).len)],ensures=lambda c:[('as many weights as before',c.a(4).len==c.a(3).len)]))
def cl(c): return [FIN,c.a(0).len<2**31,c.a(1).len==c.a(0).len,c.a(2).len==c.a(0).len,c.a(3).len<2**32,ForAll([N_],Implies(inr(N_,c.a(0).len),And(c.a(1)[N_].len==c.a(2)[N_].len,c.a(1)[N_].len>=1,c.a(1)[N_].len<2**32)),patterns=[Select(c.a(1).arr,N_)]),
   ForAll([N_,K_],Implies(And(inr(N_,c.a(0).len),inr(K_,c.a(2)[N_].len)),c.a(2)[N_][K_].len==c.a(3).len),patterns=[Select(c.a(2)[N_].arr,K_)])]
C.append(Contract(q+'updateClosedCorpus',modifies=('arg4',),note=NOTE,invs=uinv(3),requires=cl,ensures=lambda c:[('as many weights as before',c.a(4).len==c.a(3).len)]))
