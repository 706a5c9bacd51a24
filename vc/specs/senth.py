from spec import *
PROPS=('P21',)
TU=dict(src='sw_models/LightSentenceHandler.cc')
STR=vec(I_); VS=vec(STR)
C=[]; I,J,K=Ints('hi hj hk')
NL=Function('lines_of',STR,I_); NF=Function('fields_of_line',STR,I_,I_); FD=Function('field',STR,I_,I_,STR)
fname=lambda a:un(a.fileName)
opened=lambda a:a.FS!=0
def nf(a,k): return NF(fname(a),k)
# ---- line-oriented input (assumed; the text of a file is a ghost function of its name and line number)
def T(q,**k): C.append(Contract('AwkInputStream::'+q,trusted=True,note='files are not changed while they are read',**k))
same=lambda c:[('definition: name',fname(c.this)==fname(c.old.this)),('definition: separator',c.this.FS==c.old.this.FS)]
T('open',modifies=('this',),ensures=lambda c:[('definition: name of the file',Implies(Not(c.ret),fname(c.this)==un(c.a(0)))),('definition: open',And(NL(fname(c.this))>=0,Not(c.ret)==(c.this.FS!=0),c.this.FNR==0))])
T('close',modifies=('this',),ensures=lambda c:[('definition: close',c.this.FS==0)])
T('rwd',modifies=('this',),ensures=lambda c:same(c)+[('definition: rewound',Implies(opened(c.this),c.this.FNR==0))])
T('getln',modifies=('this',),ensures=lambda c:same(c)+[('definition: next line',And(c.ret==And(opened(c.this),c.old.this.FNR<NL(fname(c.this))),NL(fname(c.this))>=0,NL(fname(c.this))<2**32,
   c.this.FNR==If(c.ret,c.old.this.FNR+1,c.old.this.FNR),c.this.NF==If(c.ret,nf(c.this,c.this.FNR),c.old.this.NF),nf(c.this,c.this.FNR)>=0))])
T('dollar',modifies=('this',),ensures=lambda c:same(c)+[('definition: field',And(un(c.ret)==FD(fname(c.this),c.old.this.FNR,c.old.a(0)),c.this.FNR==c.old.this.FNR,c.this.NF==c.old.this.NF))])
# ---- the store
S,G,N=(lambda t:t.awkSrc),(lambda t:t.awkTrg),(lambda t:t.awkSrcTrgC)
nin=lambda t:t.nsPairsInFiles
cur=lambda t:t.currFileSentIdx
def at(a,t): return And(opened(a),a.FNR==cur(t)+1,a.NF==nf(a,cur(t)+1),nin(t)<=NL(fname(a)))
def inv(t):
    return [('one count per pair added',t.sentPairCount.len==t.sentPairCont.len),('number of pairs in the files',And(nin(t)>=0,nin(t)<2**31,t.sentPairCont.len<2**31)),
      ('position in the source file',Implies(nin(t)>0,And(cur(t)>=0,cur(t)<nin(t),at(S(t),t)))),('position in the target file',Implies(nin(t)>0,at(G(t),t))),('position in the file with counts',Implies(And(nin(t)>0,t.countFileExists),at(N(t),t)))]
def tot(t): return nin(t)+t.sentPairCont.len
def fields(v,a,k): return And(v.len==nf(a,k),ForAll([J],Implies(And(0<=J,J<v.len),un(v[J])==FD(fname(a),k,J+1)),patterns=[Select(v.arr,J)]))
def kept(c):
    o,n=c.old.this,c.this
    return [('names kept',And(fname(S(n))==fname(S(o)),fname(G(n))==fname(G(o)),fname(N(n))==fname(N(o)))),('pairs kept',And(un(n.sentPairCont)==un(o.sentPairCont),un(n.sentPairCount)==un(o.sentPairCount),nin(n)==nin(o),n.countFileExists==o.countFileExists))]
num=z3.Function('atof!value',STR,z3.RealSort())
def cnt(x): return x.x if hasattr(x,'x') else x
Q='LightSentenceHandler::'
def A(q,**k):
    k.setdefault('requires',lambda c:inv(c.this)); k.setdefault('norm',True); C.append(Contract(Q+q,**k))
A('LightSentenceHandler',nparams=0,ctor=True,requires=None,modifies=('this',),ensures=lambda c:[('no pairs',tot(c.this)==0)]+inv(c.this))
A('clear',modifies=('this',),requires=None,ensures=lambda c:[('no position',And(cur(c.this)==0,c.this.sentPairCount.len==0,Not(c.this.countFileExists))),('no pairs',And(tot(c.this)==0,c.this.sentPairCont.len==0))]+inv(c.this))
A('numSentPairs',ensures=lambda c:[('number of pairs',c.ret==tot(c.this))])
A('addSentPair',requires=lambda c:inv(c.this)+[('room',tot(c.this)<2**31-2)],modifies=('this','arg3'),ensures=lambda c:[('next position',And(c.a(3).first==tot(c.old.this),c.a(3).second==tot(c.old.this))),('one pair more',And(nin(c.this)==nin(c.old.this),c.this.sentPairCont.len==c.old.this.sentPairCont.len+1)),
   ('the pair is the last',(lambda n:And(un(c.this.sentPairCont[n].first)==un(c.old.a(0)),un(c.this.sentPairCont[n].second)==un(c.old.a(1)),un(c.this.sentPairCount[n])==un(c.old.a(2))))(c.old.this.sentPairCont.len)),
   ('earlier pairs kept',ForAll([K],Implies(And(0<=K,K<c.old.this.sentPairCont.len),And(un(c.this.sentPairCont[K])==un(c.old.this.sentPairCont[K]),un(c.this.sentPairCount[K])==un(c.old.this.sentPairCount[K]))),patterns=[Select(c.this.sentPairCont.arr,K)])),
   ('files untouched',And(un(S(c.this))==un(S(c.old.this)),un(G(c.this))==un(G(c.old.this)),un(N(c.this))==un(N(c.old.this))))]+inv(c.this))
def linked(t): return And(S(t).FNR==G(t).FNR)
A('getNextLineFromFiles',requires=lambda c:[('files of equal length up to the pairs counted',And(opened(S(c.this)),opened(G(c.this)),nin(c.this)<=NL(fname(S(c.this))),nin(c.this)<=NL(fname(G(c.this))))),('counts for all pairs',Implies(c.this.countFileExists,And(opened(N(c.this)),nin(c.this)<=NL(fname(N(c.this)))))),('index',And(cur(c.this)>=0,cur(c.this)<2**32)),
     ('same position',And(S(c.this).FNR==G(c.this).FNR,S(c.this).FNR>=0,Implies(c.this.countFileExists,N(c.this).FNR==S(c.this).FNR)))],
   modifies=('this',),ensures=lambda c:kept(c)+[('still open',And(opened(S(c.this)),opened(G(c.this)),Implies(c.this.countFileExists,opened(N(c.this))))),
     ('advances within the pairs',Implies(S(c.old.this).FNR<nin(c.this),And(c.ret,cur(c.this)==(cur(c.old.this)+1),S(c.this).FNR==S(c.old.this).FNR+1,G(c.this).FNR==S(c.this).FNR,S(c.this).NF==nf(S(c.this),S(c.this).FNR),G(c.this).NF==nf(G(c.this),G(c.this).FNR),Implies(c.this.countFileExists,And(N(c.this).FNR==S(c.this).FNR,N(c.this).NF==nf(N(c.this),N(c.this).FNR)))))),
     ])
CONTRACTS=C
T('AwkInputStream',nparams=0,ctor=True,modifies=('this',),ensures=lambda c:[('definition: closed',c.this.FS==0)])
openall=lambda c:[('files hold the pairs counted',And(opened(S(c.this)),opened(G(c.this)),nin(c.this)<=NL(fname(S(c.this))),nin(c.this)<=NL(fname(G(c.this))),Implies(c.this.countFileExists,And(opened(N(c.this)),nin(c.this)<=NL(fname(N(c.this)))))))]
A('rewindFiles',requires=lambda c:openall(c)+[('number of pairs',And(nin(c.this)>=0,nin(c.this)<2**31,c.this.sentPairCont.len<2**31,c.this.sentPairCount.len==c.this.sentPairCont.len)),('index',And(cur(c.this)>=0,cur(c.this)<2**31))],modifies=('this',),ensures=lambda c:kept(c)+[('first pair',Implies(nin(c.this)>0,cur(c.this)==0))]+inv(c.this))
rd=lambda c:[('source words',fields(c.a(1),S(c.old.this),c.a(0)+1)),('target words',fields(c.a(2),G(c.old.this),c.a(0)+1)),('count',num_ok(c))]
def num_ok(c):
    n=c.a(3); w=FD(fname(N(c.old.this)),c.old.a(0)+1,1)
    return cv(n)==If(c.old.this.countFileExists,num(w),RealVal(1))
def cv(n): return cnt(n) if not hasattr(n,'c') else n.c
A('nthSentPairFromFiles',modifies=('this','arg1','arg2','arg3'),ensures=lambda c:kept(c)+[('out of range: nothing written',Implies(c.a(0)>=nin(c.old.this),And(c.ret==1,un(c.a(1))==un(c.old.a(1)),un(c.a(2))==un(c.old.a(2)),un(c.a(3))==un(c.old.a(3))))),
   ('in range: succeeds',Implies(c.a(0)<nin(c.old.this),c.ret==0))]+[(n,Implies(c.a(0)<nin(c.old.this),g)) for n,g in rd(c)]+inv(c.this),
   invs=[('on the way',[],lambda c:And(cur(c.this)>=cur(c.le.this),cur(c.this)<c.a(0))),('kept',[],lambda c:And(*[g for _,g in kept(c)])),('consistent',[],lambda c:And(*[g for _,g in inv(c.this)])),
     ('source so far',['mI'],lambda c,i:And(i.cur>=1,i.cur<=nf(S(c.this),c.a(0)+1)+1,c.a(1).len==i.cur-1,ForAll([J],Implies(And(0<=J,J<i.cur-1),un(c.a(1)[J])==FD(fname(S(c.this)),c.a(0)+1,J+1)),patterns=[Select(c.a(1).arr,J)]))),
     ('target so far',['mI'],lambda c,i:And(i.cur>=1,i.cur<=nf(G(c.this),c.a(0)+1)+1,c.a(2).len==i.cur-1,ForAll([J],Implies(And(0<=J,J<i.cur-1),un(c.a(2)[J])==FD(fname(G(c.this)),c.a(0)+1,J+1)),patterns=[Select(c.a(2).arr,J)]))),
     ('source words kept',[],lambda c:un(c.a(1))==un(c.le.a(1))),('at the pair',[],lambda c:cur(c.this)==c.a(0))])
def mem(c,i): return c.old.this.sentPairCont[i]
def nth(c,src=None,trg=None,ct=None):
    o=c.old.this; n=c.old.a(0); i=n-nin(o); r=[]
    out=Implies(n>=tot(o),And(c.ret==1,*[un(x[0])==un(x[1]) for x in (src,trg,ct) if x]))
    r+=[('out of range: fails and writes nothing',out),('in range: succeeds',Implies(n<tot(o),c.ret==0))]
    if src: r+=[('source sentence of the files',Implies(n<nin(o),fields(src[0],S(o),n+1))),('source sentence added',Implies(And(n>=nin(o),n<tot(o)),un(src[0])==un(mem(c,i).first)))]
    if trg: r+=[('target sentence of the files',Implies(n<nin(o),fields(trg[0],G(o),n+1))),('target sentence added',Implies(And(n>=nin(o),n<tot(o)),un(trg[0])==un(mem(c,i).second)))]
    if ct: r+=[('count of the files',Implies(n<nin(o),cv(ct[0])==If(o.countFileExists,num(FD(fname(N(o)),n+1,1)),RealVal(1)))),('count added',Implies(And(n>=nin(o),n<tot(o)),un(ct[0])==un(o.sentPairCount[i])))]
    return kept(c)+r+inv(c.this)
A('nthSentPair',modifies=('this','arg1','arg2','arg3'),ensures=lambda c:nth(c,(c.a(1),c.old.a(1)),(c.a(2),c.old.a(2)),(c.a(3),c.old.a(3))))
A('getSrcSent',modifies=('this','arg1'),ensures=lambda c:nth(c,src=(c.a(1),c.old.a(1))))
A('getTrgSent',modifies=('this','arg1'),ensures=lambda c:nth(c,trg=(c.a(1),c.old.a(1))))
A('getCount',modifies=('this','arg1'),ensures=lambda c:nth(c,ct=(c.a(1),c.old.a(1))))
A('readSentencePairs',requires=lambda c:[('a count for every pair',NL(un(c.a(2)))>=NL(un(c.a(0)))),('not too many pairs',And(NL(un(c.a(0)))>=0,NL(un(c.a(0)))<2**31))],modifies=('this','arg3'),
   ensures=lambda c:[('failure leaves no pairs',Implies(c.ret,tot(c.this)==0)),('all pairs of the files',Implies(Not(c.ret),And(nin(c.this)==NL(un(c.old.a(0))),c.this.sentPairCont.len==0,NL(un(c.old.a(1)))>=nin(c.this),fname(S(c.this))==un(c.old.a(0)),fname(G(c.this))==un(c.old.a(1)),Implies(c.this.countFileExists,fname(N(c.this))==un(c.old.a(2)))))),
     ('positions',Implies(And(Not(c.ret),nin(c.this)>0),And(c.a(3).first==0,c.a(3).second==nin(c.this)-1)))]+inv(c.this),
   invs=[('pairs counted',[],lambda c:And(nin(c.this)>=0,S(c.this).FNR==nin(c.this),G(c.this).FNR==nin(c.this),nin(c.this)<=NL(fname(S(c.this))),nin(c.this)<=NL(fname(G(c.this))),c.this.sentPairCont.len==0,c.this.sentPairCount.len==0,opened(S(c.this)),opened(G(c.this)),c.this.currFileSentIdx==0)),
     ('files',[],lambda c:And(fname(S(c.this))==un(c.a(0)),fname(G(c.this))==un(c.a(1)),Implies(c.this.countFileExists,And(opened(N(c.this)),fname(N(c.this))==un(c.a(2))))))])
CONTRACTS=C
