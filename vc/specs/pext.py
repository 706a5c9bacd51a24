from spec import *
from specs import wam
PROPS=('P07',)
TU=dict(src='phrase_models/PhraseExtractionTable.cc')
N,NW=101,4
CHECKS=stl.bit_lemmas(32)
BIT=stl.BIT
AI=ArraySort(I_,I_)
C=[]
# ---- sets of positions
k,x_=Int('bk'),Int('bx'); i_=Int('wi'); A_=Const('ba',AI)
TB=Function('position_in',AI,I_,B_)                      # position x is in the set
tbax=[ForAll([A_,x_],TB(A_,x_)==BIT(Select(A_,x_/32),x_%32),patterns=[TB(A_,x_)])]
ax=lambda c:stl.bit_axioms(32)+tbax
wf=lambda s:s.words.len==NW
arr=lambda s:s.words.arr
def W(s,i,b): return BIT(s.words[i],b)
def bits(c,f): return ForAll([i_,k],Implies(And(i_>=0,i_<NW,k>=0,k<32),f(c,i_,k)),patterns=[BIT(Select(c.this.words.arr,i_),k)])
M=NW*32
def tbs(c,f,n=M): return ForAll([x_],Implies(And(x_>=0,x_<n),TB(arr(c.this),x_)==f(c,x_)),patterns=[TB(arr(c.this),x_)])
def whole(q,nm,f,g,np):
    inv=[('words done',['mI'],lambda c,i:And(i.cur>=0,i.cur<=NW,wf(c.this))),
      ('done words',['mI'],lambda c,i:ForAll([i_,k],Implies(And(i_>=0,i_<i.cur,k>=0,k<32),f(c,i_,k)),patterns=[BIT(Select(c.this.words.arr,i_),k)])),
      ('other words',['mI'],lambda c,i:ForAll([i_],Implies(And(i_>=i.cur,i_<NW),c.this.words[i_]==c.old.this.words[i_]),patterns=[Select(c.this.words.arr,i_)]))]
    C.append(Contract('Bitset::'+q,nparams=np,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this)]+([wf(c.a(0))] if np else []),invs=inv,
      ensures=lambda c:[(nm,tbs(c,g)),('size kept',wf(c.this))]))
whole('reset','no position',lambda c,i,b:Not(W(c.this,i,b)),lambda c,x:BoolVal(False),0)
C.append(Contract('Bitset::set',nparams=0,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this)],
  invs=[('words done',['mI'],lambda c,i:And(i.cur>=0,i.cur<=NW,wf(c.this))),('done words',['mI'],lambda c,i:ForAll([i_],Implies(And(i_>=0,i_<i.cur),c.this.words[i_]==2**32-1),patterns=[Select(c.this.words.arr,i_)]))],
  ensures=lambda c:[('every position',tbs(c,lambda c,x:BoolVal(True),N)),('size kept',wf(c.this))]))
whole('operator|=','the positions of both',lambda c,i,b:W(c.this,i,b)==Or(W(c.old.this,i,b),W(c.a(0),i,b)),lambda c,x:Or(TB(arr(c.old.this),x),TB(arr(c.a(0)),x)),1)
whole('operator=','the same positions',lambda c,i,b:W(c.this,i,b)==W(c.a(0),i,b),lambda c,x:TB(arr(c.a(0)),x),1)
def single(q,np,val):
    C.append(Contract('Bitset::'+q,nparams=np,modifies=('this',),returns='this',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<N],ensures=lambda c:[('exactly that position',tbs(c,lambda c,x:If(x==c.old.a(0),val(c),TB(arr(c.old.this),x)))),('size kept',wf(c.this))]))
single('reset',1,lambda c:BoolVal(False)); single('set',2,lambda c:c.old.a(1)!=0)
C.append(Contract('Bitset::test',bits=True,lemmas=ax,requires=lambda c:[wf(c.this),c.a(0)>=0,c.a(0)<M],ensures=lambda c:[('the position is in the set',c.ret==TB(arr(c.this),c.a(0)))]))
B_a=Const('bb',AI); EQB=Function('same_words',AI,AI,B_); EQI=Function('differing_word',AI,AI,I_)
eqw=lambda a,b:EQB(arr(a),arr(b))
eqax=[ForAll([A_,B_a,i_],Implies(And(EQB(A_,B_a),inr(i_,NW)),Select(A_,i_)==Select(B_a,i_)),patterns=[MultiPattern(EQB(A_,B_a),Select(A_,i_)),MultiPattern(EQB(A_,B_a),Select(B_a,i_))]),
  ForAll([A_,B_a],Or(EQB(A_,B_a),And(inr(EQI(A_,B_a),NW),Select(A_,EQI(A_,B_a))!=Select(B_a,EQI(A_,B_a)))),patterns=[EQB(A_,B_a)])]
C.append(Contract('Bitset::operator==',lemmas=lambda c:eqax,requires=lambda c:[wf(c.this),wf(c.a(0))],invs=[('equal so far',['mI'],lambda c,i:And(i.cur<=NW,ForAll([i_],Implies(inr(i_,i.cur),c.this.words[i_]==c.a(0).words[i_]),patterns=[Select(c.this.words.arr,i_)])))],
  ensures=lambda c:[('equality of the contents',c.ret==eqw(c.this,c.a(0)))]))
C.append(Contract('Bitset::Bitset',nparams=0,ctor=True,modifies=('this',),bits=True,lemmas=ax,ensures=lambda c:[('no position',tbs(c,lambda c,x:BoolVal(False))),('size kept',wf(c.this))]))
# ---- the extraction table
for w in wam.CONTRACTS:
    if w.q in ('WordAligMatrix::getValue','WordAligMatrix::operator='): C.append(Contract(w.q,nparams=w.nparams,ptypes=w.ptypes,trusted=True,note='proved in the module of P01/P02',requires=w.requires,ensures=w.ensures,modifies=w.modifies,returns=w.returns))
for q,f in (('get_I','I'),('get_J','J')): C.append(Contract('WordAligMatrix::'+q,nparams=0,trusted=True,note='returns the member',ensures=lambda c,f=f:[('definition: dimension',c.ret==getattr(c.this,f))]))
i,j,x,y,a_,m_=Ints('pi pj px py pa pm')
cell=wam.cell
def link(g,i,j): return cell(g,i,j)!=0
VV=vec(vec(I_))
LO=Function('least_position',AI,I_,I_); HI=Function('greatest_position',AI,I_,I_)
n_=Int('bn')
loax=[ForAll([A_,n_],Implies(n_>=1,And(1<=LO(A_,n_),LO(A_,n_)<=n_,Implies(LO(A_,n_)<n_,TB(A_,LO(A_,n_))))),patterns=[LO(A_,n_)]),
      ForAll([A_,n_,x_],Implies(And(n_>=1,1<=x_,x_<LO(A_,n_)),Not(TB(A_,x_))),patterns=[MultiPattern(LO(A_,n_),TB(A_,x_))]),
      ForAll([A_,n_],Implies(n_>=1,And(0<=HI(A_,n_),HI(A_,n_)<n_,Implies(HI(A_,n_)>0,TB(A_,HI(A_,n_))))),patterns=[HI(A_,n_)]),
      ForAll([A_,n_,x_],Implies(And(n_>=1,HI(A_,n_)<x_,x_<n_),Not(TB(A_,x_))),patterns=[MultiPattern(HI(A_,n_),TB(A_,x_))])]
def wfP(t): return [('sizes',And(t.nslen>=1,t.nslen<=N,t.tlen>=0,t.tlen<N,t.alig.I==t.nslen-1,t.alig.J==t.tlen,wam.wf(t.alig)))]
def tab(t): return [('table',And(t.pecMatrix.len==N,ForAll([i_],Implies(inr(i_,N),t.pecMatrix[i_].len==N),patterns=[Select(t.pecMatrix.arr,i_)])))]
def incell(t,x,y): return lambda j:And(j<=y,j>=t.tlen-1-x)
cellreq=lambda c:[And(c.a(0)>=0,c.a(0)<c.this.tlen,c.a(1)>=0,c.a(1)<c.this.tlen)]
Q='PhraseExtractionTable::'
def A(q,**k):
    k.setdefault('requires',lambda c:wfP(c.this)); C.append(Contract(Q+q,**k))
A('sourcePosInCell',requires=lambda c:wfP(c.this)+[And(c.a(0)>=0,c.a(1)>=0,c.a(1)<c.this.tlen,c.a(2)>=0)],ensures=lambda c:[('inside the target span of the cell',c.ret==incell(c.this,c.a(1),c.a(2))(c.a(0)))])
A('leftMostPosInCell',requires=lambda c:wfP(c.this)+cellreq(c),ensures=lambda c:[('first target word of the cell',c.ret==c.this.tlen-1-c.a(0))])
A('rightMostPosInCell',requires=lambda c:wfP(c.this)+cellreq(c),ensures=lambda c:[('last target word of the cell',c.ret==c.a(1))])
A('trgPhraseLengthInCell',requires=lambda c:wfP(c.this)+cellreq(c)+[c.a(1)>=c.this.tlen-1-c.a(0)],ensures=lambda c:[('number of target words of the cell',c.ret==c.a(1)-(c.this.tlen-1-c.a(0))+1)])
# a set of source positions is a phrase for a cell
def span(t,A): l,h=LO(A,t.nslen),HI(A,t.nslen); return And(1<=l,l<=h,h<=t.nslen-1,ForAll([x_],Implies(And(1<=x_,x_<t.nslen),TB(A,x_)==And(l<=x_,x_<=h)),patterns=[TB(A,x_)]))
def nolinkout(t,A,x,y): return ForAll([i,j],Implies(And(0<=i,i<t.nslen-1,0<=j,j<t.tlen,Not(incell(t,x,y)(j)),link(t.alig,i,j)),Not(TB(A,i+1))),patterns=[cell(t.alig,i,j)])
def valid(t,A,x,y): return And(span(t,A),nolinkout(t,A,x,y),HI(A,t.nslen)-LO(A,t.nslen)+1<=t.maxSrcPhraseLength,Implies(And(x==t.tlen-1,y==t.tlen-1),And(LO(A,t.nslen)==1,HI(A,t.nslen)==t.nslen-1)))
S=lambda c:arr(c.a(0))
VAL=Function('phrase_of_cell',vec(vec(I_)),I_,I_,I_,AI,I_,I_,B_)
VALP=lambda t,A,x,y:VAL(t.alig.matrix.t,t.nslen,t.tlen,t.maxSrcPhraseLength,A,x,y)
A('validCoverageForCell',lemmas=lambda c:loax+[VALP(c.this,S(c),c.a(1),c.a(2))==valid(c.this,S(c),c.a(1),c.a(2))],requires=lambda c:wfP(c.this)+[wf(c.a(0)),And(c.a(1)>=0,c.a(1)<c.this.tlen,c.a(2)>=0,c.a(2)<c.this.tlen,c.a(2)>=c.this.tlen-1-c.a(1))],
  invs=[('contiguous so far',['mI','mI','mI'],lambda c,i,n,l:And(i.cur>=1,i.cur<=c.this.nslen,n.cur>=0,n.cur<i.cur,l.cur==If(n.cur>0,LO(S(c),c.this.nslen),c.this.nslen),Implies(n.cur==0,LO(S(c),c.this.nslen)>=i.cur),Implies(n.cur>0,LO(S(c),c.this.nslen)+n.cur<=i.cur),
        ForAll([x_],Implies(And(1<=x_,x_<i.cur),TB(S(c),x_)==And(n.cur>0,LO(S(c),c.this.nslen)<=x_,x_<LO(S(c),c.this.nslen)+n.cur)),patterns=[TB(S(c),x_)]))),
     ('all so far',['mI','mI'],lambda c,i,n:And(i.cur>=1,n.cur==i.cur-1,ForAll([x_],Implies(And(1<=x_,x_<i.cur),TB(S(c),x_)),patterns=[TB(S(c),x_)]))),
     ('words before',['mI'],lambda c,h:ForAll([i,j],Implies(And(0<=i,i<c.this.nslen-1,0<=j,j<h.cur,Not(incell(c.this,c.a(1),c.a(2))(j)),link(c.this.alig,i,j)),Not(TB(S(c),i+1))),patterns=[cell(c.this.alig,i,j)])),
     ('links before',['mI','I'],lambda c,h,g:And(h.cur<=c.this.nslen-1,ForAll([i],Implies(And(0<=i,i<h.cur,link(c.this.alig,i,g.cur)),Not(TB(S(c),i+1))),patterns=[cell(c.this.alig,i,g.cur)])))],
  ensures=lambda c:[('accepted sets are phrases of the cell',Implies(c.ret,VALP(c.this,S(c),c.a(1),c.a(2)))),('rejected only if not',Implies(And(Not(c.this.monotone),Not(c.ret)),Not(VALP(c.this,S(c),c.a(1),c.a(2)))))])

# ---- unaligned words
WA=lambda c:c.a(0)
RF=lambda g,i,n:wam.RFREE(g.matrix.t,i,n); CF=lambda g,j,n:wam.CFREE(g.matrix.t,j,n)
def wareq(c): return [wam.wf(WA(c)),And(WA(c).I>=0,WA(c).I<N,WA(c).J>=0,WA(c).J<N)]
isBS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort().name().startswith('Bitset')
bsf=lambda c,b,f:And(wf(b.cur),ForAll([x_],Implies(And(x_>=0,x_<N),TB(arr(b.cur),x_)==f(c,x_)),patterns=[TB(arr(b.cur),x_)]))
A('zeroFertBitset',lemmas=wam.defs,requires=wareq,
  invs=[('words before',['mI',isBS],lambda c,h,b:And(h.cur<=WA(c).I,bsf(c,b,lambda c,x:If(And(1<=x,x<=h.cur),RF(WA(c),x-1,WA(c).J),BoolVal(True))))),
    ('links before',['mI','I',isBS],lambda c,h,g,b:And(h.cur<=WA(c).J,bsf(c,b,lambda c,x:If(And(1<=x,x<=g.cur),RF(WA(c),x-1,WA(c).J),If(x==g.cur+1,RF(WA(c),x-1,h.cur),BoolVal(True))))))],
  ensures=lambda c:[('source words without links',ForAll([x_],Implies(And(1<=x_,x_<=WA(c).I),TB(arr(c.ret),x_)==RF(WA(c),x_-1,WA(c).J)),patterns=[TB(arr(c.ret),x_)])),('the empty word is not among them',Not(TB(arr(c.ret),0))),('size',wf(c.ret))])
A('spuriousWordsBitset',lemmas=wam.defs,requires=wareq,
  invs=[('words before',['mI',isBS],lambda c,h,b:And(h.cur<=WA(c).I,bsf(c,b,lambda c,x:If(x<WA(c).J,CF(WA(c),x,h.cur),BoolVal(True))))),
    ('links before',['mI','I',isBS],lambda c,h,g,b:And(h.cur<=WA(c).J,bsf(c,b,lambda c,x:If(x<WA(c).J,CF(WA(c),x,g.cur+If(x<h.cur,1,0)),BoolVal(True)))))],
  ensures=lambda c:[('target words without links',ForAll([x_],Implies(And(0<=x_,x_<WA(c).J),TB(arr(c.ret),x_)==CF(WA(c),x_,WA(c).I)),patterns=[TB(arr(c.ret),x_)])),('size',wf(c.ret))])
CNS=Function('not_in_set',AI,I_,I_,I_)
cnax=lambda A:[ForAll([i_],CNS(A,i_,i_)==0,patterns=[CNS(A,i_,i_)]),ForAll([i_,n_,m_],Implies(And(i_<=n_,m_==n_+1),CNS(A,i_,m_)==CNS(A,i_,n_)+If(TB(A,n_),0,1)),patterns=[MultiPattern(CNS(A,i_,m_),CNS(A,i_,n_))])]
fst=lambda c:c.this.tlen-1-c.a(0)
A('trgPhraseLengthInCellNonSpurious',requires=lambda c:wfP(c.this)+cellreq(c)+[c.a(1)>=fst(c),wf(c.a(2))],lemmas=lambda c:cnax(arr(c.a(2))),
  invs=[('counted so far',['mI','mI'],lambda c,h,n:And(h.cur>=fst(c),h.cur<=c.a(1)+1,n.cur==CNS(arr(c.a(2)),fst(c),h.cur),n.cur>=0,n.cur<=h.cur-fst(c)))],
  ensures=lambda c:[('number of aligned target words of the cell',c.ret==CNS(arr(c.a(2)),fst(c),c.a(1)+1)),('at most all',And(c.ret>=0,c.ret<=c.a(1)+1-fst(c)))])
v_=Int('pv')
cw=lambda v:ForAll([v_],Implies(inr(v_,v.len),wf(v[v_].coverage)),patterns=[Select(v.arr,v_)])
A('existCellAlig',requires=lambda c:[cw(c.a(0)),wf(c.a(1).coverage)],invs=[('not found',['B'],lambda c,b:Not(b.cur)),('none before',['mI'],lambda c,h:ForAll([v_],Implies(inr(v_,h.cur),Not(eqw(c.a(0)[v_].coverage,c.a(1).coverage))),patterns=[Select(c.a(0).arr,v_)]))],
  ensures=lambda c:[('whether the set is there',c.ret==Exists([v_],And(inr(v_,c.a(0).len),eqw(c.a(0)[v_].coverage,c.a(1).coverage))))])
# ---- the table: every cell holds only sets that take every linked word of its target span, and marks as phrases only sets valid for it
INC=Function('takes_all_links',VV,I_,AI,I_,I_,B_); LKD=Function('some_link',VV,I_,I_,I_,B_); LI=Function('link_src',VV,I_,I_,I_,I_); LJ=Function('link_trg',VV,I_,I_,I_,I_); II=Function('inc_src',VV,I_,AI,I_,I_,I_); IJ=Function('inc_trg',VV,I_,AI,I_,I_,I_)
g_=Const('pg',VV); s_,l_,h_=Ints('ps pl ph')
lk=lambda g,i,j:vsel(vsel(g,i),j)!=0
def incdef():
    t=INC(g_,s_,A_,l_,h_)
    return [ForAll([g_,s_,A_,l_,h_,i,j],Implies(And(t,0<=i,i<s_,l_<=j,j<=h_,lk(g_,i,j)),TB(A_,i+1)),patterns=[MultiPattern(t,vsel(vsel(g_,i),j))]),
      ForAll([g_,s_,A_,l_,h_],Or(t,(lambda i,j:And(0<=i,i<s_,l_<=j,j<=h_,lk(g_,i,j),Not(TB(A_,i+1))))(II(g_,s_,A_,l_,h_),IJ(g_,s_,A_,l_,h_))),patterns=[t])]
def lkdef():
    t=LKD(g_,s_,l_,h_)
    return [ForAll([g_,s_,l_,h_,i,j],Implies(And(0<=i,i<s_,l_<=j,j<=h_,lk(g_,i,j)),t),patterns=[MultiPattern(t,vsel(vsel(g_,i),j))]),
      ForAll([g_,s_,l_,h_],Implies(t,(lambda i,j:And(0<=i,i<s_,l_<=j,j<=h_,lk(g_,i,j)))(LI(g_,s_,l_,h_),LJ(g_,s_,l_,h_))),patterns=[t])]
G=lambda t:t.alig.matrix.t
ONL=Function('only_with_links',VV,I_,AI,I_,I_,B_); OX=Function('only_wit',VV,I_,AI,I_,I_,I_)
def onldef():
    t=ONL(g_,s_,A_,l_,h_)
    return [ForAll([g_,s_,A_,l_,h_,x_],Implies(And(t,1<=x_,x_<=s_,TB(A_,x_)),LKD(g_,s_,l_,h_)),patterns=[MultiPattern(t,TB(A_,x_))]),
      ForAll([g_,s_,A_,l_,h_],Or(t,(lambda x:And(1<=x,x<=s_,TB(A_,x),Not(LKD(g_,s_,l_,h_))))(OX(g_,s_,A_,l_,h_))),patterns=[t])]
_EL={}
def EL(e):
    srt=un(e).sort()
    if srt.name() not in _EL: _EL[srt.name()]=Function('entry_of_cell',VV,I_,I_,I_,srt,I_,I_,B_)
    return _EL[srt.name()]
def elem(t,e,x,y): return EL(e)(G(t),t.nslen,t.tlen,t.maxSrcPhraseLength,un(e),x,y)
def eldef(t):     # e: an entry of cell (x,y)
    srt=si(si(si(si(t.pecMatrix.t.sort()).el).el).fs['cellAligs']).el; e=Const('pe',srt); e_=mkV(e)
    l=t.tlen-1-x; A=arr(e_.coverage); q=elem(t,e_,x,y)
    return [ForAll([e,x,y],q==And(wf(e_.coverage),x>=0,x<t.tlen,y>=l,y<t.tlen,INC(G(t),t.nslen-1,A,l,y),Implies(e_.validPhrase,VALP(t,A,x,y)),ONL(G(t),t.nslen-1,A,l,y),Not(TB(A,t.nslen))),patterns=[q])]
def cells(t,f): return ForAll([x,y,a_],Implies(And(0<=x,x<N,0<=y,y<N,0<=a_,a_<t.pecMatrix[x][y].cellAligs.len),f(t.pecMatrix[x][y].cellAligs[a_],x,y)),patterns=[Select(t.pecMatrix[x][y].cellAligs.arr,a_)])
def tabinv(t): return tab(t)+[('entries of the cells',cells(t,lambda e,x,y:elem(t,e,x,y)))]
fd=lambda t,f:mkV(fld(un(t),f))
keep=lambda c,*fs:And(*[un(fd(c.this,f))==un(fd(c.old.this,f)) for f in fs])
CONF=('nslen','tlen','alig','maxTrgPhraseLength','maxSrcPhraseLength','countSpurious','monotone','ns','t')
A('clear',requires=lambda c:tab(c.this),modifies=('this',),
  invs=[('columns before',['I'],lambda c,h:ForAll([x,y],Implies(And(0<=x,x<N,0<=y,y<h.cur),c.this.pecMatrix[x][y].cellAligs.len==0),patterns=[Select(c.this.pecMatrix[x].arr,y)])),
    ('rows before',['mI','I'],lambda c,h,g:ForAll([x],Implies(And(0<=x,x<h.cur),c.this.pecMatrix[x][g.cur].cellAligs.len==0),patterns=[Select(c.this.pecMatrix.arr,x)])),('sizes',[],lambda c:tab(c.this)[0][1]),('the rest',[],lambda c:keep(c,'zFertBitset','spurBitset',*CONF))],
  ensures=lambda c:tab(c.this)+[('every cell is empty',ForAll([x,y],Implies(And(0<=x,x<N,0<=y,y<N),c.this.pecMatrix[x][y].cellAligs.len==0),patterns=[Select(c.this.pecMatrix[x].arr,y)])),('the rest kept',keep(c,'zFertBitset','spurBitset',*CONF))])

isU=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==I_ and not mod
isCA=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort().name()=='CellAlignment'
cov=lambda b:b.cur.coverage
n1=lambda c:c.this.nslen-1
GL=lambda c,y:LKD(G(c.this),n1(c),y,y)
A('obtainConsistentPhrases',trusted=True,note='bounded: the solver runs out of memory on its nested loops; checked against exhaustive enumeration by the native search only',requires=lambda c:wfP(c.this)+tab(c.this)+[wf(c.this.zFertBitset),wf(c.this.spurBitset)],modifies=('this',),lemmas=lambda c:incdef()+lkdef()+onldef()+eldef(c.this),
  invs=[('table',[],lambda c:And(*[g for _,g in tabinv(c.this)])),('the rest',[],lambda c:keep(c,*CONF)),('sets',[],lambda c:And(wf(c.this.zFertBitset),wf(c.this.spurBitset))),
    ('set',[isCA],lambda c,b:wf(cov(b))),('nothing beyond the words',[isCA],lambda c,b:Not(TB(arr(cov(b)),c.this.nslen))),
    ('links taken so far',['mI',isU,isCA],lambda c,h,y,b:And(h.cur<=n1(c),ForAll([i],Implies(And(0<=i,i<h.cur,lk(G(c.this),i,y.cur)),TB(arr(cov(b)),i+1)),patterns=[vsel(vsel(G(c.this),i),y.cur)]))),
    ('links taken',[isU,isCA],lambda c,y,b:INC(G(c.this),n1(c),arr(cov(b)),y.cur,y.cur)),
    ('only with links',[isU,isCA],lambda c,y,b:ONL(G(c.this),n1(c),arr(cov(b)),y.cur,y.cur)),
    ('leftmost',['mI',isU],lambda c,l,y:And(l.cur<=c.this.nslen,Implies(l.cur<c.this.nslen,GL(c,y.cur)))),('rightmost',['mI',isU],lambda c,r,y:And(r.cur<c.this.nslen,Implies(r.cur>0,GL(c,y.cur))))],
  ensures=lambda c:tabinv(c.this)+[('the rest kept',keep(c,*CONF)),('sets',And(wf(c.this.zFertBitset),wf(c.this.spurBitset)))]+wfP(c.this))

# ---- the phrases handed out
def consistent(t,l,h,y1,y2): return And(1<=l,l<=h,h<t.nslen,0<=y1,y1<=y2,y2<t.tlen,h-l+1<=t.maxSrcPhraseLength,LKD(G(t),t.nslen-1,y1,y2),
   ForAll([i,j],Implies(And(0<=i,i<t.nslen-1,0<=j,j<t.tlen,lk(G(t),i,j)),And(l<=i+1,i+1<=h)==And(y1<=j,j<=y2)),patterns=[vsel(vsel(G(t),i),j)]))
CON=Function('consistent_spans',VV,I_,I_,I_,I_,I_,I_,I_,B_); CI=Function('con_src',VV,I_,I_,I_,I_,I_,I_,I_,I_); CJ=Function('con_trg',VV,I_,I_,I_,I_,I_,I_,I_,I_)
def CONP(t,l,h,y1,y2): return CON(G(t),t.nslen,t.tlen,t.maxSrcPhraseLength,l,h,y1,y2)
TAG=Function('spans',I_,I_,I_,I_,B_)      # holds of everything: only names the spans of an entry for the solver
p_,q_,r_,u_=Ints('sl sh tl th')
def condef(t):
    q=CONP(t,p_,q_,r_,u_); ar=(G(t),t.nslen,t.tlen,t.maxSrcPhraseLength,p_,q_,r_,u_)
    head=And(1<=p_,p_<=q_,q_<t.nslen,0<=r_,r_<=u_,u_<t.tlen,q_-p_+1<=t.maxSrcPhraseLength,LKD(G(t),t.nslen-1,r_,u_)); l=lambda i,j:And(p_<=i+1,i+1<=q_)==And(r_<=j,j<=u_); d=lambda i,j:And(0<=i,i<t.nslen-1,0<=j,j<t.tlen,lk(G(t),i,j))
    return [ForAll([p_,q_,r_,u_],Implies(q,head),patterns=[q]),ForAll([p_,q_,r_,u_,i,j],Implies(And(q,d(i,j)),l(i,j)),patterns=[MultiPattern(q,vsel(vsel(G(t),i),j))]),
      ForAll([p_,q_,r_,u_],Or(q,Not(head),And(d(CI(*ar),CJ(*ar)),Not(l(CI(*ar),CJ(*ar))))),patterns=[TAG(p_,q_,r_,u_)])]
def valdef(t):
    q=VALP(t,A_,x,y)
    return [ForAll([A_,x,y],Implies(q,And(valid(t,A_,x,y),TAG(LO(A_,t.nslen),HI(A_,t.nslen),t.tlen-1-x,y))),patterns=[q])]
ns=lambda t:fd(t,'ns'); tw=lambda t:fd(t,'t')
def words(v,src,l,n): return And(v.len==n,ForAll([k],Implies(And(0<=k,k<v.len),un(v[k])==un(src[l+k])),patterns=[Select(v.arr,k)]))
def good(t,p): return Exists([p_,q_,r_,u_],And(CONP(t,p_,q_,r_,u_),words(p.s_,ns(t),p_,q_-p_+1),words(p.t_,tw(t),r_,u_-r_+1)))
out=lambda c:c.a(0)
def allgood(t,v): return ForAll([v_],Implies(And(0<=v_,v_<v.len),good(t,v[v_])),patterns=[Select(v.arr,v_)])
isVS=lambda r,v,mod:isinstance(v,z3.ExprRef) and v.sort()==vec(vec(I_))
def setat(c,x,y,a): return arr(c.this.pecMatrix[x][y].cellAligs[a].coverage)
def clampn(i,l,h): return If(i<=l,0,If(i<=h+1,i-l,h-l+1))
A('createVectorWithConsPhrases',requires=lambda c:wfP(c.this)+tabinv(c.this)+[wf(c.this.spurBitset),And(ns(c.this).len==c.this.nslen,tw(c.this).len==c.this.tlen)],modifies=('this','arg0'),lemmas=lambda c:loax+incdef()+lkdef()+onldef()+eldef(c.this)+condef(c.this)+valdef(c.this),
  invs=[('all consistent',[],lambda c:allgood(c.this,out(c))),
    ('target words so far',['mI',isVS,isU,isU],lambda c,z,v,x,y:And(z.cur>=c.this.tlen-1-x.cur,z.cur<=y.cur+1,words(v.cur,tw(c.this),c.this.tlen-1-x.cur,z.cur-(c.this.tlen-1-x.cur)))),
    ('target words',[isVS,isU,isU],lambda c,v,x,y:words(v.cur,tw(c.this),c.this.tlen-1-x.cur,y.cur+1-(c.this.tlen-1-x.cur))),
    ('source words so far',['I',isVS,isU,isU,isU],lambda c,i,v,x,y,a:words(v.cur,ns(c.this),LO(setat(c,x.cur,y.cur,a.cur),c.this.nslen),clampn(i.cur,LO(setat(c,x.cur,y.cur,a.cur),c.this.nslen),HI(setat(c,x.cur,y.cur,a.cur),c.this.nslen))))],
  ensures=lambda c:[('every phrase pair is consistent and made of the words of its spans',allgood(c.this,out(c))),('the rest kept',keep(c,'pecMatrix',*CONF))]+wfP(c.this))
toolong=lambda c:Or(c.old.a(2).len>=N,c.old.a(1).len-1>=N,c.old.a(1).len==0)
A('extractConsistentPhrasesOld',requires=lambda c:tab(c.this)+[wf(c.this.zFertBitset),wf(c.this.spurBitset),wam.wf(c.a(3)),wam.wf(c.this.alig),And(c.a(3).I==c.a(1).len-1,c.a(3).J==c.a(2).len)],modifies=('this','arg4'),
  ensures=lambda c:[('of this sentence pair',Implies(Not(toolong(c)),And(un(ns(c.this))==un(c.old.a(1)),un(tw(c.this))==un(c.old.a(2)),c.this.nslen==c.old.a(1).len,c.this.tlen==c.old.a(2).len))),
    ('with its links',Implies(Not(toolong(c)),wam.eqcells(c.this.alig,c.old.a(3)))),
    ('every phrase pair is consistent and made of the words of its spans',Implies(Not(toolong(c)),allgood(c.this,c.a(4)))),('nothing for sentences over the limit',Implies(toolong(c),un(c.a(4))==un(c.old.a(4))))])
CONTRACTS=C
