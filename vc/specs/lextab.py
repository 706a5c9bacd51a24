from spec import *
PROPS=('P11',)
TU=dict(name='lextab',text='#include "IncrLexTable.cc"\n#include "IncrIbm2AligTable.cc"\n#include "IncrHmmAligTable.cc"\n')
ASMAP=('OrderedVector',)
C=[]
# --- lexical table: numerators lexNumer[t] = map s -> value, denominators lexDenom[s] = (set?, value)
def num(t,s,x): return And(x>=0,x<t.lexNumer.len,t.lexNumer[x].has(s)),t.lexNumer[x][s]
def den(t,s,_=None): return And(s>=0,s<t.lexDenom.len,t.lexDenom[s].first),t.lexDenom[s].second
def req(v,w): return And(v[0]==w[0],Implies(w[0],v[1]==w[1]))
def pats(arr,k): return [Select(arr,k)]
class View:
    """an association (found?, value) read from the object, with key variables"""
    def __init__(s,f,vs,pat): s.f=f; s.vs=vs; s.pat=pat
    def same(s,t1,t0): return ForAll(s.vs,req(s.f(t1,*s.vs),s.f(t0,*s.vs)),patterns=[p for p in s.pat(t1,*s.vs)]+[p for p in s.pat(t0,*s.vs)])
    def put(s,t1,t0,key,val):
        eq=And(*[a==b for a,b in zip(s.vs,key)]); v1,v0=s.f(t1,*s.vs),s.f(t0,*s.vs)
        return ForAll(s.vs,And(v1[0]==Or(eq,v0[0]),Implies(v1[0],v1[1]==If(eq,val,v0[1]))),patterns=[p for p in s.pat(t1,*s.vs)]+[p for p in s.pat(t0,*s.vs)])
S,X,Y,Z=Ints('ks kx ky kz')
def view(obj,name,f,vs,pat): return View(f,vs,pat)
def contracts(cls,NUM,DEN,nget,dget,nset,dset,both,nkey,dkey,grow,lens,hm=False):
    q=cls+'::'
    C.append(Contract(q+nset,modifies=('this',),ensures=lambda c:[('numerator of the key is set, others kept',NUM.put(c.this,c.old.this,nkey(c),c.old.a(2))),('denominators kept',DEN.same(c.this,c.old.this))],invs=grow))
    C.append(Contract(q+dset,modifies=('this',),ensures=lambda c:[('denominator of the key is set, others kept',DEN.put(c.this,c.old.this,dkey(c),c.old.a(1))),('numerators kept',NUM.same(c.this,c.old.this))],invs=grow))
    C.append(Contract(q+nget,modifies=('arg2',),ensures=lambda c:[('found flag',c.a(2)==NUM.f(c.old.this,*nkey(c))[0]),('value',Implies(NUM.f(c.old.this,*nkey(c))[0],c.ret==NUM.f(c.old.this,*nkey(c))[1]))]))
    C.append(Contract(q+dget,modifies=('arg1',),ensures=lambda c:[('found flag',c.a(1)==DEN.f(c.old.this,*dkey(c))[0]),('value',Implies(DEN.f(c.old.this,*dkey(c))[0],c.ret==DEN.f(c.old.this,*dkey(c))[1]))]))
    C.append(Contract(q+both,modifies=('this',),ensures=lambda c:[('numerator',NUM.put(c.this,c.old.this,nkey(c),c.old.a(2))),('denominator',DEN.put(c.this,c.old.this,dkey(c),c.old.a(3)))]))
    none=lambda c:[('no numerator',ForAll(NUM.vs,Not(NUM.f(c.this,*NUM.vs)[0]))),('no denominator',ForAll(DEN.vs,Not(DEN.f(c.this,*DEN.vs)[0])))]
    C.append(Contract(q+'clear',modifies=('this',),ensures=none)); C.append(Contract(q+cls,modifies=('this',),ensures=none))
def generic(NUM,DEN): return [('numerators kept',[],lambda c:NUM.same(c.this,c.le.this)),('denominators kept',[],lambda c:DEN.same(c.this,c.le.this))]
LN=View(num,[S,X],lambda t,s,x:[MultiPattern(Select(t.lexNumer.arr,x),S)] if 0 else [t.lexNumer[x].has(s)])
LD=View(den,[S],lambda t,s:[Select(t.lexDenom.arr,s)])
contracts('IncrLexTable',LN,LD,'getLexNumer','getLexDenom','setLexNumer','setLexDenom','setLexNumDen',lambda c:[c.old.a(0),c.old.a(1)],lambda c:[c.old.a(0)],generic(LN,LD),None)
def lst(c):
    m=c.old.this.lexNumer; x=Int('lx'); t=c.old.a(0)
    return [('known target word',c.ret==(t<m.len)),('exactly the stored source words',ForAll([x],c.a(1).has(x)==And(t<m.len,m[t].has(x)),patterns=[c.a(1).has(x)]))]
def lstinv(c,it):
    m=c.this.lexNumer[c.a(0)]; x=Int('lx'); en,ix=enumf(I_)
    return ForAll([x],c.a(1).has(x)==And(m.has(x),ix(m.dom,x)<it.pos),patterns=[c.a(1).has(x)])
C.append(Contract('IncrLexTable::getTransForTarget',modifies=('arg1',),ensures=lst,invs=[('listed so far',['it'],lstinv)]))
# --- position alignment table (key aSource = a record)
def anum(t,a,x): return And(x>=0,x<t.aligNumer.len,t.aligNumer[x].has(a)),t.aligNumer[x][a]
def aden(t,a): return t.aligDenom.has(a),t.aligDenom[a]
def lazy_asource():
    return [s for k,s in __import__('sorts')._mk.items() if k==('rec','aSource')][0]
class LView(View):
    def __init__(s,f,mk,pat): s.f=f; s.mk=mk; s.pat=pat
    @property
    def vs(s): return s.mk()
A_=lambda: z3.Const('ka',lazy_asource())
AN=LView(anum,lambda:[A_(),X],lambda t,a,x:[t.aligNumer[x].has(a)]); AD=LView(aden,lambda:[A_()],lambda t,a:[t.aligDenom.has(a)])
contracts('IncrIbm2AligTable',AN,AD,'getAligNumer','getAligDenom','setAligNumer','setAligDenom','setAligNumDen',lambda c:[un(c.old.a(0)),c.old.a(1)],lambda c:[un(c.old.a(0))],generic(AN,AD),None)
C.append(Contract('aSource::operator==',ensures=lambda c:[('field-wise equality',c.ret==(un(c.this)==un(c.a(0))))]))
# --- state transition table
def hnum(t,p,l,x): return And(x>=0,p>=0,l>=0,x<t.aligNumer.len,p<t.aligNumer[x].len,l<t.aligNumer[x][p].len,t.aligNumer[x][p][l].first),t.aligNumer[x][p][l].second
def hden(t,p,l): return And(p>=0,l>=0,p<t.aligDenom.len,l<t.aligDenom[p].len,t.aligDenom[p][l].first),t.aligDenom[p][l].second
HN=View(hnum,[Y,Z,X],lambda t,p,l,x:[Select(t.aligNumer[x][p].arr,l)]); HD=View(hden,[Y,Z],lambda t,p,l:[Select(t.aligDenom[p].arr,l)])
k1=Int('kl1'); k2=Int('kl2')
hlens=[('rows grow',[],lambda c:And(c.this.aligNumer.len>=c.le.this.aligNumer.len,c.this.aligDenom.len>=c.le.this.aligDenom.len)),
  ('rows of rows grow',[],lambda c:ForAll([k1],Implies(And(0<=k1,k1<c.le.this.aligNumer.len),c.this.aligNumer[k1].len>=c.le.this.aligNumer[k1].len),patterns=[Select(c.this.aligNumer.arr,k1)])),]
contracts('IncrHmmAligTable',HN,HD,'getAligNumer','getAligDenom','setAligNumer','setAligDenom','setAligNumDen',lambda c:[c.old.a(0).prev_i,c.old.a(0).slen,c.old.a(1)],lambda c:[c.old.a(0).prev_i,c.old.a(0).slen],generic(HN,HD)+hlens,None)
C.append(Contract('aSourceHmm::operator==',ensures=lambda c:[('field-wise equality',c.ret==(un(c.this)==un(c.a(0))))]))
CONTRACTS=C
