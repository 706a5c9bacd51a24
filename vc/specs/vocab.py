from spec import *
PROPS=('P03',)
TU=dict(src='nlp_common/SingleWordVocab.cc')
STR=vec(I_)
def lit(s):
    a=z3.K(I_,IntVal(0))
    for i,ch in enumerate(s): a=Store(a,i,IntVal(ord(ch)))
    return si(STR).mk(IntVal(len(s)),a)
UNKSTR=lit('UNKNOWN_WORD')
def T(x): return un(x)
class Side:
    def __init__(s,S,s2i,i2s): s.S=S; s.f=s2i; s.g=i2s
    def d(s,t): return getattr(t,s.f)
    def i(s,t): return getattr(t,s.g)
SIDES=[Side('Src','stringToSrcWordIndexMap','srcWordIndexMapToString'),Side('Trg','stringToTrgWordIndexMap','trgWordIndexMapToString')]
def inv(sd,t):
    d,i=sd.d(t),sd.i(t); w=z3.Const('vw',STR); n=Int('vn')
    return And(d.size>=0,
      ForAll([w],Implies(Select(d.dom,w),And(Select(i.dom,Select(d.vals,w)),Select(i.vals,Select(d.vals,w))==w,Select(d.vals,w)>=0,Select(d.vals,w)<d.size)),patterns=[Select(d.dom,w)]),
      ForAll([n],Implies(Select(i.dom,n),And(Select(d.dom,Select(i.vals,n)),Select(d.vals,Select(i.vals,n))==n)),patterns=[Select(i.dom,n)]))
def special(sd,t):
    d=sd.d(t)
    return And(*[And(Select(d.dom,lit(x)),Select(d.vals,lit(x))==k) for k,x in ((0,'NULL'),(1,'UNKNOWN_WORD'),(2,'<UNUSED_WORD>'))])
def other(sd): return SIDES[0] if sd is SIDES[1] else SIDES[1]
def same(sd,c): return And(sd.d(c.this).t==sd.d(c.old.this).t,sd.i(c.this).t==sd.i(c.old.this).t)
def req(c): return [('maps inverse',inv(sd,c.this)) for sd in SIDES]
def added(sd,c,w,r):
    """the effect of adding word w, given index r"""
    d0,d1=sd.d(c.old.this),sd.d(c.this); x=z3.Const('ax',STR)
    return And(Select(d1.dom,w),Select(d1.vals,w)==r,
      ForAll([x],And(Select(d1.dom,x)==Or(Select(d0.dom,x),x==w),Implies(Select(d0.dom,x),Select(d1.vals,x)==Select(d0.vals,x))),patterns=[Select(d1.dom,x)]),
      d1.size==d0.size+If(Select(d0.dom,w),0,1))
C=[]
Q='SingleWordVocab::'
for sd in SIDES:
    S=sd.S
    C.append(Contract(Q+'get%sVocabSize'%S,norm=True,ensures=lambda c,sd=sd:[('number of words',c.ret==sd.d(c.this).size)]))
    C.append(Contract(Q+'stringTo%sWordIndex'%S,norm=True,ensures=lambda c,sd=sd:[('index or unknown',c.ret==If(Select(sd.d(c.this).dom,c.a(0).t),Select(sd.d(c.this).vals,c.a(0).t),1))]))
    C.append(Contract(Q+'exist%sSymbol'%S,norm=True,ensures=lambda c,sd=sd:[('known',c.ret==Select(sd.d(c.this).dom,c.a(0).t))]))
    C.append(Contract(Q+'wordIndexTo%sString'%S,norm=True,ensures=lambda c,sd=sd:[('word or unknown',c.ret.t==If(Select(sd.i(c.this).dom,c.a(0)),Select(sd.i(c.this).vals,c.a(0)),UNKSTR))]))
    C.append(Contract(Q+'add%sSymbol'%S,norm=True,modifies=('this',),requires=req,ensures=lambda c,sd=sd:[('index of the word',added(sd,c,c.old.a(0).t,c.ret)),('maps inverse',inv(sd,c.this)),('other side untouched',same(other(sd),c))]))
    C.append(Contract(Q+'clear%sVocab'%S,norm=True,modifies=('this',),ensures=lambda c,sd=sd:[('only the three special words',And(special(sd,c.this),sd.d(c.this).size==3)),('maps inverse',inv(sd,c.this)),('other side untouched',same(other(sd),c))]))
    isv=lambda r,v,mod: isinstance(v,z3.ExprRef) and v.sort()==vec(I_) and mod
    def svens(sd,c):
        k=Int('sv'); x=z3.Const('sx',STR); d0,d1=sd.d(c.old.this),sd.d(c.this); a=c.old.a(0)
        return [('one index per word',And(c.ret.len==a.len,ForAll([k],Implies(And(0<=k,k<a.len),And(Select(d1.dom,vsel(a.t,k)),Select(d1.vals,vsel(a.t,k))==c.ret[k])),patterns=[Select(c.ret.arr,k)]))),
                ('known words keep their index',ForAll([x],Implies(Select(d0.dom,x),And(Select(d1.dom,x),Select(d1.vals,x)==Select(d0.vals,x))),patterns=[Select(d1.dom,x)])),
                ('no other word',ForAll([x],Implies(Select(d1.dom,x),Or(Select(d0.dom,x),Exists([k],And(0<=k,k<a.len,vsel(a.t,k)==x)))),patterns=[Select(d1.dom,x)])),
                ('maps inverse',inv(sd,c.this)),('other side untouched',same(other(sd),c))]
    def svinv(sd):
        def f1(c,i,v):
            k=Int('sv'); d1=sd.d(c.this); a=c.a(0)
            return And(v.cur.len==i.cur,i.cur<=a.len,ForAll([k],Implies(And(0<=k,k<i.cur),And(Select(d1.dom,vsel(a.t,k)),Select(d1.vals,vsel(a.t,k))==v.cur[k])),patterns=[Select(v.cur.arr,k)]))
        def f2(c):
            x=z3.Const('sx',STR); d0,d1=sd.d(c.old.this),sd.d(c.this)
            return ForAll([x],Implies(Select(d0.dom,x),And(Select(d1.dom,x),Select(d1.vals,x)==Select(d0.vals,x))),patterns=[Select(d1.dom,x)])
        def f3(c,i):
            x=z3.Const('sx',STR); k=Int('sv'); d0,d1=sd.d(c.old.this),sd.d(c.this)
            return ForAll([x],Implies(Select(d1.dom,x),Or(Select(d0.dom,x),Exists([k],And(0<=k,k<i.cur,vsel(c.a(0).t,k)==x)))),patterns=[Select(d1.dom,x)])
        return [('indices so far',['I',isv],f1),('words kept',[],f2),('words from the argument',['mI'],f3),('maps inverse',[],lambda c:inv(sd,c.this)),('other inverse',[],lambda c:inv(other(sd),c.this)),('other untouched',[],lambda c:same(other(sd),c))]
    C.append(Contract(Q+'strVectorTo%sIndexVector'%S,norm=True,modifies=('this',),requires=req,ensures=lambda c,sd=sd:svens(sd,c),invs=svinv(sd)))
    C.append(Contract(Q+'get%sVocab'%S,norm=True,ensures=lambda c,sd=sd:[('the map',c.ret.t==sd.d(c.this).t)]))
C.append(Contract(Q+'clear',norm=True,modifies=('this',),ensures=lambda c:[(sd.S+' inverse',inv(sd,c.this)) for sd in SIDES]+[(sd.S+' special words only',And(special(sd,c.this),sd.d(c.this).size==3)) for sd in SIDES]))
C.append(Contract(Q+'SingleWordVocab',norm=True,modifies=('this',),ensures=lambda c:[(sd.S+' inverse',inv(sd,c.this)) for sd in SIDES]+[(sd.S+' special words only',And(special(sd,c.this),sd.d(c.this).size==3)) for sd in SIDES]))
CONTRACTS=C
