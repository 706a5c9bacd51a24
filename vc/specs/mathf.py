from spec import *
import stl
PROPS=('P19',)
TU=dict(name='mathf',text='#include "MathFuncs.cc"\n#include "Count.h"\n#include "LogCount.h"\n#include "Prob.cc"\n')
log,exp=stl.log,stl.exp
LF=Function('logfact',IntSort(),RealSort())       # logfact(n) = log(n!)
def lfax(c=None):
    n=Int('lfn')
    return [LF(0)==0,ForAll([n],Implies(n>=1,LF(n)==LF(n-1)+log(ToReal(n))),patterns=[LF(n)])]+stl.log_axioms()
def explaws(x,y):
    """instances of exp(a+b)=exp(a)exp(b) and log(ab)=log a+log b (a,b>0) for the two arguments"""
    e=exp(y-x); d=exp(x-y)
    return stl.log_axioms()+[e*exp(x)==exp(y),d*exp(y)==exp(x),log(1+e)+x==log(exp(x)+exp(y)),log(1+d)+y==log(exp(x)+exp(y)),
        Implies(e<1,log(1-e)+x==log(exp(x)-exp(y))),log(RealVal(2))+x==log(exp(x)+exp(x))]
C=[]
M='MathFuncs::'
def inv_up(c,i,r): return r.cur==LF(i.cur-1)
def inv_dn(c,i,r): return r.cur==LF(c.a(0))-LF(i.cur)
C.append(Contract(M+'logFactorial',lemmas=lfax,ensures=lambda c:[('log of n!',c.ret==LF(c.a(0)))],requires=lambda c:[c.a(0)<2**32-1],invs=[('sum',['I','R'],inv_up),('lo',['I'],lambda c,i:And(i.cur>=1,i.cur<=c.a(0)+1))]))
C.append(Contract(M+'logCombmn',lemmas=lfax,requires=lambda c:[c.a(1)<=c.a(0),c.a(0)<2**32-1],ensures=lambda c:[('log of binomial',c.ret==LF(c.a(0))-LF(c.a(1))-LF(c.a(0)-c.a(1)))]))
C.append(Contract(M+'logNumbPermsOfTwoElems',lemmas=lfax,requires=lambda c:[c.a(0)<2**32-1],ensures=lambda c:[('log of binomial',c.ret==If(c.a(1)<=c.a(0),LF(c.a(0))-LF(c.a(1))-LF(c.a(0)-c.a(1)),0))],
  invs=[('sum',['I','R'],inv_dn),('le',['I'],lambda c,i:i.cur<=c.a(0)),('ge1',['I'],lambda c,i:i.cur>=c.a(1)),('ge2',['I'],lambda c,i:i.cur>=c.a(0)-c.a(1))]))
for f in ('lns_sumlog','lns_sumlog_float'):
    C.append(Contract(M+f,lemmas=lambda c:explaws(c.a(0),c.a(1)),ensures=lambda c:[('log of sum',c.ret==log(exp(c.a(0))+exp(c.a(1))))]))
for f in ('lns_sublog','lns_sublog_float'):
    C.append(Contract(M+f,lemmas=lambda c:explaws(c.a(0),c.a(1)),requires=lambda c:[c.a(1)<c.a(0)],ensures=lambda c:[('log of difference',c.ret==log(exp(c.a(0))-exp(c.a(1))))]))
def pos(c): return [c.a(0)>0,c.a(1)>0]
def elog(c): return stl.log_axioms()+[exp(log(c.a(0)))==c.a(0),exp(log(c.a(1)))==c.a(1)]
for f in ('lns_sum','lns_sum_float'): C.append(Contract(M+f,lemmas=lambda c:stl.log_axioms(),requires=pos,ensures=lambda c:[('log of sum',c.ret==log(c.a(0)+c.a(1)))]))
for f in ('lns_sub','lns_sub_float'): C.append(Contract(M+f,lemmas=lambda c:stl.log_axioms()+[Implies(And(c.a(0)>c.a(1),c.a(1)>0),log(c.a(0))>log(c.a(1)))],requires=lambda c:pos(c)+[c.a(0)>c.a(1)],ensures=lambda c:[('log of difference',c.ret==log(c.a(0)-c.a(1)))]))
C.append(Contract(M+'log_geom',ensures=lambda c:[('log of p(1-p)^n',c.ret.x==log(c.a(0))+ToReal(c.a(1))*log(1-c.a(0)))]))
C.append(Contract(M+'triang_cdf',requires=lambda c:[c.a(0)<c.a(2),c.a(2)<c.a(1)],ensures=lambda c:[('in [0,1]',And(c.ret.x>=0,c.ret.x<=1)),('ends',And(Implies(c.a(3)==c.a(0),c.ret.x==0),Implies(c.a(3)==c.a(1),c.ret.x==1)))],
   lemmas=lambda c:tri(c)))
def tri(c):
    a,b,m,x=[c.a(i) for i in range(4)]
    def frac(n,d): return Implies(And(0<=n,n<=d,d>0),And(n/d>=0,n/d<=1,n==(n/d)*d))
    return [frac((x-a)*(x-a),(b-a)*(m-a)),frac((b-x)*(b-x),(b-a)*(b-m)),Implies(And(a<=x,x<=m,m<b),And((x-a)*(x-a)<=(b-a)*(m-a),(x-a)*(x-a)>=0)),Implies(And(a<m,m<=x,x<=b),And((b-x)*(b-x)<=(b-a)*(b-m),(b-x)*(b-x)>=0)),
      Implies(And(a<m,m<b),And((b-a)*(m-a)>0,(b-a)*(b-m)>0)),Implies(x==a,(x-a)*(x-a)==0),Implies(x==b,(b-x)*(b-x)==0)]
# counts
isd=lambda n:(lambda ts: len(ts)==1 and (ts[0].get('b')==n or ts[0].get('rec')==n))
def la(c): return stl.log_axioms()
for K in ('double','float','int'):
    arg=lambda c: ToReal(c.a(0)) if c.a(0).sort()==I_ else c.a(0)
    C.append(Contract('LogCount::incr_count',ptypes=isd(K),modifies=('this',),lemmas=la,requires=lambda c:[c.a(0)>0],ensures=lambda c:[('exp(x) grows by y',exp(c.this.x)==exp(c.old.this.x)+arg(c.old))]))
    C.append(Contract('LogCount::set_count',ptypes=isd(K),modifies=('this',),lemmas=la,requires=lambda c:[c.a(0)>0],ensures=lambda c:[('exp(x) is y',exp(c.this.x)==arg(c.old))]))
    C.append(Contract('Count::incr_count',ptypes=isd(K),modifies=('this',),ensures=lambda c:[('x grows by y',c.this.x==c.old.this.x+arg(c.old))]))
    C.append(Contract('Count::set_count',ptypes=isd(K),modifies=('this',),ensures=lambda c:[('x is y',c.this.x==arg(c.old))]))
C.append(Contract('LogCount::incr_count',ptypes=isd('Count'),modifies=('this',),lemmas=la,requires=lambda c:[c.a(0).x>0],ensures=lambda c:[('exp(x) grows by y',exp(c.this.x)==exp(c.old.this.x)+c.old.a(0).x)]))
C.append(Contract('LogCount::set_count',ptypes=isd('Count'),modifies=('this',),lemmas=la,requires=lambda c:[c.a(0).x>0],ensures=lambda c:[('exp(x) is y',exp(c.this.x)==c.old.a(0).x)]))
C.append(Contract('Count::incr_count',ptypes=isd('Count'),modifies=('this',),ensures=lambda c:[('x grows by y',c.this.x==c.old.this.x+c.old.a(0).x)]))
C.append(Contract('Count::set_count',ptypes=isd('Count'),modifies=('this',),ensures=lambda c:[('x is y',c.this.x==c.old.a(0).x)]))
for K in ('double','float'):
    C.append(Contract('LogCount::incr_logcount',ptypes=isd(K),modifies=('this',),lemmas=la,ensures=lambda c:[('exp(x) grows by exp(y)',exp(c.this.x)==exp(c.old.this.x)+exp(c.old.a(0)))]))
    C.append(Contract('LogCount::set_logcount',ptypes=isd(K),modifies=('this',),ensures=lambda c:[('x is y',c.this.x==c.old.a(0))]))
    C.append(Contract('Count::incr_logcount',ptypes=isd(K),modifies=('this',),lemmas=la,ensures=lambda c:[('x grows by exp(y)',c.this.x==c.old.this.x+exp(c.old.a(0)))]))
    C.append(Contract('Count::set_logcount',ptypes=isd(K),modifies=('this',),lemmas=la,ensures=lambda c:[('x is exp(y)',c.this.x==exp(c.old.a(0)))]))
for f in ('get_c_s','get_c_st'):
    C.append(Contract('LogCount::'+f,lemmas=la,ensures=lambda c:[('linear value',c.ret==exp(c.this.x))])); C.append(Contract('Count::'+f,ensures=lambda c:[('linear value',c.ret==c.this.x)]))
for f in ('get_lc_s','get_lc_st'):
    C.append(Contract('LogCount::'+f,ensures=lambda c:[('log value',c.ret==c.this.x)])); C.append(Contract('Count::'+f,lemmas=la,ensures=lambda c:[('log value',c.ret==log(c.this.x))]))
C.append(Contract('Prob::get_lp',lemmas=la,ensures=lambda c:[('log value',c.ret.x==log(c.this.x))],props=('P19',)))
C.append(Contract('LgProb::get_p',lemmas=la,ensures=lambda c:[('linear value',c.ret.x==exp(c.this.x))]))
CONTRACTS=C
