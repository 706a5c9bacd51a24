from spec import *
PROPS=('P07',)
TU=dict(src='phrase_models/BpSet.cc')
C=[]; x,y,k,m=Ints('bx by bk bm')
T=lambda t:t.consPairs
def ent(t,x,y): return T(t)[x][y]
def has(t,x,y): return And(0<=x,x<T(t).len,0<=y,y<T(t)[x].len)
def at(e,i,j): return And(e.tpair.first==i,e.tpair.second==j)
# no target span is listed twice for a source span
def uniq(t): return ForAll([x,y,k,m],Implies(And(has(t,x,y),0<=k,k<m,m<ent(t,x,y).len),Not(And(ent(t,x,y)[k].tpair.first==ent(t,x,y)[m].tpair.first,ent(t,x,y)[k].tpair.second==ent(t,x,y)[m].tpair.second))),patterns=[MultiPattern(Select(ent(t,x,y).arr,k),Select(ent(t,x,y).arr,m))])
inv=lambda t:[('target spans listed once',uniq(t))]
LS=Function('sum_of_logs',R_,R_,R_)
C.append(Contract('MathFuncs::lns_sumlog',trusted=True,note='proved in the module of P18',ensures=lambda c:[('definition: sum of logarithms',c.ret==LS(c.a(0),c.a(1)))]))
def row(t,x): return T(t)[x]
# slots of the table: those of the old state keep their content, new ones are empty (except the slots excluded)
def grown(c,exc=None):
    o,n=c.old.this,c.this
    e=(lambda x,y:BoolVal(False)) if exc is None else exc
    return And(T(n).len>=T(o).len,ForAll([x],Implies(And(0<=x,x<T(o).len),row(n,x).len>=row(o,x).len),patterns=[Select(T(n).arr,x)]),
      ForAll([x,y],Implies(And(has(n,x,y),Not(e(x,y))),If(And(x<T(o).len,y<row(o,x).len),un(ent(n,x,y))==un(ent(o,x,y)),ent(n,x,y).len==0)),patterns=[Select(row(n,x).arr,y)]))
def olen(o,a,b): return If(has(o,a,b),ent(o,a,b).len,0)
k2=Int('bk2')
def incr(c):
    o,n=c.old.this,c.this; a,b,p,q,l=[c.old.a(i) for i in range(5)]; e=ent(n,a,b); L=olen(o,a,b); E=ent(o,a,b)
    pres=Exists([k],And(0<=k,k<L,at(E[k],p,q)))
    return [('slot',And(has(n,a,b))),('other source spans kept',grown(c,lambda x,y:And(x==a,y==b))),
      ('length',e.len==If(pres,L,L+1)),('a new target span',Implies(Not(pres),And(at(e[L],p,q),e[L].lc==l,ForAll([k],Implies(And(0<=k,k<L),un(e[k])==un(E[k])),patterns=[Select(e.arr,k)])))),
      ('a known target span',Implies(pres,ForAll([k],Implies(And(0<=k,k<L),If(at(E[k],p,q),And(at(e[k],p,q),e[k].lc==LS(E[k].lc,l)),un(e[k])==un(E[k]))),patterns=[Select(e.arr,k)])))]
Q='BpSet::'
def A(q,**kw):
    kw.setdefault('requires',lambda c:inv(c.this)); C.append(Contract(Q+q,**kw))
A('BpSet',nparams=0,ctor=True,requires=None,modifies=('this',),ensures=lambda c:inv(c.this)+[('empty',T(c.this).len==0)])
A('clear',modifies=('this',),ensures=lambda c:inv(c.this)+[('empty',T(c.this).len==0)])
A('incrPair',requires=lambda c:inv(c.this)+[('positions',And(*[And(c.a(i)>=0,c.a(i)<2**31) for i in range(4)]))],modifies=('this',),
  invs=[('slots',[],lambda c:grown(c)),('row kept',[],lambda c:Implies(c.a(0)<T(c.this).len,T(c.this).len>c.a(0))),('not found',['B'],lambda c,b:Not(b.cur)),
    ('not before',['mI'],lambda c,i:ForAll([k],Implies(And(0<=k,k<i.cur),Not(at(ent(c.this,c.a(0),c.a(1))[k],c.a(2),c.a(3)))),patterns=[Select(ent(c.this,c.a(0),c.a(1)).arr,k)]))],
  ensures=lambda c:incr(c)+inv(c.this))
A('retrieveTrgPhrasesGivenSrc',requires=lambda c:inv(c.this)+[('positions',And(c.a(0)>=0,c.a(1)>=0))],modifies=('arg2',),ensures=lambda c:[('the target spans of the source span',If(has(c.this,c.a(0),c.a(1)),un(c.a(2))==un(ent(c.this,c.a(0),c.a(1))),c.a(2).len==0))])
small=lambda c:[('sizes',And(T(c.this).len<2**31,ForAll([x],Implies(And(0<=x,x<T(c.this).len),row(c.this,x).len<2**31),patterns=[Select(T(c.this).arr,x)])))]
A('getx1Max',requires=lambda c:inv(c.this)+small(c),ensures=lambda c:[('greatest source start',And(c.ret>=0,ForAll([x,y],Implies(has(c.this,x,y),x<=c.ret),patterns=[Select(row(c.this,x).arr,y)])))])
A('getx2Max',requires=lambda c:inv(c.this)+small(c)+[c.a(0)>=0],ensures=lambda c:[('greatest source end',And(c.ret>=0,ForAll([y],Implies(has(c.this,c.a(0),y),y<=c.ret),patterns=[Select(row(c.this,c.a(0)).arr,y)])))])
CONTRACTS=C
