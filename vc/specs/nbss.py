from spec import *
PROPS=('P06',)
TU=dict(src='error_correction/NbSearchStack.cc')
C=[]; J,K=Ints('nj nk')
V_=lambda t:t.container
S=lambda v,k:v[k].first
def ordered(t): v=V_(t); return ForAll([J,K],Implies(And(0<=J,J<=K,K<v.len),S(v,J)>=S(v,K)),patterns=[MultiPattern(Select(v.arr,J),Select(v.arr,K))])
def same(a,b,n): return ForAll([K],Implies(And(0<=K,K<n),un(a[K])==un(b[K])),patterns=[Select(a.arr,K),Select(b.arr,K)])
N=lambda c:V_(c.old.this).len
MX=lambda c:c.old.this.maxStackSize
mn=lambda a,b:If(a<=b,a,b)
R=lambda c:[('best first',ordered(c.this)),('bound',Or(c.this.maxStackSize==-1,And(c.this.maxStackSize>=0,V_(c.this).len<=c.this.maxStackSize))),V_(c.this).len<2**31]
def A(q,**k):
    k.setdefault('requires',R); C.append(Contract('NbSearchStack::'+q,**k))
A('NbSearchStack',nparams=0,ctor=True,requires=None,modifies=('this',),ensures=lambda c:[('empty',And(V_(c.this).len==0,c.this.maxStackSize==-1))])
A('setMaxStackSize',modifies=('this.maxStackSize',),ensures=lambda c:[('bound set',c.this.maxStackSize==c.old.a(0))])
A('empty',ensures=lambda c:[('no hypotheses',c.ret==(N(c)==0))])
A('size',ensures=lambda c:[('number of hypotheses',c.ret==N(c))])
A('clear',modifies=('this',),ensures=lambda c:[('empty',And(V_(c.this).len==0,c.this.maxStackSize==MX(c)))])
A('top',requires=lambda c:R(c)+[V_(c.this).len>0],ensures=lambda c:[('the best hypothesis',And(un(c.ret)==un(V_(c.old.this)[0]),ForAll([K],Implies(And(0<=K,K<N(c)),c.ret.first>=S(V_(c.old.this),K)),patterns=[Select(V_(c.old.this).arr,K)])))])
A('pop',requires=lambda c:R(c)+[V_(c.this).len>0],modifies=('this',),ensures=lambda c:[('one hypothesis less',V_(c.this).len==N(c)-1),('the others stay in order',ForAll([K],Implies(And(0<K,K<N(c)),un(V_(c.this)[K-1])==un(V_(c.old.this)[K])),patterns=[Select(V_(c.old.this).arr,K)])),('bound kept',c.this.maxStackSize==MX(c)),('best first',ordered(c.this))])
A('removeLast',requires=lambda c:[ordered(c.this)],modifies=('this',),ensures=lambda c:[('the worst hypothesis is removed',And(V_(c.this).len==If(N(c)>0,N(c)-1,0),same(V_(c.this),V_(c.old.this),V_(c.this).len))),('bound kept',c.this.maxStackSize==MX(c)),('best first',ordered(c.this))])
P=Function('position_pushed',I_)
def pushed(c):
    o,n,m=V_(c.old.this),V_(c.this),MX(c); h=c.old.a(1); s=c.old.a(0); pos=Int('pushed_at')
    full=And(m!=-1,N(c)>=m)
    return [('size',n.len==If(full,m,N(c)+1)),('best first',ordered(c.this)),('bound kept',c.this.maxStackSize==m),
      ('stored behind the hypotheses that score no worse, the others kept in order, the worst dropped when full',Exists([pos],And(0<=pos,pos<=N(c),ForAll([K],Implies(And(0<=K,K<n.len),un(n[K])==If(K<pos,un(o[K]),If(K==pos,un(n[K]),un(o[K-1])))),patterns=[Select(n.arr,K)]),Implies(pos<n.len,And(n[pos].first==s,un(n[pos].second)==un(h))),
         ForAll([K],Implies(And(0<=K,K<N(c)),If(K<pos,S(o,K)>=s,S(o,K)<s)),patterns=[Select(o.arr,K)]))))]
A('push',modifies=('this',),ensures=pushed,invs=[('bound kept',[],lambda c:c.this.maxStackSize==c.le.this.maxStackSize),('in order',[],lambda c:ordered(c.this)),('better ones kept',[],lambda c:And(V_(c.this).len<=V_(c.le.this).len,V_(c.this).len>=mn(V_(c.le.this).len,c.this.maxStackSize),same(V_(c.this),V_(c.le.this),V_(c.this).len)))])
CONTRACTS=C
