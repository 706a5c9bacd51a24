from spec import *
PROPS=('P12',)
TU=dict(name='anji',text='#include "anjiMatrix.cc"\n#include "anjm1ip_anjiMatrix.cc"\n')
C=[]
UN=2**32-1; INV=RealVal(99)
N,J,K,L,P=Ints('qn qj qk ql qp')
def make(cls,mat,depth,extra):
    q=cls+'::'; JS=[J,K,L][:depth]
    mx=lambda t:getattr(t,mat+'_maxnsize'); ptr=lambda t:getattr(t,mat+'_pointer'); A=lambda t:getattr(t,mat)
    n2p=lambda t:t.n_to_np_vector; p2n=lambda t:t.np_to_n_vector
    unres=lambda t:mx(t)==UN
    def slot(t,n): return If(unres(t),n,n2p(t)[n].second)
    def mapped(t,n): return If(unres(t),And(n>=0,n<A(t).len),And(n>=0,n<n2p(t).len,n2p(t)[n].first))
    def used(t,p): return And(p>=0,p<p2n(t).len,p2n(t)[p].first)
    def cell(t,p,js):        # value of a slot, 99 when outside
        g=[And(p>=0,p<A(t).len)]; x=A(t)[p]
        for j in js: g.append(And(j>=0,j<x.len)); x=x[j]
        return If(And(*g),x,INV)
    def incell(t,p,js):
        g=[And(p>=0,p<A(t).len)]; x=A(t)[p]
        for j in js: g.append(And(j>=0,j<x.len)); x=x[j]
        return And(*g)
    def arrs(t,p,js):        # patterns: the innermost cell
        x=A(t)[p]
        for j in js[:-1]: x=x[j]
        return Select(x.arr,js[-1])
    def val(t,n,js): return If(mapped(t,n),cell(t,slot(t,n),js),INV)
    def inv(t,full=True):
        r=[('pointer inside the ring',Or(unres(t),mx(t)==0,And(ptr(t)>=0,ptr(t)<mx(t)))),
           ('ring used in order',Or(unres(t),mx(t)==0,p2n(t).len==mx(t),p2n(t).len==ptr(t))),
           ('ring within capacity',Or(unres(t),p2n(t).len<=mx(t))),
           ('every ring position in use',ForAll([P],Implies(And(P>=0,P<p2n(t).len),p2n(t)[P].first),patterns=[Select(p2n(t).arr,P)])),
           ('slot -> sentence -> slot',Or(unres(t),ForAll([P],Implies(used(t,P),And(p2n(t)[P].second>=0,p2n(t)[P].second<n2p(t).len,n2p(t)[p2n(t)[P].second].first,n2p(t)[p2n(t)[P].second].second==P)),patterns=[Select(p2n(t).arr,P)]))),
           ('sentence -> slot -> sentence',Or(unres(t),ForAll([N],Implies(And(N>=0,N<n2p(t).len,n2p(t)[N].first),And(used(t,n2p(t)[N].second),p2n(t)[n2p(t)[N].second].second==N)),patterns=[Select(n2p(t).arr,N)]))),
           ('unused slots are empty',Or(unres(t),ForAll([P],Implies(And(P>=0,P<A(t).len,Not(used(t,P))),A(t)[P].len==0),patterns=[Select(A(t).arr,P)])))]
        if full: r.append(('used slots exist',Or(unres(t),p2n(t).len<=A(t).len)))
        return r
    I=lambda t:And(*[x[1] for x in inv(t)])
    I0=lambda t:And(*[x[1] for x in inv(t,False)])
    def evicted(o,n,m): # sentence m loses its slot when n is mapped in old state o
        return And(Not(unres(o)),Not(mapped(o,n)),used(o,ptr(o)),m==p2n(o)[ptr(o)].second)
    def patv(t): return [Select(n2p(t).arr,N)]
    # the slots are what map decides; contents of slots move only by clear
    def mapens(c,o,t,n,np):
        r=[('slot of the sentence returned',And(Or(unres(t),mapped(t,n)),np==slot(t,n),np>=0)),
           ('capacity kept',mx(t)==mx(o)),
           ('slot inside the ring',Or(unres(t),np<mx(t))),
           ('a held sentence keeps its slot',Implies(mapped(o,n),np==slot(o,n))),
           ('a held sentence changes nothing',Implies(Or(unres(o),mapped(o,n)),un(t)==un(o))) ,
           ('new sentence takes the oldest slot',Implies(And(Not(unres(o)),Not(mapped(o,n))),np==ptr(o))),
           ('ring pointer advances cyclically',Implies(And(Not(unres(o)),Not(mapped(o,n))),ptr(t)==If(ptr(o)+1>=mx(o),0,ptr(o)+1))),
           ('other sentences keep their slots, the oldest one is dropped',Or(unres(o),ForAll([N],Implies(And(N!=n,N>=0),And(mapped(t,N)==And(mapped(o,N),Not(evicted(o,n,N))),Implies(mapped(t,N),slot(t,N)==slot(o,N)))),patterns=[Select(n2p(t).arr,N),Select(n2p(o).arr,N)]))),
           ('size kept',A(t).len==A(o).len),
           ('new slot is empty',Implies(And(Not(unres(o)),Not(mapped(o,n)),np<A(t).len),A(t)[np].len==0)),
           ('other slots keep their contents',ForAll([P],Implies(Or(P!=np,unres(o),mapped(o,n)),A(t)[P]==A(o)[P]) if 0 else Implies(Or(P!=np,unres(o),mapped(o,n)),un(A(t)[P])==un(A(o)[P])),patterns=[Select(A(t).arr,P)]))]
        return r
    C.append(Contract(q+'map_n_in_matrix',modifies=('this','arg1'),requires=lambda c:[I(c.this),mx(c.this)>0],ensures=lambda c:mapens(c,c.old.this,c.this,c.old.a(0),c.a(1))+[('invariant: '+k,v) for k,v in inv(c.this,False)]+[('all used slots but possibly the new one exist',Or(unres(c.this),p2n(c.this).len<=A(c.this).len,And(p2n(c.this).len==c.a(1)+1,A(c.this).len==c.a(1)),And(p2n(c.this).len<=A(c.this).len+1,c.a(1)==p2n(c.this).len-1)))]))
    C.append(Contract(q+'n_is_mapped_in_matrix',modifies=('arg1',),ensures=lambda c:[('held?',c.ret==mapped(c.this,c.a(0))),('slot',Implies(c.ret,c.a(1)==slot(c.this,c.a(0))))]))
    grow=lambda f:[('grows',[],lambda c:And(f(c.this).len>=f(c.le.this).len,Or(f(c.this).len==f(c.le.this).len,f(c.this).len<=c.a(0)+1))),('entries kept',[],lambda c:ForAll([N],Implies(And(N>=0,N<f(c.le.this).len),un(f(c.this)[N])==un(f(c.le.this)[N])),patterns=[Select(f(c.this).arr,N)])),('new entries unused',[],lambda c:ForAll([N],Implies(And(N>=f(c.le.this).len,N<f(c.this).len),Not(f(c.this)[N].first)),patterns=[Select(f(c.this).arr,N)]))]
    def upd(name,f):
        fl=f
        C.append(Contract(q+name,modifies=('this.'+('np_to_n_vector' if 'np_to_n_v' in name else 'n_to_np_vector'),),invs=grow(f),ensures=lambda c:[('entry set',And(f(c.this).len==If(f(c.old.this).len>c.old.a(0),f(c.old.this).len,c.old.a(0)+1),un(f(c.this)[c.old.a(0)])==un(c.old.a(1)))),
            ('others kept',ForAll([N],Implies(And(N>=0,N!=c.old.a(0),N<f(c.old.this).len),un(f(c.this)[N])==un(f(c.old.this)[N])),patterns=[Select(f(c.this).arr,N)])),
            ('added entries unused',ForAll([N],Implies(And(N!=c.old.a(0),N>=f(c.old.this).len,N<f(c.this).len),Not(f(c.this)[N].first)),patterns=[Select(f(c.this).arr,N)]))]))
    upd('update_np_to_n_vector',p2n); upd('update_n_to_np_vector',n2p)
    def rdc(name,f): C.append(Contract(q+name,ensures=lambda c:[('entry or unused',And(c.ret.first==And(c.a(0)<f(c.this).len,f(c.this)[c.a(0)].first),Implies(c.ret.first,c.ret.second==f(c.this)[c.a(0)].second)))]))
    rdc('read_np_to_n_vector',p2n); rdc('read_n_to_np_vector',n2p)
    # reading
    C.append(Contract(q+'get',requires=lambda c:[I(c.this)],ensures=lambda c:[('last value or absent',c.ret==val(c.this,c.a(0),[c.a(1+i) for i in range(depth)]))]))
    C.append(Contract(q+'get_invp',requires=lambda c:[I(c.this)],ensures=lambda c:[('absent is zero',c.ret==If(val(c.this,c.a(0),[c.a(1+i) for i in range(depth)])==INV,0,val(c.this,c.a(0),[c.a(1+i) for i in range(depth)])))]))
    C.append(Contract(q+'get_invlogp',requires=lambda c:[I(c.this)],ensures=lambda c:[('absent is zero probability',c.ret==If(val(c.this,c.a(0),[c.a(1+i) for i in range(depth)])==INV,RealVal(-99999),val(c.this,c.a(0),[c.a(1+i) for i in range(depth)])))]))
    js=lambda c:[c.old.a(1+i) for i in range(depth)]
    for nm,ab in (('get_fast',INV),('get_invp_fast',0),('get_invlogp_fast',RealVal(-99999))):
        C.append(Contract(q+nm,requires=lambda c:[Implies(mx(c.this)>0,incell(c.this,c.a(0),[c.a(1+i) for i in range(depth)]))],ensures=lambda c,ab=ab:[('cell',c.ret==If(mx(c.old.this)>0,If(cell(c.old.this,c.a(0),js(c))==INV,ab,cell(c.old.this,c.a(0),js(c))),ab))]))
    # writing
    def setview(o,t,n,js,f):
        hit=And(N==n,*[a==b for a,b in zip(JS,js)])
        return ForAll([N]+JS,Implies(And(N>=0,*[j>=0 for j in JS]),val(t,N,JS)==If(hit,f,If(evicted(o,n,N),INV,val(o,N,JS)))),patterns=[arrs(t,N,JS)] if 0 else [])
    # contents per slot (proved) and the view derived from it
    def slotset(o,t,np,js,f,fresh):
        hit=And(P==np,*[a==b for a,b in zip(JS,js)])
        return ForAll([P]+JS,Implies(And(P>=0,*[j>=0 for j in JS]),cell(t,P,JS)==If(hit,f,If(And(P==np,fresh),INV,cell(o,P,JS)))),patterns=[arrs(t,P,JS)])
    samecells=lambda c:ForAll([P]+JS,Implies(And(P>=0,*[j>=0 for j in JS]),cell(c.this,P,JS)==cell(c.le.this,P,JS)),patterns=[arrs(c.this,P,JS),arrs(c.le.this,P,JS)])
    ginv=[('cells kept',[],samecells),('size',[],lambda c:A(c.this).len>=A(c.le.this).len),('unused slots stay empty',[],lambda c:ForAll([P],Implies(And(P>=A(c.le.this).len,P<A(c.this).len),A(c.this)[P].len==0),patterns=[Select(A(c.this).arr,P)])),
          ('old slots kept',[],lambda c:ForAll([P],Implies(And(P>=0,P<A(c.le.this).len,P!=slot(c.this,c.a(0))),un(A(c.this)[P])==un(A(c.le.this)[P])),patterns=[Select(A(c.this).arr,P)]))]
    def rows(d):
        def f(c):
            x,y=A(c.this)[slot(c.this,c.a(0))],A(c.le.this)[slot(c.this,c.a(0))]
            for m in range(d): x,y=x[c.a(1+m)],y[c.a(1+m)]
            return x.len>=y.len
        return ('row %d only grows'%d,[],f)
    ginv+=[rows(d) for d in range(depth)]
    C.append(Contract(q+'set',modifies=('this',),requires=lambda c:[I(c.this)],invs=ginv,ensures=lambda c:[('nothing stored without capacity',Implies(mx(c.old.this)==0,un(c.this)==un(c.old.this))),
        ('value stored',Implies(mx(c.old.this)>0,val(c.this,c.old.a(0),js(c))==c.old.a(depth+1))),
        ('only that cell changes, and the oldest sentence is dropped when a slot is needed',Implies(mx(c.old.this)>0,setview(c.old.this,c.this,c.old.a(0),js(c),c.old.a(depth+1)))),
        ('sentence held',Implies(mx(c.old.this)>0,mapped(c.this,c.old.a(0))))]+[('invariant: '+k,v) for k,v in inv(c.this)]))
    C.append(Contract(q+'set_fast',modifies=('this.'+mat,),requires=lambda c:[I(c.this),Implies(mx(c.this)>0,incell(c.this,c.a(0),[c.a(1+i) for i in range(depth)])),Or(unres(c.this),mx(c.this)==0,used(c.this,c.a(0)))],ensures=lambda c:[('one cell of the slot set',Implies(mx(c.old.this)>0,slotset(c.old.this,c.this,c.old.a(0),js(c),c.old.a(depth+1),BoolVal(False)))),('nothing stored without capacity',Implies(mx(c.old.this)==0,un(c.this)==un(c.old.this)))]+[('invariant: '+k,v) for k,v in inv(c.this)]))
    none=lambda c:[('nothing held',And(A(c.this).len==0,n2p(c.this).len==0,p2n(c.this).len==0,ptr(c.this)==0))]+[('invariant: '+k,v) for k,v in inv(c.this)]
    C.append(Contract(q+'clear',modifies=('this',),ensures=lambda c:none(c)+[('capacity kept',mx(c.this)==mx(c.old.this))]))
    C.append(Contract(q+'set_maxnsize',modifies=('this',),ensures=lambda c:none(c)+[('capacity set',mx(c.this)==c.old.a(0))]))
    C.append(Contract(q+cls,modifies=('this',),ensures=lambda c:none(c)+[('unlimited',unres(c.this))]))
    C.append(Contract(q+'get_maxnsize',ensures=lambda c:[('capacity',c.ret==mx(c.this))]))
    C.append(Contract(q+'n_size',ensures=lambda c:[('slots',c.ret==A(c.this).len)]))
    def rz(t,p,ns,tl):
        e=A(t)[p]; r=Or(A(t).len<=p,e.len<=tl,e[0].len<=ns)
        return Or(r,e[0][0].len<=ns) if depth==3 else r
    rzreq=(lambda c:[]) if depth==2 else (lambda c:[])
    C.append(Contract(q+'resizeIsRequired',requires=rzreq,ensures=lambda c:[('room decided from the entry',c.ret==rz(c.this,c.a(0),c.a(1),c.a(2)))]))
    def initens(c):
        o,t,n,np=c.old.this,c.this,c.old.a(0),c.a(3); on=mx(o)>0
        return [
          ('slot of the sentence returned',Implies(on,And(mapped(t,n),np==slot(t,n)))),
          ('other sentences kept except the dropped oldest one',Implies(on,ForAll([N]+JS,Implies(And(N>=0,N!=n,*[j>=0 for j in JS]),val(t,N,JS)==If(evicted(o,n,N),INV,val(o,N,JS)))))),
          ('values of the sentence kept or all absent',Implies(on,Or(ForAll(JS,Implies(And(*[j>=0 for j in JS]),val(t,n,JS)==val(o,n,JS))),ForAll(JS,Implies(And(*[j>=0 for j in JS]),val(t,n,JS)==INV))))),
          ('a held sentence with room keeps its values',Implies(And(on,mapped(o,n),Not(rz(o,slot(o,n),c.a(1),c.a(2)))),ForAll(JS,Implies(And(*[j>=0 for j in JS]),val(t,n,JS)==val(o,n,JS))))),
          ('nothing changes without capacity',Implies(Not(on),un(t)==un(o)))]+[('invariant: '+k,v) for k,v in inv(t)]
    C.append(Contract(q+'init_nth_entry',modifies=('this','arg3'),requires=lambda c:[I(c.this),c.a(0)<UN-1,c.a(1)<UN-1,c.a(2)<UN-1],ensures=initens))
    # reset: loops over slots / rows / (rows of rows)
    def lexlt(vs,hs): # position vs lies before the loop position hs (lexicographic)
        r=BoolVal(False)
        for k in range(len(hs)): r=Or(r,And(*[vs[m]==hs[m] for m in range(k)],vs[k]<hs[k]))
        return r
    def rinv(nh):
        ks=[P]+JS
        return ('values before the position are absent (%d)'%nh,['I']*nh,lambda c,*h:And(*[x.cur>=0 for x in h],ForAll(ks,Implies(And(P>=0,*[j>=0 for j in JS],lexlt(ks,[x.cur for x in h])),cell(c.this,P,JS)==INV),patterns=[arrs(c.this,P,JS),arrs(c.le.this,P,JS)])))
    shape=[('slot sizes kept',[],lambda c:ForAll([P],Implies(And(P>=0,P<A(c.this).len),A(c.this)[P].len==A(c.old.this)[P].len),patterns=[Select(A(c.this).arr,P)]))]
    C.append(Contract(q+'reset_entries',modifies=('this.'+mat,),requires=lambda c:[I(c.this)],invs=[rinv(k) for k in range(1,depth+1)]+shape,
      ensures=lambda c:[('all values absent',Implies(mx(c.this)>0,ForAll([P]+JS,Implies(And(P>=0,*[j>=0 for j in JS]),cell(c.this,P,JS)==INV),patterns=[arrs(c.this,P,JS)]))),('number of slots kept',A(c.this).len==A(c.old.this).len)]+[('invariant: '+k,v) for k,v in inv(c.this)]))
make('anjiMatrix','anji',2,None)
make('anjm1ip_anjiMatrix','anjm1ip_anji',3,None)
CONTRACTS=C
