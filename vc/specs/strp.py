from spec import *
PROPS=('P22',)
TU=dict(src='nlp_common/StrProcUtils.cc')
STR=vec(I_); A=ArraySort(I_,I_)
# word structure of the first n characters of an array: blank class t (0: ' ' only, 1: ' ' or tab)
NW=Function('nwords',A,IntSort(),IntSort(),IntSort())     # number of words that start before position k
ST=Function('wstart',A,IntSort(),IntSort(),IntSort())     # start of word w
def blank(t,x): return x==32 if t==0 else Or(x==32,x==9)
def wst(t,a,k): return And(Not(blank(t,Select(a,k))),Or(k==0,blank(t,Select(a,k-1))))
def stepf(t,a,k): return And(NW(a,IntVal(t),k+1)==NW(a,IntVal(t),k)+If(wst(t,a,k),1,0),Implies(wst(t,a,k),ST(a,IntVal(t),NW(a,IntVal(t),k))==k))
def stepax(t,arr):
    k=Int('wk'); T=IntVal(t)
    return [NW(arr,T,0)==0,stepf(t,arr,IntVal(0)),ForAll([k],Implies(k>=0,stepf(t,arr,k)),patterns=[Select(arr,k)])]
def isword(t,a,n,w,v):
    """v is word w of a[0..n): a maximal run of non-blank characters"""
    b=ST(a,IntVal(t),w); k=Int('ck'); m=v.len
    return And(0<=b,m>0,b+m<=n,NW(a,IntVal(t),b)==w,Or(b==0,blank(t,Select(a,b-1))),Or(b+m==n,blank(t,Select(a,b+m))),
      ForAll([k],Implies(And(0<=k,k<m),And(v[k]==Select(a,b+k),Not(blank(t,v[k])))),patterns=[Select(v.arr,k)]))
def allwords(t,a,n,v,lo=None):
    w=Int('ww'); return ForAll([w],Implies(And(0<=w,w<v.len),isword(t,a,n,w,v[w])),patterns=[Select(v.arr,w)])
isVS=lambda r,v,mod: isinstance(v,z3.ExprRef) and v.sort()==vec(vec(I_))
isS=lambda r,v,mod: isinstance(v,z3.ExprRef) and v.sort()==vec(I_) and mod
def splitter(t,src,n):
    T=IntVal(t)
    bd=lambda c,k: Or(k==0,k>=n(c),blank(t,Select(src(c),k-1)))
    return [('words so far',[isVS],lambda c,v: allwords(t,src(c),n(c),v.cur)),
            ('count at boundary',[isVS,'I'],lambda c,v,i: And(0<=i.cur,i.cur<=n(c),v.cur.len==NW(src(c),T,i.cur),Or(i.cur==0,i.cur>=n(c),blank(t,Select(src(c),i.cur-1)),))),
            ('count in word',[isVS,'I',isS],lambda c,v,i,x: And(0<=i.cur,i.cur<=n(c),i.cur-x.cur.len>=0,
                If(x.cur.len==0,And(v.cur.len==NW(src(c),T,i.cur),Or(i.cur==0,blank(t,Select(src(c),i.cur-1)),i.cur>=n(c))),
                   And(v.cur.len+1==NW(src(c),T,i.cur),ST(src(c),T,v.cur.len)==i.cur-x.cur.len,NW(src(c),T,i.cur-x.cur.len)==v.cur.len,Or(i.cur==x.cur.len,blank(t,Select(src(c),i.cur-x.cur.len-1))))),
                ForAll([Int('xk')],Implies(And(0<=Int('xk'),Int('xk')<x.cur.len),And(x.cur[Int('xk')]==Select(src(c),i.cur-x.cur.len+Int('xk')),Not(blank(t,x.cur[Int('xk')])))),patterns=[Select(x.cur.arr,Int('xk'))]),
                ForAll([Int('xp')],Implies(And(i.cur-x.cur.len<=Int('xp'),Int('xp')<i.cur),Not(blank(t,Select(src(c),Int('xp'))))),patterns=[Select(src(c),Int('xp'))]))),
            ('gap',['I'],lambda c,i: And(0<=i.cur,i.cur<=n(c),Or(i.cur==0,i.cur>=n(c),blank(t,Select(src(c),i.cur-1)),blank(t,Select(src(c),i.cur))))),
            ('after blanks',[isVS,'I'],lambda c,v,i: And(0<=i.cur,i.cur<=n(c),v.cur.len==NW(src(c),T,i.cur))),
            ('end flag',['B','I'],lambda c,b,i: b.cur==And(i.cur>=n(c),b.cur)),
            ('end reached',['B','I'],lambda c,b,i: Implies(b.cur,i.cur==n(c)))]
C=[]
P='StrProcUtils::'
def split_ens(t,src,n): return lambda c:[('number of words',c.ret.len==NW(src(c.old),IntVal(t),n(c.old))),('words',allwords(t,src(c.old),n(c.old),c.ret))]
C.append(Contract(P+'stringToStringVector',lemmas=lambda c:stepax(1,c.a(0).arr)+[Select(c.a(0).arr,c.a(0).len)==0],ensures=split_ens(1,lambda c:c.a(0).arr,lambda c:c.a(0).len),invs=splitter(1,lambda c:c.a(0).arr,lambda c:c.a(0).len)))
L=Int('cstrlen')
C.append(Contract(P+'charItemsToVector',mbqi=True,requires=lambda c:[0<=L,L<c.a(0).len,c.a(0)[L]==0,L<2**31,forall_i(L,lambda k:c.a(0)[k]!=0)],lemmas=lambda c:stepax(0,c.a(0).arr),
  ensures=split_ens(0,lambda c:c.a(0).arr,lambda c:L),invs=splitter(0,lambda c:c.a(0).arr,lambda c:L)))
# joining: the characters before word w take POS(v,w) positions
VS=vec(STR); POS=Function('joinpos',VS,IntSort(),IntSort(),IntSort())
def posax(v,g):
    w=Int('jw')
    return [POS(v,g,0)==0,ForAll([w],Implies(And(w>=0,w<vlen(v)),POS(v,g,w+1)==POS(v,g,w)+vlen(vsel(v,w))+g),patterns=[vsel(v,w)])]
def joined(g,v,n,r):
    w,k=Ints('jw jk')
    return And(POS(v.t,g,0)==0,r.len==POS(v.t,g,n)-g,ForAll([w,k],Implies(And(0<=w,w<n,0<=k,k<v[w].len),Select(r.arr,POS(v.t,g,w)+k)==v[w][k]),patterns=[v[w][k]]),
       ForAll([w],Implies(And(0<=w,w<n-1,g==1),Select(r.arr,POS(v.t,g,w)+v[w].len)==32),patterns=[vsel(v.t,w)]),
       ForAll([w],Implies(And(0<=w,w<n),And(POS(v.t,g,w)>=0,POS(v.t,g,w)+v[w].len<=r.len)),patterns=[vsel(v.t,w)]))
for f,g in (('stringVectorToString',1),('stringVectorToStringWithoutSpaces',0)):
    C.append(Contract(P+f,lemmas=lambda c,g=g:posax(c.a(0).t,IntVal(g)),requires=lambda c:[ForAll([Int('rw')],vlen(vsel(c.a(0).t,Int('rw')))>=0,patterns=[vsel(c.a(0).t,Int('rw'))])],
      ensures=lambda c,g=g:[('empty',Implies(c.old.a(0).len==0,c.ret.len==0)),('joined',Implies(c.old.a(0).len>0,joined(g,c.old.a(0),c.old.a(0).len,c.ret)))],
      invs=[('joined prefix',['I',isS],lambda c,i,r,g=g: And(i.cur>=1,i.cur<=c.a(0).len,joined(g,c.a(0),i.cur,r.cur)))]))
def pref(x,y):
    k=Int('pk'); return And(x.len<=y.len,ForAll([k],Implies(And(0<=k,k<x.len),x[k]==y[k]),patterns=[x[k]]))
C.append(Contract(P+'isPrefix',ensures=lambda c:[('literal prefix',c.ret==pref(c.old.a(0),c.old.a(1)))],
  invs=[('equal so far',['I'],lambda c,i: forall_i(i.cur,lambda k:c.a(0)[k]==c.a(1)[k]))]))
EQS=Function('eqstr',STR,STR,BoolSort()); PRS=Function('prefstr',STR,STR,BoolSort())
def seq(x,y):
    k=Int('sk'); return And(x.len==y.len,ForAll([k],Implies(And(0<=k,k<x.len),x[k]==y[k]),patterns=[x[k]]))
def prefv(x,y):
    w=Int('vw')
    return And(x.len<=y.len,ForAll([w],Implies(And(0<=w,w<x.len-1),seq(x[w],y[w])),patterns=[Select(x.arr,w)]),Implies(x.len>0,pref(x[x.len-1],y[x.len-1])))
C.append(Contract(P+'isPrefixStrVec',requires=lambda c:[ForAll([Int('rw')],vlen(vsel(c.a(j).t,Int('rw')))>=0,patterns=[vsel(c.a(j).t,Int('rw'))]) for j in (0,1)],ensures=lambda c:[('literal prefix',c.ret==prefv(c.old.a(0),c.old.a(1)))],
  invs=[('equal so far',['I'],lambda c,i: ForAll([Int('vw')],Implies(And(0<=Int('vw'),Int('vw')<i.cur,Int('vw')<c.a(0).len-1),seq(c.a(0)[Int('vw')],c.a(1)[Int('vw')])),patterns=[Select(c.a(0).arr,Int('vw'))])),
        ('last checked',['I'],lambda c,i: Implies(i.cur>=c.a(0).len,Implies(c.a(0).len>0,pref(c.a(0)[c.a(0).len-1],c.a(1)[c.a(0).len-1]))))]))
C.append(Contract(P+'lastCharIsBlank',ensures=lambda c:[('def',c.ret==And(c.a(0).len>0,c.a(0)[c.a(0).len-1]==32))]))
def rlb(c):
    x=c.old.a(0); r=c.ret; lb=And(x.len>0,x[x.len-1]==32); k=Int('bk')
    return [('length',r.len==If(lb,x.len-1,x.len)),('characters',ForAll([k],Implies(And(0<=k,k<r.len),r[k]==x[k])))]
C.append(Contract(P+'removeLastBlank',ensures=rlb))
C.append(Contract(P+'addBlank',ensures=lambda c:[('length',c.ret.len==c.old.a(0).len+1),('characters',ForAll([Int('bk')],Implies(And(0<=Int('bk'),Int('bk')<c.ret.len),c.ret[Int('bk')]==If(Int('bk')<c.old.a(0).len,c.old.a(0)[Int('bk')],32))))]))
def glw(c):
    x=c.old.a(0); r=c.ret; b,e,k=Ints('gb ge gk')
    nb=ForAll([k],Implies(And(0<=k,k<x.len),x[k]==32))
    return [('last maximal run of non-blanks',Or(And(r.len==0,nb),Exists([b],And(0<=b,r.len>0,b+r.len<=x.len,Or(b==0,x[b-1]==32),ForAll([k],Implies(And(b+r.len<=k,k<x.len),x[k]==32)),ForAll([k],Implies(And(0<=k,k<r.len),And(r[k]==x[b+k],r[k]!=32)))))))]
C.append(Contract(P+'getLastWord',ensures=glw,invs=[('blanks after',['I'],lambda c,i: And(i.cur>=0,i.cur<c.a(0).len,ForAll([Int('gk')],Implies(And(i.cur<Int('gk'),Int('gk')<c.a(0).len),c.a(0)[Int('gk')]==32)))),
   ('run',['I',isS],lambda c,i,r: And(i.cur>=0,i.cur+1+r.cur.len<=c.a(0).len,ForAll([Int('gk')],Implies(And(i.cur+1+r.cur.len<=Int('gk'),Int('gk')<c.a(0).len),c.a(0)[Int('gk')]==32)),
       ForAll([Int('gk')],Implies(And(0<=Int('gk'),Int('gk')<r.cur.len),And(r.cur[Int('gk')]==c.a(0)[i.cur+1+Int('gk')],r.cur[Int('gk')]!=32))))),
   ('run stops',['I',isS],lambda c,i,r: Or(r.cur.len>0,c.a(0)[i.cur]!=32,i.cur==0))]))
CONTRACTS=C
