from spec import *
PROPS=('P01','P02')
TU=dict(src='nlp_common/WordAligMatrix.cc')
def dims(m): return [m.matrix.len==m.I, forall2(lambda i,_: Implies(inr(i,m.I), m.matrix[i].len==m.J))]
def wf(m):
    i=Int('wi')
    return And(m.matrix.len>=m.I, ForAll([i],Implies(And(0<=i,i<m.I), vlen(vsel(m.matrix.t,i))==m.J),patterns=[vsel(m.matrix.t,i)]))
def cell(m,i,j): return vsel(vsel(m.matrix.t,i),j)
def same(a,b): return And(a.I==b.I,a.J==b.J)
def allcells(m,f,pat=None):
    i,j=Ints('ci cj')
    return ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J),f(i,j)),patterns=[cell(pat or m,i,j)])
def doneinv(F):
    """rows before i, and row i before j, are final; the rest is untouched"""
    def inv(c,hi,hj=None):
        m=c.this; m0=c.old.this; i,j=Ints('ii ij')
        d=i<hi.cur if hj is None else Or(i<hi.cur,And(i==hi.cur,j<hj.cur))
        return ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J), If(d,cell(m,i,j)==F(c,i,j),cell(m,i,j)==cell(m0,i,j))),patterns=[cell(m,i,j)])
    return [('done1',['I'],inv),('done2',['I','I'],inv),('dims',[],lambda c:And(c.this.I==c.old.this.I,c.this.J==c.old.this.J,wf(c.this)))]
VV=vec(vec(I_)); AA=VV
CFREE=Function('colfree',VV,IntSort(),IntSort(),BoolSort()); CW=Function('colwit',VV,IntSort(),IntSort(),IntSort())
RFREE=Function('rowfree',VV,IntSort(),IntSort(),BoolSort()); RW=Function('rowwit',VV,IntSort(),IntSort(),IntSort())
DIFF=Function('diff',VV,VV,IntSort(),IntSort(),BoolSort()); DI=Function('diffi',VV,VV,IntSort(),IntSort(),IntSort()); DJ=Function('diffj',VV,VV,IntSort(),IntSort(),IntSort())
def defs(c):
    """definitions (with witnesses) of: column j of the first I rows is zero; row i of the first J columns is zero; two matrices differ in some cell"""
    a,b=Const('da',VV),Const('db',VV); i,j,k,n,m=Ints('di dj dk dn dm'); ce=lambda a,i,j: vsel(vsel(a,i),j)
    return [ForAll([a,j,n,k],Implies(And(CFREE(a,j,n),0<=k,k<n),ce(a,k,j)==0),patterns=[MultiPattern(CFREE(a,j,n),ce(a,k,j))]),
            ForAll([a,j,n],Or(CFREE(a,j,n),And(0<=CW(a,j,n),CW(a,j,n)<n,ce(a,CW(a,j,n),j)!=0)),patterns=[CFREE(a,j,n)]),
            ForAll([a,i,n,k],Implies(And(RFREE(a,i,n),0<=k,k<n),ce(a,i,k)==0),patterns=[MultiPattern(RFREE(a,i,n),ce(a,i,k))]),
            ForAll([a,i,n],Or(RFREE(a,i,n),And(0<=RW(a,i,n),RW(a,i,n)<n,ce(a,i,RW(a,i,n))!=0)),patterns=[RFREE(a,i,n)]),
            ForAll([a,b,n,m,i,j],Implies(And(Not(DIFF(a,b,n,m)),0<=i,i<n,0<=j,j<m),ce(a,i,j)==ce(b,i,j)),patterns=[MultiPattern(DIFF(a,b,n,m),ce(a,i,j)),MultiPattern(DIFF(a,b,n,m),ce(b,i,j))]),
            ForAll([a,b,n,m],Implies(DIFF(a,b,n,m),And(0<=DI(a,b,n,m),DI(a,b,n,m)<n,0<=DJ(a,b,n,m),DJ(a,b,n,m)<m,ce(a,DI(a,b,n,m),DJ(a,b,n,m))!=ce(b,DI(a,b,n,m),DJ(a,b,n,m)))),patterns=[DIFF(a,b,n,m)])]
GROW={t:Function('grow%d'%t,VV,IntSort(),IntSort(),IntSort(),IntSort(),BoolSort()) for t in (0,1)}
def nbr(a,I,J,i,j,h=True,v=True):
    l=[]; ce=lambda i,j: vsel(vsel(a,i),j)
    if v: l+=[And(i>0,ce(i-1,j)!=0),And(i<I-1,ce(i+1,j)!=0)]
    if h: l+=[And(j>0,ce(i,j-1)!=0),And(j<J-1,ce(i,j+1)!=0)]
    return Or(*l)
def growdef(two):
    a=Const('da',VV); I,J,i,j=Ints('dI dJ di dj')
    x=nbr(a,I,J,i,j)
    if two: x=And(x,Not(And(nbr(a,I,J,i,j,v=False),nbr(a,I,J,i,j,h=False))))
    g=GROW[int(two)](a,I,J,i,j)
    return [ForAll([a,I,J,i,j],g==Or(And(RFREE(a,i,J),CFREE(a,j,I)),x),patterns=[g])]
def rowfree(m,i): return RFREE(m.matrix.t,i,m.J)
def colfree(m,j): return CFREE(m.matrix.t,j,m.I)
C=[]
def cellop(q,F,nparams=1,cond=True):
    def ens(c):
        m=c.this; m0=c.old.this
        if nparams==1:
            o=c.old.a(0); ok=same(m0,o)
            return [('dims',And(same(m,m0),wf(m))),('cells',Implies(ok,allcells(m,lambda i,j: cell(m,i,j)==F(c,i,j)))),
                    ('unchanged if dimensions differ',Implies(Not(ok),m.t==m0.t))]
        return [('dims',And(same(m,m0),wf(m))),('cells',allcells(m,lambda i,j: cell(m,i,j)==F(c,i,j)))]
    C.append(Contract('WordAligMatrix::'+q,nparams=nparams,requires=lambda c:[wf(c.this)]+([wf(c.a(0))] if nparams==1 else []),
      ensures=ens,modifies=('this',),invs=doneinv(F),returns='this' if (nparams==1 or q=='flip') else None))
b=lambda x: x!=0
cellop('operator&=',lambda c,i,j: If(And(b(cell(c.old.this,i,j)),b(cell(c.old.a(0),i,j))),cell(c.old.this,i,j),0))
cellop('operator|=',lambda c,i,j: If(Or(b(cell(c.old.this,i,j)),b(cell(c.old.a(0),i,j))),1,0))
cellop('operator^=',lambda c,i,j: If(Xor(b(cell(c.old.this,i,j)),b(cell(c.old.a(0),i,j))),1,0))
cellop('operator+=',lambda c,i,j: (cell(c.old.this,i,j)+cell(c.old.a(0),i,j))%2**32)
cellop('operator-=',lambda c,i,j: If(And(b(cell(c.old.this,i,j)),Not(b(cell(c.old.a(0),i,j)))),1,0))
cellop('flip',lambda c,i,j: If(cell(c.old.this,i,j)==0,1,0),nparams=0)
cellop('reset',lambda c,i,j: IntVal(0),nparams=0)
cellop('set',lambda c,i,j: IntVal(1),nparams=0)
C.append(Contract('WordAligMatrix::jAligned',requires=lambda c:[wf(c.this),c.a(0)<c.this.J],
  lemmas=defs,ensures=lambda c:[('def',c.ret==Not(colfree(c.this,c.a(0))))],
  invs=[('none before',['I'],lambda c,h: forall_i(h.cur,lambda i: cell(c.this,i,c.a(0))==0))]))
C.append(Contract('WordAligMatrix::iAligned',requires=lambda c:[wf(c.this),c.a(0)<c.this.I],
  lemmas=defs,ensures=lambda c:[('def',c.ret==Not(rowfree(c.this,c.a(0))))],
  invs=[('none before',['I'],lambda c,h: forall_i(h.cur,lambda j: cell(c.this,c.a(0),j)==0))]))

# ---- construction, assignment, conversion ----
def eqcells(a,b): return And(same(a,b),allcells(a,lambda i,j: cell(a,i,j)==cell(b,i,j)))
C.append(Contract('WordAligMatrix::clear',modifies=('this',),requires=lambda c:[wf(c.this)],ensures=lambda c:[('empty',And(c.this.I==0,c.this.J==0))]))
C.append(Contract('WordAligMatrix::init',modifies=('this',),requires=lambda c:[wf(c.this)],
  ensures=lambda c:[('dims',And(c.this.I==c.a(0),c.this.J==c.a(1),wf(c.this))),('zero',allcells(c.this,lambda i,j: cell(c.this,i,j)==0))],
  invs=[('rows',['I'],lambda c,h: And(c.this.matrix.len>=c.this.I,ForAll([Int('ri')],Implies(And(0<=Int('ri'),Int('ri')<h.cur),vlen(vsel(c.this.matrix.t,Int('ri')))==c.this.J),patterns=[vsel(c.this.matrix.t,Int('ri'))]))),
        ('dims',[],lambda c: And(c.this.I==c.a(0),c.this.J==c.a(1)))]))
C.append(Contract('WordAligMatrix::operator=',modifies=('this',),returns='this',requires=lambda c:[wf(c.this),wf(c.a(0))],
  ensures=lambda c:[('copy',And(wf(c.this),eqcells(c.this,c.old.a(0))))],
  invs=doneinv(lambda c,i,j: cell(c.a(0),i,j))[2:]+[('copied rows',['I'],lambda c,h: copied(c,h)),('copied',['I','I'],lambda c,h,g: copied(c,h,g)),('dims',[],lambda c:And(wf(c.this),same(c.this,c.a(0))))]))
def copied(c,hi,hj=None):
    i,j=Ints('ii ij'); m=c.this
    d=i<hi.cur if hj is None else Or(i<hi.cur,And(i==hi.cur,j<hj.cur))
    return ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J,d),cell(m,i,j)==cell(c.a(0),i,j)),patterns=[cell(m,i,j)])
C.append(Contract('WordAligMatrix::WordAligMatrix',nparams=0,modifies=('this',),ensures=lambda c:[('empty',And(c.this.I==0,c.this.J==0,wf(c.this)))]))
C.append(Contract('WordAligMatrix::WordAligMatrix',nparams=2,modifies=('this',),ensures=lambda c:[('dims',And(c.this.I==c.a(0),c.this.J==c.a(1),wf(c.this))),('zero',allcells(c.this,lambda i,j: cell(c.this,i,j)==0))]))
C.append(Contract('WordAligMatrix::WordAligMatrix',nparams=1,modifies=('this',),requires=lambda c:[wf(c.a(0))],ensures=lambda c:[('copy',And(wf(c.this),eqcells(c.this,c.old.a(0))))],
  invs=[('copied rows',['I'],lambda c,h: copied(c,h)),('copied',['I','I'],lambda c,h,g: copied(c,h,g)),('dims',[],lambda c:And(wf(c.this),same(c.this,c.a(0))))]))
C.append(Contract('WordAligMatrix::operator==',requires=lambda c:[wf(c.this),wf(c.a(0))],ensures=lambda c:[('def',c.ret==eqcells(c.this,c.a(0)))],
  invs=[('equal rows',['I'],lambda c,h: copied(c,h)),('equal',['I','I'],lambda c,h,g: copied(c,h,g))]))
C.append(Contract('WordAligMatrix::getValue',requires=lambda c:[wf(c.this),c.a(0)<c.this.I,c.a(1)<c.this.J],ensures=lambda c:[('def',c.ret==cell(c.this,c.a(0),c.a(1)))]))
def setter(val):
    def ens(c):
        m,m0=c.this,c.old.this; x,y=c.a(0),c.a(1)
        i,j=Ints('ci cj'); return [('cells',And(same(m,m0),Implies(And(0<=x,x<m.I,0<=y,y<m.J),cell(m,x,y)==val(c)),wf(m),ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J),cell(m,i,j)==If(And(i==x,j==y),val(c),cell(m0,i,j))),patterns=[cell(m,i,j),cell(m0,i,j)])))]
    return ens
C.append(Contract('WordAligMatrix::set',nparams=2,modifies=('this',),requires=lambda c:[wf(c.this)],ensures=setter(lambda c: IntVal(1))))
C.append(Contract('WordAligMatrix::setValue',modifies=('this',),requires=lambda c:[wf(c.this)],ensures=setter(lambda c: c.a(2))))
# alignment vectors: entry j of the vector is 1 + the source position linked to target position j, or 0
def pav(c):
    m,m0,v=c.this,c.old.this,c.old.a(0)
    return [('cells',And(same(m,m0),wf(m),allcells(m,lambda i,j: cell(m,i,j)==If(And(v.len==m0.J,v[j]==i+1),1,cell(m0,i,j)))))]
def pavinv(c,h):
    m,m0,v=c.this,c.old.this,c.a(0); i,j=Ints('ii ij')
    return ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J),cell(m,i,j)==If(And(j<h.cur,v[j]==i+1),1,cell(m0,i,j))),patterns=[cell(m,i,j)])
C.append(Contract('WordAligMatrix::putAligVec',modifies=('this',),requires=lambda c:[wf(c.this),Implies(c.a(0).len==c.this.J,forall_i(c.a(0).len,lambda k: And(0<=c.a(0)[k],c.a(0)[k]<=c.this.I)))],
  ensures=pav,invs=[('written',['I'],pavinv),('dims',[],lambda c:And(c.this.I==c.old.this.I,c.this.J==c.old.this.J,wf(c.this)))]))
def isalig(m,v,j):
    """v[j] describes column j"""
    i=Int('ai'); k=Int('ak')
    return And(0<=v[j],v[j]<=m.I,ForAll([i],Implies(And(0<=i,i<m.I),(cell(m,i,j)!=0)==(v[j]==i+1)),patterns=[cell(m,i,j)]))
def multi(m,n):
    """some column before n has two links"""
    a,b,j=Ints('ma mb mj')
    return Exists([a,b,j],And(0<=a,a<b,b<m.I,0<=j,j<n,cell(m,a,j)!=0,cell(m,b,j)!=0))
def gavinv(c,h):
    v=c.a(0); m=c.this; j=Int('gj')
    return And(v.len==h.cur,ForAll([j],Implies(And(0<=j,j<h.cur),isalig(m,v,j)),patterns=[v[j]]))
def gavinv2(c,hj,hi):
    v=c.a(0); m=c.this; j,i=Ints('gj gi'); J=hj.cur
    return And(v.len==J+1,ForAll([j],Implies(And(0<=j,j<J),isalig(m,v,j)),patterns=[v[j]]),0<=v[J],v[J]<=hi.cur,
               ForAll([i],Implies(And(0<=i,i<hi.cur),(cell(m,i,J)!=0)==(v[J]==i+1)),patterns=[cell(m,i,J)]))
C.append(Contract('WordAligMatrix::getAligVec',modifies=('arg0',),requires=lambda c:[wf(c.this)],
  ensures=lambda c:[('representable',c.ret==Not(multi(c.this,c.this.J))),('unchanged',c.this.t==c.old.this.t),
     ('vector',Implies(c.ret,And(c.a(0).len==c.this.J,ForAll([Int('vj')],Implies(inr(Int('vj'),c.this.J),isalig(c.this,c.a(0),Int('vj')))))))],
  invs=[('columns',['I'],gavinv),('column',['I','I'],gavinv2)]))
def tr(c):
    m,m0=c.this,c.old.this; i,j=Ints('ci cj')
    return [('dims',And(m.I==m0.J,m.J==m0.I,wf(m))),('cells',ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J),cell(m,i,j)==cell(m0,j,i)),patterns=[cell(m,i,j)]))]
def trinv(c,w,hi,hj=None):
    a=w.cur; m=c.this; i,j=Ints('ii ij')
    d=i<hi.cur if hj is None else Or(i<hi.cur,And(i==hi.cur,j<hj.cur))
    return And(a.I==m.J,a.J==m.I,wf(a),ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J,d),cell(a,j,i)==cell(m,i,j)),patterns=[cell(a,j,i)]))
def trinv2(c,w,hi,hj=None):
    a=w.cur; m=c.this; i,j=Ints('ii ij')
    d=i<hi.cur if hj is None else Or(i<hi.cur,And(i==hi.cur,j<hj.cur))
    return And(a.I==m.J,a.J==m.I,wf(a),ForAll([i,j],Implies(And(0<=i,i<a.I,0<=j,j<a.J,d),cell(a,i,j)==cell(m,j,i)),patterns=[cell(a,i,j)]))
isW=lambda r,v,mod: not r.startswith(('waM','ref:')) and isinstance(v,z3.ExprRef) and v.sort().name()=='WordAligMatrix'
C.append(Contract('WordAligMatrix::transpose',modifies=('this',),requires=lambda c:[wf(c.this)],ensures=tr,returns=None,
  invs=[('rows done',[isW,'I'],trinv),('done',[isW,'I','I'],trinv),('rows done T',[isW,'I'],trinv2),('done T',[isW,'I','I'],trinv2),('dims',[],lambda c:And(wf(c.this),same(c.this,c.old.this)))]))
# ---- symmetrisation ----
def nb(m,i,j,h=True,v=True): return nbr(m.matrix.t,m.I,m.J,i,j,h,v)
inm=lambda c:[wf(c.this),c.a(0)<c.this.I,c.a(1)<c.this.J]
C.append(Contract('WordAligMatrix::ijInNeighbourhood',requires=inm,ensures=lambda c:[('def',c.ret==nb(c.this,c.a(0),c.a(1)))]))
C.append(Contract('WordAligMatrix::ijHasHorizNeighbours',requires=inm,ensures=lambda c:[('def',c.ret==nb(c.this,c.a(0),c.a(1),v=False))]))
C.append(Contract('WordAligMatrix::ijHasVertNeighbours',requires=inm,ensures=lambda c:[('def',c.ret==nb(c.this,c.a(0),c.a(1),h=False))]))
def grows(m,i,j,two): return GROW[int(two)](m.matrix.t,m.I,m.J,i,j)
def union(x,y,i,j): return Or(cell(x,i,j)!=0,cell(y,i,j)!=0)
def inter(x,y,i,j): return And(cell(x,i,j)!=0,cell(y,i,j)!=0)
def symens(two):
    def ens(c):
        m,x,y=c.this,c.old.this,c.old.a(0); ok=same(x,y)
        return [('unchanged if dimensions differ',Implies(Not(ok),m.t==x.t)),('dims',And(same(m,x),wf(m))),('other operand unchanged',c.a(0).t==y.t),
                ('contains intersection',Implies(ok,allcells(m,lambda i,j: Implies(inter(x,y,i,j),cell(m,i,j)!=0)))),
                ('inside union',Implies(ok,allcells(m,lambda i,j: Implies(cell(m,i,j)!=0,union(x,y,i,j))))),
                ('fixed point',Implies(ok,allcells(m,lambda i,j: Implies(And(union(x,y,i,j),cell(m,i,j)==0),Not(grows(m,i,j,two))))))]
    return ens
def between(c):
    m,x,y=c.this,c.old.this,c.a(0)
    return And(same(m,x),wf(m),allcells(m,lambda i,j: Implies(inter(x,y,i,j),cell(m,i,j)!=0)),allcells(m,lambda i,j: Implies(cell(m,i,j)!=0,union(x,y,i,j))))
def stable(c,p,two,hi=None,hj=None):
    m,x,y=c.this,c.old.this,c.a(0); i,j=Ints('ti tj')
    d=BoolVal(True) if hi is None else i<hi.cur if hj is None else Or(i<hi.cur,And(i==hi.cur,j<hj.cur))
    return Or(Not(same(m,p.cur)),DIFF(m.matrix.t,p.cur.matrix.t,m.I,m.J),ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J,d,union(x,y,i,j),cell(m,i,j)==0),Not(grows(m,i,j,two))),patterns=[grows(m,i,j,two)]))
def mono(c,p): return And(same(c.this,p.cur),wf(p.cur),allcells(c.this,lambda i,j: Implies(cell(c.this,i,j)==0,cell(p.cur,i,j)==0)))
def iscopy(c,w): return And(wf(w.cur),eqcells(w.cur,c.old.this))
for q,two in (('symmetr1',False),('symmetr2',True)):
    C.append(Contract('WordAligMatrix::'+q,lemmas=lambda c,t=two: defs(c)+growdef(t),modifies=('this',),returns='this',requires=lambda c:[wf(c.this),wf(c.a(0))],ensures=symens(two),
      invs=[('between',[],between),('copy',[isW],iscopy),('wf',[isW],lambda c,w: wf(w.cur)),('only grows',[isW],mono),
        ('stable',[isW],lambda c,p,t=two: stable(c,p,t)),('stable rows',[isW,'I'],lambda c,p,h,t=two: stable(c,p,t,h)),('stable cells',[isW,'I','I'],lambda c,p,h,g,t=two: stable(c,p,t,h,g))]))
def adj(c):
    v=c.ret; k=Int('nk'); p=lambda k: v[k]
    return [('in range',ForAll([k],Implies(inr(k,v.len),And(v[k].first>=0,v[k].first<c.this.I,v[k].second>=0,v[k].second<c.this.J))))]
C.append(Contract('WordAligMatrix::obtainAdjacentCells',requires=lambda c:inm(c)+[c.this.I<2**31,c.this.J<2**31],ensures=adj,
   invs=[('in range',['vec'],lambda c,v: ForAll([Int('nk')],Implies(inr(Int('nk'),v.cur.len),And(v.cur[Int('nk')].first>=0,v.cur[Int('nk')].first<c.this.I,v.cur[Int('nk')].second>=0,v.cur[Int('nk')].second<c.this.J)),patterns=[v.cur[Int('nk')].t]))]))
def gdf(c):
    m,x,y=c.this,c.old.this,c.old.a(0); ok=same(x,y)
    return symens(False)(c)[:5]+[('no union link left free',Implies(ok,allcells(m,lambda i,j: Implies(union(x,y,i,j),And(Not(rowfree(m,i)),Not(colfree(m,j)))))))]
def fin(c,which,hi,hj=None):
    m=c.this; o=c.old.this if which==0 else c.a(0); i,j=Ints('ti tj')
    d=BoolVal(True) if hi is None else i<hi.cur if hj is None else Or(i<hi.cur,And(i==hi.cur,j<hj.cur))
    return ForAll([i,j],Implies(And(0<=i,i<m.I,0<=j,j<m.J,d,cell(o,i,j)!=0),And(Not(rowfree(m,i)),Not(colfree(m,j)))),patterns=[cell(o,i,j)])
C.append(Contract('WordAligMatrix::growDiagFinal',lemmas=defs,modifies=('this',),returns='this',requires=lambda c:[wf(c.this),wf(c.a(0)),c.this.I<2**31,c.this.J<2**31],ensures=gdf,
   invs=[('between',[],between),('copy',[isW],iscopy),('wf',[isW],lambda c,w: And(wf(w.cur),same(w.cur,c.this))),
         ('join',[isW],lambda c,w: allcells(w.cur,lambda i,j: (cell(w.cur,i,j)!=0)==union(c.old.this,c.a(0),i,j)))]+
        [('final%d rows'%w,['I'],lambda c,h,w=w: fin(c,w,h)) for w in (0,1)]+[('final%d'%w,['I','I'],lambda c,h,g,w=w: fin(c,w,h,g)) for w in (0,1)]+
        [('final0 all',[],lambda c: fin(c,0,None))]))
CONTRACTS=C
P1={'symmetr1','symmetr2','growDiagFinal','obtainAdjacentCells','ijInNeighbourhood','ijHasHorizNeighbours','ijHasVertNeighbours'}
for c in C:
    n=c.q.split('::')[1]
    c.props=('P02',) if n in P1 else ('P01','P02') if n in ('jAligned','iAligned','operator&=','operator|=','operator=','operator==','set','getValue','reset') else ('P01',)
