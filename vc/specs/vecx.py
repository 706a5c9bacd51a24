from spec import *
from stl import log,exp
SMALL=RealVal(-99999)
PROPS=('P10',)
ASMAP=('TrieVecs',)
TU=dict(name='vecxinst',text='#include "Count.h"\n#include "LogCount.h"\n#include "NbestTableNode.h"\n#include "vecx_x_incr_cptable.h"\n#include "IncrCondProbTable.h"\ntemplate class vecx_x_incr_cptable<unsigned int,Count,Count>;\ntemplate class IncrCondProbTable<int,unsigned int,Count,Count>;\n')
VE=vec(I_)
C=[]
K=z3.Const('ck',VE); J,T=Ints('cj ct')
# counts as the user sees them: zero when the entry is not there
def joint(t,k): return If(t.srcTrgInfo.has(k),t.srcTrgInfo[k].x,RealVal(0))
def srcc(t,k): return If(t.srcInfo.has(k),t.srcInfo[k].x,RealVal(0))
KEY=Function('vx_key',VE,I_,VE)      # the sequence s followed by t
def keylem(s,t):
    k=KEY(un(s),t); k=mkV(k)
    return And(k.len==s.len+1,k[s.len]==t,ForAll([J],Implies(And(0<=J,J<s.len),k[J]==s[J]),patterns=[Select(k.arr,J),Select(s.arr,J)]),
               ForAll([J],Implies(Or(J<0,J>=k.len),k[J]==0),patterns=[Select(k.arr,J)]))
def copied(c,v): return And(v.len==I(c),ForAll([J],Implies(And(0<=J,J<v.len),v[J]==c.a(0)[J]),patterns=[Select(v.arr,J)]),ForAll([J],Implies(Or(J<0,J>=v.len),v[J]==0),patterns=[Select(v.arr,J)]))
CP=[('prefix copied',['mI','vec'],lambda c,i,v:And(i.cur>=0,i.cur<=c.a(0).len,v.cur.len==i.cur,
     ForAll([J],Implies(And(0<=J,J<v.cur.len),v.cur[J]==c.a(0)[J]),patterns=[Select(v.cur.arr,J)]),ForAll([J],Implies(Or(J<0,J>=v.cur.len),v.cur[J]==0),patterns=[Select(v.cur.arr,J)])))]
def L(c): return [keylem(c.old.a(0),c.old.a(1))]
Q='vecx_x_incr_cptable::'
def seq(v): return And(v.len>=0,ForAll([J],Implies(Or(J<0,J>=v.len),v[J]==0),patterns=[Select(v.arr,J)]))   # canonical sequence
def R(c): return [seq(c.a(0))]
def key(c): return KEY(un(c.old.a(0)),c.old.a(1))
def other_joint(c,k): return ForAll([K],Implies(K!=k,joint(c.this,K)==joint(c.old.this,K)),patterns=[c.this.srcTrgInfo.has(K),c.old.this.srcTrgInfo.has(K)])
def same_joint(c): return un(c.this.srcTrgInfo)==un(c.old.this.srcTrgInfo)
def same_src(c): return And(un(c.this.srcInfo)==un(c.old.this.srcInfo),c.this.srcInfoNull.x==c.old.this.srcInfoNull.x)
def src_upd(c,val):
    s=c.old.a(0); o=c.old.this; n=c.this
    return [('source total of s',If(s.len==0,n.srcInfoNull.x==val(o.srcInfoNull.x),srcc(n,un(s))==val(srcc(o,un(s))))),
            ('other source totals kept',ForAll([K],Implies(K!=un(s),srcc(n,K)==srcc(o,K)),patterns=[n.srcInfo.has(K),o.srcInfo.has(K)])),
            ('total of the empty source kept',Implies(s.len>0,n.srcInfoNull.x==o.srcInfoNull.x))]
def A(n,**k): C.append(Contract(Q+n,norm=True,requires=R,lemmas=L if n not in('addSrcInfo','getSrcInfo','cSrc','lcSrc') else None,invs=CP,**k))
A('addSrcInfo',modifies=('this',),ensures=lambda c:src_upd(c,lambda o:c.old.a(1).x)+[('joint counts kept',same_joint(c))])
A('addSrcTrgInfo',modifies=('this',),ensures=lambda c:[('joint count of the pair',And(c.this.srcTrgInfo.has(key(c)),joint(c.this,key(c))==c.old.a(2).x)),('other joint counts kept',other_joint(c,key(c))),('source totals kept',same_src(c))])
A('addTableEntry',nparams=3,modifies=('this',),ensures=lambda c:src_upd(c,lambda o:c.old.a(2).first.x)+[('joint count of the pair',joint(c.this,key(c))==c.old.a(2).second.x),('other joint counts kept',other_joint(c,key(c)))])
A('incrCountsOfEntryLog',modifies=('this',),ensures=lambda c:src_upd(c,lambda o:o+exp(c.old.a(2).x))+[('joint count of the pair grows by the amount',joint(c.this,key(c))==joint(c.old.this,key(c))+exp(c.old.a(2).x)),('other joint counts kept',other_joint(c,key(c)))])
def SRC(c): return If(c.old.a(0).len==0,c.old.this.srcInfoNull.x,srcc(c.old.this,un(c.old.a(0))))
A('infSrcTrg',modifies=('arg2',),ensures=lambda c:[('found exactly when stored',c.a(2)==c.old.this.srcTrgInfo.has(key(c))),('source total',c.ret.first.x==SRC(c)),('joint count',Implies(c.a(2),c.ret.second.x==joint(c.old.this,key(c))))])
A('getSrcInfo',modifies=('arg1',),ensures=lambda c:[('found exactly when stored',c.a(1)==Or(c.old.a(0).len==0,c.old.this.srcInfo.has(un(c.old.a(0))))),('source total',c.ret.x==SRC(c))])
A('getSrcTrgInfo',modifies=('arg2',),ensures=lambda c:[('found exactly when stored',c.a(2)==c.old.this.srcTrgInfo.has(key(c))),('joint count, zero when absent',c.ret.x==joint(c.old.this,key(c)))])
A('cSrcTrg',ensures=lambda c:[('joint count, zero when absent',c.ret.x==joint(c.old.this,key(c)))])
A('cSrc',ensures=lambda c:[('source total, zero when absent',c.ret.x==SRC(c))])
A('lcSrcTrg',ensures=lambda c:[('logarithm of the joint count',Implies(c.old.this.srcTrgInfo.has(key(c)),c.ret.x==log(joint(c.old.this,key(c))))),('absent: logarithm of zero',Implies(Not(c.old.this.srcTrgInfo.has(key(c))),c.ret.x==SMALL))])
A('lcSrc',ensures=lambda c:[('logarithm of the source total',Implies(Or(c.old.a(0).len==0,c.old.this.srcInfo.has(un(c.old.a(0)))),c.ret.x==log(SRC(c))))])
A('pTrgGivenSrc',ensures=lambda c:[('joint over source total',Implies(And(c.old.this.srcTrgInfo.has(key(c)),SRC(c)!=0),c.ret.x==joint(c.old.this,key(c))/SRC(c))),('zero for a pair or a source never seen',Implies(Or(Not(c.old.this.srcTrgInfo.has(key(c))),SRC(c)==0),c.ret.x==0))])
A('logpTrgGivenSrc',ensures=lambda c:[('logarithm of joint over source total',Implies(And(c.old.this.srcTrgInfo.has(key(c)),SRC(c)>0,log(SRC(c))>SMALL),c.ret.x==log(joint(c.old.this,key(c)))-log(SRC(c))))])
C.append(Contract(Q+'clear',modifies=('this',),ensures=lambda c:[('no joint counts',ForAll([K],Not(c.this.srcTrgInfo.has(K)),patterns=[c.this.srcTrgInfo.has(K)])),('no source totals',And(ForAll([K],Not(c.this.srcInfo.has(K)),patterns=[c.this.srcInfo.has(K)]),c.this.srcInfoNull.x==0))]))

# --- the same table over maps
Q2='IncrCondProbTable::'
KS,KT=Ints('iks ikt')
def ih(t,s,x): return And(t.table.has(x),t.table[x].has(s))
def ij(t,s,x): return If(ih(t,s,x),t.table[x][s].x,RealVal(0))
def isr(t,s): return If(t.srcDataInfo.has(s),t.srcDataInfo[s].x,RealVal(0))
def iother(c,s,x): return ForAll([KS,KT],Implies(Or(KS!=s,KT!=x),And(ij(c.this,KS,KT)==ij(c.old.this,KS,KT),ih(c.this,KS,KT)==ih(c.old.this,KS,KT))),patterns=[c.this.table[KT].has(KS)])
def isother(c,s): return ForAll([KS],Implies(KS!=s,isr(c.this,KS)==isr(c.old.this,KS)),patterns=[c.this.srcDataInfo.has(KS)])
def B(n,**k): C.append(Contract(Q2+n,norm=True,**k))
S_=lambda c:c.old.a(0); T_=lambda c:c.old.a(1)
B('addSrcInfo',modifies=('this',),ensures=lambda c:[('source total of s',isr(c.this,S_(c))==c.old.a(1).x),('other source totals kept',isother(c,S_(c))),('joint counts kept',un(c.this.table)==un(c.old.this.table))])
B('addSrcTrgInfo',modifies=('this',),ensures=lambda c:[('joint count of the pair',And(ih(c.this,S_(c),T_(c)),ij(c.this,S_(c),T_(c))==c.old.a(2).x)),('other joint counts kept',iother(c,S_(c),T_(c))),('source totals kept',un(c.this.srcDataInfo)==un(c.old.this.srcDataInfo))])
B('addTableEntry',nparams=3,modifies=('this',),ensures=lambda c:[('joint count of the pair',ij(c.this,S_(c),T_(c))==c.old.a(2).second.x),('other joint counts kept',iother(c,S_(c),T_(c))),('source total of s',isr(c.this,S_(c))==c.old.a(2).first.x),('other source totals kept',isother(c,S_(c)))])
B('incrCountsOfEntryLog',modifies=('this',),ensures=lambda c:[('joint count of the pair grows by the amount',ij(c.this,S_(c),T_(c))==ij(c.old.this,S_(c),T_(c))+exp(c.old.a(2).x)),('other joint counts kept',iother(c,S_(c),T_(c))),('source total of s grows by the amount',isr(c.this,S_(c))==isr(c.old.this,S_(c))+exp(c.old.a(2).x)),('other source totals kept',isother(c,S_(c)))])
B('infSrcTrg',modifies=('arg2',),ensures=lambda c:[('found exactly when stored',c.a(2)==ih(c.old.this,S_(c),T_(c))),('totals of a stored pair',Implies(c.a(2),And(c.ret.second.x==ij(c.old.this,S_(c),T_(c)),c.ret.first.x==isr(c.old.this,S_(c)))))])
B('getSrcInfo',modifies=('arg1',),ensures=lambda c:[('found exactly when stored',c.a(1)==c.old.this.srcDataInfo.has(S_(c))),('source total, zero when absent',c.ret.x==isr(c.old.this,S_(c)))])
B('getSrcTrgInfo',modifies=('arg2',),ensures=lambda c:[('found exactly when stored',c.a(2)==ih(c.old.this,S_(c),T_(c))),('joint count, zero when absent',c.ret.x==ij(c.old.this,S_(c),T_(c)))])
B('logpTrgGivenSrc',ensures=lambda c:[('logarithm of joint over source total',Implies(And(ih(c.old.this,S_(c),T_(c)),isr(c.old.this,S_(c))>0,log(isr(c.old.this,S_(c)))>SMALL),c.ret.x==log(ij(c.old.this,S_(c),T_(c)))-log(isr(c.old.this,S_(c))))),('absent: logarithm of zero',Implies(Not(ih(c.old.this,S_(c),T_(c))),c.ret.x==SMALL))])
B('clear',modifies=('this',),ensures=lambda c:[('no joint counts',ForAll([KS,KT],Not(ih(c.this,KS,KT)))),('no source totals',ForAll([KS],Not(c.this.srcDataInfo.has(KS))))])
CONTRACTS=C
