from spec import *
PROPS=('P14',)
TU=dict(name='stackinst',text='''#include <stddef.h>
#include <map>
#include <set>
#include <iostream>
#include "ErrorDefs.h"
#include "StatModelDefs.h"
#include "SmtDefs.h"
#include "Score.h"
#include "SmtStack.h"
#include "HypStateDict.h"
// a minimal hypothesis: what the containers ask of one (score, state, coverage key)
struct StackHyp { typedef int HypState; Score score; int state; StackHyp(){ score=0; state=0; } Score getScore(void)const{ return score; } HypState getHypState(void)const{ return state; } Bitset<MAX_SENTENCE_LENGTH_ALLOWED> getKey(void)const{ return Bitset<MAX_SENTENCE_LENGTH_ALLOWED>(); } };
template class SmtStack<StackHyp>;
template class _smtStack<StackHyp>;
template class HypStateDict<StackHyp>;
''')
C=[]; J,K=Ints('sj sk')
def V_(t): return t.container
def sc(h): return h.score if not hasattr(h.score,'x') else h.score.x
def S(v,k): return sc(v[k])
def ordered(t): v=V_(t); return ForAll([J,K],Implies(And(0<=J,J<=K,K<v.len),S(v,J)>=S(v,K)),patterns=[MultiPattern(Select(v.arr,J),Select(v.arr,K))])
def same(a,b,n): return ForAll([K],Implies(And(0<=K,K<n),un(a[K])==un(b[K])),patterns=[Select(a.arr,K),Select(b.arr,K)])
def unchanged(c): return un(c.this)==un(c.old.this)
def mn(a,b): return If(a<=b,a,b)
N=lambda c:V_(c.old.this).len; MAXS=lambda c:c.old.this.maxStackSize
R=lambda c:[ordered(c.this)]
def A(q,**k):
    k.setdefault('requires',R); C.append(Contract(q,**k))
A('_smtStack::setMaxStackSize',modifies=('this',),ensures=lambda c:[('bound set',c.this.maxStackSize==c.old.a(0)),('hypotheses kept',un(V_(c.this))==un(V_(c.old.this)))])
A('_smtStack::getMaxStackSize',ensures=lambda c:[('bound',c.ret==MAXS(c))])
A('_smtStack::size',ensures=lambda c:[('number of hypotheses',c.ret==N(c))])
A('_smtStack::empty',ensures=lambda c:[('no hypotheses',c.ret==(N(c)==0))])
A('_smtStack::clear',modifies=('this',),ensures=lambda c:[('empty',V_(c.this).len==0),('bound kept',c.this.maxStackSize==MAXS(c))])
A('_smtStack::_smtStack',nparams=0,ctor=True,requires=None,modifies=('this',),ensures=lambda c:[('empty',V_(c.this).len==0)])
best=lambda c,h:ForAll([K],Implies(And(0<=K,K<N(c)),sc(h)>=S(V_(c.old.this),K)),patterns=[Select(V_(c.old.this).arr,K)])
A('_smtStack::top',requires=lambda c:[ordered(c.this),V_(c.this).len>0],ensures=lambda c:[('the first hypothesis',un(c.ret)==un(V_(c.old.this)[0])),('no hypothesis scores better',best(c,c.ret))])
A('_smtStack::last',requires=lambda c:[ordered(c.this),V_(c.this).len>0],ensures=lambda c:[('the last hypothesis',un(c.ret)==un(V_(c.old.this)[N(c)-1])),('no hypothesis scores worse',ForAll([K],Implies(And(0<=K,K<N(c)),sc(c.ret)<=S(V_(c.old.this),K)),patterns=[Select(V_(c.old.this).arr,K)]))])
A('SmtStack::removeLast',modifies=('this',),ensures=lambda c:[('one hypothesis less',V_(c.this).len==If(N(c)>0,N(c)-1,0)),('the better ones stay',same(V_(c.this),V_(c.old.this),V_(c.this).len)),('bound kept',c.this.maxStackSize==MAXS(c)),('best first',ordered(c.this))])
A('SmtStack::pop',requires=lambda c:[ordered(c.this),V_(c.this).len>0],modifies=('this',),ensures=lambda c:[('the first hypothesis',un(c.ret)==un(V_(c.old.this)[0])),('no hypothesis scores better',best(c,c.ret)),
   ('one hypothesis less',V_(c.this).len==N(c)-1),('the others stay in order',ForAll([K],Implies(And(0<K,K<N(c)),un(V_(c.this)[K-1])==un(V_(c.old.this)[K])),patterns=[Select(V_(c.old.this).arr,K)])),('bound kept',c.this.maxStackSize==MAXS(c)),('best first',ordered(c.this))])
def pushed(c,ins,pos):
    o,n,m=V_(c.old.this),V_(c.this),MAXS(c); n0=mn(N(c),m); h=c.old.a(0)
    rej=Or(m==0,And(n0==m,S(o,n0-1)>=sc(h)))
    return [('kept exactly unless full of hypotheses that are no worse',ins==Not(rej)),
      ('rejected: nothing is added',Implies(rej,And(n.len==If(m==0,N(c),n0),same(n,o,n.len)))),
      ('accepted: bounded size',Implies(Not(rej),n.len==mn(n0+1,m))),
      ('accepted: stored behind the hypotheses that score no worse',Implies(Not(rej),And(0<=pos,pos<n.len,un(n[pos])==un(h),same(n,o,pos),ForAll([K],Implies(And(pos<K,K<n.len),un(n[K])==un(o[K-1])),patterns=[Select(n.arr,K)])))),
      ('hypotheses dropped score no better than those kept',Implies(m>0,ForAll([J,K],Implies(And(0<=J,J<n.len,n.len<=K,K<N(c)),S(n,J)>=S(o,K)),patterns=[MultiPattern(Select(n.arr,J),Select(o.arr,K))]))),
      ('best first',ordered(c.this)),('bound kept',c.this.maxStackSize==m)]
TRUNC=[('better ones kept',[],lambda c:And(V_(c.this).len<=V_(c.le.this).len,V_(c.this).len>=mn(V_(c.le.this).len,c.this.maxStackSize),same(V_(c.this),V_(c.le.this),V_(c.this).len))),('bound kept',[],lambda c:c.this.maxStackSize==c.le.this.maxStackSize),('in order',[],lambda c:ordered(c.this))]
A('SmtStack::pushIter',modifies=('this',),invs=TRUNC,ensures=lambda c:pushed(c,c.ret.msetIter!=V_(c.this).len,c.ret.msetIter)+[('iterator of this stack',c.ret.smtstackPtr==z3.Const('addr:this:()',__import__('sorts').opaque('ptr')))])
A('SmtStack::push',modifies=('this',),invs=TRUNC,ensures=lambda c:[x for x in pushed(c,c.ret,IntVal(0)) if 'stored behind' not in x[0]])
# dictionary of states
D=lambda t:t.hypStateDictDataMap
def dsize(t): return D(t).size
A('HypStateDict::createDictEntry',requires=None,modifies=('this',),ensures=lambda c:[('state known',D(c.this).has(c.old.a(0).state)),('its score is the one of the hypothesis',un(D(c.this)[c.old.a(0).state].score)==un(c.old.a(0).score)),
   ('a new state gets the next index',Implies(Not(D(c.old.this).has(c.old.a(0).state)),D(c.this)[c.old.a(0).state].hypStateIndex==dsize(c.old.this)%2**32)),('a known state keeps its index',Implies(D(c.old.this).has(c.old.a(0).state),D(c.this)[c.old.a(0).state].hypStateIndex==D(c.old.this)[c.old.a(0).state].hypStateIndex)),
   ('other states kept',ForAll([K],Implies(K!=c.old.a(0).state,And(D(c.this).has(K)==D(c.old.this).has(K),Implies(D(c.this).has(K),un(D(c.this)[K])==un(D(c.old.this)[K])))),patterns=[D(c.this).has(K)])),('size',dsize(c.this)==dsize(c.old.this)+If(D(c.old.this).has(c.old.a(0).state),0,1))])
A('HypStateDict::size',requires=None,ensures=lambda c:[('number of states',c.ret==dsize(c.old.this))])
A('HypStateDict::clear',requires=None,modifies=('this',),ensures=lambda c:[('no states',And(dsize(c.this)==0,ForAll([K],Not(D(c.this).has(K)),patterns=[D(c.this).has(K)])))])
C.append(Contract('Bitset::Bitset',nparams=0,ctor=True,trusted=True,modifies=('this',),ensures=lambda c:[],note='contents of coverage keys are not used by the containers'))
CONTRACTS=C
