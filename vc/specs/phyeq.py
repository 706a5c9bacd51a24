from spec import *
from specs import phyp as P
from specs.phyp import S,SL,slax,wfd
PROPS=('P23',)
TU=dict(src='stack_dec/PhrHypEqClassF.cc')
C=[]
C.append(Contract('PhrHypEqClassF::operator()',requires=lambda c:wfd(c.a(0)),lemmas=lambda c:slax(S(c.a(0))),
  invs=[('counted so far',['mI','mI'],lambda c,h,e:And(h.cur>=0,h.cur<=S(c.a(0)).len,e.cur>=0,e.cur==SL(S(c.a(0)),h.cur),e.cur<=h.cur*P.N))],ensures=lambda c:[('number of covered positions',c.ret==SL(S(c.a(0)),S(c.a(0)).len))]))
CONTRACTS=C
