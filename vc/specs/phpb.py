from specs import phlt
PROPS=('P23',)
TU=dict(name='phpbmod',text='#include "ins_op_pair.h"\n#include "PbTransModel.h"\n#include "PhrHypNumcovJumps01EqClassF.h"\ntemplate class PbTransModel<PhrHypNumcovJumps01EqClassF>;\n')
CHECKS=[]
CONTRACTS=phlt.contracts('PbTransModel','_pbTransModel')
