"""writes MANIFEST.json: CLAIMED lists the properties whose check is complete; the others go to not_applicable"""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
sys.path.insert(0,R+'/tools')
from claims import CLAIMED, NA
A='Trusted: clang front end and AST exporter, the VC generator, library models, z3/cvc5; floats as reals, signed arithmetic mathematical, no aliasing of reference parameters; termination not proved. The native part is bounded and never counted as proof.'
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        lv,note=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,evidence_file='evidence/%s.json'%i,
          technique='contract-based deductive verification of the real functions (VCs generated from the clang AST of the current source, z3/cvc5) with a native counterexample search',level=lv,level_note=note+' '+A))
    else: na.append(dict(property=i,reason=NA.get(i,'contracts not built (yet)')))
m=dict(version=1,setup_cmd='python3-vt vc/front.py',checks=checks,not_applicable=na,notes='No hooks in /repo are needed: the checks read the sources as they are.')
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); print(len(checks),'claimed',len(na),'not')
