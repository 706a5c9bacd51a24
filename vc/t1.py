import sys,time,importlib
import os; D=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,D); sys.path.insert(0,D+'/specs')
sys.setrecursionlimit(20000)
import front
from engine import *
from discharge import discharge
m=importlib.import_module(sys.argv[1])
only=sys.argv[2:] 
import sorts; sorts.ASMAP |= set(getattr(m, 'ASMAP', ())); sorts.BUFREC |= set(getattr(m, 'BUFREC', ()))
tu=front.export(**m.TU)
reg={}
for c in m.CONTRACTS: reg.setdefault(c.q,[]).append(c)
byq={}
for f in tu['functions']: byq.setdefault(f['q'],[]).append(f)
for c in m.CONTRACTS:
    if only and not any(o in c.q for o in only): continue
    if c.trusted: continue
    fs=[f for f in byq.get(c.q,[]) if (c.nparams is None or len(f['params'])==c.nparams) and (c.ptypes is None or c.ptypes([p['t'] for p in f['params']]))]
    if not fs: print('MISSING',c.q); continue
    t0=time.time()
    e=Eng(tu,reg)
    try: obl=e.verify(fs[0],c)
    except Unsupported as x: print(c.q,'UNSUPPORTED',x); 
    except Exception as x:
        import traceback; traceback.print_exc(); print(c.q,'ERROR',x); continue
    else:
        t1=time.time(); bad=0; sts={}
        for o in obl:
            st,be,sec,mod=discharge(o.hyps,o.goal)
            sts[be]=sts.get(be,0)+1
            if st!='proved': bad+=1; print('   ',st,o.name,'line',o.line, round(sec,1)); 
            if st=='refuted' and os.environ.get('VC_MODEL'): print(mod)
            if st!='proved' and os.environ.get('VC_SHOW'): print(o.goal)
        print('%-40s obl %d bad %d exits %d gen %.1fs dis %.1fs %s %s'%(c.q,len(obl),bad,e.nexit,t1-t0,time.time()-t1,sts,e.stats))
        print('   inv', e.invlog) if os.environ.get('VC_INV') else 0
