#!/bin/bash
# nat.sh PID [seconds] : build and run one native harness
cd "$(dirname "$0")/.." && python3-vt - "$1" "${2:-15}" <<'P'
import sys,tempfile,shutil; sys.path.insert(0,'vc')
import run
h,b=sys.argv[1],float(sys.argv[2]); t=tempfile.mkdtemp(); exe=run.build_native(h,t)
import subprocess,os
r=subprocess.run([exe,'1',str(b),t+'/replay',t],capture_output=True,text=True,errors='replace',env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:exitcode=99'))
print('rc',r.returncode,r.stdout[-1500:]); 
if r.returncode not in (0,1): print(r.stderr[-3000:])
shutil.rmtree(t)
P
