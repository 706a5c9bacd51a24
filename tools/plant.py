#!/usr/bin/env python3
"""Development aid: record a planted bug.  plant.py SPEC.py  where SPEC.py defines
ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], SRCS='files relative to /repo/src', LIBS, DEMO (C++ text)."""
import sys,os,subprocess,json,shutil
sp={}; exec(open(sys.argv[1]).read(),sp)
R='/tmp/plant/repo'; out=__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/seeded/'+sp['ID']
if not os.path.isdir(R): os.makedirs('/tmp/plant',exist_ok=True); subprocess.check_call(['cp','-a','/repo',R])
sh=lambda c,**k: subprocess.run(c,shell=True,text=True,capture_output=True,**k)
sh('git -C %s checkout -q -- . ; true'%R); sh('cd %s && git fetch -q /tmp/fx HEAD && git reset -q --hard FETCH_HEAD'%R)
for f,o,n in sp['EDITS']:
    p=os.path.join(R,f); t=open(p).read(); assert t.count(o)==1,(f,t.count(o)); open(p,'w').write(t.replace(o,n))
os.makedirs(out,exist_ok=True)
d=sh('git -C %s diff'%R).stdout; open(out+'/patch.diff','w').write(d)
open(out+'/demo.cc','w').write(sp['DEMO'].lstrip())
open(out+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the observed behaviour is right
here=$(cd "$(dirname "$0")" && pwd); work=$(mktemp -d); trap 'rm -r "$work"' EXIT
S="$PWD/src"; inc=$(for d in $(ls "$S"); do echo "-I$S/$d"; done)
src=$(for f in %s; do echo "$S/$f"; done)
g++ -std=gnu++11 -O1 -w -DHAVE_CONFIG_H %s -I"$PWD/_build" -I"$PWD/_build/src" -I"$PWD" $inc "$here/demo.cc" $src -o "$work/demo" %s || exit 3
cd "$work" && timeout 200 ./demo "$work" 2>/dev/null
'''%(sp.get('SRCS',''),sp.get('DEFS',"-DTHOT_MASTER_INI_PATH='\"x\"' -DTHOT_LIBDIR='\"x\"'"),sp.get('LIBS','')))
json.dump({'property':sp['PROP'],'needs':sp['NEEDS'],'what_it_breaks':sp['BREAKS']},open(out+'/meta.json','w'),indent=1)
tmp='/tmp/plant/d'; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(out,tmp)
bad=sh('bash %s/demo.sh'%tmp,cwd=R); sh('git -C %s checkout -q -- .'%R); ok=sh('bash %s/demo.sh'%tmp,cwd=R)
print(sp['ID'],'patched rc',bad.returncode,bad.stdout.strip()[-200:],bad.stderr[-600:],'| clean rc',ok.returncode,ok.stdout.strip()[-200:],ok.stderr[-600:])
