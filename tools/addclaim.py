import sys,re
import os; p=os.path.dirname(os.path.abspath(__file__))+'/claims.py'; t=open(p).read(); pid,lev,note=sys.argv[1:4]
t=re.sub(r"^'%s':.*\n"%pid,'',t,flags=re.M)
t=t.replace('}\nNA=',"%r:(%r,%r),\n}\nNA="%(pid,lev,note)); open(p,'w').write(t)
