#!/usr/bin/env python3
# rep.py FILE OLD NEW [count]: exact replacement in the scratch copy /tmp/sr
import sys
f='/tmp/sr/'+sys.argv[1]; s=open(f).read(); o,n=sys.argv[2],sys.argv[3]
c=s.count(o); want=int(sys.argv[4]) if len(sys.argv)>4 else 1
assert c==want,(c,o)
open(f,'w').write(s.replace(o,n))
