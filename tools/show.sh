#!/bin/bash
# show.sh CHECK PATTERN [n chars] : witness of the violation keys matching PATTERN of the last exploration
python3 - "$@" <<'P'
import sys,re
c,p=sys.argv[1:3]; n=int(sys.argv[3]) if len(sys.argv)>3 else 2500
t=open('/tmp/%s.log'%c).read()
for b in t.split("VIOLATION property")[1:]:
    b=b.split('\n',1)[1]
    if re.search(p,b.split('\n')[0]): print('-----',re.sub(r' at="0x[0-9a-f]+"','',b)[:n])
P
