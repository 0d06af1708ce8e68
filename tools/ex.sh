#!/bin/bash
# explore a check and list the violation keys with their shortest witnesses
c=$1; shift
cd /verif && python3 vlib/runner.py $c --explore "$@" > /tmp/$c.log 2>&1
python3 - $c <<'P'
import sys
t=open('/tmp/%s.log'%sys.argv[1]).read()
bs=t.split("VIOLATION property")
for b in bs[1:26]:
    print('-----', b.split('layouts:')[0].split('\n',1)[1][:1000])
print(len(bs)-1,'keys')
for l in t.split('\n'):
    if ' cases, ' in l or 'ERROR' in l or 'INCONCL' in l: print(l)
P
