#!/bin/bash
# keys.sh CHECK : one line per violation key of the last exploration
python3 - $1 <<'P'
import re,sys
t=open('/tmp/%s.log'%sys.argv[1]).read()
for b in t.split("VIOLATION property")[1:]:
    b=b.split('\n',1)[1]
    k=b.split('\n')[0]
    m=re.search(r"(canonical|hostile|raised|single|parts|lazy|eager):? (\w+(?:Error|Exception).{0,150})",b)
    print(k.replace('  key: ',''), '|', m.group(2) if m else '')
for l in t.split('\n'):
    if ' cases, ' in l or 'ERROR' in l or 'INCONCL' in l: print(l)
P
