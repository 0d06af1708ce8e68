#!/bin/bash
# stacks of the crash reports of the last exploration of a check
cat > /tmp/stk.py <<'P'
import sys,glob,re
for f in glob.glob('/verif/replay/%s/*.txt'%sys.argv[1]):
    t=open(f).read()
    m=re.search(r'key: (.*)',t); print('=====',m.group(1)); print(re.search(r'replay: (.*)',t).group(1)[-30:]); 
    w=t.split('while:')
    if len(w)>1: print('  while:',w[1].split('\n')[0][:200])
    fr=re.findall(r'#\d+ 0x\w+ in (.*?) (/\S*src/\S+)',t)
    for a,b in fr[:int(sys.argv[2]) if len(sys.argv)>2 else 7]: print('   ',re.sub(r'\(.*','',a)[-70:],b[-50:])
P
python3 /tmp/stk.py "$@"
