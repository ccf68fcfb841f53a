#!/usr/bin/env python3
# seedblame.py: lists planted changes that do not change a line of the original repository
import os,re,subprocess,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R='/repo'
root='98c9f43'
for d in sorted(os.listdir(V+'/seeded')):
    f=None; orig=0; own=0
    for l in open(f'{V}/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            b=subprocess.run(['git','-C',R,'blame','-s','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
            if root in b[:9]: orig+=1
            else: own+=1
            n+=1
        elif l.startswith(' '): n+=1
    if not orig: print(d,'original',orig,'own',own)
