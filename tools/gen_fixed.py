import subprocess
M={
'62ac661':'T02','4625579':'T04','c0bc948':'T08','aaf9edf':'T01','df2faca':'E05','3ab7681':'T07','49eaa52':'T07','11492dd':'T05','0db2456':'E06','8c7968b':'E06','77f9de8':'E06','0c588a7':'E02','10e9614':'E05','2662260':'T06','8a466d2':'E06','fa92624':'T05','3be9126':'T08','091df48':'E01','1d1ada5':'T08','94fef04':'E03','01fe3c3':'E04','6683d85':'E04','36c2dee':'C01','290dc6c':'C01','a9f210b':'C01','dbcd31d':'C01','31c68a6':'C02','1fe7058':'C01','2817e06':'C01','2075ca7':'C02','e58b1ef':'C01','81f2e33':'C01'}
import sys,os
extra='/verif/tools/fixed_props.txt'
for l in open(extra):
    l=l.split()
    if len(l)>=2: M[l[0]]=l[1]
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
head=[l for l in open('/verif/known-findings.txt').read().splitlines() if not l.startswith('fixed:')]
L=[]
for l in out:
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        if h not in M: print('NO PROP',h,s); continue
        L.append(f'fixed: property={M[h]} {h} {s[5:]}')
open('/verif/known-findings.txt','w').write('\n'.join(head+L)+'\n')
print(len(L))
